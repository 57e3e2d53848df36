#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. A property is claimed when the harness registers a phase for it."""
import json, os, re, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
claimed = set()
for f in glob.glob(os.path.join(H, "harness", "*.go")):
    claimed |= set(re.findall(r'register(?:Race)?\("(C\d\d)"', open(f).read()))
TECH = {
 "C01": "runtime monitor: round trip of generated types and values through the real codec",
 "C02": "runtime monitor: cross-decoding of generated type-version pairs, field-by-field oracle",
 "C03": "runtime monitor: bytes compared with an independent reference encoder",
 "C04": "hostile-input stress with panic, allocation and progress monitors",
 "C05": "runtime monitor: wire bytes parsed independently, delivered messages compared with those sent",
 "C06": "fault injection on the byte stream with a delivery monitor",
 "C07": "hostile-peer stress with crash, allocation and liveness monitors",
 "C08": "concurrency stress with an offline checker over the recorded frame log",
 "C09": "schedule stress with an exactly-once matching checker over the peer's log",
 "C10": "injected race windows with quiescence (hang) monitors",
 "C11": "heartbeat history generator with an echo-matching checker and crash monitor",
 "C12": "wire tap and TLS configuration sweep with plaintext, framing and delivery monitors",
 "C13": "proxy session monitor: sequences at both ends against the filter's log",
 "C14": "id uniqueness monitor over wire logs of concurrent senders",
 "C15": "protocol monitor over injected authorization reports",
 "C16": "fake gateway with reply fuzzing, result and cancellation monitors in virtual time",
 "C17": "fake gateway with an exactly-once checker over notification and acknowledgement logs",
 "C18": "runtime comparison with an independent implementation over generated ids and names",
 "C19": "runtime comparison with big-integer ring arithmetic",
 "C20": "online monotonicity monitor over concurrent partner announcements",
 "C21": "fake cluster with dial and header monitors against a routing oracle",
 "C22": "virtual-time fake cluster with return and coverage monitors",
 "C23": "independent lease wire parser, hostile-input stress with crash and allocation monitors",
 "C24": "fake lease peer with a pong-matching checker, injected race windows, virtual time",
 "C25": "virtual-time lifecycle monitors (goroutines, CPU, sockets)",
 "C26": "runtime comparison with big-integer arithmetic",
 "C27": "Go race detector under concurrent workloads of every exported operation",
 "C28": "leak monitors: in-memory sockets and library goroutines at quiescence",
 "C30": "runtime monitor: damaged and mismatched encodings must be refused, in-range ones delivered",
 "C31": "virtual-time lifecycle monitor over accept faults, callbacks and ways to stop",
 "C29": "text-form fuzzing and bit/uniqueness monitors over generated GUIDs",
}
NOTE = "Holds on every execution explored (counts in the evidence file); not a proof. Inputs, schedules and faults are generated from VERIF_SEED; the oracle is independent of the library. "
EXTRA = {
 "C27": "Only accesses that executed are judged (happens-before detector, no false positives). ",
 "C03": "The layout of slices of scalars is pinned to the library's own tests, no native peer is available. ",
}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harness uses exported API, the wire and the Go runtime only. known-findings.txt lists findings and repairs."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
