#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the harness against the current tree of tg123/phabrik, runs every
phase of the property, judges crashes, race reports and the monitors' findings, writes evidence/PROPERTY.json.

exit 0: held on everything explored (listed findings print KNOWN-FINDING lines)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the check itself could not decide (build failure, harness error, inconclusive run)
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("PHABRIK_SRC", "/repo")
LIB = "github.com/tg123/phabrik/"

LEVEL = "exploration"


def goenv():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    for kv in out.decode(errors="replace").split("\0"):
        k, _, v = kv.partition("=")
        if k.startswith("GO") or k in ("PATH", "CGO_ENABLED"):
            env[k] = v
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
    env.setdefault("HOME", "/root")
    return env


def build(tmp, race):
    """Compile the harness against SRC. Nothing is written to SRC or to /verif."""
    env = goenv()
    mod = os.path.join(tmp, "go.mod")
    txt = open(os.path.join(HERE, "harness", "go.mod")).read()
    txt = re.sub(r"=> \S+", "=> " + SRC, txt)
    open(mod, "w").write(txt)
    shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(tmp, "go.sum"))
    exe = os.path.join(tmp, "h.race" if race else "h.plain")
    cmd = ["go", "test", "-modfile=" + mod, "-vet=off", "-c", "-o", exe]
    if race:
        cmd.append("-race")
    cmd.append(".")
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout + p.stderr)
        print("check: the harness does not build against the current tree")
        sys.exit(2)
    return exe


def phases(exe):
    out = subprocess.run([exe, "-test.run", "TestPhase", "-listphases"], capture_output=True, text=True).stdout
    r = []
    for l in out.splitlines():
        if l.startswith("PHASE "):
            _, prop, name, race = l.split()
            r.append((prop, name, race == "true"))
    return r


def lib_crash(err):
    """Does a crash dump blame library code? Looks at the goroutine that panicked or threw (the first one printed)."""
    m = re.search(r"^(panic:|fatal error:|runtime: goroutine stack exceeds|SIGSEGV|unexpected fault)", err, re.M)
    if not m:
        return False
    blocks = re.split(r"\n\n", err[m.start():])
    for b in blocks:
        if not re.search(r"^goroutine \d+", b, re.M):
            continue
        for line in b.splitlines():
            if line.startswith("\t") or not line.strip():
                continue
            if line.startswith("created by"):
                return LIB in line
            if LIB in line:
                return True
            if line.startswith("phabverif"):
                return False
        return False
    return False


def race_blocks(text):
    out = []
    for b in re.split(r"={10,}\n", text):
        if "WARNING: DATA RACE" in b:
            out.append(b)
    return out


def race_in_lib(block):
    """Both accesses belong to code that runs inside the library or on memory reached through it: the first
    frame outside the standard library must be a library frame for at least one access (races between two harness frames are harness errors)."""
    acc = re.split(r"\n\n", block)
    for a in acc:
        if re.match(r"\s*(WARNING: DATA RACE\n)?\s*((Previous )?(atomic )?(read|write)|Read|Write)", a, re.I):
            for line in a.splitlines():
                m = re.match(r"^  (\S+)\(", line)
                if m:
                    f = m.group(1)
                    if LIB in f:
                        return True
                    if f.startswith("phabverif"):
                        break
    return False


def race_key(block):
    fr = re.findall(r"^  (\S+)\(.*\n\s+\S*/([\w/]+\.go):(\d+)", block, re.M)
    return " / ".join(sorted({f[0] + " " + f[1] + ":" + f[2] for f in fr[:6] if LIB in f[0]})[:3])


def run_phase(exe, prop, name, race, tier, seed, tmp, only=None, found=None):
    out = os.path.join(tmp, f"{name}.json")
    prog = os.path.join(tmp, f"{name}.progress")
    # nothing left of an earlier round
    for f in os.listdir(tmp):
        if f in (f"{name}.json", f"{name}.progress", f"{name}.err") or f.startswith(f"{name}.race"):
            os.remove(os.path.join(tmp, f))
    env = goenv()
    env["GOTRACEBACK"] = "all"
    if race:
        env["GORACE"] = f"halt_on_error=0 log_path={tmp}/{name}.race history_size=3"
    else:
        env.pop("GORACE", None)
    args = [exe, "-test.run", "^TestPhase$", "-test.timeout", "0", "-prop", prop, "-phase", name, "-tier", tier,
            "-seed", str(seed), "-out", out, "-progress", prog]
    if only is not None:
        args += ["-case", str(only)]

    def limit():
        os.setsid()
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    t0 = time.time()
    errf = open(os.path.join(tmp, f"{name}.err"), "w+", errors="replace")
    p = subprocess.Popen(args, env=env, cwd=tmp, stdout=errf, stderr=subprocess.STDOUT, preexec_fn=limit)
    timed = False
    end = t0 + (400 if tier == "quick" else 6 * 3600)
    while True:
        try:
            p.wait(timeout=1)
            break
        except subprocess.TimeoutExpired:
            # another phase has decided: what waits for a clock is not waited for much longer
            if found is not None and found.is_set():
                end = min(end, max(t0, found.at) + 60)
            if time.time() > end:
                timed = True
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    errf.seek(0)
    err = errf.read()
    errf.close()
    rep = None
    if os.path.exists(out):
        rep = json.load(open(out, errors="replace"))
    races = []
    for f in os.listdir(tmp):
        if f.startswith(f"{name}.race"):
            races += race_blocks(open(os.path.join(tmp, f), errors="replace").read())
    if race:
        races += race_blocks(err)
    at = open(prog, errors="replace").read().strip() if os.path.exists(prog) else ""
    return dict(name=name, race=race, rc=p.returncode, timed=timed, err=err, rep=rep, races=races, at=at, wall=time.time() - t0)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="phabverif.")
    code = 2
    try:
        code = decide(prop, tier, seed, tmp, evdir, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def load_known(prop):
    known = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=" + prop + " "):
                m = re.match(r"finding: property=\S+ match=/(.*)/ (.*)$", l)
                known.append((re.compile(m.group(1), re.S), m.group(2)))
    except FileNotFoundError:
        pass
    return known


def decide(prop, tier, seed, tmp, evdir, t0):
    need_race = prop == "C27"
    exe = {}
    exe[need_race] = build(tmp, need_race)
    todo = [(n, r) for (p, n, r) in phases(exe[need_race]) if p == prop]
    if not todo:
        print("check: no phases for", prop)
        return 2
    only = os.environ.get("VERIF_PHASE")
    if only:
        todo = [t for t in todo if t[0] == only]
    for _, r in todo:
        if r not in exe:
            exe[r] = build(tmp, r)
    case = os.environ.get("VERIF_CASE")
    case = int(case) if case else None

    found = threading.Event()

    def one_round(sd):
        def job(t):
            r = dict(run_phase(exe[t[1]], prop, t[0], t[1], tier, sd, tmp, case, found), seed=sd)
            if not found.is_set() and (r["rep"]["violations"] if r["rep"] else lib_crash(r["err"]) or "OBSERVED-VIOLATION " in r["err"]):
                found.at = time.time()
                found.set()
            return r

        with ThreadPoolExecutor(max_workers=1 if need_race else 3) as ex:
            rs = list(ex.map(job, todo))
        # a phase that gave no verdict (starved machine) is tried once more on its own
        for i, r in enumerate(rs):
            inc = r["timed"] or (r["rep"] and r["rep"].get("inconclusive")) or (r["rep"] is None and not lib_crash(r["err"]) and "OBSERVED-VIOLATION " not in r["err"])
            if inc and not found.is_set():
                sys.stderr.write(f"phase {r['name']} gave no verdict, trying again\n" + r["err"][-3000:] + "\n")
                rs[i] = job(todo[i])
        return rs

    results = one_round(seed)
    rounds = 1
    if tier == "thorough" and case is None and not only:
        # more rounds with other seeds while there is time and nothing was found
        budget = float(os.environ.get("VERIF_THOROUGH_SECONDS", "900"))
        longest = time.time() - t0
        while time.time() - t0 + longest < budget and all(r["rep"] and not r["rep"]["violations"] and not r["races"] for r in results):
            t1 = time.time()
            results += one_round(seed + 1000003 * rounds)
            rounds += 1
            longest = max(longest, time.time() - t1)

    violations, broken, races = [], [], []
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], phases={})
    rules = []
    for r in results:
        rep = r["rep"]
        again = "" if r["seed"] == seed else f" seed={r['seed']}"
        if rep is None:
            if lib_crash(r["err"]):
                violations.append(f"phase={r['name']}{again} at case {r['at']}: the process crashed in the library\n{r['err'][-12000:]}")
            elif "OBSERVED-VIOLATION " in r["err"]:
                # the monitors had reported before the phase broke off
                for v in r["err"].split("OBSERVED-VIOLATION ")[1:4]:
                    violations.append((again[1:] + " " + v[:8000]).lstrip())
            else:
                broken.append(f"phase {r['name']} ended with {r['rc']} (timed out: {r['timed']}) at case {r['at']}\n{r['err'][-6000:]}")
        else:
            for v in rep["violations"] or []:
                violations.append((again[1:] + " " + v).lstrip())
            for v in rep["inconclusive"] or []:
                broken.append(f"phase {r['name']}: {v[:4000]}")
            if r["timed"]:
                broken.append(f"phase {r['name']} timed out")
            cov["evaluations"] += rep["evaluations"]
            ph = cov["phases"].get(r["name"])
            if ph:
                # a further round; what was distinct is that of the round with most, as rounds may repeat cases
                ph["rounds"] += 1
                ph["evaluations"] += rep["evaluations"]
                ph["distinct"] = max(ph["distinct"], rep["distinct"])
                ph["wall_s"] = round(ph["wall_s"] + rep["wall"], 2)
                for k, v in (rep["counts"] or {}).items():
                    ph["observed"][k] = max(ph["observed"].get(k, 0), v) if k.startswith(("most_", "largest_", "seconds_")) else ph["observed"].get(k, 0) + v
            else:
                rules.append(f"{r['name']}: {rep['rule']}")
                for s in (rep["samples"] or [])[:3]:
                    cov["samples"].append(f"{r['name']}: {s}")
                cov["phases"][r["name"]] = dict(rounds=1, evaluations=rep["evaluations"], distinct=rep["distinct"], wall_s=round(rep["wall"], 2),
                                                observed=dict(rep["counts"] or {}), race_detector=r["race"])
        if r["race"]:
            seen = {}
            for b in r["races"]:
                if race_in_lib(b):
                    seen.setdefault(race_key(b), b)
                else:
                    broken.append(f"phase {r['name']}: data race outside the library\n{b[:4000]}")
            for k, b in seen.items():
                violations.append(f"phase={r['name']}{again}: data race {k}\n{b}")
            if rep is not None:
                cov["phases"][r["name"]]["race_reports"] = cov["phases"][r["name"]].get("race_reports", 0) + len(r["races"])
    cov["distinct_nontrivial"] = sum(p["distinct"] for p in cov["phases"].values())
    cov["rule"] = "; ".join(rules) + ". A case is counted as distinct by its generated input (or history) and skipped as trivial when nothing was exercised."
    if not cov["samples"]:
        cov["samples"] = ["(cases are numbered; see phases)"]
    if case is not None or only:
        cov["rule"] += " (partial run: replay)"

    known = load_known(prop)
    fresh, hits = [], {}
    for v in violations:
        for rx, txt in known:
            if rx.search(v):
                hits[txt] = v
                break
        else:
            fresh.append(v)
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(fresh),
              assumptions=ASSUME.get(prop, []) + ["The Go runtime, compiler and standard library behave as documented.",
                                                 "The harness's in-memory network keeps TCP's guarantees (ordered, reliable byte stream with close)."])
    for txt, _ in hits.items():
        print(f"KNOWN-FINDING: property={prop} {txt}")
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w", errors="replace"), indent=1, ensure_ascii=False)
    if fresh:
        rp = os.path.join(evdir, "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{prop}-{tier}-{seed}.txt")
        with open(path, "w", errors="replace") as f:
            f.write(f"property {prop}, tier {tier}, seed {seed}, tree {SRC}\n"
                    f"replay: VERIF_SEED={seed} (or the seed a report names) VERIF_PHASE=<phase> [VERIF_CASE=<case>] python3 check.py {prop} {tier}\n\n")
            for v in fresh:
                f.write(v + "\n\n" + "-" * 100 + "\n")
        for v in fresh[:3]:
            print("  " + v[:1500].replace("\n", "\n  "))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if broken:
        for b in broken:
            print("check: no verdict: " + b)
        return 2
    print(f"{prop}: held on {cov['evaluations']} evaluations ({cov['distinct_nontrivial']} distinct, {rounds} round{"s" if rounds > 1 else ""}) in {ev['wall_s']} s")
    return 0


ASSUME = {
    "C01": ["Negative floating-point zero equals zero (whether its sign survives is not specified)."],
    "C03": ["The layout of slices of scalars (a type byte per element) is taken from the library's own tests; no native Service Fabric peer is available offline to confirm it."],
}

if __name__ == "__main__":
    sys.stdout.reconfigure(errors="replace")
    sys.stderr.reconfigure(errors="replace")
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc()
        print("check: the check itself failed")
        sys.exit(2)
