#!/usr/bin/env python3
"""Fill the planted-bugs table of DESIGN.md from seeded/*/meta.json and, when
given, a file with lines 'ID caught-by' written by a sweep of the checks."""
import glob, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    n = re.sub(r"\s+", " ", d["needs"]).replace("|", "/")
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {n[:170]} | {d['property']} quick |")
t = "| id | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows)
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda m: "<!-- seeded -->\n" + t + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
