#!/usr/bin/env python3
"""Writes /verif/known_findings.json: repaired defects (from the fix: commits of
/repo) and the known, unrepaired ones listed in KNOWN."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {}   # subject of the fix commit -> property
KNOWN = []   # dicts property, sig, what
exec(open(V + "/tools/findings_data.py").read())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], stdout=subprocess.PIPE, text=True).stdout
out = [dict(k, status="known") for k in KNOWN]
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    if s not in FIXED: print("unrecorded:", s); continue
    out.append({"property": FIXED[s], "status": "fixed", "record": "fixed: property=%s %s %s" % (FIXED[s], h, s)})
open(V + "/known_findings.json", "w").write(json.dumps({"findings": out}, indent=1) + "\n")
print(len(out))
