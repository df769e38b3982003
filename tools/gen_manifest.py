#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {}
NOTE = {}
exec(open(V + "/tools/techniques.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "./run_check %s quick" % i, "thorough_cmd": "./run_check %s thorough" % i,
                       "technique": TECH.get(i, DEF_TECH), "level": "exploration", "level_note": NOTE.get(i, DEF_NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "Runtime monitoring applies; the monitor has not been built yet.")})
m = {"version": 1, "setup_cmd": "python3 -m vt.build", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo: every monitor observes public interfaces of the sanitized build."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
