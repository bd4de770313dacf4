#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks which exist."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = "".join(open(os.path.join(V, "harness/props", f)).read() for f in sorted(os.listdir(V + "/harness/props")) if f.endswith("_test.go"))
T = json.load(open(V + "/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and re.search(r'(?:Register|Check|CheckPost)\("%s"' % i, src):
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T[i]["technique"],
            "level": T[i].get("level", "exploration"),
            "level_note": T[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py --build-only", "checks": checks, "not_applicable": na,
     "notes": "All checks: property-based testing with rapid through the exported API; no hooks in /repo. run.py builds the harness against /repo's working tree each time."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
