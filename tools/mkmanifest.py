#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cs, na = [], []
for p in props:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if not c:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    cs.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + i,
               "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": cs, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC and bound to the code by trace validation. No hooks in /repo: the exported API and the command line already expose every abstract state the specification needs. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(cs), "checks,", len(na), "not claimed")
