#!/usr/bin/env python3
"""Puts the table of planted bugs (from seeded/MATRIX.json) between the catch markers of DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
m = json.load(open(os.path.join(S, "MATRIX.json")))
rows = ["| Planted bug | Needs | Caught by |", "|---|---|---|"]
for b in sorted(os.listdir(S)):
    p = os.path.join(S, b, "meta.json")
    if os.path.exists(p):
        meta = json.load(open(p))
        c = m.get(b, {}).get("caught_by")
        rows.append("| %s | %s | %s |" % (b, meta["needs"], "not run yet" if c is None else ", ".join(c) or "**missed**"))
d = open(os.path.join(V, "DESIGN.md")).read()
d = re.sub(r"(<!-- catch -->\n).*?(<!-- /catch -->)", lambda x: x.group(1) + "\n".join(rows) + "\n" + x.group(2), d, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
