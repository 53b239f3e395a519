#!/usr/bin/env python3
"""Writes cases of the models for mutate.py. usage: mutcases.py DIR"""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vlib
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
x = vlib.Ctx("C07", "quick", 1)
for name, module, cfg, env, most in (
        ("edits", "MC_Edits", None, {"BASE": "all", "DEPTH": "2"}, 3000), ("types", "MC_Types", None, {"DEPTH": "2", "PLACES": "all"}, 1000),
        ("names", "MC_Names", None, {"UNIVERSE": "all"}, 4000), ("faults", "MC_Cli", None, {"FILES": "3"}, 400),
        ("rules", "MC_LintRules", None, {"UNIVERSE": "names"}, 3000), ("conn", "MC_LintRules", None, {"UNIVERSE": "conn"}, 2000),
        ("args", "MC_LintRules", None, {"UNIVERSE": "args"}, 2000), ("scan", "MC_LintScan", None, {"UNIVERSE": "block", "ITEMS": "3"}, 1500)):
    l = open(x.cases(x.model(module, cfg, env=env), name)).read().splitlines()
    l = l[::1 + len(l) // most]
    open(os.path.join(out, name + ".ndjson"), "w").write("\n".join(l) + "\n")
    print(name, len(l), flush=True)
shutil.rmtree(x.dir)
