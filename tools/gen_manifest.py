#!/usr/bin/env python3
"""Regenerates MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H); sys.dont_write_bytecode = True
import plan
V = os.path.dirname(H)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plan.PLAN:
        t, n = plan.NOTE.get(i, ("stateless model checking: exhaustive enumeration of bounded operation histories executed on the real code against an independent reference model", "bounds per suite are listed in evidence/%s.json" % i))
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason=plan.NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
