#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        n = {"graph": 0, "table": 0, "random": 0}
        checks.append({
            "property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
            "technique": "TLA+ specification explored by TLC; its behaviours are executed by the implementation and the recorded traces are validated by TLC",
            "level": "model_checking",
            "level_note": "exhaustive on bounded slices of the specification; the implementation is bound by replaying those behaviours, enumerated case tables and "
                          "seeded random behaviours, each recorded trace checked against the specification",
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the harness is overlaid on the unmodified tree (go test -overlay)", "source_commits": []}}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
