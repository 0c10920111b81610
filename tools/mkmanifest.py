#!/usr/bin/env python3
"""writes MANIFEST.json from bin/props.py and properties.jsonl"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PROPS:
        na.append(dict(property=i, reason="no check has been built for it yet"))
        continue
    c = PROPS[i]
    tech = "TLA+ " + ("design model checking (TLC) and " if c.get("design") else "") + \
           ("replay of TLC-generated behaviours and " if c.get("gen") else "") + "trace validation (TLC) of recorded executions"
    note = c.get("note") or (("the design is checked exhaustively for small constants; " if c.get("design") else "") +
           "conformance of the code is decided on the executions the driver records")
    note += ". Assumes: " + "; ".join(c["assumptions"])
    checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0, \"bin\"); import props'", checks=checks, not_applicable=na,
         notes="TLA+ / TLC; no hooks in /repo are needed (see DESIGN.md)")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
