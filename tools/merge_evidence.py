#!/usr/bin/env python3
"""Adds the evidence of the plain build (<id>.plain.json) to that of the checked build."""
import json, os, sys
d = os.environ.get("VERIF_DIR", "/verif") + "/evidence/"
a, b = d + sys.argv[1] + ".json", d + sys.argv[1] + ".plain.json"
x, y = json.load(open(a)), json.load(open(b))
for k in ("states", "transitions", "traces_validated_against_impl", "distinct_outcomes"):
    if k in x["coverage"]:
        x["coverage"][k] += y["coverage"][k]
x["coverage"]["exhaustive"] = x["coverage"]["exhaustive"] and y["coverage"]["exhaustive"]
for s in y["coverage"]["stages"]:
    s["stage"] += " (plain build)"
x["coverage"]["stages"] += y["coverage"]["stages"]
x["wall_s"] += y["wall_s"]
x["violations"] += y["violations"]
json.dump(x, open(a, "w"), indent=1)
os.remove(b)
