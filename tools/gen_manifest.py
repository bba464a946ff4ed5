#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, LEVEL
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PLAN: continue
    s = PLAN[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "technique": s["technique"],
        "level": LEVEL,
        "level_note": s["note"] + " Assumes: " + "; ".join(s["assumptions"]) + ".",
    })
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py tools/plan.py && rm -rf /verif/build",
     "checks": checks,
     "not_applicable": [{"property": i, "reason": "its check is not built yet"} for i in ids if i not in PLAN],
     "notes": "No hooks: the checks compile /repo's sources as they are (native platform with the mock implementation), with sanitizers."}
m["setup_cmd"] = "python3 -c \"import ast; ast.parse(open('check.py').read())\""
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
