#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan as P
checks = []
for p in sorted(P.PROPS):
    s = P.PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 tools/check.py %s quick" % p,
        "thorough_cmd": "python3 tools/check.py %s thorough" % p,
        "technique": s.get("technique", P.TECHNIQUE),
        "level": "model_checking",
        "level_note": s.get("note", P.NOTE),
    })
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": i, "reason": P.NA[i]} for i in ids if i not in P.PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is observed at its boundary (see DESIGN.md)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
