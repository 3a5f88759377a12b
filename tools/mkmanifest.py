#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, the rules present and the reasons below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.claims import TECH, NOTE, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa", "rules", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 -m sa.run " + i, "thorough_cmd": "python3 -m sa.run " + i,
                       "technique": TECH.get(i, TECH["default"]), "level": "other", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 10)'", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current source (sa/); nothing of the repository is executed. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not:", " ".join(x["property"] for x in na))
