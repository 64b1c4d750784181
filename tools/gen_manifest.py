#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/registry.py and the list of properties that are not claimed."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "sa"))
from registry import CHECKS
from not_applicable import NA
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS: continue
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                   "technique": "static analysis: " + CHECKS[p][2], "level": "other",
                   "level_note": "static decision over all paths of the analysed entry points, relative to the abstraction described in DESIGN.md"})
na = [{"property": p, "reason": NA[p]} for p in props if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 sa/build.py", "checks": checks, "not_applicable": na
           }, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
