#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl (development tool; the result is committed)."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                       "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
