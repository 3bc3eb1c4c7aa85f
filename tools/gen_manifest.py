#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if n and n.get("level"):
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {i}",
                       "technique": n.get("technique", "deductive verification of contracts on the real source (pyvc VC generator, z3)"),
                       "level": n["level"], "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": (n or {}).get("reason", "contracts not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks read /repo/src at run time; nothing is built."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
