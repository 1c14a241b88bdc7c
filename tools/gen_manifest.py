#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
built = {}
for l in open(f"{V}/tools/checks.tsv"):
    if l.strip() and not l.startswith("#"):
        i, tech, note = l.rstrip("\n").split("\t")
        built[i] = (tech, note)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        tech, note = built[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses use the public API only; virtual time is interposed in the harness binaries."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
