#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import run
sys.modules["run"] = run
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [], "not_applicable": [],
     "notes": "No hooks: all monitors sit outside /repo (generated targets, reference model, /proc/self/maps and text snapshots, race detector). Repairs are the fix: commits listed in known_findings.txt."}
for p in props:
    i = p["id"]
    if i not in checks.CHECKS:
        m["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "no check built yet")})
        continue
    t, n = checks.NOTES[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 run.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
                        "technique": t, "level": "exploration", "level_note": n})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
