#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(os.path.join(HERE, "levels.json")))
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        continue
    n = NOTES[i]
    checks.append({
        "property": i,
        "quick_cmd": "./run.py check %s quick" % i,
        "thorough_cmd": "./run.py check %s thorough" % i,
        "technique": "property-based testing: " + n["technique"],
        "level": "exploration",
        "level_note": n["note"],
    })
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
