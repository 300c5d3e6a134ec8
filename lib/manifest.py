#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, notes
from common import VERIF

ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.CHECKS:
        t, n = notes.NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 lib/check.py {i} quick", "thorough_cmd": f"python3 lib/check.py {i} thorough",
                            "technique": t, "level": props.LEVELS[i], "level_note": n, "evidence_file": f"evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property": i, "reason": "x"})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
