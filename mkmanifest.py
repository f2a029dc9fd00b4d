#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
from props import PROPS

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    c = PROPS.get(i)
    if c is None:
        na.append({"property": i, "reason": "the check for this property is still being built"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Every check builds harness/ against /repo's working tree. Replay a failure with: python3 check.py --replay <id> <file>."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
