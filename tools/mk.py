#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in PROPS:
    checks.append({"property": p["id"], "quick_cmd": "python3 -m absint.check %s" % p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3 -m absint.check %s" % p["id"],
                   "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]})
m = {"version": 1,
     "setup_cmd": "cd driver && CARGO_TARGET_DIR=../.build/driver cargo +nightly build --offline --quiet",
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
for p in PROPS + NA:
    assert len(p["title"]) <= 80, p["title"]
