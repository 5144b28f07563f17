#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b}
                                      for a, b in p["mech"]],
                        "hook_needed": None}}) + "\n")
checks = [{
    "property": p["id"],
    "quick_cmd": "python3 check.py %s quick" % p["id"],
    "thorough_cmd": "python3 check.py %s thorough" % p["id"],
    "technique": p["technique"],
    "level": "other",
    "level_note": p["note"]} for p in PROPS]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1, "setup_cmd": "true",
        "checks": checks,
        "not_applicable": [{"property": p["id"], "reason": p["reason"]}
                           for p in NOT_APPLICABLE],
        "notes": "Static analysis only: an abstract interpreter over the "
                 "syntax trees of /repo/src/jwkest and script/ (standard "
                 "library python3, no build, no hooks). See DESIGN.md."},
        f, indent=1)
    f.write("\n")
print(len(PROPS), "claimed", len(NOT_APPLICABLE), "not applicable")
