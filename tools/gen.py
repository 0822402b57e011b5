#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py, so that they stay in step."""
import json, os
from props import PROPS, NA
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = "other"
checks, na = [], []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        for a in p["files"]:
            assert os.path.exists("/repo/" + a), (p["id"], a)
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
for p in PROPS:
    checks.append({
        "property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
        "technique": p["technique"], "level": LEVEL, "level_note": p["note"],
    })
for p in NA:
    na.append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the analyser reads /repo's source as it is. One Go program (analyzer/) decides all properties over the type-checked program and its SSA form."}, f, indent=1)
    f.write("\n")
