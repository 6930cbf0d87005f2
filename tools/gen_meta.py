#!/usr/bin/env python3
"""Write properties.jsonl (and MANIFEST.json) from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
try:
    from checks_meta import CHECKS, NOTES
except ImportError:
    CHECKS, NOTES = {}, ""
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
na = dict(NOT_APPLICABLE)
checks = []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": c["technique"],
            "level": "other",
            "level_note": c["note"],
        })
    elif i not in na:
        na[i] = "Check under construction."
json.dump({
    "version": 1,
    "setup_cmd": "python3 -c 'import ast'",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
    "notes": NOTES,
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
