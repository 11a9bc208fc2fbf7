#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "meta"))
sys.dont_write_bytecode = True
from props import P, NA, TECH

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P + NA:
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 engine/facts.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": p.get("tech", TECH),
        "level": "other",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(P), "claimed,", len(NA), "not applicable")
