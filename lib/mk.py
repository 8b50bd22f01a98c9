#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import P
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
assert set(PROPS) == set(ids), (set(PROPS) ^ set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "hook_needed": None}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"],
                 "thorough_cmd": "./check %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                for p in sorted(P, key=lambda p: p["id"])],
     "not_applicable": [],
     "notes": "All harnesses are compiled into the packages of /repo through go's -overlay; there are no hooks in /repo. DESIGN.md describes the explorers, the defects found and the planted bugs."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
