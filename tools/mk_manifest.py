#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(os.path.join(V, "tools/properties.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py build",
       "checks": [{"property": p["id"],
                   "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
       "not_applicable": [],
       "notes": "TLA+ specification in spec/, checked with TLC; no hooks in /repo (the public API exposes the abstract state). See DESIGN.md."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
