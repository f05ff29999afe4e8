#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py.

Which properties are claimed is decided by tools/claimed.txt (one id per line);
the others are listed under not_applicable with the reason in NOT_YET."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = set(open(os.path.join(root, "tools/claimed.txt")).read().split())
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [], "not_applicable": [],
       "notes": "Every check builds a harness binary from /repo's working tree through 'go build -overlay'; nothing is added to /repo. See DESIGN.md."}
for p in PROPS:
    if p["id"] in claimed:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "./check %s --tier quick" % p["id"],
            "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": "not claimed: its check is not built yet"})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
