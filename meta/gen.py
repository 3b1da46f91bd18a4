#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (one source, so the two stay in step)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["note"]})
m["notes"] = "Static analysis only: a libTooling fact extractor (typed AST + CFG of every translation unit of /repo's current tree, ANTLR output regenerated) and repository-specific analyses in sa/. No hooks in /repo."
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
