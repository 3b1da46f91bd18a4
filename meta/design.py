#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (from DESIGN.in.md) from props.py, known_findings.json and seeded/."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
t = open(os.path.join(here, "DESIGN.in.md")).read()
ps = []
for p in PROPS:
    if p.get("na"): continue
    ps.append("### %s %s\n\n* decided by: %s\n* reaches: %s\n* why tests cannot: %s\n* limits: %s\n" % (p["id"], p["title"], p["technique"], p["quantifier"]["text"], p["why_tests_cant"], p["note"]) + (p.get("design", "") and "* how: " + p["design"] + "\n"))
na = ["* **%s** %s: %s" % (p["id"], p["title"], p["na"]) for p in PROPS if p.get("na")]
k = json.load(open(os.path.join(root, "known_findings.json")))
fs = ["* " + x for x in k["fixed"]] + ["* known: property=%s `%s`: %s" % (x["property"], x["key"], x["what"]) for x in k["known"]]
ss = ["| seed | property | breaks | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", s, "meta.json")))
    ss.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), m.get("caught_by", m["property"])))
t = t.replace("@@PROPS@@", "\n".join(ps)).replace("@@NA@@", "\n".join(na)).replace("@@FINDINGS@@", "\n".join(fs)).replace("@@SEEDS@@", "\n".join(ss))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
