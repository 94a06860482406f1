#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/detected.json."""
import json, os, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = json.load(open(os.path.join(ROOT, "seeded", "detected.json")))
rows = ["each is caught by the quick check of its property unless noted.", "", "| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); k = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (k, m["what_it_breaks"], m["needs"], det.get(k, "?")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(`seeded/`: ).*?(\n\n## )", lambda x: x.group(1) + "\n".join(rows) + x.group(2), s, flags=re.S)
open(p, "w").write(s)
