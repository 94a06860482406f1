#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in plan.CHECKS: continue
    q, t = plan.CHECKS[p]
    mods = sorted({s.get("spec") if s["kind"] == "TRACE" else s["module"] for s in q + t})
    checks.append({"property": p, "quick_cmd": "python3 bin/check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                   "technique": "TLA+ specification (" + ", ".join(mods) + ") checked with TLC; " + plan.TECHNIQUE.get(p, "traces of the real code validated against it"),
                   "level": plan.LEVEL[p], "level_note": plan.NOTE.get(p, plan.DEFAULT_NOTE)})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": plan.NOT_APPLICABLE.get(p, "not built yet")} for p in props if p not in plan.CHECKS],
     "notes": "No hooks in /repo: the harness (harness/) uses the public API of the crate. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
