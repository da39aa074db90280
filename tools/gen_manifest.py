#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and driver/plans.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "driver"))
from plans import PLANS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLANS:
        pl = PLANS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique="deterministic simulation with fault injection: " + pl["technique"], level="exploration",
                           level_note=pl["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the simulator reaches every source of nondeterminism through compiler instrumentation and symbol seams of its own builds.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
