#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vk/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vk.checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s thorough" % i, "technique": c.get("technique", "symbolic execution of the compiled LLVM IR with SMT (QF_BV) path and assertion queries, counterexamples replayed natively"),
                       "level": c.get("level", "model_checking"), "level_note": c.get("note") or ("Exhaustive over all inputs within the stated bounds, decided by Z3 on the IR of the current source. " + "; ".join(c.get("assumptions", [])))})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check compiles /repo's current sources to LLVM IR and executes them symbolically with the engine in /verif/engine; see DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
