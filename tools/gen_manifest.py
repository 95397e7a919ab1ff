#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="All checks run the same driver (check.py) over contract files in contracts/; see DESIGN.md.")
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(
            property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=c.get("technique", "contract-based deductive verification of the compiled C++ (PVC: verification conditions from LLVM IR, discharged by Z3)"),
            level=c.get("level", "proof"), level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE[i]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(m["checks"]), "not claimed", len(m["not_applicable"]))
