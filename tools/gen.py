#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py and props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in catalog.PROPERTIES:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in catalog.PROPERTIES]
assert len(set(ids)) == len(ids)
checks = []
for i in ids:
    if i in catalog.NOT_APPLICABLE:
        assert i not in props.PROPS, i
        continue
    c = props.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "technique": "symbolic execution of the LLVM bitcode of the current sources, assertions decided by z3 over all "
                     "values within the bounds, counterexamples replayed natively",
        "level": c.get("level", "model_checking"),
        "level_note": "bounded: " + "; ".join(c["bounds"]) + ". Not covered: " + "; ".join(c.get("outside", ["-"]))})
assert not [i for i in props.PROPS if i not in ids], "check without property"
m = {"version": 1,
     "setup_cmd": "make -s -j4 -C engine",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in catalog.NOT_APPLICABLE.items()],
     "notes": "engine/ is a symbolic executor for LLVM 18 bitcode (z3 back end); harness/ holds one file per property; "
              "tools/check.py builds, explores, replays and writes evidence; see DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(ids), "properties,", len(checks), "checks")
