#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the implemented rules and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"C30": "A bound on time and memory quantifies over runtime cost for every blob (element counts announced by the data, zero-sized items, nesting); no sound static "
             "argument in reach bounds it for interpreted Python code, and a measurement would be a runtime test.",
      }
TECH = {}
DEF = "partitioned abstract interpretation of the source (linear-integer, byte-layout, text, decimal and heap domains) against an ABI specification"
checks = []
for i in ids:
    if i not in props.PROPS:
        continue
    p = props.PROPS[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i} --tier thorough",
                   "technique": p.technique if getattr(p, "technique", None) else DEF, "level": "other",
                   "level_note": "Static analysis: the interpreter reads /repo/eth_abi's syntax trees (nothing is imported or run) and joins every partition of an abstract "
                                 "input; holds for all values of the partitions listed in the evidence, within the stated bounds on shape, count and history length. Rule: " + p.rule})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in props.PROPS]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
