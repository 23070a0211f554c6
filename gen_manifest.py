#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (the texts) and checks_spec.py (what is claimed)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
from props import PROPS, NA
from checks_spec import CHECKS
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS: f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
ids = [p["id"] for p in PROPS]
checks = [{"property": p["id"], "quick_cmd": "python3 run_check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["id"],
           "technique": p.get("technique", "symbolic execution of the code's LLVM IR with Z3 deciding every branch and assertion; native replay of counterexamples"),
           "level": "model_checking", "level_note": p["level_note"]} for p in PROPS if p["id"] in CHECKS and p["id"] not in NA]
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
na = [{"property": k, "reason": v} for k, v in NA.items()]
assert {c["property"] for c in checks} | set(NA) == set(ids), (set(ids) - {c["property"] for c in checks} - set(NA))
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na}, open(H + "/MANIFEST.json", "w"), indent=1)
