#!/usr/bin/env python3
"""regenerate MANIFEST.json from the contract units that exist"""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
have = set()
for f in os.listdir(os.path.join(H, "contracts")):
    if f.endswith(".py"):
        have |= set(re.findall(r'\bunit\(\s*"(C\d+)"', open(os.path.join(H, "contracts", f)).read()))
NA = {}
NOTE = {}
ex = os.path.join(H, "tools", "notes.json")
if os.path.exists(ex):
    d = json.load(open(ex)); NA = d.get("na", {}); NOTE = d.get("notes", {})
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in have and i not in NA:
        m["checks"].append({"property": i, "quick_cmd": "/opt/venv/bin/python run.py check %s quick" % i,
            "thorough_cmd": "/opt/venv/bin/python run.py check %s thorough" % i,
            "technique": "contract-based deductive verification of the mechanically extracted code (VC generation by symbolic execution, normal-form prover + z3)",
            "level": "proof",
            "level_note": NOTE.get(i, "Every contract obligation of the listed functions is discharged for all inputs of unbounded size in exact real arithmetic; assumes the contracts on numpy/pandas/cvxpy/scipy listed in the evidence, and cross-checks them by running the same contracts on the real code.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "contracts for this property are still being written")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
