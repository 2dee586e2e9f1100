#!/usr/bin/env python3
"""writes MANIFEST.json from CLAIMS and NA below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the LLVM IR of /repo's current sources (rayvc: symbolic execution with loop invariants, obligations discharged by z3 bit-vectors and an integer back end)"
exec(open(os.path.join(H, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = [dict(property=p, quick_cmd="python3-vt check.py %s" % p, thorough_cmd="python3-vt check.py %s --thorough" % p, technique=TECH, level="proof", level_note=CLAIMS[p]) for p in props if p in CLAIMS]
na = [dict(property=p, reason=NA.get(p, "contracts for this property's functions are not built yet")) for p in props if p not in CLAIMS]
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na, notes="see DESIGN.md"), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
