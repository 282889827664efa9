#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS, WIP
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS and i not in WIP:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
            technique="symbolic execution of the LLVM IR of /repo's current source; every branch and assertion decided by a solver (interval and affine branch-and-prune, z3, cvc5); counterexamples replayed natively",
            level="model_checking",
            level_note="Every path of the harnesses within the bounds, for all values of the symbolic inputs. Bounds: " + CHECKS[i]["bounds"] + ". Trusts: the executor rawsym (validated on random native runs on every check), rustc/LLVM up to IR, the SMT solvers. " + "; ".join(CHECKS[i]["assumptions"]) + "."))
    else: na.append(dict(property=i, reason=NA.get(i, "check under construction")))
json.dump(dict(version=1, setup_cmd="./check build", checks=checks, not_applicable=na,
  notes="No hooks: the harnesses in /verif/harness use only the public API of rawdio. Checks keep their build products in /verif/.work (ignored by git) and rebuild them whenever /repo or the harnesses change."), open(V + "/MANIFEST.json", "w"), indent=1)
