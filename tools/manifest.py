#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the properties file and the modules present in vc/props"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
try: from notes import NOTES, NA
except ImportError: NOTES, NA = {}, {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
BASE = ("Unbounded deductive proof over the LLVM IR that clang produces from /repo's sources on every run: every path of every function under contract, "
        "all inputs; obligations discharged by z3 (cvc5 as second back end). Trusted: clang's lowering, the VC generator in vc/, the solver, and the library contracts listed in the evidence. "
        "A failed obligation is replayed against the real code by a native search for a failing input. ")
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vc", "props", i + ".py")) and i not in NA:
        checks.append(dict(property=i, quick_cmd="python3-vt vc/run.py %s quick" % i, thorough_cmd="python3-vt vc/run.py %s thorough" % i,
                           technique="contract-based deductive verification of the real code (functional contracts over LLVM IR, SMT-discharged)", level="proof",
                           level_note=BASE + NOTES.get(i, "")))
    else: na.append(dict(property=i, reason=NA.get(i, "no contract built for this property yet")))
json.dump(dict(version=1, setup_cmd="python3-vt vc/setup.py", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
