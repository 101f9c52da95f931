#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the property list."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp.checks import CHECKS
try:
    from vp.checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
def technique(c):
    kinds = {type(j).__name__ for j in (c["jobs"]() if callable(c["jobs"]) else c["jobs"])}
    t = []
    if "Job" in kinds:
        t.append("bounded symbolic execution of the C source with a SAT verdict (CBMC)")
    if "PyJob" in kinds:
        t.append("symbolic execution of the Python source with an SMT verdict (z3)" if "python" in c["explanation"].lower() else
                 "symbolic execution of the LLVM IR of the source with an SMT verdict (z3)")
    return "; ".join(t)


props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "Solver-based checking of the real code; see DESIGN.md. No hooks are needed in /repo."}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p,
            "technique": technique(c),
            "level": "other",
            "level_note": (c["explanation"] + " Bounded verdict; every counterexample is replayed on the real code. "
                           "Trusts CBMC/solver, the harness and its stated assumptions.")[:1500]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check yet (work in progress)")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
