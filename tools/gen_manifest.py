#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed, with which method."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
IR = "symbolic execution of the compiled code (LLVM IR) with SMT (z3) deciding every assertion"
IRNOTE = ("Every assertion is decided by z3 over all values of the symbolic inputs within the swept sizes (evidence: coverage.bounds); floats are real numbers, "
          "so rounding and special values are outside; run time library, libm and CBLAS are modelled by their specification; one native run per scenario validates the encoding.")
BMC = "bounded model checking of the C source (CBMC, SAT/SMT) with native replay of counterexamples"
BMCNOTE = ("CBMC decides every assertion, bound and pointer check over all values within the stated sizes with unwinding assertions; "
           "files, archives, dynamic loader and allocator are nondeterministic stubs written from their documentation.")
NUM = ["C%02d" % i for i in list(range(1, 10)) + list(range(11, 18))]
import sys
sys.path.insert(0, os.path.join(ROOT, "engine"))
try:
    src = open(os.path.join(ROOT, "engine", "cbmc_checks.py")).read()
    import re
    CB = re.findall(r"^def (C\d\d)\(", src, re.M)
except FileNotFoundError:
    CB = []
checks, na = [], []
for i in ids:
    if i in NUM or i in CB:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": IR if i in NUM else BMC, "level": "model_checking", "level_note": IRNOTE if i in NUM else BMCNOTE})
    else: na.append({"property": i, "reason": "check not finished yet (bounded model checking harness planned, see DESIGN.md)"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
