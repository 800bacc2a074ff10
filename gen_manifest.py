#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
import props
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for i in ids:
    P = props.PROPS.get(i)
    if P is None:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check built yet")})
        continue
    b = "; ".join(dict.fromkeys(u["name"] + ": " + u["bounds"] for u in P["units"] if u.get("bounds")))
    checks.append({
        "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": "symbolic execution of the compiled LLVM IR of /repo's headers, every branch and assertion decided by Z3 over symbolic inputs; counterexamples replayed on the compiled library",
        "level": "model_checking",
        "level_note": ("Holds for all values within the bounds. Bounds (quick): " + b + ". Outside: " + P.get("outside", "-") + ". Trusted: clang -O1, the executor's IR semantics over exact reals, the contract models of BLAS/LAPACK/MPI/OpenMP/streams (sample paths are replayed natively).")[:3000],
    })
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Findings and repairs: known-findings.jsonl."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
