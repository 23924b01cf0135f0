#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
TECH = ("contracts (pre- and postconditions) on the real functions, every obligation discharged path by path for all "
        "inputs by symbolic execution of the compiled crate (exact real arithmetic, identity testing, sign reasoning, z3)")
TECHF = ("contracts on the real functions over the IEEE-754 machine floats, every obligation discharged path by path "
         "by symbolic execution of the compiled crate and z3's floating-point theory")
BASE = ("All inputs satisfying the stated preconditions, no sampling. Assumes exact real arithmetic (rounding, overflow, "
        "NaN are outside) and trusts the symbolic scalar, the normaliser, the randomised identity test (error below 2^-1000) and z3.")
NOTE = {
    "C07": "lu of every size along every path by loop invariants in Verus on the text cut from /repo/src (rewrites and assumed axioms are listed in the evidence; that a pivot is replaced only in a singular matrix, and that det is the signed product of the pivots, is proved from the same predicates in Lean, lemmas/lu.lean). That proof is not an alarm when a reworded function no longer fits it; what raises alarms: n=2 and n=3 for all inputs; n=4 bounded: all continuations of the row-scale outcomes met by sampled inputs; n=5,6 bounded: only the branch patterns met by the sampled inputs, each then for all inputs on it. " + BASE,
    "C11": "Every slice length: all seven functions by induction in Verus on the text cut from /repo/src (rewrites and assumed scalar axioms are listed in the evidence). That proof is not an alarm when a reworded function no longer fits it; what raises alarms is bounded in the length: 1 to 7 (every use inside the crate) and 8, 9, 12, 16, 17, 33, 40, for each length all values, except that for find_max_min and norm_inf above length 7 only the paths taken by sampled inputs are proved; and sampled runs up to length 10000. " + BASE,
    "C26": "Everything except the recorded finding (transform_point ignores the translation, pinned by an existing test) is discharged; the finding is reported as KNOWN-FINDING. " + BASE,
    "C32": "The rounding of the inputs is covered (every perturbation up to 1e-6); the operations inside the functions are exact. " + BASE,
    "C28": "All bit patterns of f32 and f64; compare_vecs and check_elements at lengths 0 to 4 in full, 9, 16 and 33 with one component of any kind at a few places, and, over an abstract nearly_equal, for every length by induction in Verus, as is compare_dual_quaternions for all eight components at once (a reworded function that no longer fits that proof is reported, not an alarm). Trusts the symbolic float and z3's floating-point theory.",
    "C29": "All bit patterns of f32 and f64 (all NaNs taken as one). The impls are for the concrete types f32 and f64, so the symbolic run uses a copy of /repo/src, made on every run, in which these two names mean the symbolic floats (ieee/extract.py; const items keep the primitive types); the crate itself is run on concrete floats as well.",
}
LEVEL = {"C26": "other"}
checks = [dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
               technique=(TECHF if i in ("C28", "C29") else TECH) + ("; Verus for slices of every length" if i in ("C11", "C28") else "; Verus for every path of the LU factorization" if i == "C07" else ""),
               level=LEVEL.get(i, "proof"), level_note=NOTE.get(i, BASE)) for i in props]
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the crate is generic in its scalar, so the verifier instantiates it at a symbolic one. "
               "known-findings.txt lists one recorded finding (C26) and the repaired defects.")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
