#!/usr/bin/env python3
"""Writes known-findings.json: the list of genuine defects, each identified by
the inputs that fail, and the record of repaired ones."""
import json, os
r = 21888242871839275222246405745257275088548364400416034343698204186575808495617
lam = 4407920970296243842393367215006156084916469457145843978461
deg = [(a + b * lam) % r for a, b in [(-1, 0), (-2, 0), (-1, -1), (0, -1), (-2, 1), (-1, 1), (0, 1), (0, 2)]]

def probe(kind, p, faults=(), seed=5, sim=False):
    return {"prop": "", "seed": seed, "sim": sim, "tau": 1 if sim else 0,
            "sess": [{"kind": kind, "th": 0, "seed": seed, "p": p, "f": list(faults)}],
            "sched": {"mode": "list", "starve": -1}}

F = []
F.append({
    "property": "C03", "id": "degenerate-scalars",
    "what": "an honest multiplication of a point by one of the eight scalars -1, -2, -1-L, -L, -2+L, -1+L, L, 2L (L the eigenvalue of the endomorphism) is refused: gnark's incomplete scalar multiplication adds a point to its own negative or double there",
    "class": "reject-good", "contains": ["(k=%d " % k for k in deg],
    "probe": probe("ec", {"op": 1, "grid": 1 + 15 + 16 * 33, "n": 1, "rel": 0, "pt": 1}),
})
F.append({
    "property": "C17", "id": "degenerate-scalars",
    "what": "a true claim about a multiplication by one of the same eight scalars is refused by the scalar multiplication and multi-scalar multiplication circuits",
    "class": "reject-good", "contains": ["with scalar k=%d " % k for k in deg],
    "probe": probe("msm", {"op": 2, "times": 1, "wrong": 0, "grid": 1 + 15 + 16 * 33}),
})
F.append({
    "property": "C17", "id": "equal-points",
    "what": "a true multi-scalar multiplication over points that are equal or opposite (up to the endomorphism) within a pair is refused: gnark's joint multiplication needs different points",
    "class": "reject-good", "contains": ["of points equal or opposite up to the endomorphism"],
    "probe": probe("msm", {"op": 0, "times": 1, "wrong": 0, "maxn": 1, "minn": 2, "dup": 1}),
})
F.append({
    "property": "C08", "id": "unreadable-coordinates",
    "what": "CheckOnCurveCircuitVar accepts any coordinates given as fr.Element values: VerifyCheckOnCurveVar drops the conversion error and tests (0,0); the stable test TestCheckOnCurveCircuit depends on it",
    "class": "accept-bad", "contains": ["on-curve check 1 accepted fr.Element values"],
    "probe": probe("curve", {"op": 1, "rep": 7, "off": 0, "pt": 3}),
})
FIXED = [
    ("C15", "register modHint", "a compiled circuit that reduces a field element could not be solved: modHint was not registered with the solver"),
    ("C12", "do not overwrite", "VerifyBN256Msm and VerifyBN256Add overwrote the caller's point, so presenting the same circuit again gave another verdict"),
    ("C17", "do not overwrite", "VerifyBN256Msm and VerifyBN256Add overwrote the caller's point, so presenting the same objects again gave another verdict"),
    ("C14", "propagate errors", "a failed advice request inside an addition or reduction was ignored or turned into a value"),
    ("C04", "tie the hashed", "VerifyInstanceHash accepted the hash of any byte string: the hashed bytes were advice and not tied to the inputs"),
    ("C01", "tie the hashed", "a proof for other instance values passed: the instance hash was not tied to the instance"),
    ("C03", "opposite ordinates", "VerifyBN254Add refused P+Q and accepted (0,0) instead when the ordinates are opposite and the abscissas differ"),
    ("C06", "reduced field element", "fr_mul_neg gave the modulus for a zero product, which later comparisons do not take for zero"),
    ("C13", "point at infinity", "MsmHint and AddHint gave (0,1) for the point at infinity"),
    ("C16", "VerifyNotZero constrain", "VerifyNotZero compiled to R1CS accepted zero (gnark drops AssertIsLessOrEqual with a constant smaller operand)"),
    ("C15", "VerifyNotZero constrain", "the compiled non-zero check accepted zero where direct evaluation refused it"),
    ("C16", "lower bound of VerifyRangeCheck", "VerifyRangeCheck with a constant lower bound, compiled to R1CS, accepted values below it"),
]

if __name__ == "__main__":
    import subprocess
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    fixed = []
    for prop, key, what in FIXED:
        h = [l.split()[0] for l in log if key in l]
        fixed.append("fixed: property=%s %s %s" % (prop, h[0], what))
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.json"), "w") as f:
        json.dump({"findings": F, "fixed": fixed}, f, indent=1)
        f.write("\n")
