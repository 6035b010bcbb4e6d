"""Which contracts decide which property, and what is trusted."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(feature, **kw):
    d = {"feature": feature, "level": "proof"}
    d.update(kw)
    return d


ROUNDED = [
    "no overflow: interval endpoints and the values computed from them are finite (the rounding facts used, including gradual underflow, are proved in coq/Rounding.v)",
]
LIBM = [
    "libm: the results of single-precision sin, cos, asin, acos, atan2, sqrt and powi are treated as correctly rounded (within one ulp, monotone; a computed sine or cosine is 0 only where the exact one is)",
]
EXACT = [
    "machine arithmetic treated as exact real arithmetic with infinities and NaN (rounding is outside these contracts)",
]
MODULAR = [
    "vectors and points of intervals are checked against the contracts of the interval operations (C01-C04), not their bodies; those contracts are decided by their own checks",
]
BITS = [
    "the mathematical library's own functions (sqrt, sin, ...) are replaced by distinguishable stand-ins in the bit-precise contracts: only that the right one is called is proved",
]
LISTS = [
    "the loops over a list are verified against the members' hit contract (decided by C15, C17, C20 for the crate's own primitives) and the box contracts (C13), for lists of any length",
]
COMMON_ASSUMPTIONS = [
    "the compiler and the standard library behave as specified",
    "code behind `impl ... for f32/f64` scalar impls is seen through the symbolic scalar's own implementation of the scalar traits; the concrete runs and the Kani checks of C05/C06 cover the real impls",
]
TRUSTED = [
    "engine/sym.rs: symbolic scalar and obligation generator (runs the compiled code of /repo)",
    "tools/vc.py, tools/poly.py: translation to SMT-LIB and polynomial normal forms",
    "z3 4.8.12, z3 (z3-new), cvc5 1.1.2",
    "rustc",
]
TRUSTED_VERUS = ["verus 0.2026.09.13 and its z3", "tools/verus.py: extraction of the loops' text (verbatim bodies, injected invariants)"]
TRUSTED_KANI = ["kani 0.68.0, cbmc 6.11.0 and its SAT solver", "rustc"]
PROPS = {
    "C01": p("interval", kani=True, assumptions=ROUNDED),
    "C02": p("interval", kani=True, assumptions=ROUNDED + LIBM),
    "C03": p("interval", kani=True, assumptions=ROUNDED + LIBM),
    "C04": p("interval", kani=True, assumptions=ROUNDED),
    "C05": p(None, kani=True, assumptions=BITS),
    "C06": p("scalar", kani=True, assumptions=BITS + EXACT),
    "C07": p("vector", kani=True, verus="vector", assumptions=EXACT),
    "C08": p("matrix", kani=True, assumptions=EXACT),
    "C09": p("transform", assumptions=EXACT),
    "C10": p("transform", assumptions=EXACT),
    "C11": p("transform", assumptions=EXACT),
    "C12": p("transform", assumptions=EXACT),
    "C13": p("bbox", assumptions=EXACT),
    "C14": p("bbox", assumptions=EXACT),
    "C15": p("bbox", assumptions=EXACT + ["ray direction components that are zero are +0"]),
    "C16": p("bbox", assumptions=EXACT),
    "C17": p("sphere", assumptions=EXACT),
    "C18": p("sphere", assumptions=EXACT),
    "C19": p("primitive", verus="list", assumptions=EXACT + LISTS),
    "C20": p("primitive", assumptions=EXACT),
    "C21": p("camera", assumptions=EXACT),
    "C22": p("camera", assumptions=EXACT),
    "C23": p("ivector", assumptions=MODULAR),
}


def proved_hashes():
    try:
        with open(os.path.join(VERIF, "tools", "proved.json")) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {}


def known_finding(prop, contract, clause):
    """lines of known-findings.txt: `known: property=C01 contract=NAME clause=TEXT ...`"""
    try:
        lines = open(os.path.join(VERIF, "known-findings.txt")).read().splitlines()
    except OSError:
        return False
    return any(l.startswith("known: property=%s contract=%s clause=%s" % (prop, contract, clause)) for l in lines)

SYM = "pre/postconditions on the real functions, obligations generated by running the compiled code of /repo over a symbolic scalar, discharged by a ring normaliser, z3 and cvc5"
BIT = "kani::requires/ensures contracts on the real functions of the scalar layer, discharged by Kani (CBMC) for every bit pattern"

VER = "loop invariants and pre/postconditions on the function bodies extracted from /repo on every run, discharged by Verus for any number of iterations"


def technique(k):
    parts = ([SYM] if k.get("feature") else []) + ([VER] if k.get("verus") else []) + ([BIT] if k.get("kani") else [])
    return "contract-based deductive verification: " + "; ".join(parts)


NOTE = "Every obligation is generated from /repo's current source and discharged for all inputs and all paths; failed obligations are replayed on the concrete crate."
HOOKS = ["dcc91384698d3b7c8f501ee4a59841f442677177", "294193ceb1ea8808bd9d7960d8e31cd1c709b4dd"]
NOT_APPLICABLE = {}
