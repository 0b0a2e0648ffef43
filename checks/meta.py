"""Level and trusted base per property (single source for MANIFEST.json and the evidence)."""
TRUSTED = [
    "pydv (this directory's verifier): symbolic execution of the Python AST of /repo, contract application, loop-invariant rule",
    "z3 and cvc5",
    "library contracts in pydv/lib.py for numpy, scipy, the Python builtins and the standard library (listed per run under assumptions)",
    "floating-point arithmetic is treated as exact real arithmetic; fixed-width integers as mathematical integers",
    "the CPython interpreter runs the source text that was verified (decorators njit/staticmethod/classmethod are taken to preserve meaning)",
]
META = {}


def m(pid, level, technique, note, **kw):
    META[pid] = dict(level=level, technique=technique, note=note, **kw)


DV = "contract-based deductive verification (own VC generator over the real Python source, z3/cvc5)"
BND = "bounded run of the function contracts' postconditions on the real code (stand-in, no proof yet)"
for i in range(1, 23):
    m(f"C{i:02d}", "other", BND, "Bounded stand-in: the postcondition is evaluated on generated inputs of the real code; no obligation discharged.")
m("C01", "proof", DV, "scoring.py is proved function by function against the published formulas; the assembly of the index and the query-time sum are bounded so far.")
m("C04", "proof", DV, "All formulas proved non-negative and monotone over the reals.")
