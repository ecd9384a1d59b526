TECH = {"*": "contract-based deductive verification: pre/postconditions on the real functions, obligations generated by "
        "symbolic execution of the current source and discharged by z3",
        "C11": "contract-based deductive verification of the C source: pre/postconditions and loop invariants, obligations "
        "generated from clang's AST of the current file and discharged by z3"}
NOTES = {"*": "deductive proof over library contracts; floats as reals",
         "C11": "deductive proof of the native kernel; doubles as reals, CPython API by contract",
         "C13": "deductive proof over library contracts; parameter dictionaries bounded to two entries",
         "C14": "deductive proof over library contracts; columns bounded to three results per pair, figures to 9+4 results",
         "C20": "deductive proof over library contracts (erosion, distance transform, percentile); floats as reals"}
NA = {}
