"""C19: linear fusion is the weighted sum of all scores."""

import z3

from vc import arr as A
from vc import loops as L
from vc import npmod as N
from vc.contract import Suite
from vc.core import INT, REAL, IDX, Sym, as_real, to_z3

S = Suite("C19")
S.assumptions = ["score and weight values are real numbers (floats treated as reals)"]
FN = "viqa.fusion:fuse_metrics_linear_combination"


class M:
    def __init__(self, v):
        self.score_val = v


@S.contract("fuse", [FN], cases=["unequal", "equal", "concrete0", "concrete1", "concrete3"], reach=("end",))
def fuse(k, mode):
    sc = z3.Function("score", INT, REAL)
    we = z3.Function("weight", INT, REAL)
    mk = lambda i: M(Sym(sc(to_z3(i))))  # noqa: E731
    wk = lambda i: Sym(we(to_z3(i)))  # noqa: E731
    if mode.startswith("concrete"):
        n = int(mode[8:])
        out = k.call(FN, L.VList([mk(i) for i in range(n)]), L.VList([wk(i) for i in range(n)]))
        v = k.returns(out, "returns")
        k.eq("value", v, z3.Sum([sc(i) * we(i) for i in range(n)]) if n else z3.RealVal(0))
        k.reach("end")
        for m in (n + 1, n - 1):
            if m >= 0:
                out = k.call(FN, L.VList([mk(i) for i in range(n)]), L.VList([wk(i) for i in range(m)]))
                k.raises(out, ValueError, "length mismatch raises")
        return
    n = k.int("n", 0)
    m = k.int("m", 0)
    if mode == "unequal":
        k.assume(n != m)
        out = k.call(FN, L.SymSeq(n.e, mk), L.SymSeq(m.e, wk))
        k.raises(out, ValueError, "length mismatch raises")
        k.reach("end")
        return
    k.assume(n == m)
    out = k.call(FN, L.SymSeq(n.e, mk), L.SymSeq(m.e, wk))
    v = k.returns(out, "returns")
    if k.split(n > 0):
        spec = N.sum_term([n.e], sc(IDX[0]) * we(IDX[0]))
        k.eq("value is the weighted sum", v, spec)
        k.reach("end")
    else:
        k.eq("empty sum is zero", v, z3.RealVal(0))
