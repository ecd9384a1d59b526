"""C06: PSNR and RMSE equal their definitions."""

import z3

from vc import arr as A
from vc import npmod as N
from vc.contract import Suite
from vc.core import IDX, as_real, to_z3

S = Suite("C06")
PSNR, RMSE = "viqa.fr_metrics.psnr:PSNR", "viqa.fr_metrics.rmse:RMSE"
LOG10 = z3.Function("log10", z3.RealSort(), z3.RealSort())
CASES = [(kd, dt) for kd in ("2d", "3d", "rgb") for dt in
         ("uint8", "uint16", "int8", "int16", "int32", "uint32", "float16", "float32", "float64")]


def pair(k, kind, dt, names=("r", "m"), cls=None):
    if kind == "rgb":
        sh = (k.int("nx", 1), k.int("ny", 1), 3)
    else:
        nd = int(kind[0])
        sh = tuple(k.int(f"n{d}", 1) for d in range(nd))
        if nd == 3:
            k.assume(sh[-1] != 3)
    return [k.arr(n, shape=sh, dtype=dt, cls=cls) for n in names]


def mse(r, m):
    d = as_real(r.content()) - as_real(m.content())
    return N.sum_term(r._sh, d * d) / as_real(N.size_term(r._sh))


def identical(k, r, m):
    """Case split: the images are equal everywhere / differ at some voxel."""
    same = N.array_equal(r, m)
    return k.split(same)


@S.contract("rmse", [RMSE + ".score"], cases=CASES, reach=("same", "different"))
def rmse(k, kind, dt):
    r, m = pair(k, kind, dt)
    kw = {"chromatic": True} if kind == "rgb" else {}
    if k.choose([0, 1]):
        kw["data_range"] = k.int("R", 1)
    met = k.call(RMSE, **kw).value
    v = k.returns(k.call(met.score, r, m), "returns")
    k.eq("root of the mean squared difference", v, A.SQRT(mse(r, m)))
    if identical(k, r, m):
        k.eq("zero for identical images", v, 0)
        k.reach("same")
    else:
        k.prove("positive for different images", to_z3(v) > 0)
        k.reach("different")
    w = k.returns(k.call(met.score, m, r), "returns swapped")
    k.eq("symmetric", w, v)
    k.unchanged("frame r", r)
    k.unchanged("frame m", m)


@S.contract("psnr", [PSNR + ".score"], cases=CASES, reach=("same", "different"))
def psnr(k, kind, dt):
    r, m = pair(k, kind, dt)
    R = k.choose(["int", "real"])
    R = k.int("R", 1) if R == "int" else k.real("Rr", 0)
    k.assume(R > 0)
    kw = {"chromatic": True} if kind == "rgb" else {}
    met = k.call(PSNR, data_range=R, **kw).value
    v = k.returns(k.call(met.score, r, m), "returns")
    w = k.returns(k.call(met.score, m, r), "returns swapped")
    if identical(k, r, m):
        k.eq("infinite for identical images", v, float("inf"))
        k.eq("symmetric", w, float("inf"))
        k.reach("same")
    else:
        e = mse(r, m)
        k.prove("different images have an error", e > 0)
        q = as_real(R.e)
        k.eq("10 log10 of range squared by error", v, 10 * LOG10(q * q / e))
        k.eq("symmetric", w, v)
        k.reach("different")
    k.unchanged("frame r", r)
    k.unchanged("frame m", m)
