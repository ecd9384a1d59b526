"""C02: normalisation is the exact affine map onto the requested range."""

import z3

from vc import arr as A
from vc import npmod as N
from vc.contract import Suite
from vc.core import INT, IDX, Sym, as_real, to_z3

S = Suite("C02")
S.assumptions = ["float64 intermediate arithmetic treated as exact (float64 holds all 8..32-bit integers exactly)"]
NORM = "viqa.utils.loading:normalize_data"
LOAD = "viqa.utils.loading:load_data"
INTS = ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64")
FLTS = ("float16", "float32", "float64")
OUT = {1: "float32", 255: "uint8", 65535: "uint16"}
FULL = {("uint8", 255), ("uint16", 65535)}


def image(k, nd, dt, cls=None):
    return k.arr("img", nd, dt, cls=cls)


def two_values(k, a):
    i, j = k.skolem(a._sh), k.skolem(a._sh)
    k.assume(a.at(*i) != a.at(*j))
    return i, j


def check_map(k, r, a, lo, hi, rng, inside=True):
    """r[v] = (a[v]-lo)/(hi-lo)*rng, rounded down for the integer types."""
    k.check("type of the result", r.dtype.name == OUT[rng], f"{r.dtype.name}")
    k.same_shape("shape kept", r, a._sh)
    i = k.skolem(a._sh)
    v = as_real(a.at(*i))
    exact = (v - lo) / (hi - lo) * rng
    y = r.at(*i)
    if rng == 1:
        k.prove("affine map", as_real(y) == exact)
    else:
        k.prove("affine map rounded down", z3.And(as_real(y) <= exact, exact < as_real(y) + 1))
    k.prove("inside the range", z3.And(as_real(y) >= 0, as_real(y) <= rng))
    j = k.skolem(a._sh)
    k.prove("order kept", z3.Implies(as_real(a.at(*j)) <= v, as_real(r.at(*j)) <= as_real(y)))
    return i, v, y


@S.contract("automatic range", [NORM], cases=[(nd, dt, rng, how) for dt in INTS + FLTS for rng in OUT
                                              for nd, how in ((2, "normalize_data"), (3, "load_data"))],
            reach=("end",))
def auto(k, nd, dt, rng, how):
    a = image(k, nd, dt)
    two_values(k, a)
    if how == "normalize_data":
        out = k.call(NORM, a, (0, rng))
    else:
        out = k.call(LOAD, a, data_range=rng, normalize=True)
    r = k.returns(out, "returns")
    log = k.ctx.log
    if (dt, rng) in FULL:
        k.check("unchanged type", r.dtype.name == dt)
        k.elements("returned unchanged", r, a._sh, lambda *i: a.at(*i))
        k.check("warns", any(e[0] == "warn" and e[1] == "RuntimeWarning" for e in log), str(log))
        k.reach("end")
        return
    lo = as_real(to_z3(N.amin(a)))
    hi = as_real(to_z3(N.amax(a)))
    k.prove("range is not empty", lo < hi)
    i, v, y = check_map(k, r, a, lo, hi, rng)
    k.prove("minimum maps to 0", z3.Implies(v == lo, as_real(y) == 0))
    k.prove("maximum maps to the range", z3.Implies(v == hi, as_real(y) == rng))
    k.unchanged("input unchanged", a)
    k.reach("end")


@S.contract("explicit range", [NORM], cases=[(dt, rng) for dt in INTS + FLTS for rng in OUT], reach=("end",))
def explicit(k, dt, rng):
    a = image(k, 2, dt)
    lo, hi = (k.int("lo"), k.int("hi")) if k.choose([0, 1]) else (k.real("flo"), k.real("fhi"))
    k.assume(lo < hi)
    out = k.call(NORM, a, (0, rng), data_range_input=(lo, hi), automatic_data_range=False)
    r = k.returns(out, "returns")
    if (dt, rng) in FULL:
        k.elements("returned unchanged", r, a._sh, lambda *i: a.at(*i))
        k.reach("end")
        return
    # values inside the given range
    k.check("type of the result", r.dtype.name == OUT[rng], f"{r.dtype.name}")
    i, j = k.skolem(a._sh), k.skolem(a._sh)
    l, h = as_real(lo.e), as_real(hi.e)
    v, u = as_real(a.at(*i)), as_real(a.at(*j))
    k.assume(z3.And(v >= l, v <= h, u >= l, u <= h))
    y = as_real(r.at(*i))
    exact = (v - l) / (h - l) * rng
    if rng == 1:
        k.prove("affine map", y == exact)
    else:
        k.prove("affine map rounded down", z3.And(y <= exact, exact < y + 1))
    k.prove("inside the range", z3.And(y >= 0, y <= rng))
    k.prove("order kept", z3.Implies(u <= v, as_real(r.at(*j)) <= y))
    k.unchanged("input unchanged", a)
    k.reach("end")


@S.contract("rejections", [NORM, LOAD], cases=[(dt, m) for dt in INTS + FLTS for m in
                                               ("range", "input", "load")] + [("bool", "dtype"), ("complex128", "dtype")],
            reach=("end",))
def rejections(k, dt, mode):
    a = image(k, 2, dt)
    if mode == "dtype":
        for rng in OUT:
            k.raises(k.call(NORM, a, (0, rng)), ValueError, "unsupported type raises")
    elif mode == "range":
        lo, hi = k.int("rlo"), k.int("rhi")
        two_values(k, a)
        k.assume(z3.Or(lo.e != 0, z3.And(hi.e != 1, hi.e != 255, hi.e != 65535)))
        if dt not in FLTS:
            x, y = A.int_range(A.as_dtype(dt))
            k.assume(z3.Or(lo.e != x, hi.e != y))
        else:  # the range the float type itself spans
            f = N.finfo(A.as_dtype(dt))
            k.assume(z3.Or(as_real(lo.e) != to_z3(f.min), as_real(hi.e) != to_z3(f.max)))
        k.raises(k.call(NORM, a, (lo, hi)), ValueError, "unsupported range raises")
    elif mode == "input":
        rng = k.choose([q for q in OUT if (dt, q) not in FULL])
        k.raises(k.call(NORM, a, (0, rng), automatic_data_range=False), ValueError, "missing input range raises")
        k.raises(k.call(NORM, a, (0, rng), None, False), ValueError, "missing input range raises")
    else:
        k.raises(k.call(LOAD, a, normalize=True), ValueError, "normalising needs a range")
    k.reach("end")
