"""C07: SSIM and UQI equal their definitions on every pair."""

import z3

from contracts.c16 import luma
from vc import arr as A
from vc import libs
from vc import npmod as N
from vc.contract import Suite
from vc.core import IDX, SQRT, Sym, as_int, as_real, div, nan_pred, to_z3

S = Suite("C07")
S.assumptions = ["scipy's gaussian_filter / uniform_filter are uninterpreted (their values are the local weighted means by their own contract)",
                 "float32 intermediate arithmetic treated as exact"]
SS = "viqa.fr_metrics.ssim:structural_similarity"
SSIM = "viqa.fr_metrics.ssim:SSIM"
UQI = "viqa.fr_metrics.uqi:UQI"


def def1(e):
    """Value of a fraction, 1 where it is undefined."""
    p = nan_pred(e)
    return e if z3.is_false(p) else z3.If(p, z3.RealVal(1), e)


def pw(x, n):
    if isinstance(n, int):
        r = None
        for _ in range(n):
            r = x if r is None else r * x
        return z3.RealVal(1) if r is None else r
    from vc.core import POW

    return POW(x, as_real(to_z3(n)))


def definition(r, m, dr, win, gauss, sample, sigma=1.5, K1=0.01, K2=0.03, exps=(1, 1, 1), mode="reflect", cval=0):
    """The score by its definition; r, m are arrays of real values."""
    r, m = (A.new_array(x._sh, A.as_dtype("float64"), as_real(x.content())) for x in (r, m))
    if gauss:
        f = lambda x: libs.gaussian_filter(x, sigma=sigma, truncate=3.5, mode=mode, cval=cval)  # noqa: E731
    else:
        f = lambda x: libs.uniform_filter(x, size=win, mode=mode, cval=cval)  # noqa: E731
    prod = lambda a, b: A.new_array(a._sh, A.as_dtype("float64"), a.content() * b.content())  # noqa: E731
    ux, uy, uxx, uyy, uxy = (f(v).content() for v in (r, m, prod(r, r), prod(m, m), prod(r, m)))
    n = win ** len(r._sh)
    c = as_real(to_z3(n / (n - 1))) if sample else z3.RealVal(1)
    vx, vy, vxy = c * (uxx - ux * ux), c * (uyy - uy * uy), c * (uxy - ux * uy)
    R = lambda v: as_real(to_z3(v))  # noqa: E731
    c1, c2 = (R(K1) * R(dr)) * (R(K1) * R(dr)), (R(K2) * R(dr)) * (R(K2) * R(dr))
    c3 = c2 / 2
    sx, sy = SQRT(vx), SQRT(vy)
    stru = def1((vxy + c3) / (sx * sy + c3))
    con = def1((2 * sx * sy + c2) / (vx + vy + c2))
    lum = def1((2 * ux * uy + c1) / (ux * ux + uy * uy + c1))
    body = pw(lum, exps[0]) * pw(con, exps[1]) * pw(stru, exps[2])
    full = A.new_array(r._sh, A.as_dtype("float64"), body)
    pad = (win - 1) // 2
    return N.mean(full[tuple(slice(pad, s - pad) for s in full._sh)])


def pair(k, kind, dt, lo=1):
    if kind == "rgb":
        sh = (k.int("n0", lo), k.int("n1", lo), 3)
    else:
        sh = tuple(k.int(f"n{d}", lo) for d in range(int(kind[0])))
        if kind == "3d":
            k.assume(sh[2] != 3)
    return k.arr("r", shape=sh, dtype=dt), k.arr("m", shape=sh, dtype=dt)


def window(k, r):
    h = k.int("half", 1)
    win = Sym(2 * h.e + 1)
    for s in r._sh[: 2 if r._sh[-1] == 3 and r.ndim == 3 else r.ndim]:
        k.assume(win.e <= to_z3(s))
    return win


def setting(k, what):
    """(score arguments, definition arguments)"""
    kw = {}
    if what == "constants":
        kw = dict(K1=k.real("K1", 0), K2=k.real("K2", 0))
        return kw, dict(kw)
    if what == "exponents":
        a, b, g = k.choose([(2, 1, 1), (1, 2, 1), (1, 1, 2), (0, 1, 1), (2, 1, 3)])
        return dict(alpha=a, beta=b, gamma=g), dict(exps=(a, b, g))
    if what == "mode":
        kw = dict(mode=k.choose(["nearest", "constant"]), cval=k.choose([0, 7]))
        return kw, dict(kw)
    return {}, {}


DTS = ("uint8", "int16", "float32", "float64")


@S.contract("ssim definition", [SSIM + ".score", SS], reach=("end",), timeout=200,
            cases=[(kd, dt, w, "plain") for kd in ("2d", "3d") for dt in DTS for w in ("gauss", "gauss+window", "uniform", "uniform+window")] +
            [(kd, "uint8", w, s) for kd in ("2d", "3d") for w in ("gauss", "gauss+window", "uniform+window") for s in ("constants", "exponents", "mode", "sigma")])
def ssim_def(k, kind, dt, wkind, what):
    r, m = pair(k, kind, dt)
    dr = k.choose([1, "real"])
    if dr == "real":
        dr = k.real("range")
        k.assume(dr > 0)
    kw, sk = setting(k, what)
    if what == "sigma":
        sg = k.choose([0.5, 2, 3.25])
        kw, sk = dict(sigma=sg), dict(sigma=sg)
    gauss = wkind.startswith("gauss")
    if "window" in wkind:
        win = kw["win_size"] = window(k, r)
        sample = True
    else:
        win = 2 * int(3.5 * sk.get("sigma", 1.5) + 0.5) + 1 if gauss else 7
        sample = not gauss
        for s in r._sh:
            k.assume(to_z3(s) >= win)
    if not gauss:
        kw["gaussian_weights"] = False
    met = k.call(SSIM, data_range=dr).value
    got = k.returns(k.call(met.score, r, m, **kw), "returns")
    k.eq("definition", got, definition(r, m, dr, win, gauss, sample, **sk))
    k.unchanged("frame", r)
    k.unchanged("frame", m)
    k.reach("end")


@S.contract("uqi definition", [UQI + ".score", SS], reach=("end",), cases=[(kd, dt, w) for kd in ("2d", "3d") for dt in DTS for w in ("default", "window", "mode")])
def uqi_def(k, kind, dt, what):
    r, m = pair(k, kind, dt)
    dr = k.choose([1, "real"])
    if dr == "real":
        dr = k.real("range")
        k.assume(dr > 0)
    kw, sk, win = {}, {}, 7
    if what == "window":
        win = kw["win_size"] = window(k, r)
    else:
        for s in r._sh:
            k.assume(to_z3(s) >= win)
    if what == "mode":
        kw = sk = dict(mode="constant", cval=3)
    met = k.call(UQI, data_range=dr).value
    got = k.returns(k.call(met.score, r, m, **kw), "returns")
    k.eq("definition", got, definition(r, m, dr, win, False, True, K1=0, K2=0, **sk))
    k.reach("end")


@S.contract("colour", [SSIM + ".score", SS], reach=("end",), timeout=200, cases=[(dt, w) for dt in ("uint8", "float32") for w in ("list", "array")])
def colour(k, dt, wk):
    r, m = pair(k, "rgb", dt, 11)
    w = [k.real(f"w{i}") for i in range(3)]
    met = k.call(SSIM, data_range=1, chromatic=True).value
    wa = N.array(w)
    if wk == "list":
        from vc.loops import VList

        wa = VList(w)
    got = k.returns(k.call(met.score, r, m, color_weights=wa), "returns")
    ch = [definition(r[..., c], m[..., c], 1, 11, True, False) for c in range(3)]
    k.eq("weighted mean of the channels", got, sum((a.e * as_real(to_z3(b)) for a, b in zip(w, ch)), z3.RealVal(0)) / 3)
    k.raises(k.call(met.score, r, m), ValueError, "weights are needed")
    k.reach("end")


@S.contract("grey of colour", [SSIM + ".score", UQI + ".score"], reach=("end",), cases=[(c,) for c in ("SSIM", "UQI")])
def grey(k, cname):
    r, m = pair(k, "rgb", "uint8", 11)
    g = [A.new_array(a._sh[:2], A.as_dtype("float64"), luma(a, *IDX[:2])) for a in (r, m)]
    met = k.call(SSIM if cname == "SSIM" else UQI, data_range=1).value
    got = k.returns(k.call(met.score, r, m), "returns")
    if cname == "SSIM":
        e = definition(g[0], g[1], 1, 11, True, False)
    else:
        e = definition(g[0], g[1], 1, 7, False, True, K1=0, K2=0)
    k.eq("definition of the luminance", got, e)
    k.reach("end")


@S.contract("identical images", [SSIM + ".score", UQI + ".score", SS], reach=("end",),
            cases=[(c, kd, dt) for c in ("SSIM", "UQI") for kd in ("2d", "3d") for dt in ("uint8", "float32")])
def identical(k, cname, kind, dt):
    r, _ = pair(k, kind, dt, 11)
    kw = {}
    w = k.choose(["default", "window", "uniform", "exponents", "constants"] if cname == "SSIM" else ["default", "window"])
    if w == "window":
        kw["win_size"] = window(k, r)
    elif w == "uniform":
        kw["gaussian_weights"] = False
    elif w == "exponents":
        kw = dict(alpha=2, beta=3, gamma=2)
    elif w == "constants":
        kw = dict(K1=k.real("K1", 0), K2=k.real("K2", 0))
    met = k.call(SSIM if cname == "SSIM" else UQI, data_range=1).value
    k.eq("identical images score 1", k.returns(k.call(met.score, r, r.copy(), **kw), "returns"), 1)
    k.reach("end")


@S.contract("exchanged images", [SSIM + ".score", UQI + ".score", SS], reach=("end",),
            cases=[(c, kd, dt) for c in ("SSIM", "UQI") for kd in ("2d", "3d") for dt in ("uint8", "float32")])
def exchanged(k, cname, kind, dt):
    r, m = pair(k, kind, dt, 11)
    kw = {}
    w = k.choose(["default", "window", "uniform", "exponents", "constants"] if cname == "SSIM" else ["default", "window"])
    if w == "window":
        kw["win_size"] = window(k, r)
    elif w == "uniform":
        kw["gaussian_weights"] = False
    elif w == "exponents":
        kw = dict(alpha=2, beta=3, gamma=2)
    elif w == "constants":
        kw = dict(K1=k.real("K1", 0), K2=k.real("K2", 0))
    met = k.call(SSIM if cname == "SSIM" else UQI, data_range=1).value
    a = k.returns(k.call(met.score, r, m, **kw), "returns")
    b = k.returns(k.call(met.score, m, r, **kw), "returns")
    k.eq("symmetric", a, b)
    k.reach("end")


@S.contract("rejections", [SSIM + ".score", UQI + ".score", SS], reach=("end",),
            cases=[(c, kd, w) for c in ("SSIM", "UQI") for kd in ("2d", "3d") for w in ("K1", "K2", "sigma", "even", "large", "default window", "even uniform", "large uniform")
                   if c == "SSIM" or w in ("even", "large", "default window", "sigma")])
def rejections(k, cname, kind, what):
    r, m = pair(k, kind, "float32")
    met = k.call(SSIM if cname == "SSIM" else UQI, data_range=1).value
    kw = {}
    if what in ("K1", "K2", "sigma"):
        v = k.real("v")
        k.assume(v < 0)
        kw[what] = v
        if k.choose([0, 1]):
            kw[what] = k.choose([-1, -0.001])
    elif what.startswith("even"):
        h = k.int("half", 0)
        kw["win_size"] = Sym(2 * h.e)
        for s in r._sh:
            k.assume(2 * h.e <= to_z3(s))
    elif what.startswith("large"):
        kw["win_size"] = k.int("win", 1)
        k.assume(z3.Or(*[kw["win_size"].e > to_z3(s) for s in r._sh]))
    else:
        k.assume(z3.Or(*[to_z3(s) < (11 if cname == "SSIM" else 7) for s in r._sh]))
    if what.endswith("uniform"):
        kw["gaussian_weights"] = False
    k.raises(k.call(met.score, r, m, **kw), ValueError, "rejected")
    k.check("no score", met.score_val is None)
    k.reach("end")
