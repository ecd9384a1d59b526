"""C15: SNR and CNR use exactly the voxels of their regions."""

import z3

from vc import arr as A
from vc import npmod as N
from vc.contract import Suite
from vc.core import IDX, Sym, as_real, to_z3

S = Suite("C15")
SNR, CNR = "viqa.nr_metrics.snr:SNR", "viqa.nr_metrics.cnr:CNR"
SNRF, CNRF = "viqa.nr_metrics.snr:signal_to_noise_ratio", "viqa.nr_metrics.cnr:contrast_to_noise_ratio"
CUBE, SPH, FULL = ("cubic", "cube", "square"), ("spherical", "sphere", "circle"), ("full", "original")
W = ("0.2125", "0.7154", "0.0721")
M = (("0.2126", "0.7152", "0.0722"), ("-0.09991", "-0.33609", "0.436"), ("0.615", "-0.55861", "-0.05639"))


def image(k, kind, dt):
    if kind == "rgb":
        return k.arr("img", shape=(k.int("n0", 1), k.int("n1", 1), 3), dtype=dt)
    nd = int(kind[0])
    sh = tuple(k.int(f"n{d}", 1) for d in range(nd))
    if nd == 3:
        k.assume(sh[-1] > 3)
    return k.arr("img", shape=sh, dtype=dt)


def centre(k, a, nd, r, name="c"):
    c = tuple(k.int(f"{name}{d}", 0) for d in range(nd))
    for x, n in zip(c, a._sh):
        k.assume(z3.And(x.e - r.e >= 0, x.e + r.e <= to_z3(n)))
    return c


def stats(val, shape, c, r, region):
    """(mean, variance) over the region of val (a function of the index)."""
    nd = len(shape)
    if region in CUBE:
        box = [2 * r.e] * nd
        body = as_real(val(*[IDX[d] + c[d].e - r.e for d in range(nd)]))
        n = as_real(N.size_term(box))
        m = N.sum_term(box, body) / n
        return m, N.sum_term(box, (body - m) * (body - m)) / n
    body = as_real(val(*IDX[:nd]))
    if region in FULL:
        n = as_real(N.size_term(shape))
        m = N.sum_term(shape, body) / n
        return m, N.sum_term(shape, (body - m) * (body - m)) / n
    d2 = sum(((IDX[d] - c[d].e) * (IDX[d] - c[d].e) for d in range(nd)), z3.IntVal(0))
    ins = d2 <= r.e * r.e
    zero = z3.RealVal(0)
    n = as_real(N.sum_term(shape, z3.If(ins, z3.IntVal(1), z3.IntVal(0)), isint=True))
    m = N.sum_term(shape, z3.If(ins, body, zero)) / n
    return m, N.sum_term(shape, z3.If(ins, (body - m) * (body - m), zero)) / n


def ratio(k, label, got, num, var):
    """got == num / sqrt(var), 0 if var == 0."""
    sd = A.SQRT(var)
    k.eq(label, got, z3.If(sd == 0, z3.RealVal(0), num / sd))


KINDS = [("2d", "float64"), ("2d", "uint8"), ("3d", "float32"), ("3d", "uint16"), ("2d", "int16")]


@S.contract("snr", [SNR + ".score", SNRF, "viqa.utils.misc:_to_cubic", "viqa.utils.misc:_to_spherical"],
            cases=[(kd, dt, reg) for kd, dt in KINDS for reg in CUBE + SPH + FULL], reach=("end",))
def snr(k, kind, dt, reg):
    a = image(k, kind, dt)
    r = k.int("r", 1)
    nd = a.ndim
    c = centre(k, a, nd, r)
    met = k.call(SNR).value
    v = k.returns(k.call(met.score, a, signal_center=c, radius=r, region_type=reg), "returns")
    m, var = stats(lambda *i: a.at(*i), a._sh, c, r, reg)
    ratio(k, "mean by deviation of the region", v, m, var)
    k.unchanged("frame", a)
    k.reach("end")


@S.contract("cnr", [CNR + ".score", CNRF, "viqa.utils.misc:_to_cubic", "viqa.utils.misc:_to_spherical"],
            cases=[(kd, dt, reg) for kd, dt in KINDS for reg in CUBE + SPH + FULL], reach=("end",))
def cnr(k, kind, dt, reg):
    a = image(k, kind, dt)
    r = k.int("r", 1)
    c, b = centre(k, a, a.ndim, r, "s"), centre(k, a, a.ndim, r, "b")
    met = k.call(CNR).value
    v = k.returns(k.call(met.score, a, signal_center=c, background_center=b, radius=r, region_type=reg), "returns")
    m, _ = stats(lambda *i: a.at(*i), a._sh, c, r, reg)
    mb, vb = stats(lambda *i: a.at(*i), a._sh, b, r, reg)
    ratio(k, "difference of means by background deviation", v, m - mb, vb)
    k.unchanged("frame", a)
    k.reach("end")


@S.contract("colour snr", [SNR + ".score", SNRF, "viqa.utils.misc:_rgb_to_yuv", "viqa.utils.misc:_to_grayscale"],
            cases=[(dt, reg, y) for dt in ("float64", "uint8") for reg in ("cubic", "spherical", "full", "square", "circle")
                   for y in (True, False)], reach=("end",))
def colour(k, dt, reg, yuv):
    a = image(k, "rgb", dt)
    r = k.int("r", 1)
    c = centre(k, a, 2, r)
    met = k.call(SNR).value
    v = k.returns(k.call(met.score, a, signal_center=c, radius=r, region_type=reg, yuv=yuv), "returns")
    sh = a._sh[:2]
    if yuv:
        k.check("three values", isinstance(v, tuple) and len(v) == 3, repr(type(v)))
        chans = [lambda i, j, row=row: sum((z3.RealVal(w) * as_real(a.at(i, j, q)) for q, w in enumerate(row)),
                                           z3.RealVal(0)) for row in M]
        st = [stats(f, sh, c, r, reg) for f in chans]
        for ch in range(3):
            ratio(k, f"channel {'YUV'[ch]}", v[ch], st[0][0], st[ch][1])
    else:
        k.check("four values", isinstance(v, tuple) and len(v) == 4, repr(type(v)))

        def luma(i, j):
            x = sum((z3.RealVal(w) * as_real(a.at(i, j, q)) for q, w in enumerate(W)), z3.RealVal(0))
            return z3.If(x > 255, z3.RealVal(255), x)

        ratio(k, "luminance", v[0], *stats(luma, sh, c, r, reg))
        for ch in range(3):
            ratio(k, f"channel {'RGB'[ch]}", v[1 + ch], *stats(lambda i, j: a.at(i, j, ch), sh, c, r, reg))
    k.unchanged("frame", a)
    k.reach("end")


@S.contract("snr rejections", [SNR + ".score", SNRF], cases=[(kd, m) for kd in ("2d", "3d", "rgb")
                                                           for m in ("border", "radius", "float radius", "float centre")],
            reach=("end",))
def snr_rej(k, kind, mode):
    a = image(k, kind, "float64")
    nd = 3 if kind == "3d" else 2
    bad(k, mode, a, nd, lambda c, r: k.call(k.call(SNR).value.score, a, signal_center=c, radius=r))
    k.reach("end")


def bad(k, mode, a, nd, call):
    if mode == "border":
        r = k.int("r", 1)
        c = tuple(k.int(f"c{d}", 0) for d in range(nd))
        k.assume(z3.Or(*[z3.Or(x.e - r.e < 0, x.e + r.e > to_z3(n)) for x, n in zip(c, a._sh)]))
        k.raises(call(c, r), ValueError, "centre too close to the border raises")
    elif mode == "radius":
        r = k.int("r", hi=0)
        c = tuple(k.int(f"c{d}", 0) for d in range(nd))
        for x, n in zip(c, a._sh):
            k.assume(z3.And(x.e < to_z3(n), x.e >= 0))
        k.assume(z3.And(*[x.e + r.e <= to_z3(n) for x, n in zip(c, a._sh)]))
        k.raises(call(c, r), TypeError, "non-positive radius raises")
    elif mode == "float radius":
        r = k.real("r", 0)
        c = tuple(k.int(f"c{d}", 0) for d in range(nd))
        for x, n in zip(c, a._sh):
            k.assume(z3.And(as_real(x.e) - r.e >= 0, as_real(x.e) + r.e <= as_real(to_z3(n))))
        k.raises(call(c, r), TypeError, "non-integer radius raises")
    else:
        r = k.int("r", 1)
        c = [k.int(f"c{d}", 0) for d in range(nd)]
        for x, n in zip(c, a._sh):
            k.assume(z3.And(x.e - r.e >= 0, x.e + r.e <= to_z3(n)))
        w = k.choose(list(range(nd)))
        c[w] = k.real("cf")
        k.raises(call(tuple(c), r), TypeError, "non-integer centre raises")


@S.contract("cnr rejections", [CNR + ".score", CNRF],
            cases=[(kd, m, w) for kd in ("2d", "3d") for m in ("border", "radius", "float radius", "float centre")
                   for w in ("signal", "background")], reach=("end",))
def cnr_rej(k, kind, mode, which):
    a = image(k, kind, "float64")
    nd = int(kind[0])

    def call(c, r):
        o = tuple(k.int(f"o{d}", 0) for d in range(nd))
        for x, n in zip(o, a._sh):
            k.assume(z3.And(as_real(x.e) - as_real(r.e) >= 0, as_real(x.e) + as_real(r.e) <= as_real(to_z3(n))))
        kw = dict(signal_center=c, background_center=o) if which == "signal" else dict(signal_center=o, background_center=c)
        return k.call(k.call(CNR).value.score, a, radius=r, **kw)

    bad(k, mode, a, nd, call)
    k.reach("end")
