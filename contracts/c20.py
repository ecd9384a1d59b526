"""C20: automatically detected regions are the largest ones inside image and foreground."""

import z3

from vc import arr as A
from vc.contract import Suite
from vc.core import Sym, Unsupported, as_bool, as_real, modelled, to_z3

S = Suite("C20")
S.assumptions = [
    "binary_dilation is uninterpreted; binary_erosion with the axis cross, at least one iteration and the default border value removes the image's border voxels",
    "distance_transform_edt gives every voxel its Euclidean distance to the nearest voxel that is not set (0 for those)",
    "argmax / unravel_index name a position of the largest element",
    "numpy.percentile is uninterpreted"]
MI = "viqa.utils.misc:"
FIND, BIN = MI + "find_largest_region", MI + "_get_binary"
SNRF, CNRF = "viqa.nr_metrics.snr:signal_to_noise_ratio", "viqa.nr_metrics.cnr:contrast_to_noise_ratio"
CUBE, SPH = ("cubic", "cube", "square"), ("spherical", "sphere", "circle")
W = ("0.2125", "0.7154", "0.0721")


def image(k, kind, dt, name="img"):
    if kind == "rgb":
        return k.arr(name, shape=(k.int("n0", 1), k.int("n1", 1), 3), dtype=dt)
    nd = int(kind[0])
    sh = tuple(k.int(f"n{d}", 1) for d in range(nd))
    if nd == 3:
        k.assume(sh[-1] > 3)
    return k.arr(name, shape=sh, dtype=dt)


def cross(k, nd):
    """Structuring element: the voxel and its neighbours along the axes."""
    np = k.prog.stubs["numpy"]
    if nd == 2:
        return np.array([[0, 1, 0], [1, 1, 1], [0, 1, 0]], dtype="uint8")
    o = [[0, 0, 0], [0, 1, 0], [0, 0, 0]]
    return np.array([o, [[0, 1, 0], [1, 1, 1], [0, 1, 0]], o], dtype="uint8")


def both_values(k, a):
    np = k.prog.stubs["numpy"]
    return as_bool(to_z3(np.any(a))), z3.Not(as_bool(to_z3(np.all(a))))


def erode(k, a, it):
    return k.prog.stubs["scipy.ndimage"].binary_erosion(a, structure=cross(k, a.ndim), iterations=it)


def detected(k, a, it):
    """Cleaned foreground, distances, centre and radius by definition; instances of the library contracts."""
    np, ndi = k.prog.stubs["numpy"], k.prog.stubs["scipy.ndimage"]
    clean = erode(k, ndi.binary_dilation(a, structure=cross(k, a.ndim), iterations=it), it + 1)
    dist = ndi.distance_transform_edt(clean)
    c = [to_z3(x) for x in np.unravel_index(np.argmax(dist), dist._sh)]
    d = as_real(dist.at(*c))
    k.assume(d >= 0)
    r = z3.ToInt(d)
    for ax in range(a.ndim):  # nearest border voxels along every axis are not set
        for q in (z3.IntVal(0), to_z3(a._sh[ax]) - 1):
            p = list(c)
            p[ax] = q
            gap = as_real(c[ax] - q)
            k.assume(z3.Not(as_bool(clean.at(*p))))
            k.assume(d <= z3.If(gap >= 0, gap, -gap))
    return clean, dist, tuple(Sym(x) for x in c), Sym(r)


def same_array(k, label, got, exp):
    k.check(label + " array", isinstance(got, A.ndarray), type(got).__name__)
    k.elements(label, got, exp._sh, lambda *i: exp.at(*i))


@S.contract("region", [FIND], reach=("end",), timeout=200,
            cases=[(kd, rt) for kd in ("2d", "3d") for rt in CUBE + SPH + ("full", "original", "cleaned")])
def region(k, kind, rt):
    a = image(k, kind, "bool")
    it = k.int("it", 1)
    yes, no = both_values(k, a)
    k.assume(z3.And(yes, no))
    out = k.returns(k.call(FIND, a, it, rt), "returns")
    k.check("triple", isinstance(out, tuple) and len(out) == 3, "not three values")
    centre, radius, reg = out
    clean, dist, c, r = detected(k, a, it)
    k.check("centre rank", len(centre) == a.ndim, f"{len(centre)} coordinates")
    for x, y in zip(centre, c):
        k.eq("centre is a largest distance", x, y)
    k.eq("radius is the integer part of the distance", radius, r)
    for x, n in zip(centre, a._sh):
        x = to_z3(x)
        k.prove("region inside the image", z3.And(x - to_z3(radius) >= 0, x + to_z3(radius) < to_z3(n)))
    idx = k.skolem(a._sh)
    if rt == "original":
        same_array(k, "input", reg, a)
    elif rt == "cleaned":
        same_array(k, "cleaned foreground", reg, clean)
    else:
        k.check("masked", isinstance(reg, A.MaskedArray), "no masked array")
        k.same_shape("mask shape", reg, a._sh)
        if rt in CUBE:
            ins = z3.And(*[z3.And(i >= to_z3(x) - to_z3(r), i < to_z3(x) + to_z3(r)) for i, x in zip(idx, c)])
        elif rt in SPH:
            ins = sum((((i - to_z3(x)) * (i - to_z3(x))) for i, x in zip(idx, c)), z3.IntVal(0)) <= to_z3(r) * to_z3(r)
        else:
            ins = as_bool(erode(k, clean, 2).at(*idx))
        k.prove("mask", as_bool(reg._mask.at(*idx)) == z3.Not(ins))
    k.unchanged("frame", a)
    k.reach("end")


@S.contract("rejections", [FIND], reach=("end",), cases=[(kd, m) for kd in ("2d", "3d") for m in ("empty", "full", "uint8", "float64")] + [("1d", "rank"), ("4d", "rank")])
def rejections(k, kind, mode):
    if mode == "rank":
        a = k.arr("img", shape=tuple(k.int(f"n{d}", 1) for d in range(int(kind[0]))), dtype="bool")
        yes, no = both_values(k, a)
        k.assume(z3.And(yes, no))
        k.raises(k.call(FIND, a, k.int("it", 1), "cubic"), ValueError, "other rank raises")
        k.reach("end")
        return
    a = image(k, kind, "bool" if mode in ("empty", "full") else mode)
    if mode in ("empty", "full"):
        yes, no = both_values(k, a)
        k.assume(z3.Not(yes if mode == "empty" else no))
    k.raises(k.call(FIND, a, k.int("it", 1), "cubic"), ValueError, "not binary raises")
    k.reach("end")


def binary(k, a, lo, hi):
    """Voxels above the lower and at most at the upper percentile."""
    np = k.prog.stubs["numpy"]
    g = a
    if a.ndim == 3 and A.concrete_eq(a._sh[2], 3):
        g = k.get(MI + "_to_grayscale")(a)  # its contract is C16
    p, q = (as_real(to_z3(np.percentile(g, t))) for t in (lo, hi))
    return g, lambda *i: z3.And(as_real(g.at(*i)) > p, as_real(g.at(*i)) <= q)


@S.contract("foreground", [BIN], reach=("end",), cases=[(kd, dt) for kd in ("2d", "3d", "rgb") for dt in ("uint8", "uint16", "float32")])
def foreground(k, kind, dt):
    a = image(k, kind, dt)
    lo, hi = k.real("lo", 0, 100), k.real("hi", 0, 100)
    got = k.returns(k.call(BIN, a, lo, hi), "returns")
    g, f = binary(k, a, lo, hi)
    k.check("boolean", got.dtype == "bool", str(got.dtype))
    k.elements("percentile thresholds", got, g._sh, f)
    k.unchanged("frame", a)
    k.reach("end")


def find_contract(k):
    """find_largest_region by its contract ("region" and "rejections" above)."""
    calls = []

    def f(img, iterations=5, region_type="cubic"):
        if not k.split(z3.And(*both_values(k, img))):
            calls.append((img, iterations, region_type, None, None))
            raise modelled(ValueError("Image must be binary."))
        n = len(calls)
        c = tuple(k.int(f"c{n}_{d}", 0) for d in range(img.ndim))
        r = k.int(f"r{n}", 0)
        for x, s in zip(c, img._sh):
            k.assume(z3.And(x.e - r.e >= 0, x.e + r.e < to_z3(s)))
        calls.append((img, iterations, region_type, c, r))
        return c, r, A.opaque(f"region{n}", [img, iterations], img._sh, A.DT["bool"])

    if not k.prog.patch(FIND, f):
        raise Unsupported("find_largest_region is gone")
    return calls


def looked_for(k, call, a, lo, hi, it, rt):
    """The region was searched in the right percentile range with the caller's options."""
    img, its, reg, c, r = call
    g, f = binary(k, a, lo, hi)
    k.check("boolean", img.dtype == "bool", str(img.dtype))
    k.elements("searched voxels", img, g._sh, f)
    k.eq("iterations", its, it)
    k.check("region type", reg == rt, str(reg))
    return c, r


@S.contract("snr", [SNRF, BIN], reach=("end", "score"), timeout=300, max_paths=400,
            cases=[(kd, dt, rt) for kd, dt in (("2d", "uint8"), ("2d", "float64"), ("3d", "uint16"), ("rgb", "uint8")) for rt in CUBE + SPH])
def snr(k, kind, dt, rt):
    """The automatic score is the score of the detected centre and radius."""
    a = image(k, kind, dt)
    it = k.int("it", 1)
    lo, hi = k.real("lo", 0, 100), k.real("hi", 0, 100)
    kw = {"yuv": k.choose([True, False])} if kind == "rgb" else {}
    calls = find_contract(k)
    out = k.call(SNRF, a, None, None, region_type=rt, auto_center=True, iterations=it, lower_threshold=lo, upper_threshold=hi, **kw)
    if len(calls) != 1:
        raise Unsupported("another way of searching")
    c, r = looked_for(k, calls[0], a, lo, hi, it, rt)
    if c is None:
        k.raises(out, ValueError, "nothing to detect raises")
    elif not k.split(to_z3(r) > 0):
        k.raises(out, TypeError, "empty region raises")
    else:
        v = k.returns(out, "returns")
        w = k.returns(k.call(SNRF, a, c, r, region_type=rt, **kw), "explicit call returns")
        vs, ws = (v, w) if isinstance(w, tuple) else ((v,), (w,))
        k.check("number of values", isinstance(vs, tuple) and len(vs) == len(ws), "")
        for x, y in zip(vs, ws):
            k.eq("same as with the detected region", x, y)
        k.reach("score")
    k.unchanged("frame", a)
    k.reach("end")


@S.contract("cnr", [CNRF, BIN], reach=("end", "score"), timeout=300, max_paths=400,
            cases=[(kd, dt, rt) for kd, dt in (("2d", "uint8"), ("2d", "float64"), ("3d", "uint16")) for rt in CUBE + SPH])
def cnr(k, kind, dt, rt):
    """Foreground: above the 90th percentile; background: up to it; the smaller of the two radii."""
    a = image(k, kind, dt)
    it = k.int("it", 1)
    calls = find_contract(k)
    out = k.call(CNRF, a, None, None, None, region_type=rt, auto_center=True, iterations=it)
    if calls:  # either region may be searched first
        g, f = binary(k, a, 90, 100)
        i = k.skolem(g._sh)
        if k.ctx.prove(as_bool(calls[0][0].at(*i)) == f(*i), 5000)[0] != "proved" and calls[0][0].ndim == len(i):
            g, f = binary(k, a, 0, 90)
            if k.ctx.prove(as_bool(calls[0][0].at(*i)) == f(*i), 5000)[0] == "proved":
                calls.reverse()
                if len(calls) == 1:
                    looked_for(k, calls[0], a, 0, 90, it, rt)
                    k.raises(out, ValueError, "nothing to detect raises")
                    k.reach("end")
                    return
    if len(calls) == 2:
        s = looked_for(k, calls[0], a, 90, 100, it, rt)
        b = looked_for(k, calls[1], a, 0, 90, it, rt)
    elif len(calls) == 1 and calls[0][3] is None:
        s, b = looked_for(k, calls[0], a, 90, 100, it, rt), (None, None)
    else:
        raise Unsupported("another way of searching")
    if s[0] is None or b[0] is None:
        k.raises(out, ValueError, "nothing to detect raises")
        k.unchanged("frame", a)
        k.reach("end")
        return
    r = Sym(z3.If(to_z3(s[1]) <= to_z3(b[1]), to_z3(s[1]), to_z3(b[1])))
    if not k.split(to_z3(r) > 0):
        k.raises(out, TypeError, "empty region raises")
    else:
        v = k.returns(out, "returns")
        w = k.returns(k.call(CNRF, a, b[0], s[0], r, region_type=rt), "explicit call returns")
        k.eq("same as with the detected regions", v, w)
        k.reach("score")
    k.unchanged("frame", a)
    k.reach("end")
