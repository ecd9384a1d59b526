"""C17: scoring, loading and converting never modify the caller's data."""

import z3

from contracts.c10 import bank, csf_contract
from contracts.c13 import Pick, setup
from contracts.metrics import CHROMATIC, FR, NR
from vc import arr as A
from vc import induct
from vc import loops as L
from vc.contract import Suite
from vc.core import Sym, Unsupported, as_real, to_z3

S = Suite("C17")
S.assumptions = ["library functions of numpy, scipy, scikit-image, torch and piq do not write to their arguments unless out= or an in-place operator says so",
                 "the native block statistics do not write to the image (C11)"]
LD, MI = "viqa.utils.loading:", "viqa.utils.misc:"
IA = LD + "ImageArray"
DTS = ("uint8", "uint16", "int16", "float32", "float64")


# ---------------------------------------------------------------- snapshots
def same_value(k, label, x, y):
    """Same object or provably the same value."""
    if x is y:
        k.check(label, True)
    elif getattr(type(x), "_vc_tensor", False) and getattr(type(y), "_vc_tensor", False):
        same_value(k, label, x.a, y.a)
    elif isinstance(x, A.ndarray) and isinstance(y, A.ndarray):
        k.check(label + " (type)", x.dtype.name == y.dtype.name and x.ndim == y.ndim, f"{x.dtype.name} vs {y.dtype.name}")
        if x.ndim == 0:
            k.eq(label, x.item(), y.item())
        elif x.dtype.kind != "O":
            k.elements(label, x, y._sh, lambda *i: y.at(*i))
        else:
            for i in __import__("numpy").ndindex(*x.shape):
                same_value(k, label, x[i], y[i])
    elif isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        k.check(label + " (length)", len(x) == len(y), f"{len(x)} vs {len(y)}")
        for a, b in zip(x, y):
            same_value(k, label, a, b)
    elif isinstance(x, dict) and isinstance(y, dict):
        k.check(label + " (keys)", list(x) == list(y), f"{list(x)} vs {list(y)}")
        for n in x:
            same_value(k, label, x[n], y[n])
    elif isinstance(x, (Sym, int, float)) and isinstance(y, (Sym, int, float)) and not isinstance(x, bool):
        k.eq(label, x, y)
    elif isinstance(x, A.MaskedArray if hasattr(A, "MaskedArray") else ()):
        raise Unsupported("masked array")
    else:
        k.check(label, type(x) is type(y) and (x == y or hasattr(x, "__dict__")), f"{x!r:.80} vs {y!r:.80}")


class Watch:
    """The caller's objects as they were before the call."""

    def __init__(self, k, *objs):
        self.k, self.at = k, []
        for o in objs:
            self.add(o)

    def add(self, o):
        if getattr(type(o), "_vc_tensor", False):
            o = o.a
        if isinstance(o, A.ndarray):
            self.at.append((o, "array", (tuple(o._sh), o.dtype.name, type(o))))
        elif isinstance(o, dict):
            self.at.append((o, "dict", dict(o)))
            for v in o.values():
                self.add(v)
        elif isinstance(o, (list, tuple)):
            self.at.append((o, "list", list(o)))
            for v in o:
                self.add(v)
        return o

    def check(self, label="caller's data unchanged"):
        k = self.k
        for o, what, was in self.at:
            if what == "array":
                k.check(label + " (shape and type)", type(o) is was[2] and o.dtype.name == was[1] and len(o._sh) == len(was[0]))
                for a, b in zip(o._sh, was[0]):
                    if a is not b:
                        k.eq(label + " (shape)", a, b)
                k.unchanged(label, o)
            elif what == "list":
                k.check(label + " (length)", len(o) == len(was), f"{len(o)} vs {len(was)}")
                for a, b in zip(list(o), was):
                    same_value(k, label, a, b)
            else:
                k.check(label + " (keys)", list(o) == list(was), f"{list(o)} vs {list(was)}")
                for n in was:
                    same_value(k, label, o[n], was[n])


def twice(k, label, fn, w):
    """Frame condition of one call, and equal outcomes of two."""
    a = k.call(fn)
    w.check()
    b = k.call(fn)
    w.check()
    if a.ok:
        same_value(k, label + " gives the same result again", k.returns(b, label + " can be repeated"), a.value)
        k.reach("end")
    else:
        k.raises(b, type(a.exc), label + " fails the same way again")
    return a


def shape(k, kind, lo=1):
    if kind == "rgb":
        return (k.int("n0", lo), k.int("n1", lo), 3)
    sh = tuple(k.int(f"n{d}", lo) for d in range(int(kind[0])))
    if kind == "3d":
        k.assume(sh[2] > 3)
    return sh


def image(k, name, kind, dt, c="ndarray", lo=1, sh=None):
    return k.arr(name, shape=sh or shape(k, kind, lo), dtype=dt, cls=k.get(IA) if c == "ImageArray" else None)


def box(k, sh):
    out = []
    for d, n in enumerate(sh):
        lo, hi = k.int(f"lo{d}", 0), k.int(f"hi{d}")
        k.assume(z3.And(lo.e < hi.e, hi.e <= to_z3(n)))
        if d == 2:
            k.assume(hi - lo > 3)
        out.append(k.choose([(lo, hi)]))
    return out


# ---------------------------------------------------------------- loading
@S.contract("load_data", [LD + "load_data", LD + "normalize_data", LD + "crop_image"], reach=("end",),
            cases=[(kd, dt, c) for kd in ("2d", "3d", "rgb") for dt in DTS for c in ("ndarray", "ImageArray", "Tensor")
                   if c != "Tensor" or dt in ("uint8", "float32")])
def load(k, kind, dt, c):
    a = image(k, "a", kind, dt, "ndarray" if c == "Tensor" else c)
    x = k.prog.stubs["torch"].from_numpy(a) if c == "Tensor" else a
    kw = {}
    if k.choose([0, 1]):
        kw.update(normalize=True, data_range=k.choose([1, 255, 65535]))
        i, j = k.skolem(a._sh), k.skolem(a._sh)
        k.assume(a.at(*i) != a.at(*j))
    if k.choose([0, 1]):
        kw["roi"] = L.VList(box(k, a._sh[:2] if kind == "rgb" else a._sh))
        if k.choose([0, 1]):
            kw["roi"] = L.VList([L.VList(r) for r in kw["roi"]])
    w = Watch(k, a, kw)
    twice(k, "loading", lambda: k.get(LD + "load_data")(x, **kw), w)


@S.contract("normalize_data", [LD + "normalize_data"], reach=("end",),
            cases=[(kd, dt, c) for kd in ("2d", "3d") for dt in DTS for c in ("ndarray", "ImageArray")])
def normalise(k, kind, dt, c):
    a = image(k, "a", kind, dt, c)
    i, j = k.skolem(a._sh), k.skolem(a._sh)
    k.assume(a.at(*i) != a.at(*j))
    out = k.choose([(0, 1), (0, 255), (0, 65535), (2, 7), [0, 255]])
    kw = k.choose([{}, {"automatic_data_range": False, "data_range_input": [0, k.int("hi", 1)]}, {"automatic_data_range": False, "data_range_input": (0, 4000)}])
    w = Watch(k, a, out, kw)
    twice(k, "normalising", lambda: k.get(LD + "normalize_data")(a, out, **kw), w)


@S.contract("crop_image", [LD + "crop_image"], reach=("end",), cases=[(kd, c) for kd in ("2d", "3d", "rgb") for c in ("ndarray", "ImageArray")])
def crop(k, kind, c):
    a = image(k, "a", kind, k.choose(["uint8", "float32"]), c)
    b = box(k, a._sh[:2] if kind == "rgb" else a._sh)
    if k.choose([0, 1]):
        b = [L.VList(x) for x in b]
    w = Watch(k, a, b)
    twice(k, "cropping", lambda: k.get(LD + "crop_image")(a, *b), w)


@S.contract("image array", [IA + ".__new__", IA + ".__array_ufunc__", IA + ".calculate_statistics", IA + ".describe"], reach=("end",),
            cases=[(dt, w) for dt in ("uint8", "float64") for w in ("new", "arithmetic", "statistics")])
def imagearray(k, dt, what):
    a = image(k, "a", "2d", dt)
    b = image(k, "b", "2d", dt, sh=a._sh)
    cls = k.get(IA)
    w = Watch(k, a, b)

    def f():
        x, y = cls(a), cls(b)
        if what == "new":
            return x
        if what == "statistics":
            x.calculate_statistics()
            return [getattr(x, n, None) for n in ("mean_value", "median", "variance", "standarddev", "skewness", "kurtosis", "minimum", "maximum")]
        return [x + y, x - b, a * y, x / 2, -x, x > y]

    twice(k, what, f, w)


# ---------------------------------------------------------------- conversions and regions
def conv(k, name):
    """Callable, watched objects."""
    g = lambda n: k.get(MI + n)  # noqa: E731
    dt = k.choose(["uint8", "float32", "float64"])
    if name in ("_to_grayscale", "_rgb_to_yuv"):
        a = image(k, "a", "rgb", dt, k.choose(["ndarray", "ImageArray"]))
        return (lambda: g(name)(a)), (a,)
    if name == "_to_float":
        a = image(k, "a", k.choose(["2d", "3d", "rgb"]), dt)
        return (lambda: g(name)(a)), (a,)
    if name in ("_fft", "_ifft"):
        a = image(k, "a", "2d", "float64")
        return (lambda: g(name)(a)), (a,)
    if name == "_extract_blocks":
        a = image(k, "a", "2d", "float64", lo=4)
        return (lambda: g(name)(a, block_size=4, stride=2)), (a,)
    if name == "_check_chromatic":
        kd = k.choose(["2d", "3d", "rgb"])
        a = image(k, "a", kd, dt)
        b = image(k, "b", kd, dt, sh=a._sh)
        ch = kd == "rgb"
        return (lambda: g(name)(a, b, ch)), (a, b)
    if name == "gabor_convolve":
        a = image(k, "a", "2d", "float64", lo=3)
        return (lambda: g(name)(a, 2, 2, 3, 3, 0.55, 1.5)), (a,)
    if name == "correlate_convolve_abs":
        nd = 2
        a = image(k, "a", "2d", dt, lo=3)
        ker = k.arr("ker", shape=(3,) * nd, dtype="float64")
        m = k.choose(["correlate", "convolve"])
        bm = k.choose(["constant", "reflect", "nearest", "mirror", "wrap"])
        return (lambda: g(name)(a, ker, mode=m, border_mode=bm)), (a, ker)
    if name in ("_check_imgs", "_resize_image"):
        kd = k.choose(["2d", "3d", "rgb"])
        a = image(k, "a", kd, dt)
        sh = tuple(k.int(f"s{d}", 1) for d in range(a.ndim)) if kd != "rgb" else (k.int("s0", 1), k.int("s1", 1), 3)
        if kd == "3d":
            k.assume(sh[2] > 3)
        b = image(k, "b", kd, dt, sh=sh)
        if name == "_resize_image":
            return (lambda: k.get(LD + name)(a, b)), (a, b)
        kw = {"roi": None} if False else {}
        if k.choose([0, 1]):
            kw["normalize"], kw["data_range"] = True, 255
        return (lambda: k.get(LD + name)(a, b, **kw)), (a, b)
    if name == "_get_binary":
        a = image(k, "a", k.choose(["2d", "3d", "rgb"]), dt)
        lo, hi = k.int("lo", 0, 100), k.int("hi", 0, 100)
        return (lambda: g(name)(a, lo, hi)), (a,)
    kd = k.choose(["2d", "3d", "rgb"])
    a = image(k, "a", kd, dt if name != "find_largest_region" else "bool", lo=9)
    nd = 3 if kd == "3d" else 2
    if name == "find_largest_region":
        rt = k.choose(["cubic", "spherical", "full", "original", "other"])
        return (lambda: g(name)(a, 2, rt)[:2]), (a,)
    rad = k.int("rad", 1, 4)
    c = [k.int(f"c{d}", 4) for d in range(nd)]
    for d in range(nd):
        k.assume(c[d].e + rad.e <= to_z3(a._sh[d]))
    c = k.choose([tuple(c), L.VList(c)])

    def region():
        m = g(name)(a, c, rad)
        return [m.sum(), m.mean()] if hasattr(m, "mask") else m

    return region, (a, c)


CONV = ("_to_grayscale", "_rgb_to_yuv", "_to_float", "_fft", "_ifft", "_extract_blocks", "_check_chromatic", "gabor_convolve",
        "correlate_convolve_abs", "_check_imgs", "_resize_image", "_get_binary", "find_largest_region", "_to_cubic", "_to_spherical")


@S.contract("conversion", [(LD if n in ("_check_imgs", "_resize_image") else MI) + n for n in CONV], reach=("end",), timeout=200,
            cases=[(n,) for n in CONV])
def conversions(k, name):
    f, objs = conv(k, name)
    twice(k, name, f, Watch(k, *objs))


# ---------------------------------------------------------------- metrics
def params(k, cname):
    """Score parameters; mutable objects where the metric takes them."""
    r = k.real
    return {"PSNR": lambda: {}, "RMSE": lambda: {}, "UQI": lambda: {}, "SSIM": lambda: k.choose([{}, {"alpha": 1, "beta": 1, "gamma": 1}]),
            "MSSSIM": lambda: k.choose([{}, {"scale_weights": L.VList([0.3, 0.3, 0.4])}, {"scale_weights": [0.5, 0.5], "kernel_size": 7}]),
            "FSIM": lambda: dict(scales=3, k=r("kk")), "VIFp": lambda: dict(sigma_n_sq=r("sn")), "VSI": lambda: dict(c1=r("c1"), alpha=r("al")),
            "GSM": lambda: k.choose([{}, dict(c=r("c"), p=r("p"))]),
            "MAD": lambda: {"block_size": 4, "block_overlap": 0.5, "weights": L.VList([1.0, 2.0]), "scales_num": 2, "orientations_num": 1,
                            "account_monitor": True, "display_function": {"disp_res": 9.0, "view_dis": 80.0},
                            "luminance_function": {"k": 0.02874, "gamma": 2.2}, "csf_function": {"lambda_csf": 0.114, "f_peak": 7.8909}}}[cname]()


@S.contract("full-reference score", [f + ".score" for f in FR.values()] + ["viqa.fr_metrics.mad:most_apparent_distortion", "viqa.fr_metrics.gsm:gradient_similarity"],
            reach=("end",), timeout=250,
            cases=[(c, kd, dt) for c in FR for kd in ("2d", "3d", "rgb") for dt in ("uint8", "float64") if not (kd == "rgb" and c in ("GSM", "MAD", "UQI"))])
def full(k, cname, kind, dt):
    lo = 9 if cname != "GSM" else 3
    r = image(k, "r", kind, dt, lo=lo)
    m = image(k, "m", kind, dt, lo=lo, sh=r._sh)
    if cname == "MAD":
        k.get(FR[cname])
        k.prog.patch(MI + "gabor_convolve", bank)
        k.prog.patch("viqa.fr_metrics.mad:_contrast_sensitivity_function", csf_contract)
    kw = {"data_range": 255}
    if kind == "rgb" and cname in CHROMATIC and k.choose([0, 1]):
        kw["chromatic"] = True
    if k.choose([0, 1]) and cname != "MAD":
        kw["normalize"] = True
        for a in (r, m):
            i, j = k.skolem(a._sh), k.skolem(a._sh)
            k.assume(a.at(*i) != a.at(*j))
    par = params(k, cname)
    if kind == "3d" and cname in ("FSIM", "GSM", "MAD", "MSSSIM", "VIFp", "VSI"):
        par = dict(par, dim=1, im_slice=2)
    met = k.returns(k.call(FR[cname], **kw), "constructed")
    w = Watch(k, r, m, par)
    twice(k, cname, lambda: met.score(r, m, **par), w)


@S.contract("no-reference score", [f + ".score" for f in NR.values()] + [MI + "_to_cubic", MI + "_to_spherical"], reach=("end",), timeout=200,
            cases=[(c, kd, rt) for c in NR for kd in ("2d", "3d", "rgb") for rt in ("cubic", "spherical", "full")])
def noref(k, cname, kind, rt):
    a = image(k, "a", kind, k.choose(["uint8", "float64"]), lo=20)
    nd = 3 if kind == "3d" or cname == "CNR" and kind == "rgb" else 2
    rad = k.int("radius", 1, 5)
    kw = dict(signal_center=tuple(k.int(f"c{d}", 5, 15) for d in range(nd)), radius=rad, region_type=rt)
    if cname == "CNR":
        kw["background_center"] = tuple(k.int(f"b{d}", 5, 15) for d in range(nd))
    if k.choose([0, 1]):
        kw = {n: L.VList(v) if isinstance(v, tuple) else v for n, v in kw.items()}
    met = k.returns(k.call(NR[cname]), "constructed")
    w = Watch(k, a, kw)
    twice(k, cname, lambda: met.score(a, **kw), w)
    if cname == "CNR" and kind == "rgb":
        k.reach("end")  # colour images are rejected; the frame condition still holds


# ---------------------------------------------------------------- several metrics
@S.contract("several metrics", ["viqa.multiple:MultipleMetrics.calculate", "viqa.multiple:_calc"], reach=("end",), timeout=200,
            cases=[(kd, mix) for kd in ("2d", "3d", "rgb") for mix in (("f", "n"), ("n", "f", "f"))])
def several(k, kind, mix):
    dt = k.choose(["uint8", "float64"])
    r = image(k, "r", kind, dt, lo=4)
    same = k.choose([0, 1])
    sh = r._sh if same else tuple(k.int(f"s{d}", 4) if not isinstance(n, int) else n for d, n in enumerate(r._sh))
    m = image(k, "m", kind, dt, sh=sh)
    mets, names, pars = setup(k, mix)
    pars[0]["nested"] = {"a": L.VList([1, 2])}
    kw = {}
    if k.choose([0, 1]):
        lim = r._sh[:2] if kind == "rgb" else r._sh
        kw["roi"] = L.VList(box(k, lim))
    w = Watch(k, r, m, mets, pars, kw)
    mm = k.returns(k.call("viqa.multiple:MultipleMetrics", mets, pars), "constructed")
    twice(k, "calculating", lambda: mm.calculate(r, m, **kw), w)


@S.contract("any number of metrics", ["viqa.multiple:MultipleMetrics.calculate", "viqa.multiple:_calc"], reach=("end",),
            cases=[(a, b) for a in "fn" for b in "fn"])
def unbounded(k, ta, tb):
    r = image(k, "r", "2d", "uint8", lo=4)
    m = image(k, "m", "2d", "uint8", sh=r._sh)
    mets, names, pars = setup(k, (ta, tb))
    pars[1] = {"beta": k.real("beta"), "list": L.VList([1, 2])}
    n = k.int("n", 0)
    ctl, pick = induct.Induct(), Pick()
    mm = k.returns(k.call("viqa.multiple:MultipleMetrics", L.VList([]), L.VList([])), "constructed")
    mm.metrics, mm.metrics_parameters = L.SymSeq(n.e, lambda i: mets[pick(i)]), L.SymSeq(n.e, lambda i: pars[pick(i)])
    mm.metrics.induct = mm.metrics_parameters.induct = ctl
    w = Watch(k, r, m, list(pars))
    k.returns(k.call(mm.calculate, r, m), "calculated")
    w.check()
    if ctl.result == "induction":
        k.reach("end")


@S.contract("batch", ["viqa.multiple:BatchMetrics.calculate", "viqa.multiple:BatchMetrics.__init__", "viqa.multiple:_calc"], reach=("end",), timeout=200,
            cases=[("none",), ("rois",), ("global",)])
def batch(k, how):
    from contracts import c12

    pairs = [(0, 1), (0, 2)]
    fs = c12.files(k, "2d", [0, 1, 2], "uint8", None)
    rois = c12.some_rois(k, "2d", fs, pairs, how)
    mix = ("f", "n")
    k.ctx.files[c12.CSV] = "reference_image,modified_image\n" + "".join(f"{c12.NAMES[a]},{c12.NAMES[b]}\n" for a, b in pairs)
    mets, names, pars = setup(k, mix)
    w = Watch(k, mets, pars, *([rois] if rois is not None else []), *fs.values())
    kw = {"rois": rois} if how == "rois" else {}
    bm = k.returns(k.call(c12.BM, "/data", c12.CSV, mets, pars, **kw), "constructed")
    twice(k, "batch", lambda: bm.calculate(**({"roi": rois[0]} if how == "global" else {})), w)


class Scored:
    def __init__(self, v):
        self.score_val = v


@S.contract("fusion", ["viqa.fusion:fuse_metrics_linear_combination"], reach=("end",), cases=[(0,), (1,), (3,)])
def fusion(k, n):
    ms = L.VList([Scored(k.real(f"s{i}")) for i in range(n)])
    ws = L.VList([k.real(f"w{i}") for i in range(n)])
    was = [m.score_val for m in ms]
    w = Watch(k, ms, ws)
    twice(k, "fusing", lambda: k.get("viqa.fusion:fuse_metrics_linear_combination")(ms, ws), w)
    k.check("scores kept", all(m.score_val is v for m, v in zip(ms, was)))
