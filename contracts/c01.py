"""C01: full-reference metrics only ever score a compatible pair of images."""

import z3

from contracts.metrics import CHROMATIC, FR
from contracts.c16 import luma
from vc import arr as A
from vc import libs
from vc import npmod as N
from vc.contract import Suite
from vc.core import Sym, as_real, to_z3

S = Suite("C01")
LOAD = "viqa.utils.loading:load_data"
CHECK = "viqa.utils.loading:_check_imgs"
DTS = ("uint8", "uint16", "int16", "int32", "float16", "float32", "float64")
ALLT = ("bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float16", "float32", "float64")
LI = "viqa._metrics:FullReferenceMetricsInterface.load_images"


def wrap(k, a, how):
    if how == "ImageArray":
        return a.view(k.get("viqa.utils.loading:ImageArray"))
    if how == "Tensor":
        return libs.Tensor(a)
    if how == "file":
        p = f"/data/{a._buf.name}.png"
        k.ctx.files[p] = a
        return p
    return a


def same(k, r, m):
    """z3 condition: equal shapes (equal ranks)."""
    return z3.And(*[to_z3(x) == to_z3(y) for x, y in zip(r._sh, m._sh)])


@S.contract("pair is compatible or rejected", [LI, CHECK, LOAD],
            cases=[(a, b, c) for a in (2, 3) for b in (2, 3)
                   for c in ("ndarray", "ImageArray", "Tensor", "file", "mixed")], reach=("end",))
def pair(k, nr, nm, cls):
    dts = ("uint8", "int16", "float32")
    dr, dm = k.choose(dts), k.choose(dts)
    r, m = k.arr("r", nr, dr), k.arr("m", nm, dm)
    met = k.call(FR["RMSE"]).value
    cr, cm = (("ndarray", "Tensor") if cls == "mixed" else (cls, cls))
    out = k.call(met.load_images, wrap(k, r, cr), wrap(k, m, cm))
    k.unchanged("frame", r)
    k.unchanged("frame", m)
    k.reach("end")
    if nr != nm or dr != dm:
        k.raises(out, ValueError, "unequal rank or type is rejected")
        return
    if not k.split(same(k, r, m)):
        k.raises(out, ValueError, "unequal shape is rejected")
        return
    x, y = k.returns(out, "compatible pair is accepted")
    if nr == 3 and k.split(to_z3(r._sh[2]) == 3):
        for a, g in ((r, x), (m, y)):
            k.elements("luminance", g, a._sh[:2], lambda *i: luma(a, *i))
    else:
        for a, g in ((r, x), (m, y)):
            k.elements("values of the input", g, a._sh, lambda *i: a.at(*i))
    k.check("equal types", x.dtype == y.dtype)


@S.contract("every pair of types", [LI, CHECK, LOAD], reach=("end",), max_paths=800, timeout=200,
            cases=[(nd, c) for nd in (2, 3) for c in ("ndarray", "ImageArray")])
def types(k, nd, cls):
    """Only equal element types are scored, whatever their size and kind."""
    r_t, m_t = k.choose(ALLT), k.choose(ALLT)
    sh = tuple(k.int(f"n{d}", 1) for d in range(nd))
    r, m = k.arr("r", shape=sh, dtype=r_t), k.arr("m", shape=sh, dtype=m_t)
    out = k.call(k.call(FR["RMSE"]).value.load_images, wrap(k, r, cls), wrap(k, m, cls))
    if r_t != m_t:
        k.raises(out, ValueError, f"{r_t} with {m_t} is rejected")
    else:
        k.returns(out, f"{r_t} is accepted")
    k.reach("end")


@S.contract("normalised and cropped pair", [LI, CHECK, LOAD],
            cases=[(kd, dr, dm, rng) for kd in ("2d", "3d", "rgb") for dr, dm, rng in
                   (("float64", "float64", None), ("uint8", "uint8", 1), ("uint8", "uint16", 255), ("uint8", "uint16", 1),
                    ("float32", "int16", 65535), ("uint8", "float32", None))], reach=("end",))
def prepared(k, kind, dr, dm, rng):
    nd = 2 if kind == "2d" else 3
    if kind == "rgb":
        r = k.arr("r", shape=(k.int("a0", 1), k.int("a1", 1), 3), dtype=dr)
        m = k.arr("m", shape=(k.int("b0", 1), k.int("b1", 1), 3), dtype=dm)
    else:
        r, m = k.arr("r", nd, dr), k.arr("m", nd, dm)
        if nd == 3:
            k.assume(z3.And(to_z3(r._sh[2]) != 3, to_z3(m._sh[2]) != 3))
    roi = None
    if k.choose([False, True]):
        roi = []
        for d in range(2 if kind != "3d" else 3):
            lo, hi = k.int(f"lo{d}", 0), k.int(f"hi{d}")
            k.assume(z3.And(lo.e < hi.e, hi.e <= to_z3(r._sh[d]), hi.e <= to_z3(m._sh[d])))
            roi.append((lo, hi))
        if kind == "3d":
            k.assume((hi - lo) != 3)
    if rng:
        for a in (r, m):
            i, j = k.skolem(a._sh), k.skolem(a._sh)
            k.assume(a.at(*i) != a.at(*j))
    kw = dict(normalize=bool(rng), data_range=rng or 255)
    chrom = kind == "rgb" and k.choose([True, False])
    met = k.call(FR["PSNR"], roi=roi, chromatic=chrom, **kw).value
    out = k.call(met.load_images, r, m)
    lr = k.returns(k.call(LOAD, r, data_range=rng, normalize=bool(rng), roi=roi), "reference loads")
    lm = k.returns(k.call(LOAD, m, data_range=rng, normalize=bool(rng), roi=roi), "modified loads")
    k.reach("end")
    if lr.dtype != lm.dtype:
        k.raises(out, ValueError, "unequal types are rejected")
        return
    if not k.split(same(k, lr, lm)):
        k.raises(out, ValueError, "unequal shapes are rejected")
        return
    x, y = k.returns(out, "compatible pair is accepted")
    for a, g in ((lr, x), (lm, y)):
        if kind == "rgb" and not chrom:
            k.elements("luminance of the prepared image", g, a._sh[:2], lambda *i: luma(a, *i))
        else:
            k.elements("values of the prepared image", g, a._sh, lambda *i: a.at(*i))
    k.check("equal types", x.dtype == y.dtype)


@S.contract("chromatic", [LI, CHECK], cases=[(c, kd) for c in CHROMATIC for kd in ("2d", "3d", "rgb")], reach=("end",))
def chromatic(k, cname, kind):
    dt = k.choose(["uint8", "float32"])
    if kind == "rgb":
        sh = (k.int("a0", 1), k.int("a1", 1), 3)
    else:
        sh = tuple(k.int(f"a{d}", 1) for d in range(int(kind[0])))
        if kind == "3d":
            k.assume(sh[-1] != 3)
    r, m = k.arr("r", shape=sh, dtype=dt), k.arr("m", shape=sh, dtype=dt)
    met = k.call(FR[cname], chromatic=True, data_range=255).value
    out = k.call(met.load_images, r, m)
    k.reach("end")
    if kind != "rgb":
        k.raises(out, ValueError, "pair without colour is rejected")
        k.raises(k.call(met.score, r, m), ValueError, "no score of a pair without colour")
        return
    x, y = k.returns(out, "colour pair is accepted")
    for a, g in ((r, x), (m, y)):
        k.elements("values of the input", g, a._sh, lambda *i: a.at(*i))


@S.contract("rank", [LI, LOAD], cases=[(n, c) for n in (0, 1, 4, 5) for c in ("ndarray", "ImageArray", "Tensor")], reach=("end",))
def rank(k, nd, cls):
    bad = wrap(k, k.arr("bad", nd, "float32"), cls)
    good = k.arr("good", k.choose([2, 3]), "float32")
    met = k.call(FR["RMSE"]).value
    k.raises(k.call(met.load_images, bad, bad), ValueError, "neither 2D nor 3D")
    k.raises(k.call(met.load_images, good, bad), ValueError, "neither 2D nor 3D")
    k.raises(k.call(met.load_images, bad, good), ValueError, "neither 2D nor 3D")
    k.reach("end")


class Other:
    pass


@S.contract("unsupported objects", [LI, LOAD], cases=["int", "float", "None", "list", "nested", "tuple", "dict", "set",
                                                      "object", "bytes", "arraylist", "text file", "bool"], reach=("end",))
def objects(k, what):
    good = k.arr("good", 2, "float32")
    from vc.loops import VList

    bad = {"int": 5, "float": 2.5, "None": None, "list": VList([1, 2]), "nested": VList([VList([1.0, 2.0])]),
           "tuple": (1, 2), "dict": {}, "set": {1}, "object": Other(), "bytes": b"x.png",
           "arraylist": VList([good]), "text file": "/data/image.txt", "bool": True}[what]
    met = k.call(FR["RMSE"]).value
    k.raises(k.call(met.load_images, bad, good), ValueError, "reference rejected")
    k.raises(k.call(met.load_images, good, bad), ValueError, "modified image rejected")
    k.raises(k.call(met.load_images, bad, bad), ValueError, "both rejected")
    k.raises(k.call(met.score, good, bad), ValueError, "no score")
    k.check("score unchanged", met.score_val is None)
    k.reach("end")


@S.contract("every metric rejects incompatible pairs", list(f + ".score" for f in FR.values()),
            cases=[(c, w) for c in FR for w in ("shape", "type", "rank", "object")], reach=("end",))
def every(k, cname, what):
    met = k.call(FR[cname], data_range=255).value
    nd = k.choose([2, 3])
    r = k.arr("r", nd, "uint8")
    if what == "shape":
        m = k.arr("m", nd, "uint8")
        k.assume(z3.Not(same(k, r, m)))
    elif what == "type":
        m = k.arr("m", shape=r._sh, dtype="float32")
    elif what == "rank":
        m = k.arr("m", 5 - nd, "uint8")
    else:
        m = None
    kw = {}
    if nd == 3 and cname not in ("PSNR", "RMSE", "SSIM", "UQI"):
        kw = dict(dim=k.choose([0, 1, 2]), im_slice=0)
    a, b = (r, m) if k.choose([0, 1]) else (m, r)
    k.raises(k.call(met.score, a, b, **kw), ValueError, "incompatible pair has no score")
    k.check("score unchanged", met.score_val is None)
    k.reach("end")


@S.contract("score uses the prepared pair", list(f + ".score" for f in FR.values()),
            cases=[(c, kd, rng) for c in FR for kd in ("2d", "rgb") for rng in (None, 255)], reach=("end",), timeout=200)
def uses(k, cname, kind, rng):
    """score() of a metric with preparation parameters = score() without them on the prepared pair."""
    if cname == "MAD":
        k.get(FR[cname])
        ok = k.prog.patch("viqa.fr_metrics.mad:most_apparent_distortion", opaque_mad)
        if not ok:
            raise A.Unsupported("most_apparent_distortion is gone")
    dt = "float64" if rng is None else "uint16"
    sh = (k.int("a0", 64), k.int("a1", 64)) + ((3,) if kind == "rgb" else ())
    r, m = k.arr("r", shape=sh, dtype=dt), k.arr("m", shape=sh, dtype=dt)
    roi = []
    for d in range(2):
        lo, hi = k.int(f"lo{d}", 0), k.int(f"hi{d}")
        k.assume(z3.And(lo.e + 48 < hi.e, hi.e <= to_z3(sh[d])))
        roi.append((lo, hi))
    if rng:
        for a in (r, m):
            i, j = k.skolem(a._sh), k.skolem(a._sh)
            k.assume(a.at(*i) != a.at(*j))
    dr = rng or 255
    v = k.returns(k.call(k.call(FR[cname], data_range=dr, normalize=bool(rng), roi=roi).value.score, r, m), "returns")
    k.reach("end")
    lk = dict(data_range=rng, normalize=bool(rng), roi=roi)
    lr = k.returns(k.call(LOAD, r, **lk), "loads")
    lm = k.returns(k.call(LOAD, m, **lk), "loads")
    w = k.returns(k.call(k.call(FR[cname], data_range=dr).value.score, lr, lm), "returns")
    eqs(k, "same score", v, w)


def eqs(k, label, v, w):
    if getattr(v, "_vc_tensor", False):
        v = v.item()
    if getattr(w, "_vc_tensor", False):
        w = w.item()
    k.eq(label, v, w)


def opaque_mad(img_r, img_m, *a, **kw):
    return A.opaque("mad2d", [img_r.view(A.ndarray), img_m.view(A.ndarray), list(a), sorted(kw.items())])
