"""C08: slice arguments select exactly the requested slices of a volume."""

import z3

from contracts.c01 import opaque_mad
from vc import arr as A
from vc import npmod as N
from vc.contract import Suite
from vc.core import IDX, Sym, Unsupported, as_real, div, to_z3

S = Suite("C08")
S.assumptions = ["piq's fsim, multi_scale_ssim, vif_p and vsi return the mean over the batch of a per-sample score that depends only on the sample pair and the options",
                 "most_apparent_distortion is taken as an uninterpreted function of its pair and options (its own contract is C10)"]
MODS = {"FSIM": "viqa.fr_metrics.fsim", "GSM": "viqa.fr_metrics.gsm", "MAD": "viqa.fr_metrics.mad", "MSSSIM": "viqa.fr_metrics.msssim",
        "VIFp": "viqa.fr_metrics.vif", "VSI": "viqa.fr_metrics.vsi"}
FNS = {c: [f"{m}:{c}.score"] for c, m in MODS.items()}
FNS["GSM"] += [MODS["GSM"] + ":gradient_similarity_3d"]
FNS["MAD"] += [MODS["MAD"] + ":most_apparent_distortion_3d"]
ALLF = sum(FNS.values(), [])
DTS = ("uint8", "float32", "float64")


def opaque_gsm(img_r, img_m, data_range=255, c=200, p=0.1):
    return A.opaque("gsm2d", [img_r.view(A.ndarray), img_m.view(A.ndarray), as_num(data_range), as_num(c), as_num(p)])


def as_num(v):
    return Sym(as_real(to_z3(v)))


def metric(k, cname, dr=255):
    if cname == "MAD":
        k.get(MODS[cname] + ":MAD")
        if not k.prog.patch("viqa.fr_metrics.mad:most_apparent_distortion", opaque_mad):
            raise Unsupported("most_apparent_distortion is gone")
    if cname == "GSM":
        k.get(MODS[cname] + ":GSM")
        if not k.prog.patch("viqa.fr_metrics.gsm:gradient_similarity", opaque_gsm):
            raise Unsupported("gradient_similarity is gone")
    return k.call(f"{MODS[cname]}:{cname}", data_range=dr).value


def extras(k, cname):
    """Extra parameters of a score call: none, or free values."""
    if k.choose([0, 1]) == 0:
        return {}
    r = lambda n: k.real(n)  # noqa: E731
    return {"FSIM": lambda: dict(scales=k.choose([3, 5]), orientations=3, min_length=4, mult=3, sigma_f=r("sf"), delta_theta=r("dt"), k=r("kk")),
            "GSM": lambda: dict(c=r("c"), p=r("p")),
            "MAD": lambda: dict(block_size=k.int("bs", 1), block_overlap=r("bo"), beta_1=r("b1"), beta_2=r("b2"), thresh_1=r("t1"), thresh_2=r("t2")),
            "MSSSIM": lambda: dict(kernel_size=k.choose([7, 13]), kernel_sigma=r("ks"), k1=r("k1"), k2=r("k2")),
            "VIFp": lambda: dict(sigma_n_sq=r("sn")),
            "VSI": lambda: dict(c1=r("c1"), c2=r("c2"), c3=r("c3"), alpha=r("al"), beta=r("be"), omega_0=r("om"), sigma_f=r("sf"), sigma_d=r("sd"), sigma_c=r("sc"))}[cname]()


def volumes(k, dt):
    sh = tuple(k.int(f"n{d}", 1) for d in range(3))
    k.assume(sh[2] != 3)
    return k.arr("r", shape=sh, dtype=dt), k.arr("m", shape=sh, dtype=dt)


def cut(a, dim, s):
    return a[tuple(s if d == dim else slice(None) for d in range(3))]


def val(v):
    a = v.a if getattr(type(v), "_vc_tensor", False) else v
    return as_real(to_z3(a.item() if isinstance(a, A.ndarray) else a))


@S.contract("one slice", ALLF, reach=("end",), cases=[(c, d, dt) for c in MODS for d in range(3) for dt in DTS])
def one_slice(k, cname, dim, dt):
    dr = k.choose([1, 255, 65535])
    met = metric(k, cname, dr)
    r, m = volumes(k, dt)
    s = k.int("s", 0)
    k.assume(s.e < to_z3(r._sh[dim]))
    kw = extras(k, cname)
    got = k.returns(k.call(met.score, r, m, dim=dim, im_slice=s, **kw), "returns")
    a, b = cut(r, dim, s), cut(m, dim, s)
    k.assume(z3.Or(to_z3(a._sh[0]) >= 1))
    ref = k.returns(k.call(metric(k, cname, dr).score, a, b, **kw), "returns 2D")
    k.eq("score of the slice pair", val(got), val(ref))
    k.eq("stored", val(met.score_val), val(ref))
    k.unchanged("frame", r)
    k.unchanged("frame", m)
    k.reach("end")


@S.contract("whole axis", ALLF, reach=("end",), cases=[(c, d, dt) for c in MODS for d in range(3) for dt in DTS])
def whole_axis(k, cname, dim, dt):
    dr = k.choose([1, 255, 65535])
    met = metric(k, cname, dr)
    r, m = volumes(k, dt)
    n = r._sh[dim]
    kw = extras(k, cname)
    got = k.returns(k.call(met.score, r, m, dim=dim, **kw), "returns")
    ctx = k.ctx
    v = ctx.loopvar("s")
    k.assume(z3.And(v >= 0, v < to_z3(n)))
    s = Sym(v)
    ref = k.returns(k.call(metric(k, cname, dr).score, cut(r, dim, s), cut(m, dim, s), **kw), "returns 2D")
    body = z3.substitute(val(ref), (v, IDX[0]))
    k.eq("mean of the slice scores", val(got), div(N.sum_term([to_z3(n)], body), as_real(to_z3(n))))
    k.reach("end")


@S.contract("rejections", ALLF, reach=("end",),
            cases=[(c, w) for c in MODS for w in ("axis", "axis+slice", "other axis", "other axis+slice", "none", "no axis", "slice type")])
def rejections(k, cname, what):
    met = metric(k, cname)
    r, m = volumes(k, "float32")
    kw = {}
    if what.startswith("axis"):
        kw["dim"] = k.int("dim")
        k.assume(z3.Or(kw["dim"].e < 0, kw["dim"].e > 2))
    elif what.startswith("other axis"):
        kw["dim"] = k.choose(["x", 1.5, (0,), "0", -0.5])
    if what.endswith("+slice"):
        kw["im_slice"] = k.int("s", 0)
        for n in r._sh:
            k.assume(kw["im_slice"].e < to_z3(n))
    if what == "no axis":
        kw["im_slice"] = k.int("s", 0)
    if what == "slice type":
        kw = dict(dim=k.choose([0, 1, 2]), im_slice=k.choose([1.0, "0", 0.5, (0,)]))
    k.raises(k.call(met.score, r, m, **kw), ValueError, "rejected")
    k.check("no score", met.score_val is None)
    k.reach("end")


@S.contract("2D images", ALLF, reach=("end",), cases=[(c, dt) for c in MODS for dt in DTS])
def two_d(k, cname, dt):
    met = metric(k, cname)
    sh = tuple(k.int(f"n{d}", 1) for d in range(2))
    r, m = k.arr("r", shape=sh, dtype=dt), k.arr("m", shape=sh, dtype=dt)
    kw = extras(k, cname)
    ref = k.returns(k.call(met.score, r, m, **kw), "returns")
    w = k.choose(["slice", "axis", "both", "odd"])
    ax = dict(slice=lambda: dict(im_slice=k.int("s")), axis=lambda: dict(dim=k.int("d")), both=lambda: dict(dim=k.int("d"), im_slice=k.int("s")),
              odd=lambda: dict(dim="z", im_slice=2.5))[w]()
    got = k.returns(k.call(met.score, r, m, **ax, **kw), "returns")
    k.eq("same score", val(got), val(ref))
    k.reach("end")
