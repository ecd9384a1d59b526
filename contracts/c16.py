"""C16: colour and tensor conversions keep every pixel at its place."""

import z3

from vc import arr as A
from vc import npmod as N
from vc.contract import Suite
from vc.core import Sym, Unsupported, as_real, to_z3

S = Suite("C16")
S.assumptions = ["8..32-bit values convert to float32/float64 as real numbers (rounding not modelled)"]
GRAY = "viqa.utils.misc:_to_grayscale"
YUV = "viqa.utils.misc:_rgb_to_yuv"
TENS = "viqa.utils.misc:_check_chromatic"
UN = ("uint8", "uint16", "uint32", "int8", "int16", "int32", "float32", "float64")
W = ("0.2125", "0.7154", "0.0721")
M = (("0.2126", "0.7152", "0.0722"), ("-0.09991", "-0.33609", "0.436"), ("0.615", "-0.55861", "-0.05639"))


def rgb(k, dt, name="img", nd=2, cls=None):
    sh = tuple(k.int(f"n{d}", 1) for d in range(nd)) + (3,)
    return k.arr(name, shape=sh, dtype=dt, cls=cls)


def luma(a, *i):
    v = sum((z3.RealVal(w) * as_real(a.at(*i, j)) for j, w in enumerate(W)), z3.RealVal(0))
    return z3.If(v > 255, z3.RealVal(255), v)


def cls_of(k, c):
    return k.get("viqa.utils.loading:ImageArray") if c == "ImageArray" else None


@S.contract("grey", [GRAY], cases=[(dt, c) for dt in UN for c in ("ndarray", "ImageArray")], reach=("end",))
def grey(k, dt, c):
    a = rgb(k, dt, cls=cls_of(k, c))
    r = k.returns(k.call(GRAY, a), "returns")
    k.elements("luminance of the same pixel", r, a._sh[:2], lambda *i: luma(a, *i))
    k.unchanged("frame", a)
    k.reach("end")


class Rec:
    """Callee contract of a tensor metric: records the tensors it is given."""

    def __init__(self):
        self.calls = []

    def __call__(self, x, y, *args, **kw):
        self.calls.append((x, y, args, kw))
        return Sym(z3.Real("tensor_score"))


PAIR = [("viqa.fr_metrics.psnr:PSNR", "peak_signal_noise_ratio"), ("viqa.fr_metrics.rmse:RMSE", "mean_squared_error")]


@S.contract("grey pair of a metric", ["viqa._metrics:FullReferenceMetricsInterface.load_images", GRAY],
            cases=[(dt,) for dt in UN], reach=("end",))
def greypair(k, dt):
    r, m = rgb(k, dt, "r"), rgb(k, dt, "m")
    met = k.call("viqa.fr_metrics.rmse:RMSE").value
    out = k.returns(k.call(met.load_images, r, m), "returns")
    for a, g in zip((r, m), out):
        k.elements("luminance pair", g, a._sh[:2], lambda *i: luma(a, *i))
        k.unchanged("frame", a)
    k.reach("end")


@S.contract("yuv", [YUV], cases=[(dt, c) for dt in UN for c in ("ndarray", "ImageArray")], reach=("end",))
def yuv(k, dt, c):
    a = rgb(k, dt, cls=cls_of(k, c))
    r = k.returns(k.call(YUV, a), "returns")

    def spec(i, j, ch):
        rows = [sum((z3.RealVal(w) * as_real(a.at(i, j, q)) for q, w in enumerate(row)), z3.RealVal(0)) for row in M]
        c_ = to_z3(ch)
        return z3.If(c_ == 0, rows[0], z3.If(c_ == 1, rows[1], rows[2]))

    k.elements("matrix times pixel", r, a._sh, spec)
    k.unchanged("frame", a)
    k.reach("end")


def tensor_of(k, label, t, a, kind):
    """t holds the pixels of a in batch x channel x row x column order."""
    if not getattr(t, "_vc_tensor", False):
        k.fail(label, f"not a tensor: {type(t).__name__}")
    want = "float64" if a.dtype.name == "float64" else "float32"
    k.check(label + " type", t.dtype.name == want, t.dtype.name)
    if kind == "2d":
        k.elements(label, t.a, (1, 1) + tuple(a._sh), lambda b, c, i, j: as_real(a.at(i, j)))
    elif kind == "rgb":
        k.elements(label, t.a, (1, 3, a._sh[0], a._sh[1]), lambda b, c, i, j: as_real(a.at(i, j, c)))
    else:
        k.elements(label, t.a, (a._sh[2], 1, a._sh[0], a._sh[1]), lambda b, c, i, j: as_real(a.at(i, j, b)))


def images(k, kind, dt):
    if kind == "rgb":
        return rgb(k, dt, "r"), rgb(k, dt, "m")
    nd = 2 if kind == "2d" else 3
    sh = tuple(k.int(f"n{d}", 1) for d in range(nd))
    if nd == 3:
        k.assume(sh[-1] != 3)
    return k.arr("r", shape=sh, dtype=dt), k.arr("m", shape=sh, dtype=dt)


@S.contract("tensors", [TENS], cases=[(kd, dt) for kd in ("2d", "3d", "rgb") for dt in UN], reach=("end",))
def tensors(k, kind, dt):
    r, m = images(k, kind, dt)
    out = k.returns(k.call(TENS, r, m, kind == "rgb"), "returns")
    for nm, t, a in (("reference", out[0], r), ("modified", out[1], m)):
        tensor_of(k, nm + " tensor", t, a, kind)
        k.unchanged("frame", a)
    k.reach("end")


METS = {"FSIM": ("viqa.fr_metrics.fsim", "fsim"), "MSSSIM": ("viqa.fr_metrics.msssim", "multi_scale_ssim"),
        "VIFp": ("viqa.fr_metrics.vif", "vif_p"), "VSI": ("viqa.fr_metrics.vsi", "vsi")}


@S.contract("tensors reaching the metric", [f"{m}:{c}.score" for c, (m, _) in METS.items()] + [TENS],
            cases=[(c, kd, dt) for c in METS for kd in ("2d", "3d", "rgb") for dt in ("uint8", "float32", "float64")],
            reach=("end",))
def reaching(k, cname, kind, dt):
    mod, fn = METS[cname]
    rec = Rec()
    piq = k.prog.stubs["piq"]
    k.get(f"{mod}:{cname}")
    k.prog.patch_value(getattr(piq, fn), rec)
    r, m = images(k, kind, dt)
    met = k.call(f"{mod}:{cname}", data_range=255, **({"chromatic": True} if kind == "rgb" else {})).value
    k.returns(k.call(met.score, r, m, **({"dim": 2} if kind == "3d" else {})), "returns")
    k.check("one evaluation", len(rec.calls) == 1, f"{len(rec.calls)} calls")
    x, y, _, kw = rec.calls[0]
    tensor_of(k, "reference tensor", x, r, kind)
    tensor_of(k, "modified tensor", y, m, kind)
    k.reach("end")
