"""C05: a metric reports exactly its last successful score."""

import re

import z3

from contracts.c01 import opaque_mad
from contracts.metrics import CHROMATIC, FR, NR
from vc import npmod as N
from vc.contract import Suite
from vc.core import Sym, Unsupported, as_bool, as_real, modelled, to_z3

S = Suite("C05")
SLICED = ("FSIM", "GSM", "MAD", "MSSSIM", "VIFp", "VSI")
PIQ = {"FSIM": "fsim", "MSSSIM": "multi_scale_ssim", "VIFp": "vif_p", "VSI": "vsi"}
ALL = {**FR, **NR}


def scalar(v):
    return v.item() if getattr(v, "_vc_tensor", False) else v


def same_score(k, label, x, y):
    if isinstance(x, (tuple, list)) or isinstance(y, (tuple, list)):
        if not (isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y)):
            k.fail(label, f"{type(x).__name__} vs {type(y).__name__}")
        for a, b in zip(x, y):
            k.eq(label, scalar(a), scalar(b))
        return
    if x is y:
        k.check(label, True)
        return
    if x is None or y is None:
        k.fail(label, f"{x!r} vs {y!r}")
    k.eq(label, scalar(x), scalar(y))


def outcome(k, met, prev, out):
    """Frame and postcondition of every score call."""
    if out.ok:
        same_score(k, "stored score is the returned value", met.score_val, out.value)
        k.reach("returned")
    else:
        same_score(k, "stored score is kept when the call raises", met.score_val, prev)
        k.reach("raised")


def previous(k, met):
    prev = k.choose([None, "number"])
    if prev:
        prev = k.real("previous")
    met.score_val = prev
    return prev


def weaken(k, cname):
    """The underlying library routine may also raise."""
    k.get(FR[cname])
    if cname in PIQ:
        old = getattr(k.prog.stubs["piq"], PIQ[cname])
    elif cname in ("PSNR", "RMSE"):
        old = getattr(k.prog.stubs["skimage.metrics"], {"PSNR": "peak_signal_noise_ratio", "RMSE": "mean_squared_error"}[cname])
    elif cname == "MAD":
        def mad(*a, **kw):
            if k.choose([False, True]):
                raise modelled(ValueError("library failure"))
            return opaque_mad(*a, **kw)

        if not k.prog.patch("viqa.fr_metrics.mad:most_apparent_distortion", mad):
            raise Unsupported("most_apparent_distortion is gone")
        return
    else:
        return

    def f(*a, **kw):
        if k.choose([False, True]):
            raise modelled(RuntimeError("library failure"))
        return old(*a, **kw)

    k.prog.patch_value(old, f)


def pairs(k, kind, dt="uint8"):
    if kind == "rgb":
        sh = (k.int("n0", 20), k.int("n1", 20), 3)
    else:
        sh = tuple(k.int(f"n{d}", 20) for d in range(int(kind[0])))
    r = k.arr("r", shape=sh, dtype=dt)
    m = k.arr("m", shape=sh, dtype=dt)
    return r, m


@S.contract("full-reference score", [f + ".score" for f in FR.values()],
            cases=[(c, kd) for c in FR for kd in ("2d", "3d", "rgb", "bad")], reach=("returned", "raised"), timeout=200)
def full(k, cname, kind):
    weaken(k, cname)
    met = k.call(FR[cname], data_range=255, **({"chromatic": True} if kind == "rgb" and cname in CHROMATIC else {})).value
    prev = previous(k, met)
    kw = {}
    if kind == "bad":
        r, m = pairs(k, "2d")
        w = k.choose(["good", "type", "shape", "object", "rank"])
        if w == "type":
            m = k.arr("m", shape=r._sh, dtype="float32")
        elif w == "shape":
            m = k.arr("m", 2, "uint8")
        elif w == "object":
            m = None
        elif w == "rank":
            r = k.arr("r1", 1, "uint8")
    else:
        r, m = pairs(k, kind)
        if cname in SLICED and kind == "3d":
            kw = k.choose([dict(dim=0, im_slice=3), dict(dim=1, im_slice=3), dict(dim=2, im_slice=3), dict(dim=0), dict(dim=1), dict(dim=2),
                           dict(dim=3), dict(dim=5, im_slice=0), dict(), dict(dim=1, im_slice=1.5), dict(im_slice=2), dict(dim=-1)])
        elif cname == "SSIM":
            kw = k.choose([{}, dict(K1=-1), dict(win_size=4), dict(win_size=9), dict(color_weights=N.array([0.3, 0.4, 0.5])), dict(sigma=-2)])
        elif cname == "UQI":
            kw = k.choose([{}, dict(win_size=4), dict(win_size=9), dict(sigma=-2)])
        elif cname in ("PSNR", "RMSE"):
            if k.choose([0, 1]):
                r = k.arr("r1", 1, "uint8")
        else:
            kw = k.choose([{}, dict(dim=1, im_slice=3)])
            if k.choose([0, 1]):
                m = "/no/such.txt"
    outcome(k, met, prev, k.call(met.score, r, m, **kw))


@S.contract("no-reference score", [f + ".score" for f in NR.values()],
            cases=[(c, kd, w) for c in NR for kd in ("rgb", "2d", "3d") for w in
                   ("good", "region", "full", "centre", "radius", "float", "missing", "object")], reach=("end",), timeout=200)
def noref(k, cname, kind, w):
    met = k.call(NR[cname]).value
    prev = previous(k, met)
    a, _ = pairs(k, kind)
    nd = 3 if kind == "3d" else 2
    if cname == "CNR" and kind == "rgb":
        nd = 3
    rad = k.int("radius", 1, 5)
    kw = dict(signal_center=tuple(k.int(f"c{d}", 5, 15) for d in range(nd)), radius=rad)
    if cname == "CNR":
        kw["background_center"] = tuple(k.int(f"b{d}", 5, 15) for d in range(nd))
    if w == "region":
        kw["region_type"] = "none of them"
    elif w == "full":
        kw["region_type"] = "full"
    elif w == "centre":
        kw["signal_center"] = (rad - 1,) * nd
    elif w == "radius":
        kw["radius"] = k.choose([0, -1, 2.5])
    elif w == "float":
        kw["signal_center"] = (9.5,) * nd
    elif w == "missing":
        del kw["radius"]
    elif w == "object":
        a = None
    outcome(k, met, prev, k.call(met.score, a, **kw))
    k.reach("end")


OPS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


def value(k, kind, name):
    if kind == "None":
        return None
    if kind == "tuple":
        return tuple(k.real(f"{name}{i}") for i in range(2))
    if kind == "int":
        return k.int(name)
    if kind == "inf":
        return float("inf")
    return k.real(name)


@S.contract("comparison", [f"viqa._metrics:Metric.__{o}__" for o in OPS],
            cases=[(o, c) for o in OPS for c in ("metric", "plain")], reach=("end",))
def comparison(k, op, what):
    f = OPS[op]
    a = k.call(ALL[k.choose(["PSNR", "SNR"])]).value
    kinds = ("real", "None", "tuple", "inf")
    a.score_val = value(k, k.choose(kinds), "x")
    if what == "metric":
        b = k.call(ALL[k.choose(["SSIM", "CNR", "GSM"])]).value
        b.score_val = value(k, k.choose(kinds), "y")
        other = b.score_val
    else:
        b = other = value(k, k.choose(kinds + ("int",)), "y")
    got = k.call(f, a, b)
    exp = k.call(f, a.score_val, other)
    k.reach("end")
    if exp.ok:
        v = k.returns(got, "compares like the scores")
        if v is NotImplemented:
            k.fail("compares like the scores", "NotImplemented")
        k.prove("compares like the scores", as_bool(to_z3(v)) == as_bool(to_z3(exp.value)))
    else:
        k.raises(got, type(exp.exc), "raises like the scores")
    if what == "plain" and other is not None and not isinstance(other, tuple):
        # reflected operand
        r = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[op]
        got = k.call(OPS[r], b, a)
        if exp.ok:
            v = k.returns(got, "reflected comparison")
            k.prove("reflected comparison", as_bool(to_z3(v)) == as_bool(to_z3(exp.value)))


TOK = re.compile("\u27e8v[0-9]+\u27e9")


def printed(k):
    return [e[1] for e in k.ctx.log if e[0] == "print"]


@S.contract("printing", [f + ".print_score" for f in ALL.values()],
            cases=[(c, w) for c in ALL for w in ("number", "inf", "None", "zero") + (("tuple",) if c == "SNR" else ())], reach=("end",))
def printing(k, cname, what):
    met = k.call(ALL[cname]).value
    dec = k.choose([None, "symbolic", 0, 4])
    if dec == "symbolic":
        dec = k.int("decimals")
    if what == "number":
        met.score_val = k.real("x")
    elif what == "zero":
        met.score_val = k.real("x")
        k.assume(met.score_val == 0)
    elif what == "inf":
        met.score_val = float("inf")
        if isinstance(dec, Sym):
            return
    elif what == "tuple":
        met.score_val = tuple(k.real(f"x{i}") for i in range(3))
    sv = met.score_val
    n0 = len(k.ctx.log)
    k.returns(k.call(met.print_score, *(() if dec is None else (dec,))), "returns")
    out = printed(k)
    k.reach("end")
    k.check("score kept", met.score_val is sv)
    if sv is None:
        k.check("prints nothing without a score", not out, str(out))
        k.check("warns without a score", any(e[0] == "warn" and e[1] == "RuntimeWarning" for e in k.ctx.log[n0:]), str(k.ctx.log))
        return
    text = "".join(out)
    if what == "inf":
        k.check("shows the score", "inf" in text, text)
        return
    d = 2 if dec is None else dec
    want = [N.ROUND(as_real(v.e), to_z3(d)) for v in (sv if what == "tuple" else (sv,))]
    toks = TOK.findall(text)
    if re.search("\u27e9:", text):
        raise Unsupported("formatted number")
    k.check("shows the score", len(toks) == len(want), text)
    for t, w in zip(toks, want):
        k.prove("shows the rounded score", k.ctx.tokens[t][1] == w)
