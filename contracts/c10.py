"""C10: MAD combines correctly placed block statistics and is call-independent."""

import z3

from vc import arr as A
from vc import libs
from vc import loader
from vc import npmod as N
from vc.contract import Suite
from vc.core import IDX, Sym, Unsupported, as_real, div, simp, to_z3

S = Suite("C10")
S.assumptions = [
    "Fourier transforms, scipy.ndimage.convolve, exp, log, power and angle functions are uninterpreted (equal arguments give equal results)",
    "the native block statistics follow their contract (C11)",
    "divisions by zero and logarithms of non-positive values have some value that depends on the operands only (IEEE infinities and NaN are not modelled)",
    "the contrast sensitivity function and the log-Gabor bank are taken from the code under contract as they are"]
MADM = "viqa.fr_metrics.mad:"
FNS = [MADM + n for n in ("MAD.score", "most_apparent_distortion", "_high_quality", "_low_quality", "_pixel_to_lightness")] + [
    "viqa.utils.misc:_extract_blocks"]
BS = [("any", "any"), (4, 0.5), (3, 0.5), (16, 0.75), (8, 0.9)]  # every block size and overlap; some fixed ones as well
F64 = A.F64


def stride(B, ov):
    return B - (loader.t_int(ov * B) if isinstance(B, Sym) else int(ov * B))


def block(k, B, ov):
    """Block size and overlap: the given ones or arbitrary ones."""
    if B != "any":
        return B, ov
    B, ov = k.int("B", 1), k.real("ov")
    k.assume(z3.And(to_z3(ov) >= 0, to_z3(ov) < 1))
    s = to_z3(stride(B, ov))
    k.prove("0 < stride <= block size", z3.And(s >= 1, s <= to_z3(B)))
    k.assume(z3.And(s >= 1, s <= to_z3(B)))  # just proved
    return B, ov


def cells(a, B, s, stat):
    """Every position shows the statistic of the block that starts in its own s x s cell (0 outside all cells)."""
    p, q, u, v = IDX[:4]
    s, B = to_z3(s), to_z3(B)
    x, y = s * (p / s), s * (q / s)
    inside = z3.And(x + B <= to_z3(a._sh[0]), y + B <= to_z3(a._sh[1]))
    blocks = A.new_array([a._sh[0], a._sh[1], simp(B), simp(B)], F64, A.tmpl(a.content(), {0: x + u, 1: y + v}))
    t = stat(blocks)
    return A.new_array(a._sh, F64, z3.If(inside, t.content(), z3.RealVal(0)))


def lightness(a, b=0, k=0.02874, gamma=2.2):
    x = A.new_array(a._sh, F64, as_real(a.content()))
    return b + k * x ** (gamma / 3)


def inner_norm(k, a, B):
    """Root mean square over all positions at least B away from the border."""
    np = k.prog.stubs["numpy"]
    c = a[B:-B, B:-B]
    n = c.shape[0] * c.shape[1]
    return np.sqrt((c * c).sum()) / np.sqrt(n)


def detect(k, r, m, B, s, par):
    np = k.prog.stubs["numpy"]
    cpd = 32
    if par.get("account_monitor"):
        d = par["display_function"]
        cpd = d["disp_res"] * d["view_dis"] * np.tan(np.pi / 180) / 2
    c = csf_contract(*r.shape, cpd, **par.get("csf_function", {"lambda_csf": 0.114, "f_peak": 7.8909}))
    fft = k.prog.stubs["scipy.fft"]
    img = []
    for a in (r, m):
        f = fft.fftshift(fft.fftn(lightness(a, **par.get("luminance_function", {}))))
        img.append(np.real(fft.ifftn(fft.ifftshift(c * f))))
    org, err = img[0], img[1] - img[0]
    mu = cells(org, B, s, lambda b: np.mean(b, axis=(2, 3)))
    dev = cells(err, B, s, lambda b: np.std(b, axis=(2, 3), ddof=1))
    low = loader.stat_minstd(org, B, s)
    l_org = np.log(low / mu)
    l_err = np.log(np.where(mu > 0.5, dev / mu, 0))
    # threshold -5 on both axes, slope 1
    heavy, light = np.logical_and(l_err > l_org, l_org > -5), np.logical_and(l_err > -5, l_org <= -5)
    mask = np.where(light, l_err + 5, np.where(heavy, l_err - l_org, 0)) / par.get("ms_scale", 1)
    d = A.new_array(r._sh, F64, as_real(r.content()) - as_real(m.content()))
    mse = k.prog.stubs["scipy.ndimage"].convolve(d ** 2, np.ones((B, B)) / B**2, mode="reflect")
    return 200 * inner_norm(k, mask * mse, B)


def appear(k, r, m, B, s, par):
    np = k.prog.stubs["numpy"]
    ns, no = par.get("scales_num", 5), par.get("orientations_num", 4)
    w = par.get("weights", [0.5, 0.75, 1, 5, 6])
    w = [Sym(as_real(to_z3(x))) for x in w]
    tot = sum(w[1:], w[0])
    banks = [bank(a, ns, no) for a in (r, m)]
    out = 0
    for i in range(ns):
        for j in range(no):
            a, b = (loader.stat_getstatistics(np.abs(g[i, j]), B, s) for g in banks)
            out = out + w[i] / tot * (np.abs(a[0] - b[0]) + 2 * np.abs(a[1] - b[1]) + np.abs(a[2] - b[2]))
    return inner_norm(k, out, B)


def bank(img, scales_num, orientations_num, min_wavelength=3, wavelength_scaling=3, bandwidth_param=0.55, d_theta_on_sigma=1.5):
    """Contract of gabor_convolve: one complex image per scale and orientation, determined by the arguments."""
    img = img.view(A.ndarray)
    r = N.empty((scales_num, orientations_num), dtype=object)
    for i in range(scales_num):
        for j in range(orientations_num):
            r[i, j] = A.opaque("gabor", [img, scales_num, orientations_num, i, j] + [
                Sym(as_real(to_z3(v))) for v in (min_wavelength, wavelength_scaling, bandwidth_param, d_theta_on_sigma)],
                img._sh, A.DT["complex128"])
    return r


def csf_contract(m, n, nfreq, **kw):
    return A.opaque("csf", [Sym(to_z3(m)), Sym(to_z3(n)), Sym(as_real(to_z3(nfreq)))] + [Sym(as_real(to_z3(kw[x]))) for x in sorted(kw)], (m, n), F64)


def install(k):
    """Callee contracts; records the two indices where the code computes them separately."""
    rec = {}
    if not k.prog.patch("viqa.utils.misc:gabor_convolve", bank) or not k.prog.patch(MADM + "_contrast_sensitivity_function", csf_contract):
        raise Unsupported("filter bank or sensitivity function is gone")
    for n in ("_high_quality", "_low_quality"):
        try:
            f = k.get(MADM + n)
        except Unsupported:
            continue

        def w(*a, _f=f, _n=n, **kw):
            v = _f(*a, **kw)
            rec.setdefault(_n, []).append(v)
            return v

        k.prog.patch(MADM + n, w)
    return rec


def check(k, rec, got, r, m, B, ov, par, b1=0.467, b2=0.130):
    s = stride(B, ov)
    d, a = detect(k, r, m, B, s, par), appear(k, r, m, B, s, par)
    hq, lq = rec.get("_high_quality", []), rec.get("_low_quality", [])
    if len(hq) == 1 and len(lq) == 1:
        k.eq("detection index", hq[0], d)
        k.eq("appearance index", lq[0], a)
        d, a = hq[0], lq[0]
    al = 1 / (1 + b1 * d ** b2)
    k.eq("combination", got, d ** al * a ** (1 - al))


def pair(k, B, dt, p=""):
    sh = tuple(k.int(f"{p}n{d}", 1) for d in range(2))
    for d in sh:
        k.assume(to_z3(d) > 2 * to_z3(B))
    return k.arr(p + "r", shape=sh, dtype=dt), k.arr(p + "m", shape=sh, dtype=dt)


def wts(k):
    w = [k.real("w0"), k.real("w1")]
    k.assume(z3.And(to_z3(w[0]) >= 0, to_z3(w[1]) >= 0, to_z3(w[0]) + to_z3(w[1]) > 0))
    return w


SETS = {
    "default": lambda k: ({}, {}),
    "betas": lambda k: ({}, {"beta_1": k.real("b1"), "beta_2": k.real("b2")}),
    "params": lambda k: ({"ms_scale": k.real("ms"), "orientations_num": 2, "scales_num": 2, "weights": wts(k)}, {}),
    "lum": lambda k: ({"luminance_function": {"b": k.real("lb"), "k": k.real("lk"), "gamma": k.real("lg")},
                       "csf_function": {"lambda_csf": k.real("cl"), "f_peak": k.real("cf")}, "orientations_num": 1}, {}),
    "monitor": lambda k: ({"account_monitor": True, "display_function": {"disp_res": k.real("dr"), "view_dis": k.real("vd")},
                           "scales_num": 1, "weights": [2]}, {}),
}


@S.contract("definition", FNS, reach=("end",), timeout=250,
            cases=[(B, ov, dt, st) for n, (B, ov) in enumerate(BS) for dt, st in (("uint8", "default"), ("float64", "params"))] +
                  [("any", "any", "float32", x) for x in ("betas", "lum", "monitor")] + [("any", "any", "uint16", "betas"), ("any", "any", "uint8", "lum")])
def defn(k, B, ov, dt, what):
    B, ov = block(k, B, ov)
    r, m = pair(k, B, dt)
    par, betas = SETS[what](k)
    rec = install(k)
    met = k.returns(k.call(MADM + "MAD", data_range=65535 if dt == "uint16" else 255), "constructed")
    keep = {n: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for n, v in par.items()}
    out = k.call(met.score, r, m, block_size=B, block_overlap=ov, **betas, **par)
    got = k.returns(out, "returns")
    check(k, rec, got, r, m, B, ov, keep, **{"b" + n[-1]: v for n, v in betas.items()})
    k.unchanged("frame", r)
    k.unchanged("frame", m)
    k.reach("end")


@S.contract("combination thresholds", [MADM + "most_apparent_distortion"], reach=("end",), cases=[("both",), ("first",), ("second",)])
def thresholds(k, which):
    """Both thresholds together fix the exponents; one alone is ignored with a warning."""
    r, m = pair(k, 4, "float64")
    t1, t2 = k.real("t1"), k.real("t2")
    k.assume(z3.And(to_z3(t1) > 0, to_z3(t2) > 0))
    install(k)
    d, a = k.real("detect", 0), k.real("appear", 0)
    if not (k.prog.patch(MADM + "_high_quality", lambda *x, **kw: d) and k.prog.patch(MADM + "_low_quality", lambda *x, **kw: a)):
        raise Unsupported("single indices are not computed separately")
    kw = {"both": {"thresh_1": t1, "thresh_2": t2}, "first": {"thresh_1": t1}, "second": {"thresh_2": t2}}[which]
    np = k.prog.stubs["numpy"]
    got = k.returns(k.call(MADM + "most_apparent_distortion", r, m, block_size=4, **kw), "returns")
    if which == "both":
        b1, b2 = np.exp(-t1 / t2), 1 / (np.log(10) * t2)
    else:
        b1, b2 = 0.467, 0.130
        k.check("warns", any(e[0] == "warn" for e in k.ctx.log), "no warning for a single threshold")
    al = 1 / (1 + b1 * d ** b2)
    k.eq("combination", got, d ** al * a ** (1 - al))
    k.reach("end")


def globals_of(k, mod):
    """Names the functions of a module keep as module state."""
    import ast

    tree = ast.parse(open(k.prog._path(mod)).read())
    return sorted({n for s in ast.walk(tree) if isinstance(s, ast.Global) for n in s.names})


@S.contract("any module state", FNS, reach=("end",), timeout=250, cases=[("any", "any", "uint8"), ("any", "any", "float64"), (2, 0, "uint16")])
def anystate(k, B, ov, dt):
    """The definition holds whatever earlier calls left in the module and in the metric."""
    B, ov = block(k, B, ov)
    r, m = pair(k, B, dt)
    rec = install(k)
    met = k.returns(k.call(MADM + "MAD", data_range=65535 if dt == "uint16" else 255), "constructed")
    mod = k.prog.load("viqa.fr_metrics.mad")
    for n in globals_of(k, "viqa.fr_metrics.mad"):
        mod.__dict__[n] = k.int("old_" + n)
    met.score_val = k.real("old_score")
    got = k.returns(k.call(met.score, r, m, block_size=B, block_overlap=ov), "returns")
    check(k, rec, got, r, m, B, ov, {})
    k.eq("score kept", met.score_val, got)
    k.reach("end")


@S.contract("earlier calls", FNS, reach=("end",), timeout=250, cases=[("smaller",), ("same size",), ("rejected",), ("function",)])
def earlier(k, what):
    """Other calls in between, accepted or rejected, leave the result of a call unchanged."""
    B, ov = block(k, "any", "any")
    r, m = pair(k, B, "float64")
    rec = install(k)
    met = k.returns(k.call(MADM + "MAD", data_range=255), "constructed")
    par = {"weights": [1, 2], "scales_num": 2, "orientations_num": 1}
    if what == "same size":
        x, y = (k.arr(n, shape=r.shape, dtype="float64") for n in "xy")
        k.assume(to_z3(r.shape[0]) > 4)
        k.assume(to_z3(r.shape[1]) > 4)
        k.returns(k.call(met.score, x, y, block_size=2, block_overlap=0, ms_scale=3, weights=[1], scales_num=1, orientations_num=1), "first call")
    else:
        x, y = pair(k, 4, "float64", "o")
        if what == "smaller":
            k.returns(k.call(met.score, x, y, block_size=3, block_overlap=0, **dict(par)), "first call")
        elif what == "function":
            k.returns(k.call(MADM + "most_apparent_distortion", x, y, block_size=2, **dict(par)), "first call")
        else:
            k.raises(k.call(met.score, x, y, block_size=4, block_overlap=2), ValueError, "overlap")
            k.raises(k.call(met.score, x, y, block_size=-1), ValueError, "block")
            k.raises(k.call(met.score, x, y, block_size=2, weights=[1], scales_num=2), ValueError, "weights")
    for v in rec.values():
        v.clear()
    got = k.returns(k.call(met.score, r, m, block_size=B, block_overlap=ov, **dict(par)), "returns")
    check(k, rec, got, r, m, B, ov, par)
    k.reach("end")


@S.contract("identical images", FNS, reach=("end",), timeout=200,
            cases=[(B, ov, dt) for B, ov in (("any", "any"), (4, 0.5), (1, 0), (16, 0.75)) for dt in ("uint8", "float64")])
def identical(k, B, ov, dt):
    B, ov = block(k, B, ov)
    r, _ = pair(k, B, dt)
    rec = install(k)
    met = k.returns(k.call(MADM + "MAD", data_range=255), "constructed")
    got = k.returns(k.call(met.score, r, r.copy(), block_size=B, block_overlap=ov), "returns")
    for n in rec:
        for v in rec[n]:
            k.eq(n + " is 0", v, 0)
            k.ctx.assume(to_z3(v) == 0)  # just proved
    k.eq("score is 0", got, 0)
    k.reach("end")


@S.contract("rejections", [MADM + "most_apparent_distortion", MADM + "MAD.score"], reach=("end",),
            cases=[("negative",), ("zero",), ("rows",), ("columns",), ("overlap 1",), ("overlap below 0",), ("weights",), ("default weights",)])
def rejections(k, what):
    r, m = pair(k, 4 if "weights" in what else 0, "float64")
    install(k)
    met = k.returns(k.call(MADM + "MAD", data_range=255), "constructed")
    kw = {"block_size": 4, "block_overlap": 0.5}
    if what == "negative":
        kw["block_size"] = k.int("B", None, -1)
    elif what == "zero":
        kw["block_size"] = 0
    elif what in ("rows", "columns"):
        kw["block_size"] = k.int("B", 1)
        k.assume(to_z3(kw["block_size"]) > to_z3(r._sh[what == "columns"]))
    elif what.startswith("overlap"):
        kw["block_overlap"] = o = k.real("ov")
        k.assume(to_z3(o) >= 1 if what == "overlap 1" else to_z3(o) < 0)
    elif what == "weights":
        kw.update(weights=[k.real("w0"), k.real("w1")], scales_num=3)
        k.assume(to_z3(kw["weights"][0]) + to_z3(kw["weights"][1]) > 0)
    else:
        kw.update(scales_num=4)
    k.raises(k.call(met.score, r, m, **kw), ValueError, what + " raises ValueError")
    k.check("no score", met.score_val is None, "a score was stored")
    k.reach("end")


@S.contract("filters depend on their arguments", ["viqa.utils.misc:gabor_convolve", MADM + "_contrast_sensitivity_function"], reach=("end",),
            timeout=250, cases=[(1, 1), (2, 1), (1, 2)])
def filters(k, ns, no):
    """The callee contract used above: bank and sensitivity function are functions of their arguments and leave the image alone."""
    r, m = pair(k, 1, "float64")
    csf = MADM + "_contrast_sensitivity_function"
    gab = "viqa.utils.misc:gabor_convolve"
    kw = {"min_wavelength": 3, "wavelength_scaling": 3, "bandwidth_param": 0.55, "d_theta_on_sigma": 1.5}
    other = {"min_wavelength": 2, "wavelength_scaling": 1.5, "bandwidth_param": 0.4, "d_theta_on_sigma": 2}
    f = k.real("cpd")
    res = []
    for _ in range(2):
        res.append((k.returns(k.call(gab, r, ns, no, **kw), "bank"), k.returns(k.call(csf, *r.shape, f, lambda_csf=0.114, f_peak=7.8909), "csf")))
        k.returns(k.call(gab, m, no, ns, **other), "another bank")
        k.returns(k.call(csf, r.shape[1], r.shape[0], 3, lambda_csf=0.2, f_peak=5), "another csf")
    for i in range(ns):
        for j in range(no):
            a, b = res[0][0][i, j], res[1][0][i, j]
            k.elements("same bank", b, r._sh, lambda *i, a=a: a.at(*i))
    a, b = res[0][1], res[1][1]
    k.elements("same sensitivity", b, r._sh, lambda *i: a.at(*i))
    k.unchanged("frame", r)
    k.unchanged("frame", m)
    k.reach("end")
