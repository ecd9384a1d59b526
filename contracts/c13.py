"""C13: calculating several metrics gives each metric its own prepared-pair score."""

import z3

from contracts.c16 import luma
from vc import arr as A
from vc import libs
from vc import loops as L
from vc import npmod as N
from vc.contract import Suite
from vc.core import Sym, Unsupported, simp, to_z3

S = Suite("C13")
S.assumptions = ["metrics are represented by stand-ins whose score is an uninterpreted function of the images and "
                 "parameters they receive (a caller is checked against the metric's contract, not its body)",
                 "skimage.transform.resize is an uninterpreted function of its arguments"]
MM = "viqa.multiple:MultipleMetrics"
CALC = "viqa.multiple:_calc"
RES = "viqa.utils.loading:_resize_image"


def fakes(k):
    """Stand-in metrics: the score is an opaque function of what they are given."""

    def mk(base, kind):
        class Fake(k.get("viqa._metrics:" + base)):
            def __init__(self, name):
                super().__init__(None, False)
                self._name = name
                self.calls = []

            def score(self, *imgs, **par):
                k.check("number of images per score call", len(imgs) == kind, f"{len(imgs)}")
                for i in imgs:
                    k.check("metrics receive image arrays", isinstance(i, A.ndarray))
                self.calls.append((imgs, dict(par)))
                self.score_val = value(self._name, imgs, par)
                return self.score_val

            def print_score(self):
                pass

        return Fake

    return mk("FullReferenceMetricsInterface", 2), mk("NoReferenceMetricsInterface", 1)


class Pick:
    """Generic neighbouring elements number ka and ka + 1 of a list."""

    def __init__(self):
        self.a = None

    def __call__(self, i):
        i = simp(to_z3(i))
        if self.a is None or i.eq(self.a):
            self.a = i
            return 0
        if i.eq(simp(self.a + 1)):
            return 1
        raise Unsupported("access to another element")


def value(name, imgs, par):
    """Uninterpreted score of a metric."""
    args = [i.view(A.ndarray) for i in imgs]
    for n in sorted(par):
        args += [n, par[n]]
    return A.opaque("score." + name, args, (), A.F64)


def images(k, kind, dr="float64", dm=None, same=False):
    def one(p, dt):
        if kind == "rgb":
            return k.arr(p, shape=(k.int(p + "0", 1), k.int(p + "1", 1), 3), dtype=dt)
        a = k.arr(p, int(kind[0]), dt)
        if kind == "3d":
            k.assume(to_z3(a._sh[2]) != 3)
        return a

    r = one("r", dr)
    m = k.arr("m", shape=r._sh, dtype=dm or dr) if same else one("m", dm or dr)
    return r, m


def roi_for(k, kind, sh):
    roi = []
    for d in range(3 if kind == "3d" else 2):
        lo, hi = k.int(f"lo{d}", 0), k.int(f"hi{d}")
        k.assume(z3.And(lo.e < hi.e, hi.e <= to_z3(sh[d])))
        roi.append((lo, hi))
    if kind == "3d":
        k.assume((hi - lo) != 3)
    return roi


def prepared(k, kind, r, m, roi, order=1):
    """Specification of the prepared pair."""
    equal = r.ndim == m.ndim and k.split(z3.And(*[to_z3(x) == to_z3(y) for x, y in zip(r._sh, m._sh)]))
    if not equal:
        m = libs.resize(m, r._sh, preserve_range=True, order=order).astype(r.dtype)
    if roi is not None:
        box = tuple(slice(a, b) for a, b in roi)
        r, m = r[box], m[box]
    if kind == "rgb":
        r, m = [lum_arr(x) for x in (r, m)]
    return r, m


def lum_arr(x):
    from vc.core import IDX

    if x.dtype.name not in ("float32", "float64"):
        x = x.astype(A.F64)
    return A.new_array(x._sh[:2], x.dtype, luma(x, IDX[0], IDX[1]))


MIX = ((), ("f",), ("n",), ("f", "n"), ("n", "f"), ("f", "f", "n"), ("n", "n"), ("f", "n", "f"))


def check_results(k, res, mix, names, pars, pair, label="score on the prepared pair"):
    want = []
    for t, nm, par in zip(mix, names, pars):
        if t == "f":
            want.append((nm, value(nm, pair, par)))
        else:
            want.append((nm + "_r", value(nm, pair[:1], par)))
            want.append((nm + "_m", value(nm, pair[1:], par)))
    k.check("exactly the expected entries", isinstance(res, dict) and list(res) == [w[0] for w in want], f"{res!r:.200}")
    for nm, v in want:
        k.check("entries are plain numbers", not isinstance(res[nm], A.ndarray))
        k.eq(label, res[nm], v)


def setup(k, mix):
    F, R = fakes(k)
    names = [f"M{i}" for i in range(len(mix))]
    mets = L.VList([(F if t == "f" else R)(n) for t, n in zip(mix, names)])
    pars = L.VList([{"alpha": k.real(f"alpha{i}"), "mode": "x"} if i % 2 == 0 else {} for i in range(len(mix))])
    return mets, names, pars


@S.contract("prepared pair", [MM + ".calculate", CALC, RES], cases=[(kd, mix) for kd in ("2d", "3d", "rgb") for mix in MIX],
            reach=("end",))
def calc(k, kind, mix):
    dr, dm = k.choose([("float64", "float64"), ("uint8", "uint8"), ("uint8", "uint16"), ("float32", "uint8")])
    r, m = images(k, kind, dr, dm)
    mets, names, pars = setup(k, mix)
    mm = k.returns(k.call(MM, mets, pars), "constructed")
    kw = {}
    order = k.choose([1, 3])
    if order != 1:
        kw["scaling_order"] = order
    roi = None
    if k.choose([False, True]):
        roi = roi_for(k, kind, r._sh)
        kw["roi"] = roi
    k.assume(z3.And(*[to_z3(x) != to_z3(y) for x, y in zip(r._sh[:1], m._sh[:1])]) if k.choose([0, 1]) else
             z3.And(*[to_z3(x) == to_z3(y) for x, y in zip(r._sh, m._sh)]))
    out = k.call(mm.calculate, r, m, **kw)
    k.unchanged("frame", r)
    k.unchanged("frame", m)
    if dr != dm and k.split(z3.And(*[to_z3(x) == to_z3(y) for x, y in zip(r._sh, m._sh)])):
        k.raises(out, ValueError, "equal shapes of different type are rejected")
        return
    res = k.returns(out, "calculated")
    check_results(k, res, mix, names, pars, prepared(k, kind, r, m, roi, order))
    k.check("results are stored", mm.results is res)
    for i, p in enumerate(pars):
        k.check("parameters unchanged", list(p) == (["alpha", "mode"] if i % 2 == 0 else []))
    k.reach("end")


@S.contract("any number of metrics", [MM + ".calculate", CALC], cases=[(kd, a, b) for kd in ("2d", "3d", "rgb") for a in "fn" for b in "fn"],
            reach=("end", "empty"))
def unbounded(k, kind, ta, tb):
    """Induction over the list of metrics: see vc/induct.py."""
    from vc import induct

    r, m = images(k, kind, "uint8", "uint8")
    mets, names, pars = setup(k, (ta, tb))
    pars[1] = {"beta": k.real("beta")}
    keep = [dict(p) for p in pars]
    n = k.int("n", 0)
    ctl, pick = induct.Induct(), Pick()
    mm = k.returns(k.call(MM, L.VList([]), L.VList([])), "constructed")
    mm.metrics, mm.metrics_parameters = L.SymSeq(n.e, lambda i: mets[pick(i)]), L.SymSeq(n.e, lambda i: pars[pick(i)])
    mm.metrics.induct = mm.metrics_parameters.induct = ctl
    roi = roi_for(k, kind, r._sh) if k.choose([False, True]) else None
    k.assume(to_z3(r._sh[0]) != to_z3(m._sh[0]) if k.choose([0, 1]) else
             z3.And(*[to_z3(x) == to_z3(y) for x, y in zip(r._sh, m._sh)]))
    res = k.returns(k.call(mm.calculate, r, m, **({} if roi is None else {"roi": roi})), "calculated")
    k.check("results are stored", mm.results is res)
    k.unchanged("frame", r)
    k.unchanged("frame", m)
    if ctl.result == "empty":
        k.check("no entries", res == {}, f"{res!r:.100}")
        k.reach("empty")
        return
    if ctl.result is None:
        raise Unsupported("no loop over the metrics")
    pair = prepared(k, kind, r, m, roi)
    for lab, i in (("a", 0), ("step", 1)):
        if lab in ctl.effects:
            eff = [w for w in ctl.effects[lab].values() if w]
            k.check("a metric writes its own entries", len(eff) == 1, f"{eff!r:.100}")
            check_results(k, eff[0], (ta, tb)[i:i + 1], names[i:i + 1], keep[i:i + 1], pair)
    k.check("parameters unchanged", all(list(p) == list(q) and all(p[x] is q[x] for x in p) for p, q in zip(pars, keep)))
    if ctl.result == "induction":
        k.reach("end")


@S.contract("each metric alone", [MM + ".calculate", CALC], cases=["2d", "3d"], reach=("end",), timeout=200)
def alone(k, kind):
    """Real metrics: the entry is what the metric scores on the pair itself."""
    dt = k.choose(["uint8", "float64"])
    r, m = images(k, kind, dt, same=True)
    P, Q = "viqa.fr_metrics.psnr:PSNR", "viqa.fr_metrics.rmse:RMSE"
    SN = "viqa.nr_metrics.snr:SNR"
    mk = lambda: [k.call(P, data_range=255).value, k.call(Q).value, k.call(SN).value]  # noqa: E731
    rad = k.int("radius", 1)
    if kind == "3d":
        k.assume(to_z3(r._sh[2]) > 3)
    c = []
    for d in range(int(kind[0])):
        v = k.int(f"c{d}", 0)
        k.assume(z3.And(v.e >= rad.e, v.e + rad.e <= to_z3(r._sh[d])))
        c.append(v)
    par = [{}, {}, {"signal_center": tuple(c), "radius": rad, "region_type": "cubic"}]
    mm = k.returns(k.call(MM, L.VList(mk()), L.VList([dict(p) for p in par])), "constructed")
    res = k.returns(k.call(mm.calculate, r, m), "calculated")
    a, b, s = mk()
    k.check("exactly the expected entries", list(res) == ["PSNR", "RMSE", "SNR_r", "SNR_m"], f"{list(res)}")
    for nm, met, imgs, p in (("PSNR", a, (r, m), {}), ("RMSE", b, (r, m), {}), ("SNR_r", s, (r,), par[2]), ("SNR_m", s, (m,), par[2])):
        k.eq("entry of " + nm, res[nm], k.returns(k.call(met.score, *imgs, **p), nm + " alone"))
    k.reach("end")


@S.contract("normalised pair", [MM + ".calculate", CALC], cases=["2d", "3d"], reach=("end",))
def normalised(k, kind):
    dt, rng = k.choose([("uint8", 1), ("float64", 1), ("float32", 255), ("uint16", 255), ("int16", 65535), ("uint8", 255)])
    r, m = images(k, kind, dt, same=True)
    for a in (r, m):
        i, j = k.skolem(a._sh), k.skolem(a._sh)
        k.assume(a.at(*i) != a.at(*j))
    mix = ("f", "n")
    mets, names, pars = setup(k, mix)
    mm = k.returns(k.call(MM, mets, pars), "constructed")
    roi = roi_for(k, kind, r._sh) if k.choose([False, True]) else None
    kw = dict(normalize=True, data_range=rng)
    res = k.returns(k.call(mm.calculate, r, m, roi=roi, **kw), "calculated")
    pair = [k.returns(k.call("viqa.utils.loading:load_data", x, roi=roi, **kw), "loads") for x in (r, m)]
    check_results(k, res, mix, names, pars, pair, "score on the normalised and cropped pair")
    k.reach("end")


@S.contract("rejected lists", ["viqa.multiple:_MultipleInterface.__init__"],
            cases=["length", "metric", "params", "class", "empty", "symbolic"], reach=("end",))
def rejected(k, what):
    F, R = fakes(k)
    if what == "symbolic":
        n, q = k.int("n", 0), k.int("q", 0)
        k.assume(n != q)
        f = F("A")
        out = k.call(MM, L.SymSeq(n.e, lambda i: f), L.SymSeq(q.e, lambda i: {}))
        k.raises(out, ValueError, "different lengths are rejected")
        k.reach("end")
        return
    n = k.choose([1, 2, 3])
    if what == "empty":
        k.returns(k.call(MM, L.VList([]), L.VList([])), "empty lists are accepted")
        k.reach("end")
        return
    mets = [k.choose([F, R])(f"M{i}") for i in range(n)]
    pars = [{} for _ in range(n)]
    at = k.choose(list(range(n)))
    if what == "length":
        if k.choose([0, 1]):
            mets.pop()
        else:
            pars.pop()
    elif what == "metric":
        mets[at] = k.choose([None, "PSNR", 3, {}])
    elif what == "class":
        mets[at] = F
    elif what == "params":
        pars[at] = k.choose([None, [], "x", 1])
    out = k.call(MM, L.VList(mets), L.VList(pars))
    k.raises(out, ValueError, "bad list is rejected")
    k.reach("end")


S.bounded_notes = ["parameter dictionaries of up to two entries; lists of metrics and images: any size"]
