"""C12: batch results equal fresh calculations for every pair."""

import z3

from contracts.c13 import check_results, prepared, roi_for, setup
from vc import induct
from vc import loops as L
from vc.contract import Suite
from vc.core import Sym, Unsupported, simp, to_z3

S = Suite("C12")
S.assumptions = ["metrics are represented by stand-ins whose score is an uninterpreted function of the images and "
                 "parameters they receive", "skimage.transform.resize is an uninterpreted function of its arguments",
                 "an image file has the same contents whenever it is read; file names are representatives that share folder, base name, stem, "
                 "spelling or length with one another"]
BM = "viqa.multiple:BatchMetrics"
FN = [BM + ".calculate", "viqa.multiple:_calc", BM + ".__init__", "viqa.multiple:_read_pairs"]
CSV = "/data/pairs.csv"


# file names that share folder, base name, stem, spelling or length with another one
NAMES = ("a/x.png", "b/x.png", "a/x.bmp", "a/X.png", "b/y.png", "c/y.tiff")


def rotated(how):
    r = {"none": 0, "rois": 2, "global": 1}.get(how, 0)
    return NAMES[r:4] + NAMES[:r] + NAMES[4:]


def partitions(n):
    """All equality patterns of n names."""
    out = [[]]
    for i in range(n):
        out = [p + [j] for p in out for j in range((max(p) + 1 if p else 0) + 1)]
    return out


def files(k, kind, names, dt, shapes, call=NAMES):
    """One symbolic image per distinct path; shapes: equality pattern of the image shapes."""
    fs, sh = {}, {}
    for n in dict.fromkeys(names):
        s = shapes[n] if shapes else n
        if s not in sh:
            sh[s] = tuple(k.int(f"s{s}_{d}", 4) for d in range(int(kind[0])))
            if kind == "3d":
                k.assume(sh[s][2] > 3)
        fs[n] = k.arr(f"im{n}", shape=sh[s], dtype=dt)
        k.ctx.files["/data/" + call[n]] = fs[n]
    return fs


def batch(k, pairs, mix, rois=None, sep=",", call=NAMES):
    rows = [f"reference_image{sep}modified_image"] + [f"{call[a]}{sep}{call[b]}" for a, b in pairs]
    k.ctx.files[CSV] = "\n".join(rows) + "\n"
    mets, names, pars = setup(k, mix)
    kw = {} if rois is None else {"rois": rois}
    bm = k.returns(k.call(BM, "/data", CSV, mets, pars, **kw), "constructed")
    return bm, names, pars


def some_rois(k, kind, fs, pairs, how):
    """None, one region per pair (possibly equal), or a global region."""
    if how == "none":
        return None
    out = L.VList()
    for i, (a, b) in enumerate(pairs):
        roi = L.VList()
        for d in range(int(kind[0])):
            lo, hi = k.int(f"lo{i}_{d}", 0), k.int(f"hi{i}_{d}")
            k.assume(z3.And(lo.e < hi.e))
            for n in ((a, b) if how == "rois" else {x for p in pairs for x in p}):
                k.assume(hi.e <= to_z3(fs[n]._sh[d]))
            if d == 2:
                k.assume(hi - lo > 3)
            roi.append((lo, hi))
        out.append(roi)
        if how == "global":
            break
    return out


def spec(k, kind, fs, pair, roi, res, mix, names, pars):
    a, b = pair
    check_results(k, res, mix, names, pars, prepared(k, kind, fs[a], fs[b], roi), "result of the pair is that of a fresh calculation")


@S.contract("every pair, any number of pairs", FN[:3],
            cases=[(p, how) for p in partitions(4) for how in ("none", "rois", "global")], reach=("end",), timeout=200)
def induction(k, pat, how):
    """Induction over the list of pairs: see vc/induct.py."""
    kind = "2d"
    dt = "uint8" if how == "rois" else k.choose(["uint8", "float32"])
    pairs = [(pat[0], pat[1]), (pat[2], pat[3])]
    ns = max(pat) + 1
    shapes = {n: (n if dt == "uint8" else 0) for n in range(ns)}
    call = rotated(how)
    fs = files(k, kind, pat, dt, shapes, call)
    mix = ("f", "n")
    bm, names, pars = batch(k, pairs, mix, call=call)
    n = k.int("pairs", 0)
    ctl = induct.Induct()
    which = {}

    def idx(i):
        i = simp(to_z3(i))
        if "a" not in which or i.eq(which["a"]):
            which.setdefault("a", i)
            return 0
        if i.eq(simp(which["a"] + 1)):
            return 1
        raise Unsupported("access to another pair")

    seq = L.SymSeq(n.e, lambda i: {"reference_image": call[pairs[idx(i)][0]], "modified_image": call[pairs[idx(i)][1]]})
    seq.induct = ctl
    bm.pairs = seq
    rois = some_rois(k, kind, fs, pairs, how)
    if how == "rois":
        bm.rois = L.SymSeq(n.e, lambda i: rois[idx(i)])
    out = k.call(bm.calculate, **({"roi": rois[0]} if how == "global" else {}))
    k.returns(out, "calculated")
    k.check("results returned", out.value is bm.results)
    if ctl.result in (None, "empty"):
        k.check("no pairs, no loop", ctl.result == "empty")
        return
    at = [None, None] if rois is None else ([rois[0]] * 2 if how == "global" else rois)
    for lab, kk, p in (("a", ctl.ka, 0), ("step", ctl.kb, 1)):
        if lab not in ctl.effects:
            continue
        eff = {d: w for d, w in ctl.effects[lab].items() if w}
        k.check("an iteration writes its own result only", list(eff) == ["self.results"] and len(eff["self.results"]) == 1,
                f"{eff!r:.200}")
        (key, res), = eff["self.results"].items()
        tok = k.ctx.tokens.get(key)
        if tok is None:
            raise Unsupported("result key is not the pair number")
        k.prove("result is stored under the pair's number", to_z3(tok[1]) == kk)
        spec(k, kind, fs, pairs[p], at[p], res, mix, names, pars)
    if ctl.result == "induction":
        k.reach("end")


@S.contract("lists of three pairs", FN, cases=[(p, how) for p in ((0, 1, 2), (0, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1)) for how in
                                               ("none", "rois", "global")], reach=("end",), timeout=250)
def three(k, refpat, how):
    """Bounded cross-check without the induction (any caching scheme)."""
    kind = k.choose(["2d", "3d"]) if refpat == (0, 1, 0) and how == "none" else "2d"
    mods = k.choose([(0, 1, 2), (0, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1)])
    cross = k.choose([False, True]) if how == "none" else False
    pairs = [(r, m if cross else m + 3) for r, m in zip(refpat, mods)]
    fs = files(k, kind, [x for p in pairs for x in p], "uint8", {n: n % 2 for n in range(6)})
    mix = ("n", "f")
    rois = some_rois(k, kind, fs, pairs, "global" if how == "rois" else how)
    if how == "rois":
        X = rois[0]
        lo, hi = k.int("lo9", 0), X[0][1]
        k.assume(z3.And(lo.e < hi.e, lo.e != X[0][0].e))
        Y = L.VList([(lo, hi)] + list(X[1:]))
        rois = L.VList([X if c == "X" else Y for c in k.choose(["XYX", "XXY", "XYY"])])
    bm, names, pars = batch(k, pairs, mix, rois if how == "rois" else None, k.choose([",", ";", "\t"]) if how == "none" else ",")
    res = k.returns(k.call(bm.calculate, **({"roi": rois[0]} if how == "global" else {})), "calculated")
    k.check("one result per pair in order", list(res) == ["0", "1", "2"], f"{list(res)}")
    at = [None] * 3 if rois is None else ([rois[0]] * 3 if how == "global" else rois)
    for i in range(3):
        spec(k, kind, fs, pairs[i], at[i], res[str(i)], mix, names, pars)
    k.check("pairs unchanged", [(p["reference_image"], p["modified_image"]) for p in bm.pairs] == [
        (NAMES[a], NAMES[b]) for a, b in pairs])
    k.reach("end")


@S.contract("repeated calculation", FN[:2], cases=["same", "other region"], reach=("end",))
def repeat(k, how):
    pairs = [(0, 1), (0, 2)]
    fs = files(k, "2d", (0, 1, 2), "uint8", {n: n for n in range(3)})
    mix = ("n", "f")
    bm, names, pars = batch(k, pairs, mix)
    rois = some_rois(k, "2d", fs, pairs, "global")
    k.returns(k.call(bm.calculate, roi=rois[0]), "first")
    roi = None if how == "other region" else rois[0]
    res = k.returns(k.call(bm.calculate, **({} if roi is None else {"roi": roi})), "second")
    for i in range(2):
        spec(k, "2d", fs, pairs[i], roi, res[str(i)], mix, names, pars)
    k.reach("end")


@S.contract("region count", [BM + ".__init__"], reach=("end",))
def count(k):
    n = k.choose([1, 2, 3])
    m = k.choose([1, 2, 3, 4])
    k.ctx.files[CSV] = "reference_image,modified_image\n" + "a.png,b.png\n" * n
    mets, names, pars = setup(k, ("f",))
    out = k.call(BM, "/data", CSV, mets, pars, rois=L.VList([[(0, 1), (0, 1)]] * m))
    if n == m:
        k.returns(out, "accepted")
    else:
        k.raises(out, ValueError, "different numbers are rejected")
    bad = k.choose(["reference_image,other", "a,modified_image", "x,y"])
    k.ctx.files[CSV] = bad + "\na.png,b.png\n"
    k.raises(k.call(BM, "/data", CSV, mets, pars), ValueError, "missing columns are rejected")
    k.reach("end")
