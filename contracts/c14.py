"""C14: exports contain exactly the results and change nothing."""

import csv
import io

import z3

from contracts.c13 import Pick, fakes, setup
from vc import induct
from vc import loops as L
from vc.contract import Suite
from vc.core import Sym, Unsupported, simp, to_z3

S = Suite("C14")
S.assumptions = ["the csv module and text files write what they are given (the real csv module formats the rows; numbers "
                 "appear as opaque tokens)", "metric, image and parameter names stand for arbitrary distinct strings",
                 "matplotlib draws what it is given (recorded by a stand-in)"]
S.bounded_notes = ["columns: up to three results per pair; rows, metrics and pairs: any number (induction)",
                   "figure: up to nine full-reference and four no-reference results"]
EX = "viqa.utils.export:"
MM = "viqa.multiple:MultipleMetrics"
BM = "viqa.multiple:BatchMetrics"
CLASSES = ["viqa.fr_metrics.psnr:PSNR", "viqa.fr_metrics.rmse:RMSE", "viqa.fr_metrics.ssim:SSIM", "viqa.fr_metrics.uqi:UQI",
           "viqa.fr_metrics.msssim:MSSSIM", "viqa.fr_metrics.fsim:FSIM", "viqa.fr_metrics.gsm:GSM", "viqa.fr_metrics.mad:MAD",
           "viqa.fr_metrics.vif:VIFp", "viqa.fr_metrics.vsi:VSI", "viqa.nr_metrics.snr:SNR", "viqa.nr_metrics.cnr:CNR"]


class Results(L.SymSeq):
    """Results of any number of pairs: dictionary from str(number) to a dictionary."""

    def __init__(self, k, n, at, first, pick, ctl):
        super().__init__(n, lambda i: str(Sym(simp(to_z3(i)))), "results")
        self.k, self.at, self.first, self.pick, self.induct = k, at, first, pick, ctl

    def _seq(self, f):
        s = L.SymSeq(self.n, f)
        s.induct = self.induct
        return s

    def items(self):
        return self._seq(lambda i: (str(Sym(simp(to_z3(i)))), self.at[self.pick(i)]))

    def keys(self):
        return self._seq(self._item)

    def values(self):
        return self._seq(lambda i: self.at[self.pick(i)])

    def __getitem__(self, key):
        if key == "0":
            return self.first
        t = self.k.ctx.tokens.get(key) if isinstance(key, str) else None
        if t is None:
            raise Unsupported("key of the results")
        return self.at[self.pick(t[1])]

    def get(self, key, default=None):
        return self[key]

    def __setitem__(self, *a):
        self.k.fail("results unchanged", "an element of the results is replaced")

    def pop(self, *a):
        self.k.fail("results unchanged", "an element of the results is removed")

    clear = popitem = update = setdefault = __delitem__ = pop


def rows(text):
    return list(csv.reader(io.StringIO(text)))


def cell(k, label, text, want):
    """A csv cell shows exactly the value (a string or a number)."""
    if isinstance(want, str):
        k.check(label, text == want, f"{text!r} instead of {want!r}")
        return
    t = k.ctx.tokens.get(text)
    if t is None and not isinstance(want, Sym):
        k.check(label, text == str(want), f"{text!r} instead of {want!r}")
        return
    if t is None:
        k.fail(label, f"{text!r} is not the value")
        return
    k.check(label, t[0] == "v", f"formatted {text!r}")
    k.prove(label, to_z3(Sym(t[1])) == to_z3(want) if t[1].sort() == to_z3(want).sort() else z3.BoolVal(False))


def snapshot(o):
    return {n: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for n, v in vars(o).items()}


def untouched(k, o, snap, label):
    now = snapshot(o)
    ok = list(now) == list(snap) and all(
        (now[n] is snap[n]) or (isinstance(snap[n], dict) and list(now[n]) == list(snap[n]) and all(now[n][x] is snap[n][x] for x in snap[n]))
        or (isinstance(snap[n], list) and len(now[n]) == len(snap[n]) and all(p is q for p, q in zip(now[n], snap[n])))
        or (isinstance(snap[n], (str, int, float, tuple)) and now[n] == snap[n]) for n in snap)
    k.check(label, ok, f"{snap!r:.150} -> {now!r:.150}")


def written(k):
    return {p: t for p, t in k.ctx.ghost.get("written", {}).items()}


def scored(k, i, met, kinds=("none", "float", "int")):
    what = k.choose(list(kinds))
    if what == "none":
        met.score_val = None
    elif what == "float":
        met.score_val = k.real(f"score{i}")
    else:
        met.score_val = k.int(f"score{i}")
    return met


NAMES = {"out.csv": "out.csv", "out": "out.csv", "out.txt": "out.txt.csv", "a.b.csv": "a.b.csv"}


@S.contract("export_results, any number of metrics", [EX + "export_results"], cases=list(NAMES), reach=("end", "empty"))
def results_any(k, fname):
    F, R = fakes(k)
    mets = [scored(k, 0, F("Ma")), scored(k, 1, R("Mb"))]
    snaps = [snapshot(m) for m in mets]
    ctl, pick = induct.Induct(), Pick()
    n = k.int("n", 0)
    seq = L.SymSeq(n.e, lambda i: mets[pick(i)])
    seq.induct = ctl
    ret = k.choose([False, True])
    out = k.call(EX + "export_results", seq, "/out", fname, **({"return_dict": True} if ret else {}))
    v = k.returns(out, "exported")
    path = "/out/" + NAMES[fname]
    w = written(k)
    k.check("exactly the file is written", list(w) == [path], f"{list(w)}")
    text = w[path]
    if ctl.result == "empty":
        k.check("header only", rows(text) == [["Metric", "Value"]], repr(text))
        k.check("empty dictionary", v == {} if ret else v is None)
        k.reach("empty")
        return
    if ctl.result is None:
        raise Unsupported("no loop over the metrics")
    head, *tail = text.split(induct.LOOP)
    k.check("header", rows(head) == [["Metric", "Value"]], repr(head))
    k.check("nothing after the rows", tail == [""], repr(tail))
    for lab, m in (("a", mets[0]), ("step", mets[1])):
        if lab not in ctl.texts:
            continue
        t = ctl.texts[lab][path]
        got = rows(t)
        if m.score_val is None:
            k.check("metric without a score is not in the file", t == "", repr(t))
        else:
            k.check("one row per metric", len(got) == 1 and len(got[0]) == 2 and t.endswith("\n"), repr(t))
            cell(k, "name of the row", got[0][0], m._name)
            cell(k, "value of the row", got[0][1], m.score_val)
        eff = {d: x for d, x in ctl.effects[lab].items() if x}
        k.check("one dictionary entry per metric", (len(eff) == 1 and list(list(eff.values())[0]) == [m._name]) or (not eff and not ret),
                f"{eff!r:.150}")
        for d in eff.values():
            x = d[m._name]
            if m.score_val is None:
                k.check("missing score is n/a", isinstance(x, str) and x == "n/a", repr(x))
            else:
                k.check("entry is the score", x is m.score_val or (isinstance(x, Sym) and x.e.eq(m.score_val.e)), repr(x))
    for m, s in zip(mets, snaps):
        untouched(k, m, s, "metrics unchanged")
    if ctl.result == "induction":
        k.reach("end")


@S.contract("export_results, short lists", [EX + "export_results"], cases=[0, 1, 2, 3], reach=("end",))
def results_some(k, n):
    F, R = fakes(k)
    mets = L.VList([scored(k, i, (F, R)[i % 2](f"M{i}")) for i in range(n)])
    snaps = [snapshot(m) for m in mets]
    v = k.returns(k.call(EX + "export_results", mets, "/out", "x.csv", return_dict=True), "exported")
    text = written(k)["/out/x.csv"]
    got = rows(text)
    have = [m for m in mets if m.score_val is not None]
    k.check("one row per scored metric", len(got) == 1 + len(have) and got[0] == ["Metric", "Value"], repr(text))
    for g, m in zip(got[1:], have):
        k.check("row format", len(g) == 2)
        cell(k, "name of the row", g[0], m._name)
        cell(k, "value of the row", g[1], m.score_val)
    k.check("dictionary names", list(v) == [m._name for m in mets], f"{v!r:.100}")
    for m in mets:
        x = v[m._name]
        k.check("dictionary value", x == "n/a" if m.score_val is None else x is m.score_val or x.e.eq(m.score_val.e), repr(x))
    for m, s in zip(mets, snaps):
        untouched(k, m, s, "metrics unchanged")
    k.reach("end")


def check_meta(k, text, cls, rng, par):
    lines = [x.rstrip() for x in text.split("\n")]
    keep = [x for x in lines if x and set(x) != {"-"}]
    want = [cls, ("data_range", rng)] + list(par.items())
    k.check("one line per entry", len(keep) == len(want), f"{keep}")
    k.check("name of the metric", keep[0] == cls, f"{keep[0]!r}")
    for line, (key, v) in zip(keep[1:], want[1:]):
        name, sep, val = line.partition(": ")
        k.check("name of the entry", sep == ": " and name == key, repr(line))
        cell(k, "value of the entry", val, "None" if v is None else v)


@S.contract("metadata, any number of metrics", [EX + "export_metadata", "viqa.multiple:_MultipleInterface.export_metadata"],
            cases=CLASSES, reach=("end",))
def meta_any(k, cls):
    other = k.get(CLASSES[(CLASSES.index(cls) + 5) % len(CLASSES)])
    C = k.get(cls)
    rng = [k.choose([65535, None]), k.int("range", 1)]
    mets, par = [], []
    for i, c in enumerate((C, other)):
        m = k.returns(k.call(c, **({} if rng[i] is None else {"data_range": rng[i]})), "constructed")
        rng[i] = m.parameters["data_range"] if rng[i] is None else rng[i]
        mets.append(scored(k, i, m, ("float",) if i else ("none", "float")))
        p = {}
        for j in range(k.choose([0, 2]) if i else 2):
            p[f"par{i}{j}"] = k.real(f"par{i}{j}") if j % 2 == 0 else k.int(f"par{i}{j}")
        if i == 0:
            p["text"] = "cubic"
        par.append(p)
    snaps = [snapshot(m) for m in mets]
    before = [dict(p) for p in par]
    ctl, pick = induct.Induct(), Pick()
    n = k.int("n", 1)
    seq = L.SymSeq(n.e, lambda i: mets[pick(i)])
    pseq = L.SymSeq(n.e, lambda i: par[pick(i)])
    seq.induct = pseq.induct = ctl
    if k.choose([0, 1]):
        out = k.call(EX + "export_metadata", seq, pseq, "/out", "m.txt")
    else:
        mm = k.returns(k.call(MM, L.VList([]), L.VList([])), "constructed")
        mm.metrics, mm.metrics_parameters = seq, pseq
        out = k.call(mm.export_metadata, "/out", "m.txt")
        k.check("lists unchanged", mm.metrics is seq and mm.metrics_parameters is pseq)
    k.returns(out, "exported")
    w = written(k)
    k.check("exactly the file is written", list(w) == ["/out/m.txt"], f"{list(w)}")
    if ctl.result is None:
        raise Unsupported("no loop over the metrics")
    k.check("one block of entries", w["/out/m.txt"].count(induct.LOOP) == 1)
    for lab, i in (("a", 0), ("step", 1)):
        if lab not in ctl.texts:
            continue
        check_meta(k, ctl.texts[lab]["/out/m.txt"], type(mets[i]).__name__, rng[i], before[i])
    for m, s in zip(mets, snaps):
        untouched(k, m, s, "metrics unchanged")
    k.check("parameters unchanged", all(list(p) == list(q) and all(p[x] is q[x] for x in p) for p, q in zip(par, before)))
    if ctl.result == "induction":
        k.reach("end")


def values(k, p, names):
    return {n: (k.real(f"{p}{n}") if i != 1 else k.int(f"{p}{n}")) for i, n in enumerate(names)}


COLS = [("PSNR",), ("PSNR", "SNR_r", "SNR_m"), ("A", "B"), ()]


@S.contract("batch results, any number of pairs", [BM + ".export_results"], cases=[(c,) for c in COLS], reach=("end",))
def batch_any(k, cols):
    k.ctx.files["/data/p.csv"] = "reference_image,modified_image\nx.png,y.png\n"
    mets, names, pars = setup(k, ("f",))
    bm = k.returns(k.call(BM, "/data", "/data/p.csv", mets, pars), "constructed")
    n = k.int("n", 1)
    ctl, pick = induct.Induct(), Pick()
    at = [values(k, "a", cols), values(k, "b", cols)]
    before = [dict(d) for d in at]
    imgs = [("ra.png", "ma.png"), ("rb.png", "mb.png")]
    pairs = L.SymSeq(n.e, lambda i: {"reference_image": imgs[pick(i)][0], "modified_image": imgs[pick(i)][1]})
    pairs.induct = ctl
    bm.pairs = pairs
    bm.results = Results(k, n.e, at, values(k, "z", cols), pick, ctl)
    snap = snapshot(bm)
    k.returns(k.call(bm.export_results, "/out", "r.csv"), "exported")
    untouched(k, bm, snap, "batch unchanged")
    k.check("results unchanged", all(list(p) == list(q) and all(p[x] is q[x] for x in p) for p, q in zip(at, before)))
    w = written(k)
    k.check("exactly the file is written", list(w) == ["/out/r.csv"], f"{list(w)}")
    if ctl.result is None:
        raise Unsupported("no loop over the results")
    head, *tail = w["/out/r.csv"].split(induct.LOOP)
    k.check("header", rows(head) == [["pair_num", "reference_image", "modified_image", *cols]], repr(head))
    k.check("nothing after the rows", tail == [""], repr(tail))
    for lab, i, num in (("a", 0, ctl.ka), ("step", 1, ctl.kb)):
        if lab not in ctl.texts:
            continue
        t = ctl.texts[lab]["/out/r.csv"]
        got = rows(t)
        k.check("one row per pair", len(got) == 1 and len(got[0]) == 3 + len(cols) and t.endswith("\n"), repr(t))
        g = got[0]
        cell(k, "number of the pair", g[0], Sym(num))
        cell(k, "reference image of the pair", g[1], imgs[i][0])
        cell(k, "modified image of the pair", g[2], imgs[i][1])
        for x, c in zip(g[3:], cols):
            cell(k, "value under its name", x, at[i][c])
    if ctl.result == "induction":
        k.reach("end")


@S.contract("batch results, three pairs", [BM + ".export_results"], cases=["order", "reversed"], reach=("end",))
def batch_some(k, how):
    n = k.choose([1, 2, 3])
    k.ctx.files["/data/p.csv"] = "reference_image,modified_image\n" + "".join(f"r{i}.png,m{i % 2}.png\n" for i in range(n))
    mets, names, pars = setup(k, ("f",))
    bm = k.returns(k.call(BM, "/data", "/data/p.csv", mets, pars), "constructed")
    cols = ("PSNR", "SNR_r", "SNR_m")
    order = list(range(n)) if how == "order" else list(range(n))[::-1]
    bm.results = {str(i): values(k, f"p{i}", cols) for i in order}
    before = {p: dict(d) for p, d in bm.results.items()}
    k.returns(k.call(bm.export_results, "/out", "r.csv"), "exported")
    got = rows(written(k)["/out/r.csv"])
    k.check("header", got[0] == ["pair_num", "reference_image", "modified_image", *cols], repr(got[0]))
    k.check("one row per pair", [g[:3] for g in got[1:]] == [[str(i), f"r{i}.png", f"m{i % 2}.png"] for i in order], repr(got))
    for g, i in zip(got[1:], order):
        for x, c in zip(g[3:], cols):
            cell(k, "value under its name", x, before[str(i)][c])
    k.check("results unchanged", list(bm.results) == list(before) and all(
        list(bm.results[p]) == list(before[p]) and all(bm.results[p][c] is before[p][c] for c in cols) for p in before))
    k.reach("end")


@S.contract("multiple results", [MM + ".export_results"], cases=[(c,) for c in COLS], reach=("end",))
def multi(k, cols):
    mm = k.returns(k.call(MM, L.VList([]), L.VList([])), "constructed")
    vals = values(k, "v", cols)
    mm.results = dict(vals)
    snap = snapshot(mm)
    k.returns(k.call(mm.export_results, "/out", "r.csv"), "exported")
    untouched(k, mm, snap, "results unchanged")
    w = written(k)
    k.check("exactly the file is written", list(w) == ["/out/r.csv"], f"{list(w)}")
    got = rows(w["/out/r.csv"])
    k.check("one column per result", got[0] == list(cols) and len(got) == 2 and len(got[1]) == len(cols), repr(got))
    for x, c in zip(got[1], cols):
        cell(k, "value under its name", x, vals[c])
    k.reach("end")


@S.contract("wrong extension", [BM + ".export_results", MM + ".export_results", EX + "export_metadata", EX + "export_image"],
            cases=["batch", "multiple", "metadata", "metadata2", "image"], reach=("end",))
def extension(k, what):
    good = {"batch": ".csv", "multiple": ".csv", "metadata": ".txt", "metadata2": ".txt", "image": ".png"}[what]
    name = k.choose([n for n in ("x", "x.tx", "x.csv", "x.txt", "x.png", "x.csv.gz", "x.txt.bak", "xcsv", "x.", "x.png.csv", "x.csv.txt")
                     if not n.endswith(good)])
    mm = k.returns(k.call(MM, L.VList([]), L.VList([])), "constructed")
    mm.results = values(k, "v", ("A", "B"))
    if what == "batch":
        k.ctx.files["/data/p.csv"] = "reference_image,modified_image\nx.png,y.png\n"
        bm = k.returns(k.call(BM, "/data", "/data/p.csv", L.VList([]), L.VList([])), "constructed")
        bm.results = {"0": values(k, "v", ("A", "B"))}
        out = k.call(bm.export_results, "/out", name)
    elif what == "multiple":
        out = k.call(mm.export_results, "/out", name)
    elif what == "metadata":
        out = k.call(EX + "export_metadata", L.VList([]), L.VList([]), "/out", name)
    elif what == "metadata2":
        out = k.call(mm.export_metadata, "/out", name)
    else:
        fig = plot_stub(k)
        r = k.arr("r", 2, "uint8")
        out = k.call(EX + "export_image", mm.results, r, r, file_path="/out", file_name=name, show_image=False)
        k.check("no figure is saved", not fig["saved"])
    k.raises(out, ValueError, "wrong extension is rejected")
    k.check("nothing is written", not written(k) and not [e for e in k.ctx.log if e[0].startswith("open")])
    k.reach("end")


class Fig:
    def __init__(self, rec):
        self._rec = rec

    def text(self, x, y, s, **kw):
        self._rec["texts"].append((x, y, s))

    def suptitle(self, *a, **kw):
        pass

    def __getattr__(self, n):
        raise Unsupported(f"figure method {n}")


class Axes:
    def __init__(self, rec, i):
        self._rec, self._i = rec, i

    def imshow(self, img, **kw):
        self._rec["images"][self._i] = img

    def set_title(self, t, **kw):
        self._rec["titles"][self._i] = t

    def invert_yaxis(self):
        pass

    def axis(self, *a):
        pass

    def __getattr__(self, n):
        raise Unsupported(f"axes method {n}")


def plot_stub(k):
    rec = {"texts": [], "images": {}, "titles": {}, "saved": [], "shown": 0}
    plt = k.prog.stubs["matplotlib.pyplot"]
    plt.__dict__["subplots"] = lambda r, c, **kw: (Fig(rec), [Axes(rec, i) for i in range(c)])
    plt.__dict__["savefig"] = lambda p, **kw: rec["saved"].append(p)

    def show(*a, **kw):
        rec["shown"] += 1

    plt.__dict__["show"] = show
    plt.__dict__["close"] = lambda *a: None
    return rec


@S.contract("figure", [EX + "export_image"], cases=[(f, n) for f in (0, 1, 3, 4, 5, 8, 9) for n in (0, 1, 2, 4)], reach=("end",))
def figure(k, nf, nn):
    rec = plot_stub(k)
    names = [f"M{i}" for i in range(nf)]
    for i in range(nn):
        names.insert(2 * i, f"N{i // 2}" + ("_r", "_m")[i % 2])
    res = {n: k.real(n) for n in names}
    before = dict(res)
    r = k.arr("r", 2, "uint8")
    m = k.arr("m", shape=r._sh, dtype="uint8")
    save = k.choose([False, True])
    k.returns(k.call(EX + "export_image", res, r, m, show_image=False, **({"file_path": "/out", "file_name": "c.png"} if save else {})),
              "drawn")
    k.unchanged("images unchanged", r)
    k.unchanged("images unchanged", m)
    k.check("results unchanged", list(res) == list(before) and all(res[n] is before[n] for n in res))
    k.check("saved where requested", rec["saved"] == (["/out/c.png"] if save else []), f"{rec['saved']}")
    shown = {}
    for _, _, t in rec["texts"]:
        n, sep, v = t.partition(": ")
        k.check("every result once", sep == ": " and n in before and n not in shown, repr(t))
        shown[n] = v
    k.check("all results shown", set(shown) == set(before), f"{sorted(shown)}")
    k.check("results do not overlap", len({(x, y) for x, y, _ in rec["texts"]}) == len(names))
    for n, v in shown.items():
        k.check("value to two decimals under its name", v == format(before[n], ".2f"), repr(v))
    k.check("both images drawn", set(rec["images"]) == {0, 1})
    for i, a in ((0, r), (1, m)):
        b = rec["images"][i]
        k.check("shape drawn", b.ndim == 2)
        k.prove("shape drawn", z3.And(*[to_z3(p) == to_z3(q) for p, q in zip(b._sh, a._sh)]))
        x, y = k.skolem(a._sh)
        k.eq("image drawn", b.at(x, y), a.at(x, to_z3(a._sh[1]) - 1 - y))
    k.reach("end")


@S.contract("report of several metrics", [MM + ".report"], cases=[None, "proj"], reach=("end",))
def report_multi(k, proj):
    calls = []
    k.prog.patch(EX + "export_image", lambda **kw: calls.append(kw))
    mets, names, pars = setup(k, ("f",))
    mm = k.returns(k.call(MM, mets, pars), "constructed")
    cols = ("A", "B_r")
    mm.results = values(k, "v", cols)
    snap = snapshot(mm)
    c, me, te, im = [k.choose([False, True]) for _ in range(4)]
    kw = dict(csv=c, metadata=me, text=te, image=im, file_path="/out", project_name=proj)
    if im:
        kw.update(img_r="r.png", img_m="m.png", x=3, export_image=k.choose([False, True]))
    k.returns(k.call(mm.report, **kw), "reported")
    untouched(k, mm, snap, "results unchanged")
    pre = "" if proj is None else proj + "_"
    w = written(k)
    want = ([f"/out/{pre}results.csv"] if c else []) + ([f"/out/{pre}metadata.txt"] if me else [])
    k.check("exactly the requested files", sorted(w) == sorted(want), f"{list(w)}")
    if c:
        got = rows(w[want[0]])
        k.check("one column per result", got[0] == list(cols) and len(got) == 2, repr(got))
        for x, n in zip(got[1], cols):
            cell(k, "value under its name", x, snap["results"][n])
    prints = [e[1] for e in k.ctx.log if e[0] == "print"]
    k.check("one line per result", len(prints) == (2 if te else 0), f"{prints}")
    for t, n in zip(prints, cols):
        a, _, v = t.strip().partition(": ")
        k.check("printed value", a == n and v == format(snap["results"][n], ".2f"), t)
    k.check("figure on request", len(calls) == int(im))
    for q in calls:
        k.check("figure of the results", q["results"] is mm.results and q["img_r"] == "r.png" and q["img_m"] == "m.png" and q["x"] == 3
                and q.get("y") is None and q.get("z") is None, f"{q}")
        k.check("figure file", (q["file_path"] == "/out") == kw["export_image"])
    k.reach("end")


@S.contract("report of a batch", [BM + ".report"], cases=["none", "global", "rois"], reach=("end",))
def report_batch(k, how):
    calls = []
    if not k.prog.patch(EX + "export_image", lambda **kw: calls.append(kw)):
        raise Unsupported("export_image is not used by viqa.multiple")
    k.ctx.files["/data/p.csv"] = "reference_image,modified_image\nx.png,y.png\n"
    mets, names, pars = setup(k, ("f",))
    bm = k.returns(k.call(BM, "/data", "/data/p.csv", mets, pars), "constructed")
    R = [[(0, 1), (2, 3)], [(1, 2), (0, 4)]]
    for f in "xy":
        k.ctx.files[f"/data/{f}.png"] = k.arr(f, shape=(8, 9), dtype="uint8")
    k.returns(k.call(bm.calculate, **({"roi": R[0]} if how == "global" else {})), "calculated")
    n = k.int("n", 1)
    ctl, pick = induct.Induct(), Pick()
    cols = ("A", "B")
    at = [values(k, "a", cols), values(k, "b", cols)]
    imgs = [("ra.png", "ma.png"), ("rb.png", "mb.png")]
    pairs = L.SymSeq(n.e, lambda i: {"reference_image": imgs[pick(i)][0], "modified_image": imgs[pick(i)][1]})
    pairs.induct = ctl
    bm.pairs = pairs
    bm.results = Results(k, n.e, at, values(k, "z", cols), pick, ctl)
    want = [None, None]
    if how == "global":
        want = [R[0], R[0]]
    if how == "rois":
        bm.rois = L.SymSeq(n.e, lambda i: R[pick(i)])
        want = R
    snap = snapshot(bm)
    k.returns(k.call(bm.report, csv=False, metadata=False, image=True, file_path="/out", z=2), "reported")
    untouched(k, bm, snap, "batch unchanged")
    if ctl.result is None:
        raise Unsupported("no loop over the pairs")
    k.check("one figure per pair", len(calls) == 1 or (ctl.result == "induction" and len(calls) >= 3), f"{len(calls)}")
    for q, i in ((calls[0], 0), (calls[-1], 1)):
        if len(calls) == 1 and i == 1:
            break
        k.check("results of the pair", q["results"] is at[i])
        k.check("images of the pair", (q["img_r"], q["img_m"]) == ("/data/" + imgs[i][0], "/data/" + imgs[i][1]), f"{q}")
        k.check("region of the pair", q.get("roi") is want[i], f"{q.get('roi')}")
        k.check("slice", q.get("z") == 2 and q.get("x") is None and q.get("y") is None)
        k.check("saved, not shown", q["file_path"] == "/out" and q["show_image"] is False)
    if ctl.result == "induction":
        k.reach("end")
