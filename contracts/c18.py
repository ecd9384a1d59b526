"""C18: image arrays compute like plain arrays and describe themselves correctly."""

import z3

from vc import arr as A
from vc import npmod as N
from vc.contract import Suite
from vc.core import Sym, Unsupported, as_real, to_z3

S = Suite("C18")
S.assumptions = ["the mean of an image array is modelled as the mean of its voxels (the numpy reduction itself goes through __array_ufunc__, which is proved for plain, image and mixed operands)"]
IA = "viqa.utils.loading:ImageArray"
UF = "viqa.utils.loading:ImageArray.__array_ufunc__"
BIN = ("add", "subtract", "multiply", "true_divide", "maximum", "minimum", "less", "greater_equal", "equal", "not_equal", "power")
UN = ("negative", "absolute", "sqrt", "exp", "square", "isnan")
PAIRS = ("image-image", "image-array", "array-image", "image-number", "number-image")


def eq_arr(k, label, x, y):
    k.check(label + " type", x.dtype.name == y.dtype.name, f"{x.dtype.name} vs {y.dtype.name}")
    k.elements(label, x, y._sh, lambda *i: y.at(*i))


def operands(k, how, nd, dt):
    cls = k.get(IA)
    sh = tuple(k.int(f"n{d}", 1) for d in range(nd))
    d2 = k.choose(["float32", "float64", "uint8"]) if k.choose([0, 1]) else dt
    a = k.arr("a", shape=sh, dtype=dt)
    b = k.arr("b", shape=sh, dtype=d2)
    x, y = how.split("-")
    if "number" in how:
        b = k.choose([2, 0.5])
    mk = lambda v, w: v.view(cls) if w == "image" else v  # noqa: E731
    if x == "number":
        a, b = b, a
    return (a, b), (mk(a, x), mk(b, y)), cls


@S.contract("binary operation", [UF], cases=[(u, p) for u in BIN for p in PAIRS], reach=("end",), timeout=200)
def binary(k, op, how):
    np = k.np()
    f = getattr(np, op)
    dt = k.choose(["uint8", "float32", "int32"]) if op not in ("power",) else "float64"
    (a, b), (x, y), cls = operands(k, how, k.choose([2, 3]), dt)
    try:
        ref = f(a, b)
    except Unsupported:
        raise
    out = k.returns(k.call(f, x, y), "returns")
    k.check("result is an image array", type(out) is cls, type(out).__name__)
    eq_arr(k, "same values", out, ref)
    for v in (a, b):
        if isinstance(v, A.ndarray):
            k.unchanged("operands unchanged", v)
    k.reach("end")


DUNDER = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": lambda a, b: a ** 2,
          "<": lambda a, b: a < b, "==": lambda a, b: a == b, "neg": lambda a, b: -a, "abs": lambda a, b: abs(a)}


@S.contract("operator", [UF], cases=[(u, p) for u in DUNDER for p in PAIRS if not (u in ("neg", "abs", "**") and p[:5] != "image")], reach=("end",))
def dunder(k, op, how):
    f = DUNDER[op]
    (a, b), (x, y), cls = operands(k, how, 2, "float64")
    ref = f(a, b)
    out = k.returns(k.call(f, x, y), "returns")
    k.check("result is an image array", type(out) is cls, type(out).__name__)
    eq_arr(k, "same values", out, ref)
    k.reach("end")


@S.contract("unary operation", [UF], cases=[(u,) for u in UN], reach=("end",))
def unary(k, op):
    np = k.np()
    f = getattr(np, op)
    cls = k.get(IA)
    a = k.arr("a", k.choose([2, 3]), k.choose(["float64", "float32", "int16"]))
    ref = f(a)
    out = k.returns(k.call(f, a.view(cls)), "returns")
    k.check("result is an image array", type(out) is cls, type(out).__name__)
    eq_arr(k, "same values", out, ref)
    k.unchanged("operand unchanged", a)
    k.reach("end")


@S.contract("explicit output", [UF], cases=[(op, inp, o) for op in ("add", "multiply", "subtract") for inp in ("image-image", "image-array", "array-image", "array-array")
                                             for o in ("image", "array") if not (inp == "array-array" and o == "array")], reach=("end",))
def explicit(k, op, how, okind):
    np = k.np()
    f = getattr(np, op)
    (a, b), (x, y), cls = operands(k, how, 2, "float64")
    ref = f(a, b)
    o = k.arr("o", shape=a._sh, dtype="float64")
    ov = o.view(cls) if okind == "image" else o
    out = k.returns(k.call(f, x, y, out=k.choose([ov, (ov,)])), "returns")
    k.check("the given output is returned", out is ov)
    k.elements("output receives the values", o, a._sh, lambda *i: ref.at(*i))
    k.unchanged("operands unchanged", a)
    k.unchanged("operands unchanged", b)
    k.reach("end")


@S.contract("in-place operator", [UF], cases=[("image-array",), ("image-image",), ("image-number",)], reach=("end",))
def inplace(k, how):
    (a, b), (x, y), cls = operands(k, how, 2, "float64")
    ref = a.copy() * b

    def f(u, v):
        u *= v
        return u

    out = k.returns(k.call(f, x, y), "returns")
    k.check("image array", type(out) is cls)
    k.elements("values", out, a._sh, lambda *i: ref.at(*i))
    k.reach("end")


@S.contract("construction", [IA + ".__new__", IA + ".__array_finalize__"], cases=[(d,) for d in ("uint8", "float32", "int16")], reach=("end",))
def construct(k, dt):
    cls = k.get(IA)
    a = k.arr("a", k.choose([2, 3]), dt)
    for src in (a, a.view(cls)):
        x = k.returns(k.call(cls, src), "returns")
        k.check("image array", type(x) is cls)
        eq_arr(k, "values", x, a)
    s = x[0]
    k.check("slice is an image array", type(s) is cls)
    k.elements("slice values", s, a._sh[1:], lambda *i: a.at(0, *i))
    k.unchanged("frame", a)
    k.reach("end")


STATS = {"mean": "mean_value", "median": "median", "variance": "variance", "standarddev": "standarddev", "skewness": "skewness",
         "kurtosis": "kurtosis", "minimum": "minimum", "maximum": "maximum"}


def truth(k, a):
    np = k.np()
    st = k.prog.stubs["scipy.stats"]
    return {"mean": np.mean(a), "median": np.median(a), "variance": np.var(a), "standarddev": np.std(a), "skewness": st.skew(a, axis=None),
            "kurtosis": st.kurtosis(a, axis=None), "minimum": np.min(a), "maximum": np.max(a)}


@S.contract("statistics", [IA + ".calculate_statistics"], cases=[(d, n) for d in ("uint8", "uint16", "int16", "int32", "float32", "float64") for n in (2, 3)], reach=("end",))
def statistics(k, dt, nd):
    np = k.np()
    cls = k.get(IA)
    a = k.arr("a", nd, dt)
    x = a.view(cls)
    if k.choose([0, 1]):
        # statistics of an earlier content of the image
        for n in STATS.values():
            setattr(x, n, k.real("old_" + n))
        x.histogram = (k.arr("old_counts", 1, "int64"), k.arr("old_edges", 1, "float64"))
    k.returns(k.call(x.calculate_statistics), "returns")
    for n, v in truth(k, a).items():
        k.eq(n, getattr(x, STATS[n]), v)
    h = x.histogram
    k.check("histogram is a pair", isinstance(h, tuple) and len(h) == 2)
    # a histogram of the image's voxels with any number of bins
    bins = h[0]._sh[0]
    ref = np.histogram(a, bins=bins)
    k.elements("histogram counts", h[0], ref[0]._sh, lambda *i: ref[0].at(*i))
    k.elements("histogram edges", h[1], ref[1]._sh, lambda *i: ref[1].at(*i))
    k.unchanged("image unchanged", a)
    k.reach("end")


@S.contract("description", [IA + ".describe", IA + ".calculate_statistics"], cases=[(d, f) for d in ("uint8", "float32") for f in ("s", "s.csv", "s.CSV", "none", "nopath")], reach=("end",))
def description(k, dt, name):
    cls = k.get(IA)
    a = k.arr("a", 2, dt)
    x = a.view(cls)
    k.returns(k.call(x.calculate_statistics), "returns")
    if k.choose([0, 1]):
        # described before with other statistics
        for n in STATS.values():
            setattr(x, n, k.real("old_" + n))
        k.returns(k.call(x.describe), "described before")
        k.returns(k.call(x.calculate_statistics), "returns again")
    if name == "none":
        out = k.call(x.describe)
    elif name == "nopath":
        out = k.call(x.describe, filename="s.csv")
    else:
        out = k.call(x.describe, "/out", name)
    d = k.returns(out, "returns")
    t = truth(k, a)
    k.check("one entry per statistic", list(d) == list(t) or set(d) == set(t), str(list(d)))
    for n in t:
        k.eq("described " + n, d[n], t[n])
    w = k.ctx.ghost.get("written", {})
    if name in ("none", "nopath"):
        k.check("nothing written", not w, str(w))
        k.reach("end")
        return
    k.check("one file", len(w) == 1 and list(w)[0].lower() == "/out/s.csv", str(list(w)))
    rows = list(w.values())[0]
    import csv
    import io

    rows = list(csv.reader(io.StringIO(rows)))
    k.check("header and one row", len(rows) == 2 and len(rows[0]) == len(rows[1]) == len(t), str(rows))
    k.check("header names", set(rows[0]) == set(t), str(rows[0]))
    for n, cell in zip(*rows):
        v = k.ctx.tokens.get(cell)
        k.check("cell holds a value", v is not None, cell)
        k.eq("exported " + n, Sym(v[1]), t[n])
    k.reach("end")


class AbsUFunc(N.UFunc):
    """Any element-wise numpy function: nin operands, nout results with uninterpreted element functions."""

    def __init__(self, nin, nout):
        super().__init__("any", nin)
        self.nout = nout
        self.nargs = nin + nout
        self.seen = []

    def _run(self, method, *inputs, out=(), **kw):
        self.seen.append((method, inputs, out, kw))
        if method == "at":
            return None
        if method != "__call__":
            raise Unsupported("method")
        arrs = [x for x in inputs if isinstance(x, A.ndarray)]
        sh = arrs[0]._sh
        vals = [as_real(x.content()) if isinstance(x, A.ndarray) else as_real(to_z3(x)) for x in inputs]
        res = []
        for j in range(self.nout):
            f = z3.Function(f"any{j}", *[z3.RealSort()] * (self.nin + 1))
            r = A.new_array(sh, A.as_dtype("float64"), f(*vals))
            o = out[j] if out else None
            if o is not None:
                o[...] = r
                r = o
            res.append(r)
        return res[0] if self.nout == 1 else tuple(res)


@S.contract("every element-wise function", [UF], cases=[(i, o, w) for i in (1, 2, 3) for o in (1, 2) for w in ("new", "out", "options")], reach=("end",), timeout=200)
def every(k, nin, nout, how):
    cls = k.get(IA)
    sh = tuple(k.int(f"n{d}", 1) for d in range(k.choose([1, 2, 3])))
    plain = [k.arr(f"a{i}", shape=sh, dtype="float64") for i in range(nin)]
    kinds = [k.choose(["image", "array"]) for _ in plain]
    outs = None
    kw = {}
    if how == "out":
        ob = [k.arr(f"o{j}", shape=sh, dtype="float64") for j in range(nout)]
        okind = [k.choose(["image", "array"] + (["none"] if nout > 1 else [])) for _ in ob]
        outs = tuple(b.view(cls) if w == "image" else b if w == "array" else None for b, w in zip(ob, okind))
        kw["out"] = outs
        if "image" not in kinds + okind or all(o is None for o in outs):
            return
    elif how == "options":
        kw = dict(where=k.arr("w", shape=sh, dtype="bool"), casting="unsafe")
    if how != "out" and "image" not in kinds:
        return
    args = [a.view(cls) if w == "image" else a for a, w in zip(plain, kinds)]
    u = AbsUFunc(nin, nout)
    got = k.returns(k.call(u, *args, **kw), "returns")
    ref = AbsUFunc(nin, nout)._run("__call__", *plain)
    got, ref = (got,) if nout == 1 else got, (ref,) if nout == 1 else ref
    k.check("as many results", isinstance(got, tuple) and len(got) == nout, f"{type(got).__name__}")
    k.check("evaluated once", len(u.seen) == 1)
    k.check("options are passed on", u.seen[0][3] == {q: v for q, v in kw.items() if q != "out"} or all(
        u.seen[0][3].get(q) is v for q, v in kw.items() if q != "out"), str(u.seen[0][3]))
    for j, (g, r) in enumerate(zip(got, ref)):
        if outs and outs[j] is not None:
            k.check("the given output is returned", g is outs[j])
            k.elements("output receives the values", ob[j], sh, lambda *i: r.at(*i))
        else:
            k.check("result is an image array", type(g) is cls, type(g).__name__)
            k.elements("same values", g, sh, lambda *i: r.at(*i))
    for a in plain:
        k.unchanged("operands unchanged", a)
    k.reach("end")
