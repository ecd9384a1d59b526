"""C11: the native block-statistics kernel is memory-safe and exact.

The C translation unit is parsed by clang on every run and executed
symbolically (vc/cfront.py) for images of any size, any block size and any
stride.
"""

import os

import z3

from vc import arr as A
from vc import cfront as F
from vc import loops as L
from vc import npmod as N
from vc.contract import Suite
from vc.core import IDX, Sym, Unsupported, as_real, simp, to_z3, walk

S = Suite("C11")
S.assumptions += [
    "doubles are real numbers (rounding and non-finite pixel values are outside the proofs)",
    "the module is parsed with declaration-only CPython/NumPy headers (vc/cstubs): API macros are calls with the contracts in vc/cfront.py",
    "PyArray_FROM_OTF with NPY_DOUBLE and C_CONTIGUOUS returns NULL with an exception or a new reference to a C-contiguous aligned double array with the image's shape and values, possibly the image itself",
    "PyArray_ZEROS, PyArray_Return, PyArg_ParseTuple, Py_BuildValue, PyErr_*, malloc and free behave as documented",
    "NumPy's size limit: the number of bytes of the image as double array fits in npy_intp",
    "Linux x86-64 type sizes (long and pointers are 64 bits); malloc(0) does not return NULL (glibc)",
]
S.bounded_notes += []
FN = ("minstd", "getstatistics")
SRC = F.SOURCE


def setup(k, ndim=2, shape=True):
    c = F.C(k, os.path.dirname(k.prog.root))
    img = k.arr("image", 2, "float64", min_dim=0)
    n, m = [to_z3(s) for s in img._sh]
    lim = F.I64
    k.ctx.assume(z3.And(n * 8 <= lim, m * 8 <= lim, n * m * 8 <= lim, n * m >= 0))
    o = F.PyObj("array", ndim=ndim, shape=[n, m], image=img)
    o.data = None
    return c, img, o, n, m


def run(k, c, name, items):
    try:
        return c.run(name, items)
    except F.CFail:
        from vc.core import Infeasible

        raise Infeasible() from None


def block_terms(img, P, Q, B):
    """(mean, sum of squares, of cubes, of fourth powers) of the block at P, Q."""
    def S2(body):
        inner = N.sum_term([B], body)  # over columns
        return inner

    ctx = k_ctx()
    r = ctx.loopvar("r")

    def dsum(f):
        inner = N.sum_term([B], f(r, IDX[0]))
        return N.sum_term([B], z3.substitute(inner, (r, IDX[0])))

    b2 = as_real(B * B)
    mean = dsum(lambda u, v: img.at(P + u, Q + v)) / b2

    def mom(e):
        def f(u, v):
            d = img.at(P + u, Q + v) - mean
            x = d
            for _ in range(e - 1):
                x = x * d
            return x
        return dsum(f)

    return mom(2), mom(3), mom(4), b2


def k_ctx():
    from vc.core import CTX

    return CTX()


def sqrt(x):
    return A.unary_term("sqrt", x, A.as_dtype("float64"))[0]


def stats(img, P, Q, B):
    s2, s3, s4, b2 = block_terms(img, P, Q, B)
    sd = sqrt(simp(s2 / simp(b2 - 1)))
    pop = sqrt(simp(s2 / b2))
    skw = z3.If(pop != 0, s3 / (b2 * (pop * pop * pop)), z3.RealVal(0))
    krt = z3.If(pop != 0, s4 / (b2 * (pop * pop * pop * pop)), z3.RealVal(0))
    return sd, skw, krt


def cell(k, n, m, B, s):
    """An arbitrary position, inside or outside the cells."""
    ctx = k.ctx
    a, b = ctx.fresh_int("a"), ctx.fresh_int("b")
    du, dv = ctx.fresh_int("du"), ctx.fresh_int("dv")
    ctx.assume(z3.And(a >= 0, b >= 0, du >= 0, du < s, dv >= 0, dv < s))
    P, Q = a * s, b * s
    p, q = P + du, Q + dv
    ctx.assume(z3.And(P >= 0, Q >= 0, p < n, q < m, p >= 0, q >= 0))
    return a, b, p, q, P, Q


def result_at(k, c, r, p, q):
    m = r.data
    body = m.a.content()
    return L.rewrite_flat(simp(A.tmpl(body, {0: q, 1: p} if r.fortran else {0: p, 1: q})))


def well_formed(k, c, name, r, n, m):
    k.check(f"{name}: result is a two-dimensional double array", isinstance(r, F.PyObj) and r.kind == "array" and
            r.data is not None and r.data.ctype == "double" and len(r.shape) == 2)
    k.prove(f"{name}: result has the image's shape", z3.And(r.shape[0] == n, r.shape[1] == m))


@S.contract("memory and ownership", functions=[SRC + ":*"], cases=FN, reach=("ok", "failed"), timeout=380)
def memory(k, name):
    c, img, o, n, m = setup(k)
    B, s = k.int("blocksize", 1), k.int("stride", 1)
    k.assume(Sym(z3.And(s.e <= B.e, B.e <= F.I64)))
    r = run(k, c, name, [o, B, s])
    c.exit_checks(r, name)
    if isinstance(r, F.NullPtr):
        k.check(f"{name}: valid arguments fail only for lack of memory", c.err == "MemoryError", str(c.err))
        k.reach("failed")
    else:
        k.check(f"{name}: no exception is pending with a result", c.err is None, str(c.err))
        k.reach("ok")


@S.contract("rejections", functions=[SRC + ":*"], cases=FN, reach=("bad", "good"))
def rejections(k, name):
    c, img, o, n, m = setup(k)
    nd = k.int("ndim", 0, 64)
    o.ndim = nd.e
    B, s = k.int("blocksize"), k.int("stride")
    c.nofail = True
    valid = z3.And(nd.e == 2, s.e >= 1, s.e <= B.e, B.e <= F.I64)
    if k.split(Sym(valid)):
        c.loopless = True
        k.reach("good")
        stop = Stop()
        c.c_vc_from_otf = c.c_vc_from_any = stop
        try:
            r = run(k, c, name, [o, B, s])
        except Stop.Reached:
            k.check(f"{name}: valid arguments are accepted", c.err is None)
            return
        k.check(f"{name}: valid arguments are accepted", not isinstance(r, F.NullPtr), str(c.err))
        return
    r = run(k, c, name, [o, B, s])
    k.reach("bad")
    k.check(f"{name}: invalid arguments are rejected", isinstance(r, F.NullPtr))
    k.check(f"{name}: rejections are exceptions", c.err in ("ValueError", "OverflowError", "TypeError"), str(c.err))
    c.exit_checks(r, name)


class Stop:
    class Reached(BaseException):
        pass

    def __call__(self, *a):
        raise Stop.Reached()


@S.contract("wrong types", functions=[SRC + ":*"], cases=[(f, w) for f in FN for w in ("image", "blocksize", "stride")])
def wrong_types(k, name, which):
    c, img, o, n, m = setup(k)
    B, s = k.int("blocksize"), k.int("stride")
    items = [o, B, s]
    items[("image", "blocksize", "stride").index(which)] = F.PyObj("other") if which == "image" else F.OTHER
    r = run(k, c, name, items)
    k.check(f"{name}: arguments of another type are rejected", isinstance(r, F.NullPtr) and c.err in ("TypeError", "OverflowError"), str(c.err))
    c.exit_checks(r, name)


@S.contract("statistics of every cell", functions=[SRC + ":*"], reach=("ok",), timeout=380)
def statistics(k):
    c, img, o, n, m = setup(k)
    c.nofail = True
    B, s = k.int("blocksize", 1), k.int("stride", 1)
    k.assume(Sym(z3.And(s.e <= B.e, B.e <= F.I64)))
    r = run(k, c, "getstatistics", [o, B, s])
    k.check("three results", isinstance(r, F.PyObj) and r.kind == "tuple" and len(r.items) == 3)
    for x in r.items:
        well_formed(k, c, "getstatistics", x, n, m)
    k.reach("ok")
    inside_or_zero(k, c, img, r.items, ("standard deviation", "skewness", "kurtosis"), n, m, B.e, s.e)


def inside_or_zero(k, c, img, res, names, n, m, B, s):
    a, b, p, q, P, Q = cell(k, n, m, B, s)
    k.ctx.hints.append(lambda pc, goal, fs: F.mono(k.ctx, goal))
    ins = z3.And(P + B <= n, Q + B <= m)
    got = [result_at(k, c, r, p, q) for r in res]
    with F.scoped(k.ctx, z3.Not(ins)):
        for g, w in zip(got, names):
            prove(k, f"{w}: 0 outside the cells", g == 0)
    with F.scoped(k.ctx, ins):
        if k.ctx.feasible(z3.BoolVal(True)):
            want = stats(img, P, Q, B)
            for g, w, t in zip(got, names, want):
                prove(k, f"{w} of the block at every position of its cell", c.resolve(g) == t)


def prove(k, label, goal, weak=False):
    import time

    t = time.time()
    r, mdl = F.prove_mono(k.ctx, simp(goal), 30000)
    if weak and r == "refuted":  # only one witness was tried
        r = "unknown"
    k.rec.add(label, r, k.ctx, goal, mdl, time.time() - t)
    return r == "proved"


@S.contract("minimum deviation of every cell", functions=[SRC + ":*"], reach=("ok",), timeout=380)
def minimum(k):
    c, img, o, n, m = setup(k)
    c.nofail = True
    B, s = k.int("blocksize", 1), k.int("stride", 1)
    k.assume(Sym(z3.And(s.e <= B.e, B.e <= F.I64)))
    B, s = B.e, s.e
    r = run(k, c, "minstd", [o, Sym(B), Sym(s)])
    well_formed(k, c, "minstd", r, n, m)
    k.reach("ok")
    a, b, p, q, P, Q = cell(k, n, m, B, s)
    ins = z3.And(P + B <= n, Q + B <= m)
    got = result_at(k, c, r, p, q)
    with F.scoped(k.ctx, z3.Not(ins)):
        prove(k, "0 outside the cells", got == 0)
    with F.scoped(k.ctx, ins):
        if not k.ctx.feasible(z3.BoolVal(True)):
            return
        got = c.resolve(got)
        own = stats(img, P, Q, B)[0]
        parts = F._min_parts(got)
        if parts is None:
            prove(k, "not larger than the block's own deviation", got <= own)
            prove(k, "the deviation of one of the blocks", got == own, weak=True)
            return
        sh, body, guard, init, sign = parts
        k.check("the smallest value is taken", sign == 1)
        prove(k, "the block's own deviation takes part", c.resolve(init) == own)
        _, w = F.min_witness(got)
        sub = [(IDX[j], w[j]) for j in range(len(sh))]
        inr = [z3.And(x >= 0, x < y) for x, y in zip(w, sh)]
        with F.scoped(k.ctx, z3.substitute(guard, *sub), *inr):
            x = c.resolve(z3.substitute(body, *sub))
            found = False
            for u, v in origins(x, s):
                if F.prove_mono(k.ctx, z3.And(u >= 0, v >= 0, u + B <= n, v + B <= m), 4000)[0] != "proved":
                    continue
                if F.prove_mono(k.ctx, x == stats(img, u, v, B)[0], 20000)[0] == "proved":
                    found = True
                    break
            k.rec.add("every value that takes part is the deviation of a block", "proved" if found else "unknown", k.ctx,
                      x, None, 0.0, "" if found else "no block found whose deviation this is")


def origins(t, s):
    """Candidate origins of the block whose deviation t is."""
    out = []
    for y in walk(t):
        if z3.is_app(y) and y.decl().name().startswith("SUM") and y.num_args() >= 2:
            ps = y.children()
            for u in ps:
                for v in ps:
                    out += [(u * s, v * s), (u, v)]
    return out


