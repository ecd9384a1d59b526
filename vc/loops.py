"""Loops over a symbolic number of iterations.

A loop ``for T in S: BODY`` with a symbolic length n is summarised from one
symbolic execution of BODY for a generic iteration k (0 <= k < n):

* a local number whose value changes by an amount that does not depend on it
  has the inferred invariant ``v(k) = v(0) + sum of the changes`` (checked by a
  second symbolic execution of BODY that starts from the invariant);
* a list that receives the same number of elements per iteration becomes a
  segmented list (element number k is the appended value as a function of k);
* an array that is written gets, per element, the value of the unique
  iteration that writes it (uniqueness is proved), or its old value plus the
  sum of the increments.

Everything else (data-dependent branches on k, breaks, other side effects) is
outside the verifier's reach and raises Unsupported.
"""

import itertools

import z3

from . import arr as A
from . import npmod as N
from .core import (
    CTX, _CTX, IDX, INT, REAL, Infeasible, Sym, Unsupported, as_bool, as_int, as_real, concrete, make_app, modelled,
    scalar_like, simp, to_z3, walk,
)

BORN = itertools.count()


# --------------------------------------------------------------------------
# symbolic sequences
# --------------------------------------------------------------------------
class SymSeq:
    """Sequence of symbolic length n (a term) with item(k) as a function."""

    _vc_model = True

    def __init__(self, n, item, kind="seq"):
        self.n, self._item, self.kind = simp(to_z3(n)), item, kind

    def item(self, k):
        return self._item(k)

    def _vc_len(self):
        return Sym(self.n)

    def __len__(self):
        v = CTX().int_value(self.n)
        if v is None:
            raise Unsupported("len() of a symbolic sequence")
        return v

    def __bool__(self):
        return CTX().branch(self.n > 0)

    def __iter__(self):
        raise Unsupported("iterating a symbolic sequence outside a for loop")

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic sequence")
        ctx = CTX()
        e = simp(to_z3(i))
        if not ctx.branch(z3.And(e >= -self.n, e < self.n)):
            raise modelled(IndexError("list index out of range"))
        if not ctx.entails(e >= 0):
            e = simp(e + self.n) if ctx.entails(e < 0) else z3.If(e >= 0, e, e + self.n)
        return self.item(e)


class SymGen:
    """Unconsumed generator expression over a symbolic sequence."""

    _vc_model = True

    def __init__(self, gen, frame):
        self.gen, self.frame = gen, frame
        self.used = False

    def run(self):
        """One generic element; returns (element, k, n)."""
        if self.used:
            raise Unsupported("generator consumed twice")
        self.used = True
        f = self.frame
        ctx = CTX()
        ctx.loop_depth += 1
        try:
            items = list(self.gen)
        finally:
            ctx.loop_depth -= 1
        if f.raise_after is not None:
            raise modelled(f.raise_after)
        if len(items) != 1:
            raise Unsupported("filtered generator over a symbolic sequence")
        return items[0], f.k, f.n

    def __iter__(self):
        raise Unsupported("iterating a symbolic generator")


def is_symseq(x):
    if isinstance(x, (SymSeq, SymGen)):
        return True
    if isinstance(x, VList):
        return x._vc_segmented()
    if isinstance(x, A.ndarray):
        return bool(x._sh) and not isinstance(x._sh[0], int) and CTX().int_value(to_z3(x._sh[0])) is None
    return False


def as_symseq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, SymGen):
        e, k, n = x.run()
        return SymSeq(n, lambda j: subst_value(e, k, j))
    if isinstance(x, VList):
        return x._vc_seq()
    if isinstance(x, A.ndarray):
        return SymSeq(to_z3(x._sh[0]), lambda j: x[Sym(j)])
    raise Unsupported("symbolic sequence expected")


def concrete_iter(x):
    if is_symseq(x):
        raise Unsupported("iteration over a symbolic sequence")
    if isinstance(x, Sym):
        raise modelled(TypeError("object is not iterable"))
    return iter(x)


def loop_iter(x):
    if is_symseq(x):
        return as_symseq(x)
    if isinstance(x, Sym):
        raise modelled(TypeError("'int' object is not iterable"))
    return x


def vc_range(*a):
    a = [x.item() if isinstance(x, A.ndarray) and x.ndim == 0 else x for x in a]
    if not any(isinstance(x, Sym) for x in a):
        try:
            return range(*a)
        except (TypeError, ValueError) as e:
            raise modelled(e) from None
    ctx = CTX()
    vals = []
    for x in a:
        if isinstance(x, Sym):
            if not x.is_int:
                raise modelled(TypeError("'float' object cannot be interpreted as an integer"))
            v = ctx.int_value(x.e)
            vals.append(v if v is not None else x.e)
        else:
            vals.append(x)
    if all(isinstance(v, int) for v in vals):
        return range(*vals)
    start, stop, step = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], 1 if len(vals) == 2 else vals[2])
    s0, s1, st = to_z3(start), to_z3(stop), to_z3(step)
    d = simp(s1 - s0)
    if isinstance(step, int):
        if step == 0:
            raise modelled(ValueError("range() arg 3 must not be zero"))
        if step < 0:
            d = simp(-d)
        c = abs(step)
    else:
        if not ctx.entails(st > 0):
            raise Unsupported("range with a step of unknown sign")
        c = None
    if not ctx.branch(d > 0):
        return range(0)
    if c == 1:
        n = d
    elif c is not None:
        n = simp((d + (c - 1)) / c)
    else:
        memo = ctx.norm_memo.setdefault("range", {})
        key = (d.get_id(), st.get_id())
        if key not in memo:
            memo[key] = (ctx.fresh_int("n"), d, st)
        n = memo[key][0]
        ctx.assume(z3.And(n >= 1, (n - 1) * st < d, d <= n * st))

    def item(k):
        return Sym(simp(s0 + to_z3(k) * st))
    r = SymSeq(n, item, "range")
    if c is None:
        r.facts = lambda k: [k * st < d, k * st >= 0]
    return r


def vc_range_tq(*a, **k):
    return vc_range(*a)


def _keep(s, r):
    if getattr(s, "induct", None) is not None:
        r.induct = s.induct
    return r


def sym_enumerate(x, start=0):
    s = as_symseq(x)
    return _keep(s, SymSeq(s.n, lambda k: (Sym(simp(to_z3(k) + to_z3(start))), s.item(k))))


def sym_zip(xs, strict):
    ctx = CTX()
    n = None
    items = []
    short = False
    for x in xs:
        if is_symseq(x):
            s = as_symseq(x)
            m = s.n
            items.append(s.item)
        else:
            raise Unsupported("zip of symbolic and concrete sequences")
        if n is None:
            n = m
        elif not A.same_term(n, m):
            if ctx.branch(n == m):
                continue
            short = short or strict
            n = m if ctx.branch(m < n) else n
    r = SymSeq(n, lambda k: tuple(f(k) for f in items))
    for x in xs:
        _keep(x, r)
    if short:
        r.raise_after = ValueError("zip() arguments have different lengths")
    return r


def sym_map(f, xs):
    s = sym_zip(xs, False)
    return SymSeq(s.n, lambda k: f(*s.item(k)))


def sym_reversed(x):
    s = as_symseq(x)
    return SymSeq(s.n, lambda k: s.item(simp(s.n - 1 - to_z3(k))))


def generic_item(s):
    """(k, value, n) for a fresh generic index."""
    ctx = CTX()
    k = ctx.loopvar("k")
    ctx.assume(z3.And(k >= 0, k < s.n))
    for f in getattr(s, "facts", lambda k: [])(k):
        ctx.assume(f)
    return k


def sum_seq(x, start=0):
    ctx = CTX()
    if isinstance(x, SymGen):
        n = x.frame.n
        v, k, n = x.run()
    else:
        s = as_symseq(x)
        if getattr(s, "raise_after", None) is not None:
            raise Unsupported("strict zip")
        if not ctx.branch(s.n > 0):
            return start
        k = generic_item(s)
        n = s.n
        ctx.loop_depth += 1
        try:
            v = s.item(k)
        finally:
            ctx.loop_depth -= 1
    if isinstance(v, A.ndarray):
        raise Unsupported("sum of arrays over a symbolic sequence")
    e = to_z3(v)
    if z3.is_bool(e):
        e = as_int(e)
    isint = z3.is_int(e)
    dt = v.dt if isinstance(v, Sym) else None
    body = z3.substitute(e, (k, IDX[0]))
    r = Sym(N.sum_term([n], body, isint), dt)
    if not (isinstance(start, int) and start == 0):
        r = r + start
    return r


def all_seq(x, conj):
    if isinstance(x, SymGen):
        v, k, n = x.run()
    else:
        s = as_symseq(x)
        if not CTX().branch(s.n > 0):
            return conj
        k, n = generic_item(s), s.n
        v = s.item(k)
    b = as_bool(to_z3(v)) if scalar_like(v) else None
    if b is None:
        raise Unsupported("all/any of non-scalars")
    if not conj:
        b = z3.Not(b)
    body = simp(z3.substitute(b, (k, IDX[0])))
    if z3.is_true(body):
        r = z3.BoolVal(True)
    elif not N.has_idx(body):
        r = z3.Or(body, to_z3(n) <= 0)
    else:
        r = make_app("ALL", [("arr", [n], body, "x")], 0, z3.BoolSort())()
    return Sym(r if conj else simp(z3.Not(r)))


# --------------------------------------------------------------------------
# values as functions of k
# --------------------------------------------------------------------------
def subst_value(v, k, j, more=()):
    """Value v with loop variable k replaced by term j."""
    subs = [(k, to_z3(j))] + list(more)
    if isinstance(v, Sym):
        return Sym(simp(z3.substitute(v.e, *subs)), v.dt)
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, tuple):
        return tuple(subst_value(x, k, j, more) for x in v)
    if isinstance(v, Snap):
        return v.array(subs)
    if isinstance(v, A.ndarray):
        return Snap(v).array(subs)
    raise Unsupported(f"loop value of type {type(v).__name__}")


class Snap:
    """Snapshot of an array value."""

    def __init__(self, a):
        if isinstance(a, A.MaskedArray) or a.dtype.kind == "O":
            raise Unsupported("loop value: masked or object array")
        self.sh, self.dt, self.body, self.cls = a._sh, a.dtype, a.content(), type(a)

    def array(self, subs):
        sh = [Sym(simp(z3.substitute(s.e, *subs))) if isinstance(s, Sym) else s for s in self.sh]
        r = A.new_array(sh, self.dt, z3.substitute(self.body, *subs))
        return r if self.cls is A.ndarray else r.view(self.cls)


def snap(v):
    if isinstance(v, A.ndarray):
        return Snap(v)
    return v


# --------------------------------------------------------------------------
# lists
# --------------------------------------------------------------------------
class Seg:
    """n repetitions (loop variable k) of parts."""

    def __init__(self, n, k, parts):
        self.n, self.k, self.parts = n, k, parts


class VList(list):
    """Python list; may end with segments of symbolic length."""

    def __init__(self, it=()):
        super().__init__(it if not isinstance(it, SymGen) else ())
        self.__dict__["_segs"] = None  # None: plain list; else list of parts
        self.__dict__["_born"] = next(BORN)
        self.__dict__["_hav"] = False

    __hash__ = None

    def _vc_segmented(self):
        return self._segs is not None

    def _vc_parts(self):
        return self._segs if self._segs is not None else list(list.__iter__(self))

    def _touch(self):
        if _CTX:
            for j in CTX().ghost.get("journals", ()):
                j.list_touched(self)

    def append(self, v):
        self._touch()
        if self._segs is not None:
            self._segs.append(snap(v))
        else:
            list.append(self, v)

    def extend(self, it):
        if is_symseq(it):
            s = as_symseq(it)
            k = generic_item(s)
            self._touch()
            self._seg(Seg(s.n, k, [snap(s.item(k))]))
            return
        for v in concrete_iter(it):
            self.append(v)

    def _seg(self, seg):
        if self._segs is None:
            self.__dict__["_segs"] = [snap(v) for v in list.__iter__(self)]
            list.clear(self)
        self._segs.append(seg)

    def _guard(self):
        if self._segs is not None:
            raise Unsupported("operation on a list of symbolic length")
        if self._hav:
            raise Unsupported("reading a list that grows in a symbolic loop")

    def _vc_len(self):
        if self._hav:
            raise Unsupported("len of a list that grows in a symbolic loop")
        if self._segs is None:
            return list.__len__(self)

        def ln(ps):
            t = z3.IntVal(0)
            for p in ps:
                t = t + (p.n * ln(p.parts) if isinstance(p, Seg) else 1)
            return simp(t)

        return A.dim_val(ln(self._segs))

    def __len__(self):
        v = self._vc_len()
        if isinstance(v, Sym):
            raise Unsupported("len of a list of symbolic length")
        return v

    def __bool__(self):
        v = self._vc_len()
        return bool(v > 0)

    def _vc_seq(self):
        """The list as a symbolic sequence (single segment only)."""
        segs = self._segs
        if len(segs) != 1 or not isinstance(segs[0], Seg):
            raise Unsupported("list with several segments")
        s = segs[0]
        if len(s.parts) == 1 and not isinstance(s.parts[0], Seg):
            return SymSeq(s.n, lambda j: subst_value(s.parts[0], s.k, j))
        if len(s.parts) == 1 and isinstance(s.parts[0], Seg):
            i = s.parts[0]
            if len(i.parts) != 1 or isinstance(i.parts[0], Seg):
                raise Unsupported("deeply nested segments")
            if any(t.get_id() == s.k.get_id() for t in walk(i.n)):
                raise Unsupported("ragged nested segments")
            v = i.parts[0]

            def item(j):
                j = to_z3(j)
                return subst_value(v, s.k, flat_div(j, i.n), [(i.k, flat_mod(j, i.n))])

            return SymSeq(simp(s.n * i.n), item)
        raise Unsupported("segment with several elements per iteration")

    def _vc_to_array(self):
        if self._segs is None:
            return A.array_from(list(list.__iter__(self)))
        s = self._vc_seq()
        ctx = CTX()
        k = ctx.loopvar("e")
        ctx.assume(z3.And(k >= 0, k < s.n))
        v = s.item(k)
        if isinstance(v, A.ndarray):
            m = {j: IDX[j + 1] for j in range(v.ndim)}
            for d in v._sh:
                if isinstance(d, Sym) and any(t.get_id() == k.get_id() for t in walk(d.e)):
                    raise Unsupported("array of ragged elements")
            body = z3.substitute(A.tmpl(v.content(), m), (k, IDX[0]))
            return A.new_array([Sym(s.n)] + list(v._sh), v.dtype, body)
        if not scalar_like(v):
            raise Unsupported("np.array of non-numeric symbolic list")
        body = z3.substitute(to_z3(v), (k, IDX[0]))
        return A.new_array([Sym(s.n)], A.py_dtype(v), body)

    def __getattribute__(self, n):
        if n == "_vc_to_array" and object.__getattribute__(self, "__dict__").get("_segs") is None:
            raise AttributeError(n)
        return list.__getattribute__(self, n)

    def __iter__(self):
        self._guard()
        return list.__iter__(self)

    def __getitem__(self, i):
        if self._segs is not None:
            return self._vc_seq()[i]
        self._guard()
        if isinstance(i, Sym):
            v = CTX().int_value(i.e)
            if v is None:
                n = list.__len__(self)
                ctx = CTX()
                if not ctx.branch(z3.And(i.e >= -n, i.e < n)):
                    raise modelled(IndexError("list index out of range"))
                for j in range(-n, n - 1):
                    if ctx.branch(i.e == j):
                        return list.__getitem__(self, j)
                return list.__getitem__(self, n - 1)
            i = v
        r = list.__getitem__(self, i)
        return VList(r) if isinstance(i, slice) else r

    def __add__(self, o):
        self._guard()
        return VList(list.__add__(self, list(o)))

    def __mul__(self, n):
        self._guard()
        if isinstance(n, Sym):
            v = CTX().int_value(n.e)
            if v is None:
                raise Unsupported("list repeated a symbolic number of times")
            n = v
        if not isinstance(n, int):
            return NotImplemented
        return VList(list.__mul__(self, n))

    __rmul__ = __mul__

    def copy(self):
        self._guard()
        return VList(list.__iter__(self))

    def __eq__(self, o):
        self._guard()
        if not isinstance(o, list):
            return NotImplemented
        if list.__len__(self) != len(o):
            return False
        for x, y in zip(list.__iter__(self), o):
            if x is not y and not (x == y):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __contains__(self, x):
        self._guard()
        for y in list.__iter__(self):
            if x is y or x == y:
                return True
        return False

    def __repr__(self):
        if self._segs is not None:
            raise Unsupported("repr of a list of symbolic length")
        return list.__repr__(self)


def _mut(name):
    f = getattr(list, name)

    def m(self, *a, **k):
        self._guard()
        self._touch()
        if self._born_before_loop():
            raise Unsupported(f"list.{name} in a symbolic loop")
        return f(self, *a, **k)

    m.__name__ = name
    return m


def _born_before(self):
    if not _CTX:
        return False
    js = CTX().ghost.get("journals", ())
    return bool(js) and self._born < js[-1].born


VList._born_before_loop = _born_before
for _nm in ("__setitem__", "__delitem__", "pop", "insert", "remove", "clear", "sort", "reverse", "__iadd__", "__imul__"):
    setattr(VList, _nm, _mut(_nm))
for _nm in ("index", "count", "__lt__", "__le__", "__gt__", "__ge__", "__reversed__"):
    def _rd(f):
        def m(self, *a, **k):
            self._guard()
            return f(self, *a, **k)
        return m
    setattr(VList, _nm, _rd(getattr(list, _nm)))


def _iadd(self, o):
    self.extend(o)
    return self


VList.__iadd__ = _iadd


def to_list(x):
    if isinstance(x, VList) and x._segs is not None:
        r = VList()
        r.__dict__["_segs"] = list(x._segs)
        return r
    if is_symseq(x):
        r = VList()
        s = as_symseq(x)
        k = generic_item(s)
        r._seg(Seg(s.n, k, [snap(s.item(k))]))
        return r
    return VList(concrete_iter(x))


# --------------------------------------------------------------------------
# flat indices
# --------------------------------------------------------------------------
def _split(j, n):
    """j = c*n + r with provable 0 <= r < n: (c, r) or None."""
    d = z3.simplify(j, som=True)
    terms = d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]
    nf = z3.simplify(n, som=True)
    c, r = [], []
    for t in terms:
        q = _factor(t, nf)
        (c if q is not None else r).append(q if q is not None else t)
    if not c:
        return None
    ct = simp(z3.Sum(c)) if len(c) > 1 else c[0]
    rt = z3.IntVal(0) if not r else (z3.Sum(r) if len(r) > 1 else r[0])
    if CTX().entails(z3.And(rt >= 0, rt < n), quick=True):
        return ct, simp(rt)
    return None


def _mul_args(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
        return [y for c in t.children() for y in _mul_args(c)]
    return [t]


def _factor(t, n):
    if t.get_id() == n.get_id():
        return z3.IntVal(1)
    if t.decl().kind() == z3.Z3_OP_UMINUS:
        r = _factor(t.arg(0), n)
        return None if r is None else -r
    if t.decl().kind() == z3.Z3_OP_MUL:
        ch = _mul_args(t)
        for i, x in enumerate(ch):
            if x.get_id() == n.get_id():
                if len(ch) == 1:
                    return z3.IntVal(1)
                rest = ch[:i] + ch[i + 1:]
                r = rest[0]
                for y in rest[1:]:
                    r = r * y
                return r
    return None


def flat_div(j, n):
    if z3.is_int_value(n) and n.as_long() == 1:
        return j
    s = _flat(j, n)
    return s[0] if s else j / n


def flat_mod(j, n):
    s = _flat(j, n)
    return s[1] if s else j % n


def _flat(j, n):
    """Split by substituting n with an atom if it is compound."""
    a = z3.Int("flat!n")
    d = z3.simplify(j, som=True)
    # compound n: replace it syntactically where possible
    r = _split(j, n)
    if r:
        return r
    for t in walk(j):
        if t.decl().kind() == z3.Z3_OP_MUL and any(c.get_id() == n.get_id() for c in t.children()):
            j2 = z3.simplify(z3.substitute(j, (n, a)), som=True)
            terms = j2.children() if j2.decl().kind() == z3.Z3_OP_ADD else [j2]
            c, rr = [], []
            for x in terms:
                q = _factor(x, a)
                (c if q is not None else rr).append(q if q is not None else x)
            if not c:
                continue
            ct = z3.Sum(c) if len(c) > 1 else c[0]
            rt = z3.IntVal(0) if not rr else (z3.Sum(rr) if len(rr) > 1 else rr[0])
            ct, rt = z3.substitute(ct, (a, n)), z3.substitute(rt, (a, n))
            if CTX().entails(z3.And(rt >= 0, rt < n)):
                return simp(ct), simp(rt)
    return None


def rewrite_flat(e):
    """Simplify div/mod of flat indices inside a term."""
    for _ in range(4):
        subs = []
        for t in walk(e):
            k = t.decl().kind() if z3.is_app(t) else None
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)):
                if any(s.get_id() in _IDXIDS for s in walk(t)):
                    pass
                r = _flat(t.arg(0), t.arg(1))
                if r:
                    subs.append((t, r[0] if k == z3.Z3_OP_IDIV else r[1]))
        if not subs:
            return e
        e = simp(z3.substitute(e, *subs))
    return e


_IDXIDS = {v.get_id() for v in IDX}


# --------------------------------------------------------------------------
# comprehensions
# --------------------------------------------------------------------------
class _Frame:
    def __init__(self, k, n):
        self.k, self.n = k, n
        self.raise_after = None


_EMPTY = object()


def _frames():
    return CTX().ghost.setdefault("lc", []) if _CTX else _NOCTX


_NOCTX = []


def _raiser(e):
    raise modelled(e)
    yield


def lc(it):
    fr = _frames()
    if not is_symseq(it) if _CTX else True:
        fr.append(None)
        if isinstance(it, Sym):
            raise modelled(TypeError("object is not iterable"))
        return it
    s = as_symseq(it)
    ctx = CTX()
    ra = getattr(s, "raise_after", None)
    if not ctx.branch(s.n > 0):
        fr.append(None)
        return _raiser(ra) if ra is not None else ()
    k = generic_item(s)
    f = _Frame(k, s.n)
    f.raise_after = ra
    fr.append(f)
    ctx.loop_depth += 1
    f.active = True
    return (s.item(x) for x in [k])


def lc_end(items):
    f = _frames().pop()
    if f is None:
        return VList(items)
    CTX().loop_depth -= 1
    if f.raise_after is not None:
        raise modelled(f.raise_after)
    r = VList()
    r._seg(Seg(f.n, f.k, [snap(v) for v in items]))
    return r


def gen_end(gen):
    f = _frames().pop()
    if f is None:
        return gen
    CTX().loop_depth -= 1
    return SymGen(gen, f)


# --------------------------------------------------------------------------
# for loops
# --------------------------------------------------------------------------
_UNBOUND = object()


class Journal:
    def __init__(self):
        self.born = next(BORN)
        self.bufs = {}  # id -> (buf, body before, writes before)
        self.lists = {}  # id -> (list, copy before, segs before)
        self.log0 = None

    def buf_touched(self, b):
        if b.born < self.born and id(b) not in self.bufs:
            self.bufs[id(b)] = (b, b.body, b.writes)

    def list_touched(self, x):
        if x._born < self.born and id(x) not in self.lists:
            self.lists[id(x)] = (x, list(list.__iter__(x)), None if x._segs is None else list(x._segs))

    def rollback(self):
        for b, body, w in self.bufs.values():
            b.body, b.writes = body, w
        for x, items, segs in self.lists.values():
            list.clear(x)
            list.extend(x, items)
            x.__dict__["_segs"] = segs


def _numeric(v):
    return scalar_like(v) and not isinstance(v, bool)


class Loop:
    """Handler of one symbolic for loop (see module docstring)."""

    def __init__(self, seq, getters):
        ctx = CTX()
        self.ctx, self.seq = ctx, seq
        if getattr(seq, "raise_after", None) is not None:
            raise Unsupported("strict zip of unequal lengths in a for loop")
        self.vals = self._read(getters)
        self.init = dict(self.vals)
        self.phase = 0
        self.done = False
        self.in_body = False
        self.n = seq.n
        self.journal = None
        self.carry = {}

    @staticmethod
    def _read(getters):
        out = {}
        for k, g in getters.items():
            try:
                out[k] = g()
            except NameError:
                pass
        return out

    # ---- protocol used by the transformed code ---------------------------
    def has(self, name):
        return name in self.vals and self.vals[name] is not _UNBOUND

    def get(self, name):
        return self.vals[name]

    def more(self):
        ctx = self.ctx
        if self.phase == 0:
            if not ctx.branch(self.n > 0):
                self.done = True
                return False
            self.k = generic_item(self.seq)
            self._start(1)
            return True
        if self.phase == 1:
            self._analyse()
            self._start(2)
            return True
        self._finish()
        self.done = True
        return False

    def items(self):
        self.in_body = True
        return [self.seq.item(self.k)]

    def end(self, getters):
        self.in_body = False
        self.post = self._read(getters)
        self._pop()

    def broke(self):
        raise Unsupported("break out of a symbolic loop")

    def leave(self):
        import sys

        if self.journal is not None:
            exc = sys.exc_info()[1]
            j = self.journal
            self._pop()
            if exc is None:
                raise Unsupported("return from inside a symbolic loop")
            if isinstance(exc, (Unsupported, Infeasible)):
                return
            # an exception whose condition does not depend on the iteration is
            # raised by iteration 0; no earlier side effects may be visible
            if j.bufs or j.lists or self.phase == 2 and self.pre_bufs:
                raise Unsupported("exception after side effects in a symbolic loop")

    # ---- phases -----------------------------------------------------------
    def _start(self, phase):
        ctx = self.ctx
        self.phase = phase
        self.vals = dict(self.init)
        self.pre = {}
        for name, v in self.init.items():
            if not _numeric(v):
                continue
            if phase == 1:
                e = to_z3(v)
                f = z3.Const(ctx.name(f"pre.{name}"), e.sort())
                ctx.loopvar_ids[f.get_id()] = len(ctx.loopvar_keep)
                ctx.loopvar_keep.append(f)
                self.pre[name] = f
                ctx.spec.add(f.get_id())
                self.vals[name] = Sym(f, v.dt if isinstance(v, Sym) else None)
            elif name in self.carry:
                self.vals[name] = self.carry[name](self.k)
        self.journal = Journal()
        self.pre_bufs = []
        if phase == 2:
            for b, fn in self.havoc:
                self.pre_bufs.append((b, b.body, b.writes))
                b.body = fn(*IDX[: len(b.shape)]) if b.shape else fn
        js = ctx.ghost.setdefault("journals", [])
        js.append(self.journal)
        for x in getattr(self, "havoc_lists", ()):
            x.__dict__["_hav"] = True
        self.log_mark = len(ctx.log)
        ctx.loop_depth += 1

    def _pop(self):
        ctx = self.ctx
        js = ctx.ghost["journals"]
        if js[-1] is not self.journal:
            raise Unsupported("loop nesting")
        js.pop()
        ctx.loop_depth -= 1
        if self.phase == 1:
            ctx.spec -= {f.get_id() for f in self.pre.values()}
        for x in getattr(self, "havoc_lists", ()):
            x.__dict__["_hav"] = False
        self.last = self.journal
        self.journal = None

    def _analyse(self):
        ctx = self.ctx
        j = self.last
        # numbers
        names = {f.get_id(): n for n, f in self.pre.items()}
        for name, f in self.pre.items():
            if name not in self.post:
                continue
            v = self.post[name]
            if not _numeric(v):
                if isinstance(v, Sym) or scalar_like(v):
                    raise Unsupported("loop variable changes its kind")
                # becomes local to the iteration
                self.carry[name] = lambda k, f=f, v=self.init[name]: Sym(f, v.dt if isinstance(v, Sym) else None)
                continue
            e = to_z3(v)
            if e.sort() != f.sort():
                init = self.init[name]
                if f.sort() == INT and e.sort() == REAL and not isinstance(init, Sym):
                    # e.g. total = 0; total += x  -> treat as real
                    e2 = simp(e - z3.ToReal(f))
                    if not _mentions(e2, [f]):
                        d = e2
                        if _mentions_any(d, names):
                            raise Unsupported("mutually dependent loop variables")
                        self._sum_carry(name, as_real(to_z3(init)), d, v)
                        continue
                raise Unsupported("loop variable changes its sort")
            if not _mentions(e, [f]):
                # overwritten without being read: local to the iteration
                self.carry[name] = lambda k, f=f, v=v: Sym(f, v.dt if isinstance(v, Sym) else None)
                continue
            d = z3.simplify(e - f, som=True)
            if _mentions_any(d, names):
                raise Unsupported("loop variable without a closed form")
            self._sum_carry(name, to_z3(self.init[name]), d, v)
        # arrays and lists
        self.havoc = []
        for b, body, w in j.bufs.values():
            fn = z3.Function(ctx.name("PRE"), *([INT] * len(b.shape)), A.sort_of(b.dt)) if b.shape else z3.Const(
                ctx.name("PRE"), A.sort_of(b.dt))
            self.havoc.append((b, fn))
        self.havoc_lists = [x for x, _, _ in j.lists.values()]
        j.rollback()
        del ctx.log[self.log_mark:]

    def _sum_carry(self, name, init, d, v):
        dt = v.dt if isinstance(v, Sym) else None
        k0 = self.k
        if z3.is_int(d) and not _mentions(d, [k0]) and not _mentions_idx(d):
            self.carry[name] = lambda k: Sym(simp(init + to_z3(k) * d), dt)
            return
        isint = z3.is_int(d)

        def closed(k):
            body = z3.substitute(d, (k0, IDX[0]))
            return Sym(init + N.sum_term([to_z3(k)], body, isint), dt)

        self.carry[name] = closed

    def _finish(self):
        ctx = self.ctx
        j, k, n = self.last, self.k, self.n
        new = [b for b, _, _ in j.bufs.values() if not any(b is h for h, _ in self.havoc)]
        if new:
            raise Unsupported("array written only in some executions of a loop body")
        # numbers: check the invariant and compute final values
        fvals = dict(self.post)
        pre_ids = {f.get_id() for f in self.pre.values()}
        for name, c in self.carry.items():
            v = self.post.get(name, _UNBOUND)
            if v is _UNBOUND:
                continue
            cur = c(k)
            if isinstance(cur, Sym) and any(cur.e.get_id() == f.get_id() for f in self._all_pre()):
                continue  # local to the iteration
            nxt = c(simp(k + 1))
            g = to_z3(v)
            d1 = z3.simplify(as_real(g) - as_real(cur.e), som=True)
            d2 = z3.simplify(as_real(nxt.e) - as_real(cur.e), som=True)
            if z3.is_int(nxt.e) and z3.is_int(g):
                if ctx.prove(nxt.e == g, 5000)[0] != "proved":
                    if not _sum_step(nxt.e, cur.e, g, k):
                        raise Unsupported("loop invariant not inductive")
            elif not _sum_step(nxt.e, cur.e, g, k):
                raise Unsupported("loop invariant not inductive")
            fvals[name] = c(n)
        for name, v in self.post.items():
            if name in self.carry and fvals[name] is not self.post[name]:
                continue
            fvals[name] = self._last_value(v)
        # lists
        for x, items, segs in j.lists.values():
            before = items if segs is None else segs
            after = x._vc_parts()
            if len(after) < len(before):
                raise Unsupported("list shrinks in a symbolic loop")
            parts = [snap(p) for p in after[len(before):]]
            list.clear(x)
            list.extend(x, items)
            x.__dict__["_segs"] = None if segs is None else list(segs)
            x._seg(Seg(n, k, parts))
        # arrays
        for b, body0, w0 in self.pre_bufs:
            fn = dict((id(h), f) for h, f in self.havoc)[id(b)]
            b.body_new = summarise(ctx, b, fn, k, n, b.body, body0, getattr(self, "inrange", None))
            b.writes = w0 + 1
        for b, body0, w0 in self.pre_bufs:
            cur = b.body_new
            b.body = body0
            b.write(cur)
        # no inconsistent use of other buffers' PRE values
        for name, v in list(fvals.items()):
            for t in _terms(v):
                if any(_uses(t, f) for _, f in self.havoc):
                    raise Unsupported("value depends on intermediate array contents")
        ev = ctx.log[self.log_mark:]
        del ctx.log[self.log_mark:]
        if ev:
            ctx.log.append(("loop", k, n, ev))
        self.vals = fvals

    def _all_pre(self):
        return [z for z in self.ctx.loopvar_keep if z.decl().name().startswith("pre.")]

    def _last_value(self, v):
        if isinstance(v, (Sym, A.ndarray, tuple)):
            try:
                return subst_value(v, self.k, simp(self.n - 1))
            except Unsupported:
                return Poison()
        return v


class Poison:
    """A loop-local value that must not be used after the loop."""

    _vc_model = True

    def __getattribute__(self, n):
        if n in ("__class__", "_vc_model"):
            return object.__getattribute__(self, n)
        raise Unsupported("use of a loop-local value after the loop")


def _sum_step(nxt, cur, val, k):
    """SUM over k+1 elements = SUM over k elements + element k."""
    g = simp(as_real(val) - as_real(cur))
    for t in walk(as_real(nxt)):
        from .core import REG, PARAM

        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            d = REG.by_name.get(t.decl().name())
            if d is not None and d.name in ("SUM", "SUMI"):
                ps = t.children()[: d.nparam]
                body = d.args[0][2]
                sp = [(PARAM[i], ps[i]) for i in range(d.nparam)]
                el = z3.substitute(body, *sp) if sp else body
                el = z3.substitute(el, (IDX[0], k))
                if z3.simplify(as_real(el) - g, som=True).eq(z3.RealVal(0)):
                    return True
                if CTX().prove(as_real(el) == g, 3000)[0] == "proved":
                    return True
    return False


def _terms(v):
    if isinstance(v, Sym):
        return [v.e]
    if isinstance(v, A.ndarray):
        return [v.content()] if v.dtype.kind != "O" and v._cells is None else []
    if isinstance(v, tuple):
        return [t for x in v for t in _terms(x)]
    return []


def _mentions(e, vs):
    ids = {v.get_id() for v in vs}
    return any(t.get_id() in ids for t in walk(e))


def _mentions_any(e, ids):
    return any(t.get_id() in ids for t in walk(e))


def _mentions_idx(e):
    return any(t.get_id() in _IDXIDS for t in walk(e))


def _uses(e, fn):
    d = fn if isinstance(fn, z3.FuncDeclRef) else fn.decl()
    return any(z3.is_app(t) and t.decl().eq(d) for t in walk(e))


def summarise(ctx, b, fn, k, n, body, init, inrange=None):
    """Contents of buffer b after n iterations of body(PRE, k)."""
    nd = len(b.shape)
    idx = IDX[:nd]
    pre = fn(*idx) if nd else fn
    # accumulate: PRE + f(k)
    if not z3.is_bool(body):
        d = z3.simplify(body - pre, som=True)
        if not _uses(d, fn):
            return _accumulate(ctx, b, k, n, d, init)
    leaves = _cases(body, [], fn)
    writes = []
    for conds, leaf in leaves:
        if leaf.eq(pre):
            continue
        if _uses(leaf, fn) or any(_uses(c, fn) for c in conds):
            raise Unsupported("loop-carried array recurrence")
        writes.append((conds, leaf))
    if not writes:
        return init
    wcond = simp(z3.Or(*[z3.And(*c) if c else z3.BoolVal(True) for c, _ in writes]))
    val = _mkval(writes)
    inb = z3.And(*[z3.And(I >= 0, I < to_z3(s)) for I, s in zip(idx, b.shape)])
    if not _mentions(wcond, [k]) and not _mentions(val, [k]):
        return z3.If(wcond, val, init)
    # the unique iteration that writes element I
    for q in _solve_k(wcond, k):
        g = z3.Implies(z3.And(inb, k >= 0, k < n, wcond), k == q)
        if ctx.prove(g, 4000)[0] == "proved":
            cq = z3.substitute(wcond, (k, q))
            vq = z3.substitute(val, (k, q))
            c = simp(z3.And(q >= 0, inrange(q) if inrange else q < n, cq))
            c = _drop_implied(ctx, inb, c)
            return z3.If(c, rewrite_flat(vq), init)
    # every iteration writes: the last one wins
    if not _mentions(wcond, [k]):
        return z3.If(wcond, z3.substitute(val, (k, simp(n - 1))), init)
    raise Unsupported("no unique writer of an array element")


def _drop_implied(ctx, inb, c):
    cs = []
    for x in _conj(c):
        if ctx.prove(z3.Implies(inb, x), 1500)[0] != "proved":
            cs.append(x)
    return z3.And(*cs) if len(cs) > 1 else cs[0] if cs else z3.BoolVal(True)


def _conj(c):
    if z3.is_and(c):
        return [x for d in c.children() for x in _conj(d)]
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        return [x for d in c.arg(0).children() for x in _conj(simp(z3.Not(d)))]
    return [c]


def _accumulate(ctx, b, k, n, d, init):
    """init + sum over k of d(k, I) (elementwise)."""
    nd = len(b.shape)
    qs = [ctx.loopvar("a") for _ in range(nd)]
    body = A.tmpl(d, {j: qs[j] for j in range(nd)})
    body = z3.substitute(body, (k, IDX[0]))
    s = N.sum_term([n], body, z3.is_int(d))
    s = z3.substitute(s, *[(qs[j], IDX[j]) for j in range(nd)]) if nd else s
    return init + s


def _cases(e, conds, fn):
    """Cases of a written value; values that do not read the old contents are
    not split further."""
    if e.decl().kind() == z3.Z3_OP_ITE and len(conds) < 12 and _uses(e, fn):
        c, t, f = e.children()
        return _cases(t, conds + [c], fn) + _cases(f, conds + [z3.Not(c)], fn)
    return [(conds, e)]


def _mkval(writes):
    v = writes[-1][1]
    for c, x in reversed(writes[:-1]):
        v = z3.If(z3.And(*c) if c else z3.BoolVal(True), x, v)
    return v


def _solve_k(cond, k):
    """Candidate terms q with cond(k) -> k == q."""
    out = []
    for c in _conj(cond):
        neg = False
        if z3.is_not(c):
            c, neg = c.arg(0), True
        if c.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            continue
        if not z3.is_int(c.arg(0)):
            continue
        d = z3.simplify(c.arg(0) - c.arg(1), som=True)
        terms = d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]
        coef, rest = None, []
        ok = True
        for t in terms:
            if not _mentions(t, [k]):
                rest.append(t)
                continue
            f = _factor(t, k)
            if f is None or _mentions(f, [k]):
                ok = False
                break
            coef = f if coef is None else coef + f
        if not ok or coef is None:
            continue
        coef = simp(coef)
        r = z3.Sum(rest) if len(rest) > 1 else rest[0] if rest else z3.IntVal(0)
        cv = concrete(coef)
        # coef*k + r ~ 0
        if cv is not None:
            if cv == 0:
                continue
            q = simp(-r if cv > 0 else r)
            a = abs(cv)
            qs = [q] if a == 1 else [simp(q / a)]
            for x in qs:
                for off in (0, -1, 1):
                    out.append(simp(x + off) if off else x)
        else:
            ctx = CTX()
            if ctx.entails(coef > 0):
                out.append((-r) / coef)
            elif ctx.entails(coef < 0):
                out.append(r / simp(-coef))
    seen, res = set(), []
    for q in out:
        if q.get_id() not in seen:
            seen.add(q.get_id())
            res.append(q)
    return res
