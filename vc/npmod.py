"""The numpy model: ufuncs, reductions and array functions on symbolic arrays."""

import fractions
import functools
import inspect

import numpy as RN
import z3

from . import arr as A
from .arr import (
    B8, Buf, CAT, DT, DType, F32, F64, I64, MaskSelected, MaskedArray, ScalarMeta,
    arr_arg, array_from, as_dtype, binary_term, broadcast_shapes, cast_term, cast_value,
    concrete_eq, dim_val, full, ndarray, new_array, new_cells, opaque, operand_body,
    prod_dims, promote, py_dtype, result_dtype, same_dim, same_term, scalar_op,
    scalar_unary, simp_s, sort_of, stack_arrays, tmpl, to_sorted, unary_term,
)
from .core import (
    BOOL, CTX, IDX, INSTANCES, INT, REAL, REG, SQRT, Sym, Unsupported, as_bool, as_int, as_real,
    concrete, div, make_app, modelled, nan_pred, real_val, scalar_like, simp, to_z3, walk,
)


def api(f):
    """Library model: wrong call shapes are 'unsupported', not TypeErrors."""
    sig = inspect.signature(f)

    @functools.wraps(f)
    def w(*a, **k):
        try:
            sig.bind(*a, **k)
        except TypeError as e:
            raise Unsupported(f"call of {f.__name__}: {e}") from None
        return f(*a, **k)

    w._vc_api = True
    return w


def as_array(x):
    if isinstance(x, ndarray):
        return x
    return array_from(x, copy=False)


# --------------------------------------------------------------------------
# ufuncs
# --------------------------------------------------------------------------
class UFunc:
    def __init__(self, name, nin):
        self.__name__ = name
        self.name = name
        self.nin = nin
        self.nout = 1
        self.nargs = nin + 1

    def __repr__(self):
        return f"<ufunc '{self.name}'>"

    def __call__(self, *inputs, out=None, where=True, **kw):
        if len(inputs) > self.nin:
            if len(inputs) == self.nin + 1 and out is None:
                out = inputs[-1]
                inputs = inputs[: self.nin]
            else:
                raise modelled(TypeError("too many ufunc inputs"))
        kwargs = dict(kw)
        if out is not None:
            kwargs["out"] = out if isinstance(out, tuple) else (out,)
        if where is not True:
            kwargs["where"] = where
        return self._dispatch("__call__", inputs, kwargs)

    def _dispatch(self, method, inputs, kwargs):
        cands = []
        for x in list(inputs) + list(kwargs.get("out", ())):
            t = type(x)
            if isinstance(x, ndarray) and t.__array_ufunc__ is not ndarray.__array_ufunc__ and t not in [type(c) for c in cands]:
                cands.append(x)
        for c in cands:
            r = c.__array_ufunc__(self, method, *inputs, **kwargs)
            if r is not NotImplemented:
                return r
        if cands:
            raise modelled(TypeError("operand type(s) all returned NotImplemented"))
        return self._run(method, *inputs, **kwargs)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        if out is not None or kw or dtype is not None:
            raise Unsupported("ufunc.reduce options")
        return self._dispatch("reduce", (a,), {"axis": axis, "keepdims": keepdims})

    def at(self, *a):
        raise Unsupported("ufunc.at")

    def outer(self, *a, **k):
        raise Unsupported("ufunc.outer")

    def accumulate(self, *a, **k):
        raise Unsupported("ufunc.accumulate")

    def _run(self, method, *inputs, out=(), where=True, dtype=None, casting=None, **kw):
        if method == "reduce":
            f = {"add": sum_, "maximum": amax, "minimum": amin, "multiply": prod,
                 "logical_and": all_, "logical_or": any_}.get(self.name)
            if f is None:
                raise Unsupported(f"{self.name}.reduce")
            return f(inputs[0], axis=kw.get("axis", 0), keepdims=kw.get("keepdims", False))
        if method != "__call__" or kw:
            raise Unsupported(f"ufunc method {method}")
        ins = []
        for x in inputs:
            if isinstance(x, (list, tuple)) or hasattr(x, "_vc_to_array"):
                x = array_from(x)
            if x is None or isinstance(x, str):
                return self._none_cmp(inputs)
            if isinstance(x, complex):
                x = Sym(A.complex_const(x), A.DT["complex128"])
            if A.is_foreign(x):
                raise Unsupported("tensor in numpy ufunc")
            if isinstance(x, MaskSelected):
                raise Unsupported("arithmetic on a boolean selection")
            if isinstance(x, ndarray) and x.ndim == 0 and x._cells is not None:
                x = A.wrap_np(x._cells[()], x.dtype)
            elif isinstance(x, ndarray) and x.ndim == 0:
                x = Sym(x.at(), x.dtype)
            ins.append(x)
        if dtype is not None:
            dt0 = as_dtype(dtype)
            ins = [x.astype(dt0) if isinstance(x, ndarray) else cast_value(x, dt0) for x in ins]
        outs = tuple(o for o in (out if isinstance(out, tuple) else (out,)) if o is not None)
        arrays = [x for x in ins if isinstance(x, ndarray)]
        if not arrays and not outs:
            return self._scalar(ins)
        return self._array(ins, outs, where)

    def _none_cmp(self, inputs):
        a = [x for x in inputs if isinstance(x, ndarray)]
        if self.name == "equal":
            return full(a[0]._sh, False, B8)
        if self.name == "not_equal":
            return full(a[0]._sh, True, B8)
        raise modelled(TypeError("unsupported operand type(s)"))

    def _scalar(self, ins):
        if self.nin == 1:
            x = ins[0]
            if not isinstance(x, Sym):
                return getattr(RN, self.name)(x)
            e, d = unary_term(self.name, x.e, py_dtype(x))
            return Sym(simp_s(e), d)
        a, b = ins
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return getattr(RN, self.name)(a, b)
        dt = promote(py_dtype(a), py_dtype(b))
        e, d = binary_term(self.name, to_z3(a), py_dtype(a), to_z3(b), py_dtype(b), dt)
        return Sym(simp_s(e), d)

    def _array(self, ins, outs, where):
        shapes = [x._sh for x in ins if isinstance(x, ndarray)]
        if isinstance(where, ndarray):
            shapes.append(where._sh)
        if outs:
            shapes.append(outs[0]._sh)
        sh = broadcast_shapes(shapes)
        masks = [x._mask for x in ins if isinstance(x, MaskedArray)]
        # cells fast path
        if not outs and where is True and not masks and all(
            (not isinstance(x, ndarray)) or x._cells is not None for x in ins
        ):
            r = self._cells(ins, sh)
            if r is not None:
                return r
        terms, dts = [], []
        for x in ins:
            if isinstance(x, ndarray):
                if x.dtype.kind == "O":
                    raise Unsupported("object array arithmetic")
                terms.append(operand_body(x, sh))
                dts.append(x.dtype)
            else:
                terms.append(to_z3(x))
                dts.append(py_dtype(x))
        if self.nin == 1:
            body, rd = unary_term(self.name, terms[0], dts[0])
        else:
            dt = result_dtype(ins)
            # python scalars take part with their value, not their dtype
            body, rd = binary_term(self.name, terms[0], dts[0], terms[1], dts[1], dt)
        if outs:
            o = outs[0]
            if CAT[rd.kind] > CAT[o.dtype.kind] and not (rd.kind in "ui" and o.dtype.kind in "ui"):
                raise modelled(TypeError(
                    f"Cannot cast ufunc '{self.name}' output from {rd!r} to {o.dtype!r} with casting rule 'same_kind'"))
            if rd.kind == "i" and o.dtype.kind == "u":
                raise modelled(TypeError("Cannot cast ufunc output with casting rule 'same_kind'"))
            if len(sh) != o.ndim:
                raise modelled(ValueError("non-broadcastable output operand"))
            for p, q in zip(sh, o._sh):
                if not same_dim(p, q):
                    raise modelled(ValueError("non-broadcastable output operand"))
            v = cast_term(body, rd, o.dtype)
            cond = None
            if isinstance(where, ndarray):
                cond = operand_body(where, sh)
            elif where is not True:
                raise Unsupported("where")
            o._write(v, cond)
            return o
        if where is not True:
            raise Unsupported("where without out")
        if masks:
            r = ndarray._make(MaskedArray, sh, rd, Buf(sh, rd, body))
            m = operand_body(masks[0], sh)
            for k in masks[1:]:
                m = z3.Or(m, operand_body(k, sh))
            r.__dict__["_mask"] = new_array(sh, B8, m)
            return r
        return new_array(sh, rd, body)

    def _cells(self, ins, sh):
        if not all(isinstance(s, int) for s in sh):
            return None
        n = 1
        for s in sh:
            n *= s
        if n > 4096:
            return None
        if any(isinstance(x, ndarray) and x.dtype.kind == "O" for x in ins):
            raise Unsupported("object array arithmetic")
        if all((isinstance(x, ndarray) and x.is_concrete()) or (not isinstance(x, (ndarray, Sym))) for x in ins):
            vals = [x.const() if isinstance(x, ndarray) else x for x in ins]
            dt = None if self.nin == 1 else result_dtype(ins)
            with RN.errstate(all="ignore"):
                r = getattr(RN, self.name)(*vals)
            if r.dtype.kind in "fc" and not RN.isfinite(r).all():
                return None
            if dt is not None:
                _, rd = A.compute_dtype(self.name, dt)
                r = r.astype(rd.rn)
            return array_from(RN.asarray(r))
        if self.nin == 2:
            dt = result_dtype(ins)
        ops = []
        for x in ins:
            if isinstance(x, ndarray):
                ops.append((RN.broadcast_to(x._cells, sh), x.dtype))
            else:
                ops.append((None, x))
        c = RN.empty(sh, object)
        rd = None
        for i in RN.ndindex(*sh):
            ts, ds = [], []
            for o, d in ops:
                if o is None:
                    ts.append(to_z3(d))
                    ds.append(py_dtype(d))
                else:
                    ts.append(to_sorted(o[i], d))
                    ds.append(d)
            if self.nin == 1:
                e, rd = unary_term(self.name, ts[0], ds[0])
            else:
                e, rd = binary_term(self.name, ts[0], ds[0], ts[1], ds[1], dt)
            c[i] = A.cell_of(simp_s(e), rd)
        if rd is None:
            rd = dt if self.nin == 2 else F64
        return new_cells(c, rd)


UFUNCS = {}
for _n in ("add subtract multiply divide floor_divide remainder power maximum minimum fmax fmin arctan2 "
           "equal not_equal less less_equal greater greater_equal logical_and logical_or logical_xor "
           "bitwise_and bitwise_or bitwise_xor").split():
    UFUNCS[_n] = UFunc(_n, 2)
for _n in ("sqrt log exp sin cos tan log10 log2 log1p expm1 absolute negative positive square logical_not invert "
           "isnan floor ceil trunc sign").split():
    UFUNCS[_n] = UFunc(_n, 1)


# --------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------
def has_idx(e):
    ids = {v.get_id() for v in IDX}
    return any(t.get_id() in ids for t in walk(e))


def size_term(shape):
    t = None
    for s in shape:
        z = to_z3(s)
        if concrete_eq(s, 1):
            continue
        t = z if t is None else t * z
    return z3.IntVal(1) if t is None else t


def _box_of(cond, k, n):
    """Decompose a conjunction of bounds on IDX into a box, or None."""
    lo = [None] * n
    hi = [None] * n
    ids = {IDX[j].get_id(): j for j in range(n)}

    def has(e):
        return any(t.get_id() in ids for t in walk(e))

    def conj(c):
        if z3.is_and(c):
            return [x for d in c.children() for x in conj(d)]
        if z3.is_not(c) and z3.is_or(c.arg(0)):
            return [x for d in c.arg(0).children() for x in conj(simp(z3.Not(d)))]
        return [c]

    for c in conj(cond):
        neg = False
        if z3.is_not(c):
            c, neg = c.arg(0), True
        kind = c.decl().kind()
        if kind not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return None
        d = simp(c.arg(0) - c.arg(1), )
        d = z3.simplify(d, som=True)
        # d = coef * I_j + rest
        terms = d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]
        var, coef, rest = None, 0, []
        for t in terms:
            if not has(t):
                rest.append(t)
                continue
            if t.get_id() in ids:
                c1, v = 1, t
            elif (t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0))
                  and t.arg(1).get_id() in ids):
                c1, v = t.arg(0).as_long(), t.arg(1)
            else:
                return None
            if var is not None or abs(c1) != 1:
                return None
            var, coef = ids[v.get_id()], c1
        if var is None:
            return None
        r = z3.Sum(rest) if rest else z3.IntVal(0)
        # coef*I + r  (kind) 0
        ge = None
        if kind == z3.Z3_OP_EQ:
            if neg:
                return None
            b = simp(-r) if coef == 1 else r
            if lo[var] is not None or hi[var] is not None:
                return None
            lo[var], hi[var] = b, simp(b + 1)
            continue
        # normalise to  coef*I + r >= 0 (strictness folded, integers)
        if kind == z3.Z3_OP_GE:
            s, e = 1, r
        elif kind == z3.Z3_OP_GT:
            s, e = 1, r - 1
        elif kind == z3.Z3_OP_LE:
            s, e = -1, -r
        else:
            s, e = -1, -r - 1
        cf = coef * s
        if neg:  # not (cf*I + e >= 0)  <=>  -cf*I - e - 1 >= 0
            cf, e = -cf, -e - 1
        e = simp(e)
        if cf == 1:  # I >= -e
            if lo[var] is not None:
                return None
            lo[var] = simp(-e)
        else:  # I <= e
            if hi[var] is not None:
                return None
            hi[var] = simp(e + 1)
    return lo, hi


def sum_term(shape, body, isint=False):
    """SUM over the box [0,shape) of body (a term over IDX)."""
    ctx = CTX()
    shape = [simp(to_z3(s)) for s in shape]
    n = len(shape)
    body = simp(body)
    if not has_idx(body):
        sz = size_term(shape)
        return simp(as_int(body) * sz) if isint else body * as_real(sz)
    cs = [concrete(s) for s in shape]
    if all(c is not None for c in cs):
        tot = 1
        for c in cs:
            tot *= c
        if tot <= 16:
            items = [tmpl(body, {k: z3.IntVal(v) for k, v in enumerate(i)}) for i in RN.ndindex(*[int(c) for c in cs])]
            return simp_s(z3.Sum(items)) if items else z3.RealVal(0)
    # drop unit axes
    keep = [k for k in range(n) if cs[k] != 1]
    if len(keep) < n:
        m = {k: z3.IntVal(0) for k in range(n) if k not in keep}
        m.update({k: IDX[j] for j, k in enumerate(keep)})
        return sum_term([shape[k] for k in keep], tmpl(body, m), isint)
    # box-shaped support: restrict and shift to the origin
    for _ in range(3):
        if body.decl().kind() == z3.Z3_OP_ITE:
            c, t, e = body.children()
            z = concrete(e)
            zt = concrete(t)
            if z == 0:
                pass
            elif zt == 0:
                c, t, e = simp(z3.Not(c)), e, t
            else:
                break
            bx = _box_of(c, None, n)
            if bx is None:
                break
            lo, hi = bx
            newshape, m, ok = [], {}, True
            for k in range(n):
                a = z3.IntVal(0) if lo[k] is None else lo[k]
                b = shape[k] if hi[k] is None else hi[k]
                if not ctx.entails(z3.And(a >= 0, b <= shape[k], a <= b)):
                    ok = False
                    break
                newshape.append(simp(b - a))
                m[k] = simp(IDX[k] + a)
            if not ok:
                break
            return sum_term(newshape, tmpl(t, m), isint)
        break
    if not isint:  # canonical form of sums of integers
        if body.decl().kind() == z3.Z3_OP_TO_REAL:
            return as_real(sum_term(shape, body.arg(0), True))
        if body.decl().kind() == z3.Z3_OP_ITE:
            t, e = concrete(body.arg(1)), concrete(body.arg(2))
            if t is not None and e is not None and t == int(t) and e == int(e):
                return as_real(sum_term(shape, z3.If(body.arg(0), z3.IntVal(int(t)), z3.IntVal(int(e))), True))
    app = make_app("SUMI" if isint else "SUM", [("arr", shape, body, "x")], 0, INT if isint else REAL)
    return app()


def _nonneg_memo():
    return _NN


_NN = {}


def _sum_axiom(decl, t):
    if decl.name in ("SUM", "SUMI"):
        if decl.id not in _NN:
            body = decl.args[0][2]
            s = z3.Solver()
            s.set("timeout", 400)
            from .core import facts_of
            s.add(*facts_of(body, set()))
            s.add(body < 0)
            _NN[decl.id] = s.check() == z3.unsat
        out = [t >= 0] if _NN[decl.id] else []
        _, shape, body, _ = decl.args[0]
        from .core import PARAM

        ps = t.children()[: decl.nparam]
        sp = [(PARAM[k], ps[k]) for k in range(decl.nparam)]
        sh = [z3.substitute(s, *sp) if sp else s for s in shape]
        bd = z3.substitute(body, *sp) if sp else body
        w = [z3.Int(f"wit!{decl.fn.name()}!{t.get_id()}!{k}") for k in range(len(sh))]
        bw = z3.substitute(bd, *[(IDX[k], w[k]) for k in range(len(sh))])
        _KEEP.append(t)
        out.append(z3.Implies(t != 0, z3.And(bw != 0, *[z3.And(x >= 0, x < s) for x, s in zip(w, sh)])))
        return out
    if decl.name in ("MIN", "MAX", "ALL"):
        # witness
        _, shape, body, _ = decl.args[0]
        ps = t.children()[: decl.nparam]
        key = t.get_id()
        from .core import PARAM

        sp = [(PARAM[k], ps[k]) for k in range(decl.nparam)]
        sh = [z3.substitute(s, *sp) if sp else s for s in shape]
        bd = z3.substitute(body, *sp) if sp else body
        w = [z3.Int(f"wit!{decl.fn.name()}!{key}!{k}") for k in range(len(sh))]
        inr = z3.And(*[z3.And(x >= 0, x < s) for x, s in zip(w, sh)])
        bw = z3.substitute(bd, *[(IDX[k], w[k]) for k in range(len(sh))])
        _KEEP.append(t)
        if decl.name == "ALL":
            return [z3.Implies(z3.Not(t), z3.And(inr, z3.Not(bw)))]
        return [z3.And(inr, t == bw)]
    return []


_KEEP = []
REG.axioms.append(_sum_axiom)


def instances(formulas):
    """Instances of the universal parts of MIN/MAX/ALL at all index tuples."""
    from .core import PARAM

    quant, tuples = [], {}
    seen = set()
    for f in formulas:
        for t in walk(f, seen):
            if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            n = t.decl().name()
            d = REG.by_name.get(n)
            if d is not None and (d.name in ("MIN", "MAX", "ALL") or d.name in ("SUM", "SUMI") and _NN.get(d.id)):
                quant.append((d, t))
            elif t.num_args() and (d is None or d.nidx):
                ch = t.children()
                if d is not None:
                    ch = ch[d.nparam:]
                if all(z3.is_int(c) for c in ch):
                    tuples.setdefault(len(ch), {})[tuple(c.get_id() for c in ch)] = ch
    out = []
    for d, t in quant:
        _, shape, body, _ = d.args[0]
        ps = t.children()[: d.nparam]
        sp = [(PARAM[k], ps[k]) for k in range(d.nparam)]
        sh = [z3.substitute(s, *sp) if sp else s for s in shape]
        bd = z3.substitute(body, *sp) if sp else body
        for ch in list(tuples.get(len(sh), {}).values())[:12]:
            inr = z3.And(*[z3.And(x >= 0, x < s) for x, s in zip(ch, sh)])
            b = z3.substitute(bd, *[(IDX[k], ch[k]) for k in range(len(sh))])
            if d.name == "ALL":
                out.append(z3.Implies(z3.And(inr, t), b))
            elif d.name == "MIN":
                out.append(z3.Implies(inr, t <= b))
            else:  # MAX, or a SUM of non-negative values
                out.append(z3.Implies(inr, t >= b))
    return out


INSTANCES.append(instances)


class Parts:
    """An array split into outer (kept) and inner (reduced) axes."""

    def __init__(self, a, axis, keepdims=False):
        self.sel = None
        if isinstance(a, MaskSelected):
            if axis not in (None, 0, -1):
                raise Unsupported("axis of a boolean selection")
            body, sh, dt = a.body, a.shape_full, a.dt
            self.sel = a.mask_body
            axes = list(range(len(sh)))
        else:
            a = as_array(a)
            if a.dtype.kind == "O":
                raise Unsupported("reduction of an object array")
            body, sh, dt = a.content(), a._sh, a.dtype
            if isinstance(a, MaskedArray):
                self.sel = simp(z3.Not(a._mask.content()))
            if axis is None:
                axes = list(range(len(sh)))
            else:
                axes = [axis] if not isinstance(axis, (tuple, list)) else list(axis)
                for x in axes:
                    if not isinstance(x, int):
                        raise Unsupported("symbolic axis")
                    if x < -len(sh) or x >= len(sh):
                        raise modelled(ValueError("axis out of bounds"))
                axes = [x % len(sh) for x in axes]
        if len(set(axes)) != len(axes):
            raise modelled(ValueError("duplicate value in 'axis'"))
        self.dt = dt
        outer = [k for k in range(len(sh)) if k not in axes]
        inner = [k for k in range(len(sh)) if k in axes]
        ctx = CTX()
        self.q = [ctx.loopvar("q") for _ in outer]
        m = {k: self.q[j] for j, k in enumerate(outer)}
        m.update({k: IDX[j] for j, k in enumerate(inner)})
        self.body = tmpl(body, m)
        if self.sel is not None:
            self.sel = tmpl(self.sel, m)
        self.inner = [sh[k] for k in inner]
        self.outer = [sh[k] for k in outer]
        self.keepdims = keepdims
        self.full_sh = sh
        self.axes = axes

    def count(self):
        if self.sel is None:
            return as_real(size_term(self.inner))
        return as_real(sum_term(self.inner, z3.If(self.sel, z3.IntVal(1), z3.IntVal(0)), True))

    def total(self, body, isint=False):
        if self.sel is not None:
            body = z3.If(self.sel, body, z3.IntVal(0) if isint else z3.RealVal(0))
        return sum_term(self.inner, body, isint)

    def finish(self, term, dt):
        """Scalar or array (over outer axes) result."""
        if not self.outer:
            if self.keepdims:
                return new_array([1] * len(self.full_sh), dt, term)
            return Sym(simp_s(term), dt)
        if self.keepdims:
            sh = [1 if k in self.axes else s for k, s in enumerate(self.full_sh)]
            pos = [k for k in range(len(self.full_sh)) if k not in self.axes]
        else:
            sh = self.outer
            pos = list(range(len(self.outer)))
        body = z3.substitute(term, *[(self.q[j], IDX[pos[j]]) for j in range(len(self.q))])
        if all(isinstance(s, int) for s in sh) and prod_dims(sh) <= 64:
            c = RN.empty(tuple(sh), object)
            for i in RN.ndindex(*sh):
                c[i] = Sym(tmpl(body, {k: z3.IntVal(v) for k, v in enumerate(i)}), dt)
            return new_cells(c, dt)
        return new_array(sh, dt, body)


def _float_dt(dt, dtype):
    if dtype is not None:
        return as_dtype(dtype)
    return dt if dt.kind == "f" else F64


def _noout(out, where=None, kw=None):
    if out is not None:
        raise Unsupported("out= of a reduction")
    if where is not None and where is not True:
        raise Unsupported("where= of a reduction")


def unfold(f):
    """Reductions that keep only small concrete axes: one reduction per kept index."""

    @functools.wraps(f)
    def w(a, axis=None, *args, **kw):
        if axis is not None and isinstance(a, ndarray) and a._cells is None and not kw.get("keepdims"):
            ax = [axis] if isinstance(axis, int) else list(axis) if isinstance(axis, (tuple, list)) else None
            if ax and all(isinstance(x, int) and -a.ndim <= x < a.ndim for x in ax):
                ax = [x % a.ndim for x in ax]
                keep = [k for k in range(a.ndim) if k not in ax]
                sh = [a._sh[k] for k in keep]
                if keep and len(set(ax)) == len(ax) and all(isinstance(s, int) for s in sh) and 0 < prod_dims(sh) <= 16:
                    c = RN.empty(tuple(sh), object)
                    dt = None
                    for i in RN.ndindex(*sh):
                        key = [slice(None)] * a.ndim
                        for k, v in zip(keep, i):
                            key[k] = v
                        r = f(a[tuple(key)], None, *args, **kw)
                        c[i] = r
                        dt = A.py_dtype(r)
                    return new_cells(c, dt)
        return f(a, axis, *args, **kw)

    return w


def mean_term(p, body):
    body = simp_s(body)
    if p.sel is None and not has_idx(body):
        return body
    if p.sel is None and all(concrete_eq(s, 1) for s in p.inner):
        return tmpl(body, {k: z3.IntVal(0) for k in range(len(p.inner))})
    return div(p.total(body), p.count())


@api
@unfold
def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    _noout(out, where)
    p = Parts(a, axis, keepdims)
    if p.dt.kind == "c":
        raise Unsupported("complex mean")
    return p.finish(mean_term(p, as_real(p.body)), _float_dt(p.dt, dtype))


@api
def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if returned:
        raise Unsupported("average(returned)")
    if weights is None:
        return mean(a, axis=axis, keepdims=keepdims)
    w = as_array(weights)
    x = as_array(a)
    return sum_(x * w, axis=axis) / sum_(w, axis=axis)


def _var_term(p, ddof):
    x = as_real(p.body)
    m = mean_term(p, x)
    d = x - m
    if isinstance(ddof, int) and ddof == 0:
        return mean_term(p, d * d)
    return div(p.total(d * d), p.count() - as_real(to_z3(ddof)))


@api
@unfold
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None):
    _noout(out, where)
    p = Parts(a, axis, keepdims)
    return p.finish(_var_term(p, ddof), _float_dt(p.dt, dtype))


@api
@unfold
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=None):
    _noout(out, where)
    p = Parts(a, axis, keepdims)
    v = simp_s(_var_term(p, ddof))
    if concrete(v) == 0:
        return p.finish(z3.RealVal(0), _float_dt(p.dt, dtype))
    return p.finish(SQRT(v), _float_dt(p.dt, dtype))


@api
@unfold
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=None):
    _noout(out, where)
    if hasattr(a, "gen") and hasattr(a, "frame"):
        raise Unsupported("np.sum of a generator")
    p = Parts(a, axis, keepdims)
    if p.dt.kind in "bui":
        dt = I64 if p.dt.kind in "bi" else DT["uint64"]
        if dtype is not None and as_dtype(dtype).kind == "f":
            return p.finish(p.total(as_real(p.body)), as_dtype(dtype))
        return p.finish(p.total(as_int(p.body), True), dt)
    return p.finish(p.total(p.body), _float_dt(p.dt, dtype))


@api
def prod(a, axis=None, dtype=None, out=None, keepdims=False):
    _noout(out)
    if isinstance(a, (tuple, list)) and all(scalar_like(x) for x in a):
        r = 1
        for x in a:
            r = r * x
        if isinstance(r, Sym):
            return Sym(r.e, I64 if r.is_int else F64)
        return RN.prod(a) if len(a) else 1.0
    x = as_array(a)
    if x._cells is not None and axis is None:
        r = None
        for v in x._cells.ravel():
            r = v if r is None else r * v
        if r is None:
            return 1.0
        if isinstance(r, Sym):
            return Sym(r.e, I64 if r.is_int else F64)
        return DT["int64"].rn.type(r) if x.dtype.kind in "ui" else r
    raise Unsupported("prod of a symbolic array")


def _minmax(a, axis, keepdims, name):
    p = Parts(a, axis, keepdims)
    if p.sel is not None:
        raise Unsupported("masked min/max")
    b = simp(p.body)
    if not has_idx(b):
        return p.finish(b, p.dt)
    if z3.is_bool(b):
        t = make_app("ALL", [("arr", p.inner_t(), b if name == "MIN" else simp(z3.Not(b)), "x")], 0, BOOL)()
        return p.finish(t if name == "MIN" else z3.Not(t), p.dt)
    sh = [to_z3(s) for s in p.inner]
    cs = [concrete(simp(s)) for s in sh]
    if all(c is not None for c in cs) and RN.prod([int(c) for c in cs]) <= 16:
        r = None
        for i in RN.ndindex(*[int(c) for c in cs]):
            e = tmpl(b, {k: z3.IntVal(v) for k, v in enumerate(i)})
            if r is None:
                r = e
            else:
                r = z3.If(e < r, e, r) if name == "MIN" else z3.If(e > r, e, r)
        return p.finish(r, p.dt)
    t = make_app(name, [("arr", sh, b, "x")], 0, b.sort())()
    return p.finish(t, p.dt)


Parts.inner_t = lambda self: [to_z3(s) for s in self.inner]


@api
def amin(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    _noout(out, where)
    return _minmax(a, axis, keepdims, "MIN")


@api
def amax(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    _noout(out, where)
    return _minmax(a, axis, keepdims, "MAX")


@api
def all_(a, axis=None, out=None, keepdims=False, where=None):
    _noout(out, where)
    if isinstance(a, (bool, RN.bool_)):
        return RN.bool_(a)
    if isinstance(a, Sym):
        return Sym(as_bool(a.e), B8)
    p = Parts(a, axis, keepdims)
    b = simp(as_bool(p.body))
    return p.finish(_all_term(p, b), B8)


def _all_term(p, b):
    if not has_idx(b):
        return b
    cs = [concrete(simp(to_z3(s))) for s in p.inner]
    if all(c is not None for c in cs):
        tot = 1
        for c in cs:
            tot *= int(c)
        if tot <= 64:
            return simp(z3.And(*[tmpl(b, {k: z3.IntVal(v) for k, v in enumerate(i)})
                                 for i in RN.ndindex(*[int(c) for c in cs])]))
    return make_app("ALL", [("arr", p.inner_t(), b, "x")], 0, BOOL)()


@api
def any_(a, axis=None, out=None, keepdims=False, where=None):
    _noout(out, where)
    if isinstance(a, (bool, RN.bool_)):
        return RN.bool_(a)
    if isinstance(a, Sym):
        return Sym(as_bool(a.e), B8)
    p = Parts(a, axis, keepdims)
    b = simp(as_bool(p.body))
    if not has_idx(b):
        return p.finish(b, B8)
    return p.finish(simp(z3.Not(_all_term(p, simp(z3.Not(b))))), B8)


def _nan_parts(a, axis, keepdims):
    p = Parts(a, axis, keepdims)
    x = as_real(p.body)
    nanp = nan_pred(x)
    ok = simp(z3.Not(nanp))
    if not z3.is_true(ok):
        p.sel = ok if p.sel is None else z3.And(p.sel, ok)
    return p, x


@api
def nanmean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    _noout(out, where)
    p, x = _nan_parts(a, axis, keepdims)
    return p.finish(mean_term(p, x), _float_dt(p.dt, dtype))


@api
def nansum(a, axis=None, dtype=None, out=None, keepdims=False):
    _noout(out)
    p, x = _nan_parts(a, axis, keepdims)
    return p.finish(p.total(x), _float_dt(p.dt, dtype))


@api
def array_equal(a1, a2, equal_nan=False):
    if equal_nan:
        raise Unsupported("array_equal(equal_nan)")
    a, b = as_array(a1), as_array(a2)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a._sh, b._sh):
        if not same_dim(p, q):
            return False
    r = all_(UFUNCS["equal"]._run("__call__", a.view(ndarray), b.view(ndarray)))
    if isinstance(r, Sym):
        v = concrete(simp(r.e))
        if v is not None:
            return bool(v)
        return Sym(r.e)
    return bool(r)


@api
def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, "fro", 2) or axis is not None or keepdims:
        raise Unsupported("norm options")
    x = as_array(x)
    if ord == 2 and x.ndim != 1:
        raise Unsupported("spectral norm")
    p = Parts(x, None)
    b = as_real(p.body)
    return p.finish(SQRT(p.total(b * b)), _float_dt(p.dt, None))


# --------------------------------------------------------------------------
# array functions
# --------------------------------------------------------------------------
@api
def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if order not in (None, "C", "K") or ndmin:
        raise Unsupported("np.array options")
    r = array_from(x, dtype, copy=bool(copy))
    if not subok and type(r) is not ndarray:
        r = r.view(ndarray)
    return r


@api
def asarray(x, dtype=None, order=None):
    if isinstance(x, ndarray):
        if dtype is not None and as_dtype(dtype) is not x.dtype:
            x = x.astype(dtype)
        return x if type(x) is ndarray else x.view(ndarray)
    return array_from(x, dtype, copy=False)


@api
def asanyarray(x, dtype=None, order=None):
    if isinstance(x, ndarray):
        return x if dtype is None or as_dtype(dtype) is x.dtype else x.astype(dtype)
    return array_from(x, dtype, copy=False)


@api
def ascontiguousarray(x, dtype=None):
    return asarray(x, dtype)


@api
def copy_(a, order="K", subok=False):
    return array_from(a)


@api
def zeros(shape, dtype=float, order="C"):
    dt = as_dtype(dtype)
    return full(_shape(shape), False if dt.kind == "b" else 0 if dt.kind in "ui" else 0.0, dt)


@api
def ones(shape, dtype=None, order="C"):
    dt = as_dtype(dtype if dtype is not None else float)
    return full(_shape(shape), True if dt.kind == "b" else 1 if dt.kind in "ui" else 1.0, dt)


@api
def full_(shape, fill_value, dtype=None, order="C"):
    dt = as_dtype(dtype) if dtype is not None else py_dtype(fill_value)
    return full(_shape(shape), A.cast_cell(fill_value, py_dtype(fill_value), dt), dt)


@api
def empty(shape, dtype=float, order="C"):
    dt = as_dtype(dtype)
    sh = _shape(shape)
    if dt.kind == "O":
        return full(sh, None, dt)
    nm = CTX().name("uninit")
    fn = z3.Function(nm, *([INT] * max(1, len(sh))), sort_of(dt))
    if all(isinstance(s, int) for s in sh) and prod_dims(sh) <= 256:
        c = RN.empty(sh, object)
        for j, i in enumerate(RN.ndindex(*sh)):
            c[i] = Sym(fn(*[z3.IntVal(v) for v in i]) if i else fn(z3.IntVal(0)), dt)
        return new_cells(c, dt)
    return new_array(sh, dt, fn(*IDX[: len(sh)]))


def _shape(s):
    if isinstance(s, ndarray):
        s = s.tolist()
    if isinstance(s, (tuple, list)):
        return tuple(_intdim(x) for x in s)
    return (_intdim(s),)


def _intdim(x):
    if isinstance(x, RN.integer):
        return int(x)
    if isinstance(x, (float, str)) or (isinstance(x, Sym) and not x.is_int):
        raise modelled(TypeError("'float' object cannot be interpreted as an integer"))
    if isinstance(x, Sym):
        return dim_val(x.e)
    return x


@api
def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    a = as_array(a)
    if shape is not None:
        raise Unsupported("zeros_like shape")
    r = zeros(a._sh, dtype if dtype is not None else a.dtype)
    return r.view(type(a)) if subok and type(a) is not ndarray and not isinstance(a, MaskedArray) else r


@api
def ones_like(a, dtype=None, order="K", subok=True, shape=None):
    a = as_array(a)
    r = ones(a._sh, dtype if dtype is not None else a.dtype)
    return r.view(type(a)) if subok and type(a) is not ndarray and not isinstance(a, MaskedArray) else r


@api
def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    a = as_array(a)
    return full_(a._sh, fill_value, dtype if dtype is not None else a.dtype)


@api
def empty_like(a, dtype=None, order="K", subok=True, shape=None):
    a = as_array(a)
    return empty(a._sh, dtype if dtype is not None else a.dtype)


@api
def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    vals = (start, stop, step)
    if all(type(v) is int for v in vals) and step == 1 and stop - start > 32:
        dt = as_dtype(dtype) if dtype is not None else I64
        return new_array([stop - start], dt, cast_term(IDX[0] + start, I64, dt))
    if not any(isinstance(v, Sym) for v in vals):
        return array_from(RN.arange(start, stop, step, None if dtype is None else as_dtype(dtype).rn))
    if not (isinstance(step, int) and step == 1):
        raise Unsupported("arange with symbolic bounds and step")
    ints = all(isinstance(v, int) or (isinstance(v, Sym) and v.is_int) for v in vals)
    dt = as_dtype(dtype) if dtype is not None else (I64 if ints else F64)
    if ints:
        n = simp(to_z3(stop) - to_z3(start))
        n = n if CTX().entails(n >= 0) else z3.If(n >= 0, n, z3.IntVal(0))
        body = IDX[0] + to_z3(start)
        return new_array([dim_val(n)], dt, cast_term(body, I64, dt))
    d = as_real(to_z3(stop)) - as_real(to_z3(start))
    n = simp(-z3.ToInt(-d))
    return new_array([dim_val(n)], dt, as_real(to_z3(start)) + z3.ToReal(IDX[0]))


@api
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep or axis or not endpoint:
        raise Unsupported("linspace options")
    if not any(isinstance(v, Sym) for v in (start, stop, num)):
        return array_from(RN.linspace(start, stop, num))
    s, e = as_real(to_z3(start)), as_real(to_z3(stop))
    n = to_z3(num)
    body = s + z3.ToReal(IDX[0]) * div(e - s, as_real(n) - 1)
    return new_array([dim_val(n)], F64, body)


@api
def meshgrid(*xi, indexing="xy"):
    if len(xi) != 2 or indexing not in ("xy", "ij"):
        raise Unsupported("meshgrid")
    x, y = as_array(xi[0]), as_array(xi[1])
    nx, ny = x._sh[0], y._sh[0]
    if indexing == "xy":
        sh = (ny, nx)
        bx, by = tmpl(x.content(), {0: IDX[1]}), y.content()
    else:
        sh = (nx, ny)
        bx, by = x.content(), tmpl(y.content(), {0: IDX[1]})
    return [new_array(sh, x.dtype, bx), new_array(sh, y.dtype, by)]


class _OGrid:
    def __init__(self, dense):
        self.dense = dense

    def __getitem__(self, key):
        tup = key if isinstance(key, tuple) else (key,)
        n = len(tup)
        dims, starts = [], []
        for k in tup:
            if not isinstance(k, slice) or k.step not in (None, 1):
                raise Unsupported("ogrid step")
            st = 0 if k.start is None else k.start
            ln = k.stop - st
            if isinstance(ln, Sym):
                ln = dim_val(ln.e if CTX().entails(ln.e >= 0) else z3.If(ln.e >= 0, ln.e, z3.IntVal(0)))
            dims.append(ln)
            starts.append(st)
        out = []
        for j in range(n):
            sh = list(dims) if self.dense else [dims[k] if k == j else 1 for k in range(n)]
            out.append(new_array(sh, I64, IDX[j] + to_z3(starts[j])))
        if not isinstance(key, tuple):
            return out[0]
        if self.dense:
            return stack_arrays(out, 0)
        return out


@api
def indices(dimensions, dtype=int, sparse=False):
    g = _OGrid(not sparse)[tuple(slice(0, d) for d in dimensions)]
    return tuple(g) if sparse else g


@api
def moveaxis(a, source, destination):
    a = as_array(a)
    src = [source] if not isinstance(source, (tuple, list)) else list(source)
    dst = [destination] if not isinstance(destination, (tuple, list)) else list(destination)
    out = []
    for x in src + dst:
        if isinstance(x, Sym):
            v = CTX().int_value(x.e)
            if v is None:
                raise Unsupported("symbolic axis")
            x = v
        if not isinstance(x, int):
            raise modelled(TypeError("an integer is required for the axis"))
        if x < -a.ndim or x >= a.ndim:
            raise modelled(ValueError("axis out of bounds"))
        out.append(x % a.ndim)
    src, dst = out[: len(src)], out[len(src):]
    order = [n for n in range(a.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(order)


@api
def transpose(a, axes=None):
    return as_array(a).transpose(axes) if axes is not None else as_array(a).transpose()


@api
def swapaxes(a, axis1, axis2):
    return as_array(a).swapaxes(axis1, axis2)


@api
def rollaxis(a, axis, start=0):
    n = a.ndim
    axis %= n
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    order = list(range(n))
    order.remove(axis)
    order.insert(start, axis)
    return a.transpose(order)


@api
def flip(m, axis=None):
    m = as_array(m)
    axes = range(m.ndim) if axis is None else [axis] if isinstance(axis, int) else axis
    axes = [x % m.ndim for x in axes]
    return m[tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(m.ndim))]


@api
def rot90(m, k=1, axes=(0, 1)):
    m = as_array(m)
    a0, a1 = axes[0] % m.ndim, axes[1] % m.ndim
    if a0 == a1:
        raise modelled(ValueError("Axes must be different."))
    k %= 4
    if k == 0:
        return m[tuple([slice(None)] * m.ndim)]
    if k == 2:
        return flip(flip(m, axes[0]), axes[1])
    if k == 1:
        return flip(m, axes[1]).swapaxes(a0, a1)
    return flip(m.swapaxes(a0, a1), axes[1])


@api
def fliplr(m):
    return flip(m, 1)


@api
def flipud(m):
    return flip(m, 0)


@api
def expand_dims(a, axis):
    a = as_array(a)
    n = a.ndim + 1
    axis %= n
    return a[tuple(None if k == axis else slice(None) for k in range(n))]


@api
def squeeze(a, axis=None):
    return as_array(a).squeeze(axis)


@api
def reshape(a, newshape=None, order="C", shape=None):
    sh = newshape if newshape is not None else shape
    return as_array(a).reshape(sh if isinstance(sh, (tuple, list)) else (sh,), order=order)


@api
def ravel(a, order="C"):
    return as_array(a).ravel(order)


@api
def repeat(a, repeats, axis=None):
    a = as_array(a)
    if axis is None or not isinstance(repeats, int):
        raise Unsupported("repeat")
    d = a._sh[axis]
    if concrete_eq(d, 1):
        sh = list(a._sh)
        sh[axis] = repeats
        body = tmpl(a.content(), {axis: z3.IntVal(0)})
    else:
        sh = list(a._sh)
        sh[axis] = sh[axis] * repeats
        body = tmpl(a.content(), {axis: IDX[axis] / repeats})
    return new_array(sh, a.dtype, body)


@api
def tile(a, reps):
    raise Unsupported("tile")


@api
def broadcast_to(a, shape):
    a = as_array(a)
    sh = broadcast_shapes([a._sh, tuple(shape)])
    return new_array(sh, a.dtype, operand_body(a, sh))


@api
def stack(arrays, axis=0):
    if hasattr(arrays, "_vc_to_array") and axis == 0:
        return arrays._vc_to_array()
    return stack_arrays([as_array(x) for x in arrays], axis)


@api
def concatenate(arrays, axis=0):
    arrays = [as_array(x) for x in arrays]
    if all(a._cells is not None for a in arrays):
        dt = functools.reduce(promote, [a.dtype for a in arrays])
        return new_cells(RN.concatenate([a.astype(dt)._cells for a in arrays], axis), dt)
    raise Unsupported("concatenate of symbolic arrays")


@api
def where(condition, x=None, y=None):
    if x is None or y is None:
        raise Unsupported("where(cond)")
    c = condition
    ops = [v if isinstance(v, ndarray) else array_from(v) if isinstance(v, (list, tuple)) else v for v in (c, x, y)]
    shapes = [o._sh for o in ops if isinstance(o, ndarray)]
    dt = result_dtype(ops[1:])
    if not shapes:
        return Sym(z3.If(as_bool(to_z3(c)), cast_term(to_z3(x), py_dtype(x), dt), cast_term(to_z3(y), py_dtype(y), dt)), dt)
    sh = broadcast_shapes(shapes)

    def body(o, d):
        if isinstance(o, ndarray):
            return cast_term(operand_body(o, sh), o.dtype, d)
        if isinstance(o, float) and (o != o or abs(o) == float("inf")):
            raise Unsupported("inf/nan constant")
        return cast_term(to_z3(o), py_dtype(o), d)

    return new_array(sh, dt, z3.If(body(ops[0], B8), body(ops[1], dt), body(ops[2], dt)))


@api
def clip(a, a_min=None, a_max=None, out=None, *, min=None, max=None, **kw):
    if kw:
        raise Unsupported("clip options")
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    if out is not None and (a_min is not None or a_max is not None):
        if a_min is None:
            return UFUNCS["minimum"](a, a_max, out=out)
        r = UFUNCS["maximum"](a, a_min, out=out)
        return r if a_max is None else UFUNCS["minimum"](out, a_max, out=out)
    r = a
    if a_min is not None:
        r = UFUNCS["maximum"](r, a_min)
    if a_max is not None:
        r = UFUNCS["minimum"](r, a_max)
    return r


@api
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not copy:
        raise Unsupported("nan_to_num in place")
    x = as_array(x)
    if x.dtype.kind != "f":
        return array_from(x)
    b = x.content()
    np_ = nan_pred(b)
    return x._derive(x._sh, x.dtype, Buf(x._sh, x.dtype, z3.If(np_, as_real(to_z3(nan)), b)))


@api
def isfinite(x):
    raise Unsupported("isfinite")


@api
def isinf(x):
    raise Unsupported("isinf")


@api
def matmul(a, b):
    """2D @ 2D, or (..., k) @ (k, n) / (k,) with concrete k."""
    a, b = as_array(a), as_array(b)
    if a.dtype.kind == "c" or b.dtype.kind == "c":
        raise Unsupported("complex matmul")
    if not (isinstance(a, ndarray) and a.ndim >= 1 and b.ndim in (1, 2)):
        raise Unsupported("matmul ranks")
    k1, k2 = a._sh[-1], b._sh[0]
    if not same_dim(k1, k2):
        raise modelled(ValueError("matmul: Input operand has a mismatch in its core dimension"))
    kk = k2 if isinstance(k2, int) else k1 if isinstance(k1, int) else CTX().int_value(to_z3(k1))
    if not isinstance(kk, int) or kk > 64:
        raise Unsupported("matmul over a symbolic dimension")
    dt = promote(a.dtype, b.dtype)
    na = a.ndim
    sh = list(a._sh[:-1]) + ([b._sh[1]] if b.ndim == 2 else [])
    acc = None
    for j in range(kk):
        ta = tmpl(a.content(), {na - 1: z3.IntVal(j)})
        if b._cells is not None and b.ndim == 1:
            tb = to_sorted(b._cells[j], b.dtype)
        else:
            tb = tmpl(b.content(), {0: z3.IntVal(j), **({1: IDX[na - 1]} if b.ndim == 2 else {})})
        p = cast_term(ta, a.dtype, dt) * cast_term(tb, b.dtype, dt)
        acc = p if acc is None else acc + p
    acc = A.wrap(acc, dt) if dt.kind in "ui" else acc
    if not sh:
        return Sym(acc, dt)
    r = new_array(sh, dt, simp(acc))
    t = type(a) if type(a) is not ndarray else type(b)
    return r.view(t) if t is not ndarray and not issubclass(t, MaskedArray) else r


@api
def dot(a, b):
    if scalar_like(a) or scalar_like(b):
        return a * b
    a, b = as_array(a), as_array(b)
    if a.ndim == 1 and b.ndim == 1 and a._cells is None:
        return sum_(a * b)
    return matmul(a, b)


@api
def issubdtype(arg1, arg2):
    t1 = arg1 if isinstance(arg1, ScalarMeta) else as_dtype(arg1).type
    if isinstance(arg2, ScalarMeta):
        t2 = arg2
    elif arg2 is float:
        t2 = A.floating
    elif arg2 is int:
        t2 = A.signedinteger
    else:
        t2 = as_dtype(arg2).type
    return issubclass(t1, t2)


class iinfo:
    def __init__(self, t):
        d = as_dtype(t.dt if isinstance(t, Sym) else t)
        if d.kind not in "ui":
            raise modelled(ValueError(f"Invalid integer data type {d.kind!r}."))
        self.min, self.max = A.int_range(d)
        self.bits = 8 * d.itemsize
        self.dtype = d


class finfo:
    def __init__(self, t):
        d = as_dtype(t.dt if isinstance(t, Sym) else t)
        if d.kind != "f":
            raise modelled(ValueError(f"data type {d.name!r} not inexact"))
        i = RN.finfo(d.rn)
        self.min, self.max, self.eps = float(i.min), float(i.max), float(i.eps)
        self.tiny = float(i.tiny)
        self.bits = i.bits
        self.dtype = d


@api
def result_type(*a):
    ops = [x.dtype if isinstance(x, ndarray) else x for x in a]
    return functools.reduce(promote, [as_dtype(x) for x in ops])


@api
def promote_types(a, b):
    return promote(as_dtype(a), as_dtype(b))


def dtype_(x, *a, **k):
    return as_dtype(x)


ROUND = z3.Function("np.round", REAL, INT, REAL)


@api
def round_(a, decimals=0, out=None):
    if isinstance(a, ndarray) and a.ndim:
        if a.dtype.kind in "ui":
            return a.copy()
        return a._derive(a._sh, a.dtype, Buf(a._sh, a.dtype, ROUND(as_real(a.content()), to_z3(decimals))))
    if isinstance(a, ndarray):
        a = a.item()
    if A.is_foreign(a):
        a = a.item()
    if isinstance(a, (tuple, list)):
        return round_(array_from(a), decimals)
    if not isinstance(a, Sym):
        if isinstance(decimals, Sym):
            return Sym(ROUND(as_real(to_z3(a)), decimals.e), F64)
        if isinstance(a, str) or a is None:
            raise modelled(TypeError("round of non-number"))
        return RN.round(a, decimals)
    return Sym(ROUND(as_real(a.e), to_z3(decimals)), a.dt or F64)


@api
def median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    if axis is not None:
        raise Unsupported("median axis")
    return opaque("median", [as_array(a)])


@api
def percentile(a, q, axis=None, **kw):
    if axis is not None or kw:
        raise Unsupported("percentile options")
    return opaque("percentile", [as_array(a), q])


class HistVal:
    """(counts, edges) of np.histogram - opaque."""

    def __init__(self, key):
        self.key = key


@api
def histogram(a, bins=10, range=None, density=None, weights=None):
    if weights is not None:
        raise Unsupported("histogram weights")
    x = as_array(a)
    args = [x, bins, range, bool(density)]
    return (opaque("histogram.counts", args, (dim_val(to_z3(bins)),)), opaque("histogram.edges", args, (dim_val(to_z3(bins) + 1),)))


@api
def argmax(a, axis=None, out=None):
    if axis is not None:
        raise Unsupported("argmax axis")
    r = opaque("argmax", [as_array(a)], (), I64)
    CTX().assume(z3.And(r.e >= 0, r.e < to_z3(as_array(a).size)))
    return r


@api
def unravel_index(i, shape):
    sh = [to_z3(s) for s in shape]
    out = []
    ctx = CTX()
    for k, s in enumerate(sh):
        v = opaque(f"unravel{k}", [i] + list(shape), (), I64)
        ctx.assume(z3.And(v.e >= 0, v.e < s))
        out.append(v)
    return tuple(out)


@api
def pad(array, pad_width, mode="constant", **kw):
    x = as_array(array)
    pw = pad_width
    if isinstance(pw, (int, Sym)):
        pw = [(pw, pw)] * x.ndim
    elif isinstance(pw, (tuple, list)) and len(pw) == 2 and all(scalar_like(v) for v in pw):
        pw = [tuple(pw)] * x.ndim
    sh = [s + p[0] + p[1] for s, p in zip(x._sh, pw)]
    if mode == "constant":
        cv = kw.pop("constant_values", 0)
        if kw or not scalar_like(cv):
            raise Unsupported("pad options")
        idx = {k: IDX[k] - to_z3(pw[k][0]) for k in range(x.ndim)}
        ins = z3.And(*[z3.And(idx[k] >= 0, idx[k] < to_z3(x._sh[k])) for k in range(x.ndim)])
        body = z3.If(ins, tmpl(x.content(), idx), cast_term(to_z3(cv), py_dtype(cv), x.dtype))
        return new_array(sh, x.dtype, body)
    return opaque(f"pad.{mode}", [x, [list(p) for p in pw], kw], tuple(sh), x.dtype)


@api
def real(x):
    x = as_array(x)
    if x.dtype.kind == "c":
        return A.elementwise_unary_fn(x, "c.real", F64)
    return x


@api
def imag(x):
    x = as_array(x)
    return A.elementwise_unary_fn(x, "c.imag", F64)


@api
def angle(z):
    x = as_array(z)
    return A.elementwise_unary_fn(x, "c.angle", F64)


@api
def can_cast(a, b, casting="safe"):
    return bool(RN.can_cast(as_dtype(a).rn, as_dtype(b).rn, casting))


@api
def may_share_memory(a, b):
    raise Unsupported("may_share_memory")


@api
def ndim(a):
    return as_array(a).ndim if not scalar_like(a) else 0


@api
def shape(a):
    return as_array(a)._sh if not scalar_like(a) else ()


@api
def size(a):
    return as_array(a).size


@api
def isscalar(x):
    return scalar_like(x) and not isinstance(x, str)


@api
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    raise Unsupported("allclose")


@api
def fromfile(file, dtype=float, count=-1, sep="", offset=0):
    """All values of an open binary file (contract: see libs.BinFile)."""
    dt = as_dtype(dtype)
    if count != -1 or sep != "" or offset != 0:
        raise Unsupported("fromfile options")
    from .libs import BinFile

    if not isinstance(file, BinFile):
        raise Unsupported("fromfile of an unknown file")
    return file.values(dt)


@api
def frombuffer(buffer, dtype=float, count=-1, offset=0):
    from .libs import BinBytes

    if not isinstance(buffer, BinBytes) or count != -1 or offset != 0:
        raise Unsupported("frombuffer")
    return buffer.file.values(as_dtype(dtype))


@api
def ma_array(data, dtype=None, copy=False, mask=False, **kw):
    if kw or dtype is not None:
        raise Unsupported("ma.array options")
    d = as_array(data)
    b, m, c = d._fresh() if copy else (d._buf, d._map, d._cells)
    if c is not None:
        b, m, c = Buf(d._sh, d.dtype, d.content()), None, None
    r = ndarray._make(MaskedArray, d._sh, d.dtype, b, m, c)
    if mask is False or mask is None:
        mk = full(d._sh, False, B8)
    else:
        mk = as_array(mask)
        if mk.dtype.kind != "b":
            mk = mk.astype(B8)
        if mk.ndim != d.ndim:
            raise modelled(ValueError("Mask and data not compatible"))
        for p, q in zip(mk._sh, d._sh):
            if not same_dim(p, q):
                raise modelled(ValueError("Mask and data not compatible"))
    r.__dict__["_mask"] = mk
    return r


