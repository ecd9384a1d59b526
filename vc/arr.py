"""Symbolic numpy arrays: symbolic shape, dtype, aliasing and contents."""

import fractions

import numpy as RN
import z3

from .core import (
    BOOL, CTX, IDX, INT, POW, REAL, REG, SQRT, LOG, EXP, SIN, COS, TAN, ATAN2,
    Sym, Unsupported, as_bool, as_int, as_real, concrete, div, is_z3, make_app,
    modelled, nan_pred, real_val, scalar_like, simp, to_z3, trunc_real, walk,
)

_NDARRAY_ATTRS = set(dir(RN.ndarray))


# --------------------------------------------------------------------------
# dtypes
# --------------------------------------------------------------------------
class ScalarMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.dt is not None and issubclass(x.dt.type, cls)
        if isinstance(x, RN.generic):
            t = TYPES.get(x.dtype.name)
            return t is not None and issubclass(t, cls)
        return False

    def __call__(cls, x=0, *a):
        if cls.__dict__.get("_name") is None:
            raise Unsupported(f"instantiating {cls.__name__}")
        return cast_value(x, DT[cls._name])

    def __repr__(cls):
        return f"<class 'numpy.{cls.__name__}'>"

    def __eq__(cls, o):
        if isinstance(o, DType):
            return o == cls
        return cls is o

    def __hash__(cls):
        return id(cls)

    def __getitem__(cls, _):
        return cls

    def __or__(cls, o):
        return object


class generic(metaclass=ScalarMeta):
    pass


class number(generic):
    pass


class integer(number):
    pass


class signedinteger(integer):
    pass


class unsignedinteger(integer):
    pass


class inexact(number):
    pass


class floating(inexact):
    pass


class complexfloating(inexact):
    pass


TYPES = {}
DT = {}


class DType:
    def __init__(self, name, kind, itemsize, typ):
        self.name, self.kind, self.itemsize, self.type = name, kind, itemsize, typ
        self.rn = RN.dtype(name)
        self.char = self.rn.char
        self.num = self.rn.num
        self.str = self.rn.str
        self.byteorder = self.rn.byteorder
        self.isnative = True
        self.names = None
        self.fields = None

    def __eq__(self, o):
        if isinstance(o, DType):
            return o is self
        try:
            return as_dtype(o) is self
        except (TypeError, Unsupported):
            return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype('{self.name}')"

    def __str__(self):
        return self.name

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"dtype.{n}")


def _mk(name, kind, size, base):
    t = ScalarMeta(name, (base,), {"_name": name})
    TYPES[name] = t
    d = DType(name, kind, size, t)
    DT[name] = d
    t.dtype = d
    return t


for _n in (8, 16, 32, 64):
    _mk(f"int{_n}", "i", _n // 8, signedinteger)
    _mk(f"uint{_n}", "u", _n // 8, unsignedinteger)
for _n in (16, 32, 64):
    _mk(f"float{_n}", "f", _n // 8, floating)
_mk("complex64", "c", 8, complexfloating)
_mk("complex128", "c", 16, complexfloating)
_mk("bool", "b", 1, generic)
_mk("object", "O", 8, generic)
F64, F32, I64, B8 = DT["float64"], DT["float32"], DT["int64"], DT["bool"]


def as_dtype(x):
    if isinstance(x, DType):
        return x
    if isinstance(x, ScalarMeta):
        n = x.__dict__.get("_name")
        if n:
            return DT[n]
        raise Unsupported("abstract dtype")
    if x is float:
        return F64
    if x is int:
        return I64
    if x is bool:
        return B8
    if x is complex:
        return DT["complex128"]
    if x is object:
        return DT["object"]
    if x is None:
        return F64
    if isinstance(x, (str, RN.dtype)) or (isinstance(x, type) and issubclass(x, RN.generic)):
        try:
            n = RN.dtype(x).name
        except TypeError as e:
            raise modelled(TypeError(str(e))) from None
        if n in DT:
            return DT[n]
    raise Unsupported(f"dtype {x!r}")


def promote(a, b):
    return DT[RN.promote_types(a.name, b.name).name]


CAT = {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3, "O": 4}


def int_range(dt):
    if dt.kind == "u":
        return 0, 2 ** (8 * dt.itemsize) - 1
    return -(2 ** (8 * dt.itemsize - 1)), 2 ** (8 * dt.itemsize - 1) - 1


def sort_of(dt):
    return {"b": BOOL, "u": INT, "i": INT}.get(dt.kind, REAL)


def bounds(e, memo=None):
    """Structural interval of an integer term (None = unbounded)."""
    memo = {} if memo is None else memo
    i = e.get_id()
    if i in memo:
        return memo[i]
    memo[i] = (None, None)
    r = (None, None)
    if z3.is_int_value(e):
        r = (e.as_long(), e.as_long())
    elif z3.is_app(e):
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_UNINTERPRETED and e.decl().name() in INPUT_RANGE:
            r = INPUT_RANGE[e.decl().name()]
        elif k == z3.Z3_OP_ADD:
            bs = [bounds(c, memo) for c in ch]
            r = (
                None if any(b[0] is None for b in bs) else sum(b[0] for b in bs),
                None if any(b[1] is None for b in bs) else sum(b[1] for b in bs),
            )
        elif k == z3.Z3_OP_SUB and len(ch) == 2:
            a, b = bounds(ch[0], memo), bounds(ch[1], memo)
            r = (
                None if a[0] is None or b[1] is None else a[0] - b[1],
                None if a[1] is None or b[0] is None else a[1] - b[0],
            )
        elif k == z3.Z3_OP_UMINUS:
            a = bounds(ch[0], memo)
            r = (None if a[1] is None else -a[1], None if a[0] is None else -a[0])
        elif k == z3.Z3_OP_MUL and len(ch) == 2:
            a, b = bounds(ch[0], memo), bounds(ch[1], memo)
            if None not in a and None not in b:
                p = [x * y for x in a for y in b]
                r = (min(p), max(p))
        elif k == z3.Z3_OP_ITE:
            a, b = bounds(ch[1], memo), bounds(ch[2], memo)
            r = (
                None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]),
            )
        elif k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
            r = (0, abs(ch[1].as_long()) - 1)
    memo[i] = r
    return r


INPUT_RANGE = {}


def wrap(e, dt):
    if dt.kind not in "ui" or dt.itemsize == 8:
        return e
    lo, hi = int_range(dt)
    b = bounds(e)
    if b[0] is not None and b[1] is not None and b[0] >= lo and b[1] <= hi:
        return e
    m = hi - lo + 1
    if lo == 0:
        return e % m
    return ((e - lo) % m) + lo


_BADCAST = z3.Function("badcast", REAL, INT)


def cast_term(e, src, dst):
    """Value of term e of dtype src converted to dtype dst."""
    if src is dst:
        return e
    k = dst.kind
    if src.kind == "O" or k == "O":
        raise Unsupported("object cast")
    if k == "b":
        return e if z3.is_bool(e) else e != 0
    if k in "ui":
        if z3.is_bool(e):
            return as_int(e)
        if z3.is_int(e):
            return wrap(e, dst)
        if src.kind == "c":
            raise Unsupported("complex to int")
        t = trunc_real(e)
        if dst.itemsize == 8:
            return t
        lo, hi = int_range(dst)
        return z3.If(z3.And(e > lo - 1, e < hi + 1), t, _BADCAST(e))
    if k == "f":
        if src.kind == "c":
            raise Unsupported("complex to float")
        return as_real(e)
    if k == "c":
        if src.kind == "c":
            return e
        raise Unsupported("cast to complex")
    raise Unsupported("cast")


def py_dtype(x):
    """(dtype, weak?) of a scalar operand."""
    if isinstance(x, Sym):
        if x.dt is not None:
            return x.dt
        return B8 if x.is_bool else I64 if x.is_int else F64
    if isinstance(x, (bool, RN.bool_)):
        return B8
    if isinstance(x, RN.generic):
        return DT[x.dtype.name]
    if isinstance(x, int):
        return I64
    if isinstance(x, (float, fractions.Fraction)):
        return F64
    raise Unsupported(f"scalar {type(x).__name__}")


def is_np_scalar(x):
    return (isinstance(x, Sym) and x.dt is not None) or isinstance(x, RN.generic)


def result_dtype(ops):
    """numpy-1.26 (value based) result type of arrays and scalars."""
    arrs = [o for o in ops if isinstance(o, ndarray) and o.ndim > 0]
    scs = [o for o in ops if not (isinstance(o, ndarray) and o.ndim > 0)]
    scs = [o.item() if isinstance(o, ndarray) else o for o in scs]
    if not arrs:
        r = py_dtype(scs[0])
        for s in scs[1:]:
            r = promote(r, py_dtype(s))
        return r
    r = arrs[0].dtype
    for a in arrs[1:]:
        r = promote(r, a.dtype)
    for s in scs:
        d = py_dtype(s)
        if CAT[d.kind] > CAT[r.kind]:
            r = promote(r, d)
        elif CAT[d.kind] == CAT[r.kind] == 1:
            if isinstance(s, Sym):
                v = concrete(simp(s.e))
            else:
                v = int(s)
            if v is None:
                if r.itemsize == 8 or (s.dt is not None and promote(r, s.dt) is r):
                    continue
                raise Unsupported("value-based promotion with a symbolic integer")
            lo, hi = int_range(r)
            if lo <= v <= hi:
                continue
            m = RN.min_scalar_type(v)
            r = promote(r, DT[m.name])
    return r


# --------------------------------------------------------------------------
# scalar operations
# --------------------------------------------------------------------------
CMP = {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal"}


_ABS = {}


def _abs_term(a):
    """|a|, the same term for a and -a."""
    a = z3.simplify(a, sort_sums=True)
    n = z3.simplify(-a, sort_sums=True)
    if a.get_id() not in _ABS:
        _ABS[a.get_id()] = _ABS[n.get_id()] = (a, n)
    a, n = _ABS[a.get_id()]
    return z3.If(a >= 0, a, n)


def _pow_term(a, b):
    """a ** b over reals."""
    v = concrete(simp(b))
    if v is not None:
        if v == int(v) and 0 <= v <= 8:
            r = z3.RealVal(1)
            for _ in range(int(v)):
                r = r * a
            return r if v else z3.RealVal(1)
        if v == -1:
            return div(1, a)
        if v == -2:
            return div(1, a * a)
        if v == fractions.Fraction(1, 2):
            return SQRT(a)
    return POW(a, b)


def op_term(op, a, b, dt):
    """Elementwise binary operation on terms already cast to dtype dt."""
    if op == "add":
        if dt.kind == "b":
            return z3.Or(a, b)
        return wrap(a + b, dt)
    if op == "subtract":
        if dt.kind == "b":
            raise modelled(TypeError("numpy boolean subtract is not supported"))
        return wrap(a - b, dt)
    if op == "multiply":
        if dt.kind == "b":
            return z3.And(a, b)
        return wrap(a * b, dt)
    if op == "divide":
        return div(a, b)
    if op in ("floor_divide", "remainder"):
        if dt.kind == "f":
            q = z3.ToReal(z3.ToInt(a / b))
            return q if op == "floor_divide" else a - q * b
        if not CTX().entails(b > 0):
            raise Unsupported("integer division by a possibly non-positive value")
        return a / b if op == "floor_divide" else a % b
    if op == "power":
        if dt.kind == "f":
            return _pow_term(a, b)
        v = concrete(simp(b))
        if v is not None and 0 <= v <= 8:
            r = z3.IntVal(1)
            for _ in range(int(v)):
                r = r * a
            return wrap(r, dt)
        cb = concrete(simp(a))
        if dt.itemsize == 8 and CTX().entails(b >= 0):
            return z3.Function("ipow", INT, INT, INT)(a, b)
        raise Unsupported("integer power")
    if op in ("maximum", "fmax"):
        return z3.If(a >= b, a, b)
    if op in ("minimum", "fmin"):
        return z3.If(a <= b, a, b)
    if op == "arctan2":
        return ATAN2(a, b)
    if op == "equal":
        return a == b
    if op == "not_equal":
        return a != b
    if op == "less":
        return a < b
    if op == "less_equal":
        return a <= b
    if op == "greater":
        return a > b
    if op == "greater_equal":
        return a >= b
    if op in ("logical_and", "bitwise_and"):
        return z3.And(a, b)
    if op in ("logical_or", "bitwise_or"):
        return z3.Or(a, b)
    if op in ("logical_xor", "bitwise_xor"):
        return z3.Xor(a, b)
    raise Unsupported(f"operation {op}")


def compute_dtype(op, dt, ops=()):
    """(computation dtype, result dtype) of a binary ufunc."""
    if op == "divide":
        if dt.kind in "bui":
            return F64, F64
        return dt, dt
    if op in CMP:
        return dt, B8
    if op in ("logical_and", "logical_or", "logical_xor"):
        return B8, B8
    if op in ("bitwise_and", "bitwise_or", "bitwise_xor"):
        if dt.kind != "b":
            raise Unsupported("bit operations on integers")
        return B8, B8
    if op == "arctan2" and dt.kind != "f":
        return F64, F64
    if op in ("power", "floor_divide", "remainder") and dt.kind == "b":
        raise Unsupported("bool power")
    return dt, dt


CMUL = z3.Function("c.mul", REAL, REAL, REAL)
CADD = z3.Function("c.add", REAL, REAL, REAL)
CSUB = z3.Function("c.sub", REAL, REAL, REAL)
CDIV = z3.Function("c.div", REAL, REAL, REAL)
CRE = z3.Function("c.lift", REAL, REAL)


def complex_const(x):
    if x.imag == 0:
        return CRE(z3.RealVal(repr(x.real)) if x.real != int(x.real) else z3.RealVal(int(x.real)))
    return z3.Function("c.make", REAL, REAL, REAL)(as_real(to_z3(x.real)), as_real(to_z3(x.imag)))


def complex_term(op, a, ad, b, bd):
    """Complex elementwise operations are uninterpreted."""
    a = a if ad.kind == "c" else CRE(as_real(a))
    b = b if bd.kind == "c" else CRE(as_real(b))
    f = {"multiply": CMUL, "add": CADD, "subtract": CSUB, "divide": CDIV}.get(op)
    if f is None:
        raise Unsupported(f"complex {op}")
    if op in ("multiply", "add") and a.get_id() > b.get_id():
        a, b = b, a
    return f(a, b)


def binary_term(op, a, ad, b, bd, dt):
    if dt.kind == "c":
        if op in CMP:
            raise Unsupported("complex comparison")
        return complex_term(op, a, ad, b, bd), dt
    cd, rd = compute_dtype(op, dt)
    return op_term(op, cast_term(a, ad, cd), cast_term(b, bd, cd), cd), rd


def scalar_op(op, a, b):
    """Binary operation on python/numpy scalars (at least one Sym)."""
    op = {"logical_and_bit": "bitwise_and", "logical_or_bit": "bitwise_or"}.get(op, op)
    for x in (a, b):
        if isinstance(x, (float, RN.floating)):
            f = float(x)
            if f != f or f in (float("inf"), float("-inf")):
                return _nonfinite(op, a, b)
    ea, eb = to_z3(a), to_z3(b)
    if is_np_scalar(a) or is_np_scalar(b):
        dt = promote(py_dtype(a), py_dtype(b))
        e, rd = binary_term(op, ea, py_dtype(a), eb, py_dtype(b), dt)
        return Sym(simp_s(e), rd)
    # pure python semantics
    if op in CMP:
        if z3.is_bool(ea) and z3.is_bool(eb):
            ea2, eb2 = ea, eb
            if op not in ("equal", "not_equal"):
                ea2, eb2 = as_int(ea), as_int(eb)
        elif z3.is_real(ea) or z3.is_real(eb):
            ea2, eb2 = as_real(ea), as_real(eb)
        else:
            ea2, eb2 = as_int(ea), as_int(eb)
        return Sym(op_term(op, ea2, eb2, F64))
    if op in ("bitwise_and", "bitwise_or"):
        if z3.is_bool(ea) and z3.is_bool(eb):
            return Sym(op_term(op, ea, eb, B8))
        raise Unsupported("bit operation")
    if z3.is_real(ea) or z3.is_real(eb) or op == "divide":
        if op == "divide":
            if not CTX().branch(as_real(eb) != 0):
                raise modelled(ZeroDivisionError("division by zero"))
        return Sym(simp_s(op_term(op, as_real(ea), as_real(eb), F64)))
    ea, eb = as_int(ea), as_int(eb)
    if op == "power":
        v = concrete(simp(eb))
        if v is None:
            raise_ = z3.Function("ipow", INT, INT, INT)
            if not CTX().entails(eb >= 0):
                raise Unsupported("python int power with a possibly negative exponent")
            return Sym(raise_(ea, eb))
        if v < 0:
            return Sym(div(1, op_term("power", ea, z3.IntVal(-v), I64)))
    if op in ("floor_divide", "remainder"):
        if not CTX().branch(eb != 0):
            raise modelled(ZeroDivisionError("division by zero"))
    return Sym(simp_s(op_term(op, ea, eb, I64)))


def simp_s(e):
    """Light simplification (constants only) that keeps nan structure."""
    if z3.is_real(e) and any(
        z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_DIV,) for t in _few(e)
    ):
        return e
    return simp(e)


def _few(e, limit=200):
    n = 0
    for t in walk(e):
        yield t
        n += 1
        if n > limit:
            return


def _nonfinite(op, a, b):
    """Comparison of a finite symbolic value with inf/nan."""
    if op not in CMP:
        raise Unsupported("arithmetic with inf/nan")
    x = a if not isinstance(a, Sym) else b
    f = float(x)
    if f != f:
        return op == "not_equal"
    big = f > 0
    left = not isinstance(a, Sym)
    gt = big if left else not big  # a > b ?
    return {"equal": False, "not_equal": True, "greater": gt, "greater_equal": gt,
            "less": not gt, "less_equal": not gt}[op]


def unary_term(op, a, ad):
    """Returns (term, dtype)."""
    if op in ("sqrt", "log", "exp", "sin", "cos", "tan", "log10", "log2", "log1p", "expm1"):
        if ad.kind == "c":
            raise Unsupported(f"complex {op}")
        rd = ad if ad.kind == "f" else F64
        x = as_real(a)
        if op == "sqrt":
            return SQRT(x), rd
        if op == "log":
            return LOG(x), rd
        if op == "exp":
            return EXP(x), rd
        f = {"sin": SIN, "cos": COS, "tan": TAN}.get(op)
        if f is None:
            f = z3.Function(op, REAL, REAL)
        return f(x), rd
    if op in ("absolute", "abs", "fabs"):
        if ad.kind == "c":
            return z3.Function("c.abs", REAL, REAL)(a), F64 if ad.itemsize == 16 else F32
        if ad.kind == "b" or ad.kind == "u":
            return a, ad
        return wrap(z3.If(a >= 0, a, -a), ad) if ad.kind == "i" else _abs_term(a), ad
    if op == "negative":
        if ad.kind == "b":
            raise modelled(TypeError("numpy boolean negative"))
        return wrap(-a, ad), ad
    if op == "positive":
        return a, ad
    if op == "square":
        return (wrap(a * a, ad) if ad.kind in "ui" else a * a), ad
    if op == "logical_not":
        return z3.Not(as_bool(a)), B8
    if op == "invert":
        if ad.kind != "b":
            raise Unsupported("~ on integers")
        return z3.Not(a), B8
    if op == "isnan":
        return nan_pred(a) if z3.is_real(a) else z3.BoolVal(False), B8
    if op == "floor":
        return (z3.ToReal(z3.ToInt(a)), ad) if ad.kind == "f" else (as_real(a), F64)
    if op == "ceil":
        return (z3.ToReal(-z3.ToInt(-a)), ad) if ad.kind == "f" else (as_real(a), F64)
    if op == "trunc":
        return (z3.ToReal(trunc_real(a)), ad) if ad.kind == "f" else (as_real(a), F64)
    if op in ("sign",):
        return z3.If(a > 0, 1, z3.If(a < 0, -1, 0)), ad
    raise Unsupported(f"unary {op}")


def scalar_unary(op, x):
    if op == "absolute" and x.dt is None:
        e = x.e
        if z3.is_bool(e):
            e = as_int(e)
        return Sym(simp_s(z3.If(e >= 0, e, -e)))
    if op == "negative" and x.dt is None:
        return Sym(simp_s(-x.e))
    e, d = unary_term(op, x.e, py_dtype(x))
    return Sym(simp_s(e), d)


def cast_scalar(x, dt):
    return Sym(cast_term(to_z3(x), py_dtype(x), dt), dt)


def cast_value(x, dt):
    """np.float64(x) and friends."""
    if isinstance(x, ndarray):
        if x.ndim == 0:
            return cast_scalar(x.item(), dt)
        return x.astype(dt)
    if isinstance(x, Sym):
        return cast_scalar(x, dt)
    if is_foreign(x):
        return cast_scalar(x.item(), dt)
    return dt.rn.type(x)


def is_foreign(x):
    return hasattr(x, "_vc_tensor")


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
def dim_term(d):
    return to_z3(d)


def dim_val(e):
    """z3 dim -> python int or Sym."""
    if isinstance(e, int):
        return e
    e = simp(to_z3(e))
    v = concrete(e)
    return int(v) if v is not None else Sym(e)


def _born():
    from .loops import BORN

    return BORN


class Buf:
    def __init__(self, shape, dt, body, name=None, parent=None):
        self.shape = list(shape)
        self.dt = dt
        self.body = body
        self.name = name
        self.parent = parent
        self.writes = 0
        self.orig = body
        self.born = next(_born())

    def write(self, body):
        if self.parent is not None:
            raise Unsupported("write through a reshaped view")
        for j in CTX().ghost.get("journals", ()):
            j.buf_touched(self)
        self.body = body
        self.writes += 1


def tmpl(body, mapping):
    m = [(IDX[k], to_z3(v)) for k, v in mapping.items() if not (is_z3(v) and v.get_id() == IDX[k].get_id())]
    return z3.substitute(body, *m) if m else body


class FlagsObj:
    def __init__(self, a):
        self.a = a

    def __getattr__(self, n):
        raise Unsupported("array flags")

    def __getitem__(self, n):
        raise Unsupported("array flags")


class ArrayMeta(type):
    pass


class ndarray:
    """Symbolic array.  Either cell based (concrete shape) or body based."""

    __array_priority__ = 10.0
    _vc_symlike = True

    def __new__(cls, *a, **k):
        if a or k:
            raise Unsupported("np.ndarray constructor")
        return object.__new__(cls)

    def __init__(self, *a, **k):
        pass

    # -- construction -----------------------------------------------------
    @staticmethod
    def _make(cls, shape, dt, buf=None, vmap=None, cells=None):
        o = object.__new__(cls)
        d = o.__dict__
        d["_sh"] = tuple(dim_val(s) for s in shape)
        d["_dt"] = dt
        d["_buf"] = buf
        d["_map"] = vmap
        d["_cells"] = cells
        d["_born"] = next(_born())
        return o

    def __array_finalize__(self, obj):
        return None

    def _derive(self, shape, dt, buf=None, vmap=None, cells=None, cls=None):
        """New array of the same class (with __array_finalize__)."""
        cls = cls or type(self)
        o = ndarray._make(cls, shape, dt, buf, vmap, cells)
        if cls is not ndarray:
            o.__array_finalize__(self)
        return o

    # -- basic attributes ---------------------------------------------------
    @property
    def shape(self):
        return self._sh

    @shape.setter
    def shape(self, v):
        raise Unsupported("shape assignment")

    @property
    def ndim(self):
        return len(self._sh)

    @property
    def dtype(self):
        return self._dt

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def size(self):
        return prod_dims(self._sh)

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def T(self):
        return self.transpose()

    @property
    def flags(self):
        return FlagsObj(self)

    @property
    def base(self):
        raise Unsupported("array base")

    @property
    def real(self):
        if self._dt.kind == "c":
            return elementwise_unary_fn(self, "c.real", F64)
        return self

    def __getattr__(self, n):
        if n in _NDARRAY_ATTRS and not n.startswith("__"):
            raise Unsupported(f"ndarray.{n}")
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{n}'")

    def __len__(self):
        if not self._sh:
            raise modelled(TypeError("len() of unsized object"))
        v = self._sh[0]
        if isinstance(v, int):
            return v
        c = CTX().int_value(v.e)
        if c is None:
            raise Unsupported("len() of symbolic array must use the overridden len")
        return c

    def _len(self):
        if not self._sh:
            raise modelled(TypeError("len() of unsized object"))
        return self._sh[0]

    def __iter__(self):
        n = len(self)
        return (self[i] for i in range(n))

    # -- content --------------------------------------------------------------
    def content(self):
        """Body over IDX[0..ndim-1] (in view coordinates)."""
        if self._cells is not None:
            return cells_body(self._cells, self._dt)
        b = self._buf.body
        if self._map is None:
            return b
        return tmpl(b, self._submap(IDX))

    def _submap(self, idx):
        m = {}
        for ax, ent in enumerate(self._map):
            if ent[0] == "fix":
                m[ax] = ent[1]
            else:
                _, va, start, step = ent
                v = idx[va]
                if concrete_eq(step, 1):
                    m[ax] = v if concrete_eq(start, 0) else simp(to_z3(v) + to_z3(start))
                else:
                    m[ax] = simp(to_z3(v) * to_z3(step) + to_z3(start))
        return m

    def at(self, *idx):
        """Term of the element at the given index terms (no bounds check)."""
        if self._cells is not None:
            cv = [concrete(simp(to_z3(i))) for i in idx]
            if all(v is not None for v in cv):
                return to_sorted(self._cells[tuple(int(v) for v in cv)], self._dt)
        c = self.content()
        return tmpl(c, {k: to_z3(i) for k, i in enumerate(idx)})

    def is_concrete(self):
        return self._cells is not None and all(not isinstance(x, Sym) for x in self._cells.ravel())

    def const(self):
        """Real numpy array of a fully concrete array."""
        if not self.is_concrete():
            raise Unsupported("concrete array expected")
        return RN.array(self._cells.tolist(), dtype=self._dt.rn).reshape(self._cells.shape)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        if self.ndim == 0:
            if self._cells is not None:
                v = self._cells[()]
                return v if isinstance(v, Sym) else v
            return Sym(self.at())
        if all(isinstance(s, int) and s == 1 for s in self._sh):
            return Sym(self.at(*[0] * self.ndim))
        raise Unsupported("item()")

    def tolist(self):
        if self._cells is not None:
            return self._cells.tolist()
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, (ndarray, Sym)) else x for x in self]

    # -- views -------------------------------------------------------------
    def view(self, *a, **k):
        cls = k.pop("type", None)
        if k:
            raise Unsupported("view keyword")
        for x in a:
            if isinstance(x, type) and issubclass(x, ndarray):
                cls = x
            elif isinstance(x, (DType, ScalarMeta, str)) and as_dtype(x) is self._dt:
                pass
            else:
                raise Unsupported("view with another dtype")
        cls = cls or type(self)
        o = ndarray._make(cls, self._sh, self._dt, self._buf, self._map, self._cells)
        if hasattr(self, "_mask"):
            if cls is type(self):
                o.__dict__["_mask"] = self._mask
        if cls is not ndarray:
            o.__array_finalize__(self)
        return o

    def copy(self, order="C"):
        o = self._derive(self._sh, self._dt, *self._fresh())
        if hasattr(self, "_mask"):
            o.__dict__["_mask"] = self._mask.copy()
        return o

    def _fresh(self):
        """(buf, map, cells) of a copy."""
        if self._cells is not None:
            return None, None, self._cells.copy()
        return Buf(self._sh, self._dt, self.content()), None, None

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = as_dtype(dtype)
        if dt is self._dt and not copy:
            return self
        cls = type(self) if subok else ndarray
        if self._cells is not None:
            c = RN.empty(self._cells.shape, object)
            for i in RN.ndindex(*c.shape):
                c[i] = cast_cell(self._cells[i], self._dt, dt)
            return self._derive(self._sh, dt, cells=c, cls=cls)
        b = Buf(self._sh, dt, cast_term(self.content(), self._dt, dt))
        return self._derive(self._sh, dt, b, cls=cls)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0] or ()
        n = self.ndim
        axes = [int(a) % n if n else a for a in axes] if axes else list(range(n))[::-1]
        if sorted(axes) != list(range(n)):
            raise modelled(ValueError("axes don't match array"))
        sh = [self._sh[a] for a in axes]
        if self._cells is not None:
            return self._derive(sh, self._dt, cells=self._cells.transpose(axes))
        inv = {a: k for k, a in enumerate(axes)}
        return self._derive(sh, self._dt, self._buf, tuple(
            e if e[0] == "fix" else ("ax", inv[e[1]], e[2], e[3]) for e in self._vm()))

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        a, b = a % self.ndim, b % self.ndim
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def _vm(self):
        if self._map is not None:
            return self._map
        return tuple(("ax", k, 0, 1) for k in range(self.ndim))

    def reshape(self, *sh, order="C"):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if order != "C":
            return _reshape_f(self, sh, order)
        return _reshape(self, sh)

    def ravel(self, order="C"):
        if order not in ("C", "K"):
            raise Unsupported("ravel order")
        return _reshape(self, (-1,))

    def flatten(self, order="C"):
        if order not in ("C",):
            raise Unsupported("flatten order")
        return _reshape(self, (-1,)).copy()

    def squeeze(self, axis=None):
        drop = []
        for k, s in enumerate(self._sh):
            if axis is None:
                if isinstance(s, int) and s == 1:
                    drop.append(k)
                elif not isinstance(s, int) and CTX().branch(s.e == 1):
                    drop.append(k)
            elif k == axis % self.ndim:
                drop.append(k)
        key = tuple(0 if k in drop else slice(None) for k in range(self.ndim))
        return self[key]

    # -- indexing -----------------------------------------------------------
    def __getitem__(self, key):
        if isinstance(key, ndarray) and key.ndim >= 1 and key.dtype.kind in "ui":
            return _take(self, key)
        if isinstance(key, list) and key and all(isinstance(k, int) for k in key):
            return stack_arrays([self[k] for k in key], 0)
        if isinstance(key, ndarray) and key.dtype.kind == "b" and key.ndim >= 1:
            if self._cells is not None and key.is_concrete():
                return self._derive(self._cells[key.const()].shape, self._dt, cells=self._cells[key.const()])
            return MaskSelected(self, key)
        sh, ents, scalar = self._resolve(key)
        mask = self.__dict__.get("_mask")
        if self._cells is not None:
            k = self._cells_key(key)
            if k is not None:
                c = self._cells[k]
                if isinstance(c, RN.ndarray) and c.ndim == len(sh):
                    if scalar and c.ndim == 0:
                        return c[()]
                    return self._derive(c.shape, self._dt, cells=c)
                return wrap_np(c, self._dt)
            # symbolic index into cells
            body = cells_body(self._cells, self._dt)
            buf = Buf(self._cells.shape, self._dt, body, parent="cells")
            vm = tuple(("ax", k2, 0, 1) for k2 in range(self.ndim))
            base = ndarray._make(ndarray, self._sh, self._dt, buf, vm)
            r = base._apply(sh, ents)
            return Sym(r.at(), self._dt) if scalar else self._derive(r._sh, r._dt, r._buf, r._map)
        r = self._apply(sh, ents)
        if scalar:
            return Sym(r.at(), self._dt)
        o = self._derive(r._sh, r._dt, r._buf, r._map)
        if mask is not None:
            o.__dict__["_mask"] = mask[key]
        return o

    def _cells_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        for k in key:
            if isinstance(k, Sym):
                v = CTX().int_value(k.e)
                if v is None:
                    return None
                out.append(v)
            elif isinstance(k, slice):
                p = []
                for x in (k.start, k.stop, k.step):
                    if isinstance(x, Sym):
                        v = CTX().int_value(x.e)
                        if v is None:
                            return None
                        x = v
                    p.append(x)
                out.append(slice(*p))
            else:
                out.append(k)
        return tuple(out)

    def _resolve(self, key):
        """Return (new shape, per-axis entries, is_scalar).

        entries: for each existing axis ('fix', idx) or ('ax', newaxis, start,
        step); new axes (None) only appear in the shape.
        """
        ctx = CTX()
        if not isinstance(key, tuple):
            key = (key,)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n_real > self.ndim:
            raise modelled(IndexError("too many indices for array"))
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (self.ndim - n_real) + key[i + 1 :]
        else:
            key = key + (slice(None),) * (self.ndim - n_real)
        sh, ents, ax = [], [], 0
        scalar = True
        for k in key:
            if k is None:
                sh.append(1)
                scalar = False
                continue
            n = self._sh[ax]
            nt = to_z3(n)
            if isinstance(k, slice):
                scalar = False
                start, ln, step = slice_bounds(k, nt)
                ents.append(("ax", len(sh), start, step))
                sh.append(dim_val(ln))
            elif isinstance(k, (int, Sym, RN.integer)) and not isinstance(k, bool):
                if isinstance(k, Sym) and not k.is_int:
                    raise modelled(IndexError("only integers, slices ... are valid indices"))
                e = simp(to_z3(k))
                if not ctx.branch(z3.And(e >= -nt, e < nt)):
                    raise modelled(IndexError(f"index out of bounds for axis {ax}"))
                if ctx.entails(e >= 0):
                    pass
                elif ctx.entails(e < 0):
                    e = simp(e + nt)
                else:
                    e = z3.If(e >= 0, e, e + nt)
                ents.append(("fix", e))
            elif isinstance(k, ndarray) and k.ndim == 0:
                e = to_z3(k.item())
                ents.append(("fix", e))
            elif isinstance(k, (float, str)):
                raise modelled(IndexError("only integers, slices ... are valid indices"))
            else:
                raise Unsupported(f"index of type {type(k).__name__}")
            ax += 1
        return sh, ents, scalar

    def _apply(self, sh, ents):
        vm = []
        for e in self._vm():
            if e[0] == "fix":
                vm.append(e)
                continue
            _, va, start, step = e
            f = ents[va]
            if f[0] == "fix":
                vm.append(("fix", simp(to_z3(f[1]) * to_z3(step) + to_z3(start))))
            else:
                s2 = simp(to_z3(f[2]) * to_z3(step) + to_z3(start))
                st2 = simp(to_z3(f[3]) * to_z3(step))
                vm.append(("ax", f[1], unz(s2), unz(st2)))
        return ndarray._make(ndarray, sh, self._dt, self._buf, tuple(vm))

    def __setitem__(self, key, value):
        if isinstance(key, ndarray) and key.dtype.kind == "b":
            if self._cells is not None and not self._shape_sym():
                return self._set_cells_mask(key, value)
            self._write_masked(self, key, value)
            return
        if self._cells is not None:
            k = self._cells_key(key) if not isinstance(key, (ndarray, list)) else None
            self._cells_guard()
            if k is not None:
                if scalar_like(value):
                    self._cells[k] = cast_cell(value, py_dtype(value), self._dt)
                    return
                if isinstance(value, ndarray) and value._cells is not None:
                    c = value.astype(self._dt)._cells
                    self._cells[k] = c
                    return
                if self._dt.kind == "O":
                    self._cells[k] = value
                    return
            self._to_body()
        sh, ents, scalar = self._resolve(key)
        t = self._apply(sh, ents)
        t._assign(value)

    def _cells_guard(self):
        js = CTX().ghost.get("journals", ())
        if js and self._born < js[-1].born:
            raise Unsupported("small array written in a symbolic loop")

    def _to_body(self):
        """Turn a cell array into a body array (loses aliasing of cells)."""
        if self._dt.kind == "O":
            raise Unsupported("object array")
        self._cells_guard()
        c = self._cells
        self.__dict__["_buf"] = Buf(self._sh, self._dt, cells_body(c, self._dt))
        self.__dict__["_map"] = None
        self.__dict__["_cells"] = None

    def _shape_sym(self):
        return any(not isinstance(s, int) for s in self._sh)

    def _set_cells_mask(self, key, value):
        if not scalar_like(value):
            raise Unsupported("masked assignment of arrays")
        self._cells_guard()
        kc = key._cells if key._cells is not None else None
        for i in RN.ndindex(*self._cells.shape):
            c = to_z3(kc[i]) if kc is not None else key.at(*i)
            new = cast_term(to_z3(value), py_dtype(value), self._dt)
            old = to_sorted(self._cells[i], self._dt)
            e = simp(z3.If(c, new, old))
            v = concrete(e)
            self._cells[i] = cell_of(e, self._dt)

    def _assign(self, value, cond=None):
        """self[...] = value (self is the target view)."""
        if isinstance(value, (list, tuple)):
            value = array_from(value)
        if isinstance(value, ndarray) and value.ndim > 0:
            shp = broadcast_shapes([self._sh, value._sh])
            if len(shp) != self.ndim:
                raise modelled(ValueError("could not broadcast input array"))
            for a, b in zip(shp, self._sh):
                if not same_dim(a, b):
                    raise modelled(ValueError("could not broadcast input array"))
            v = cast_term(operand_body(value, self._sh), value.dtype, self._dt)
        else:
            if isinstance(value, ndarray):
                value = value.item()
            if not scalar_like(value):
                if is_foreign(value):
                    value = value.item()
                else:
                    raise Unsupported(f"assigning {type(value).__name__}")
            if isinstance(value, float) and (value != value or abs(value) == float("inf")):
                raise Unsupported("assigning inf/nan")
            v = cast_term(to_z3(value), py_dtype(value), self._dt)
        self._write(v, cond)

    def _write(self, v, cond=None):
        """Write term v (over view IDX) where cond (over view IDX)."""
        if self._cells is not None:
            self._to_body()
        buf = self._buf
        if self._map is None:
            body = v if cond is None else z3.If(cond, v, buf.body)
            buf.write(body)
            return
        conds, back = [], {}
        for ax, ent in enumerate(self._map):
            I = IDX[ax]
            if ent[0] == "fix":
                conds.append(I == to_z3(ent[1]))
            else:
                _, va, start, step = ent
                n = to_z3(self._sh[va])
                rel = I - to_z3(start)
                if concrete_eq(step, 1):
                    back[va] = simp(rel)
                    conds.append(z3.And(rel >= 0, rel < n))
                elif concrete_eq(step, -1):
                    back[va] = simp(-rel)
                    conds.append(z3.And(-rel >= 0, -rel < n))
                else:
                    st = to_z3(step)
                    if concrete(simp(st)) is None or concrete(simp(st)) <= 0:
                        raise Unsupported("write through a strided view")
                    q = rel / st
                    back[va] = q
                    conds.append(z3.And(rel % st == 0, q >= 0, q < n))
        for va in range(self.ndim):
            if va not in back and not concrete_eq(self._sh[va], 1):
                raise Unsupported("write through a broadcast view")
            back.setdefault(va, z3.IntVal(0))
        # drop conditions implied by the buffer's own bounds
        cs = []
        ctx = CTX()
        inb = z3.And(*[z3.And(IDX[k] >= 0, IDX[k] < to_z3(s)) for k, s in enumerate(buf.shape)]) if buf.shape else z3.BoolVal(True)
        for c in conds:
            c = simp(c)
            if z3.is_true(c):
                continue
            cs.append(c)
        v2 = tmpl(v, back)
        if cond is not None:
            cs.append(tmpl(cond, back))
        body = z3.If(z3.And(*cs), v2, buf.body) if cs else v2
        buf.write(body)

    def _write_masked(self, target, mask, value):
        if isinstance(value, MaskSelected):
            if value.mask_body is None or value.mask_body.get_id() != mask.content().get_id():
                raise Unsupported("masked assignment with another mask")
            v = cast_term(value.body, value.dt, self._dt)
            target._write(v, mask.content())
            return
        if not scalar_like(value):
            raise Unsupported("masked assignment of an array")
        if mask.ndim != self.ndim:
            raise Unsupported("mask of another rank")
        for a, b in zip(mask._sh, self._sh):
            if not same_dim(a, b):
                raise modelled(IndexError("boolean index did not match indexed array"))
        v = cast_term(to_z3(value), py_dtype(value), self._dt)
        target._write(v, mask.content())

    def fill(self, v):
        self[...] = v

    # -- python protocol ------------------------------------------------------
    def __bool__(self):
        if self.ndim == 0:
            return bool(Sym(as_bool(to_z3(self.item()))))
        if all(isinstance(s, int) and s == 1 for s in self._sh):
            return bool(self.item())
        n = prod_dims(self._sh)
        if isinstance(n, int) and n == 0:
            return False
        if isinstance(n, Sym) and CTX().branch(n.e == 1):
            return CTX().branch(as_bool(self.at(*[0] * self.ndim)))
        raise modelled(ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"))

    def __float__(self):
        raise Unsupported("float of array")

    def __hash__(self):
        raise modelled(TypeError("unhashable type: 'numpy.ndarray'"))

    def __repr__(self):
        sh = [concrete(to_z3(n)) for n in self._sh]
        if len(sh) == 1 and sh[0] is not None and sh[0] <= 16:
            return "[" + " ".join(str(Sym(self.at(i), self._dt)) for i in range(sh[0])) + "]"
        return f"array<{self._dt.name},{len(self._sh)}d>"

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.item(), spec)
        return repr(self)

    def __contains__(self, x):
        raise Unsupported("in on an array")

    def _call(self, op, *args, **kw):
        from . import npmod

        return npmod.UFUNCS[op](*args, **kw)

    def _bin(self, op, o, swap=False):
        if not (isinstance(o, (ndarray, list, tuple)) or scalar_like(o)):
            if isinstance(o, complex):
                pass
            else:
                return NotImplemented
        return self._call(op, o, self) if swap else self._call(op, self, o)

    def _ibin(self, op, o):
        r = self._call(op, self, o, out=self)
        return r

    # -- reductions (methods) -------------------------------------------------
    def _red(self, name, *a, **k):
        from . import npmod

        return getattr(npmod, name)(self, *a, **k)

    def min(self, *a, **k):
        return self._red("amin", *a, **k)

    def max(self, *a, **k):
        return self._red("amax", *a, **k)

    def mean(self, *a, **k):
        return self._red("mean", *a, **k)

    def std(self, *a, **k):
        return self._red("std", *a, **k)

    def var(self, *a, **k):
        return self._red("var", *a, **k)

    def sum(self, *a, **k):
        return self._red("sum_", *a, **k)

    def all(self, *a, **k):
        return self._red("all_", *a, **k)

    def any(self, *a, **k):
        return self._red("any_", *a, **k)

    def prod(self, *a, **k):
        return self._red("prod", *a, **k)

    def clip(self, *a, **k):
        return self._red("clip", *a, **k)

    def argmax(self, *a, **k):
        return self._red("argmax", *a, **k)

    def round(self, *a, **k):
        return self._red("round_", *a, **k)

    def dot(self, o):
        return self._red("dot", o)

    def __matmul__(self, o):
        from . import npmod

        return npmod.matmul(self, o)

    def __rmatmul__(self, o):
        from . import npmod

        return npmod.matmul(array_from(o), self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        """ndarray.__array_ufunc__: run the ufunc unless an input overrides."""
        outs = kwargs.get("out", ())
        for x in list(inputs) + list(outs if isinstance(outs, tuple) else (outs,)):
            if isinstance(x, ndarray) and type(x).__array_ufunc__ is not ndarray.__array_ufunc__:
                return NotImplemented
        return ufunc._run(method, *inputs, **kwargs)


def _install_ops():
    ops = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "divide",
           "floordiv": "floor_divide", "mod": "remainder", "pow": "power",
           "and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor"}
    for d, u in ops.items():
        def f(self, o, u=u):
            return self._bin(u, o)

        def rf(self, o, u=u):
            return self._bin(u, o, True)

        def inf(self, o, u=u):
            return self._ibin(u, o)

        setattr(ndarray, f"__{d}__", f)
        setattr(ndarray, f"__r{d}__", rf)
        setattr(ndarray, f"__i{d}__", inf)
    for d, u in {"eq": "equal", "ne": "not_equal", "lt": "less", "le": "less_equal",
                 "gt": "greater", "ge": "greater_equal"}.items():
        def c(self, o, u=u):
            if o is None or isinstance(o, str):
                if u == "equal":
                    return False if False else self._call(u, self, o)
                return self._call(u, self, o)
            return self._bin(u, o)

        setattr(ndarray, f"__{d}__", c)
    for d, u in {"neg": "negative", "pos": "positive", "abs": "absolute", "invert": "invert"}.items():
        def un(self, u=u):
            return self._call(u, self)

        setattr(ndarray, f"__{d}__", un)


_install_ops()


class MaskSelected:
    """x[mask]: the selected elements (only reductions/masked writes)."""

    def __init__(self, a, mask):
        if a.ndim != mask.ndim:
            raise Unsupported("boolean index of another rank")
        for p, q in zip(a._sh, mask._sh):
            if not same_dim(p, q):
                raise modelled(IndexError("boolean index did not match indexed array"))
        self.arr, self.mask = a, mask
        self.shape_full = a._sh
        self.body = a.content()
        self.dt = a.dtype
        self.mask_body = mask.content()

    _vc_symlike = True

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("mean", "std", "var", "sum", "min", "max"):
            from . import npmod

            f = getattr(npmod, {"sum": "sum_", "min": "amin", "max": "amax"}.get(n, n))
            return lambda *a, **k: f(self, *a, **k)
        raise Unsupported(f"boolean selection .{n}")


class MaskedArray(ndarray):
    """np.ma.array: data plus mask (True = invalid)."""


def unz(e):
    v = concrete(e) if is_z3(e) else e
    return int(v) if v is not None else e


def concrete_eq(x, v):
    if isinstance(x, int):
        return x == v
    if isinstance(x, Sym):
        x = x.e
    c = concrete(simp(x))
    return c is not None and c == v


def to_sorted(x, dt):
    """cell value -> term of the dtype's sort."""
    e = to_z3(x)
    if dt.kind == "b":
        return as_bool(e)
    if dt.kind in "ui":
        return as_int(e)
    return as_real(e)


def cell_of(e, dt):
    v = concrete(e)
    if v is not None:
        if dt.kind == "f":
            f = float(v)
            return f if fractions.Fraction(repr(f)) == v else Sym(e, dt)
        return v
    return Sym(e, dt)


def cast_cell(x, src, dst):
    if dst.kind == "O" or src.kind == "O":
        return x
    if not isinstance(x, Sym):
        return dst.rn.type(x).item() if dst.kind != "f" else float(x)
    return cell_of(simp(cast_term(to_sorted(x, src), src, dst)), dst)


def wrap_np(c, dt):
    if isinstance(c, Sym):
        return Sym(c.e, dt)
    if isinstance(c, (bool, int, float)) and dt.kind != "O":
        return dt.rn.type(c)
    return c


def cells_body(cells, dt):
    if dt.kind == "O":
        raise Unsupported("object array contents")
    items = [(i, to_sorted(cells[i], dt)) for i in RN.ndindex(*cells.shape)]
    if not items:
        return {"b": z3.BoolVal(False), "u": z3.IntVal(0), "i": z3.IntVal(0)}.get(dt.kind, z3.RealVal(0))
    if len(items) > 700:
        raise Unsupported("large concrete array in symbolic arithmetic")
    body = items[-1][1]
    if all(x[1].get_id() == body.get_id() for x in items):
        return body
    for i, e in items[-2::-1]:
        body = z3.If(z3.And(*[IDX[k] == v for k, v in enumerate(i)]), e, body)
    return simp(body)


def prod_dims(sh):
    r = 1
    for s in sh:
        r = r * s
    return r


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return CTX().branch(to_z3(a) == to_z3(b))


def broadcast_shapes(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if isinstance(cur, int) and cur == 1:
                cur = d
                continue
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(d, int) and isinstance(cur, int):
                if d != cur:
                    raise modelled(ValueError("operands could not be broadcast together"))
                continue
            td, tc = to_z3(d), to_z3(cur)
            if simp(td).get_id() == simp(tc).get_id():
                continue
            ctx = CTX()
            if ctx.branch(td == tc):
                if isinstance(d, int):
                    cur = d
                continue
            if ctx.branch(tc == 1):
                cur = d
                continue
            if ctx.branch(td == 1):
                continue
            raise modelled(ValueError("operands could not be broadcast together"))
        out.append(cur)
    return tuple(out)


def operand_body(a, out_shape):
    """Body of operand a broadcast to out_shape."""
    c = a.content()
    n = len(out_shape)
    off = n - a.ndim
    m = {}
    for k in range(a.ndim):
        d = a._sh[k]
        o = out_shape[k + off]
        is1 = isinstance(d, int) and d == 1
        o1 = isinstance(o, int) and o == 1
        if is1 and not o1:
            m[k] = z3.IntVal(0)
        elif not is1 and not isinstance(d, int) and not same_term(d, o):
            # symbolic dim: broadcast only if it is 1 on this path
            if CTX().entails(to_z3(d) == to_z3(o)):
                m[k] = IDX[k + off]
            elif CTX().entails(to_z3(d) == 1):
                m[k] = z3.IntVal(0)
            else:
                m[k] = IDX[k + off]
        else:
            m[k] = IDX[k + off]
    return tmpl(c, m)


def same_term(a, b):
    return simp(to_z3(a)).get_id() == simp(to_z3(b)).get_id()


def slice_bounds(k, n):
    """numpy slice semantics: (start, length, step) as terms/ints."""
    ctx = CTX()
    step = 1 if k.step is None else k.step
    if isinstance(step, Sym):
        v = ctx.int_value(step.e)
        if v is None:
            return _sym_step_slice(k, n, step.e)
        step = v
    for x in (k.start, k.stop):
        if x is not None and not isinstance(x, (int, Sym, RN.integer)):
            raise modelled(TypeError("slice indices must be integers or None or have an __index__ method"))
        if isinstance(x, Sym) and not x.is_int:
            raise modelled(TypeError("slice indices must be integers or None or have an __index__ method"))
    if step == 0:
        raise modelled(ValueError("slice step cannot be zero"))

    def clip(x, default, lo, hi):
        if x is None:
            return default
        e = simp(to_z3(x))
        if ctx.entails(e >= 0):
            pass
        elif ctx.entails(e < 0):
            e = simp(e + n)
        else:
            e = z3.If(e >= 0, e, e + n)
        if ctx.entails(z3.And(e >= lo, e <= hi)):
            return e
        return z3.If(e < lo, lo, z3.If(e > hi, hi, e))

    if step > 0:
        a = clip(k.start, z3.IntVal(0), z3.IntVal(0), n)
        b = clip(k.stop, n, z3.IntVal(0), n)
        d = simp(b - a)
        if step != 1:
            d = simp((d + (step - 1)) / step)
        ln = d if ctx.entails(d >= 0) else z3.If(d >= 0, d, z3.IntVal(0))
    else:
        a = clip(k.start, simp(n - 1), z3.IntVal(-1), simp(n - 1))
        b = clip(k.stop, z3.IntVal(-1), z3.IntVal(-1), simp(n - 1))
        d = simp(a - b)
        if step != -1:
            d = simp((d + (-step - 1)) / (-step))
        ln = d if ctx.entails(d >= 0) else z3.If(d >= 0, d, z3.IntVal(0))
    return unz(simp(to_z3(a))), simp(to_z3(ln)), step


def _sym_step_slice(k, n, step):
    raise Unsupported("slice with symbolic step")


def _reshape(a, sh):
    sh = [s if isinstance(s, (int, Sym)) else int(s) for s in sh]
    ctx = CTX()
    total = a.size
    if any(isinstance(s, int) and s == -1 for s in sh):
        i = [isinstance(s, int) and s == -1 for s in sh].index(True)
        rest = prod_dims(sh[:i] + sh[i + 1 :])
        if isinstance(rest, int) and rest == 1:
            sh[i] = total
        elif isinstance(total, int) and isinstance(rest, int):
            sh[i] = total // rest
        else:
            raise Unsupported("reshape with inferred symbolic dimension")
    new = prod_dims(sh)
    if not same_dim(new, total):
        raise modelled(ValueError("cannot reshape array"))
    if a._cells is not None and all(isinstance(s, int) for s in sh):
        return a._derive(sh, a._dt, cells=a._cells.reshape(sh))
    # adding/removing unit axes keeps the view
    if a.ndim <= 1 or len(sh) <= 1 or True:
        olds = [s for s in a._sh if not concrete_eq(s, 1)]
        news = [s for s in sh if not concrete_eq(s, 1)]
        if len(olds) == len(news) and all(same_term(x, y) for x, y in zip(olds, news)):
            key, j = [], 0
            src = a[tuple(0 if concrete_eq(s, 1) else slice(None) for s in a._sh)] if a.ndim else a
            if isinstance(src, ndarray):
                for s in sh:
                    key.append(None if concrete_eq(s, 1) else slice(None))
                return src[tuple(key)]
    # general: flat index decomposition (contents only; writes unsupported)
    flat = z3.IntVal(0)
    for k, s in enumerate(sh):
        flat = flat * to_z3(s) + IDX[k]
    flat = simp(flat) if len(sh) <= 1 else flat
    if a.ndim == 1:
        body = tmpl(a.content(), {0: flat})
    else:
        idx = {}
        f = flat
        for k in range(a.ndim - 1, 0, -1):
            s = to_z3(a._sh[k])
            idx[k] = f % s
            f = f / s
        idx[0] = f
        body = tmpl(a.content(), idx)
    return a._derive(sh, a._dt, Buf(sh, a._dt, body, parent="reshape"))


def _reshape_f(a, sh, order):
    if order != "F":
        raise Unsupported("reshape order")
    sh = tuple(sh)
    return _reshape(a.transpose(), sh[::-1]).transpose()


def _take(a, key):
    """Fancy indexing with one integer array along the first axis."""
    if a.ndim != 1 and key.ndim != 1:
        raise Unsupported("fancy indexing")
    n = to_z3(a._sh[0])
    if key._cells is not None and a._cells is not None:
        if key.is_concrete():
            c = a._cells[key.const()]
            return a._derive(c.shape, a._dt, cells=c)
    kb = key.content()
    # bounds: every index has to be in range, otherwise IndexError
    ctx = CTX()
    rng = [z3.And(IDX[k] >= 0, IDX[k] < to_z3(s)) for k, s in enumerate(key._sh)]
    sk = [(IDX[k], ctx.fresh_int("ti")) for k in range(key.ndim)]
    g = z3.Implies(z3.And(*rng), z3.And(kb >= -n, kb < n))
    g = z3.substitute(g, *sk)
    if ctx.prove(g, 4000)[0] != "proved":
        ok = ctx.ghost.get("take_ok")
        if ok is None:
            raise Unsupported("fancy index not provably in range")
    pos = ctx.prove(z3.substitute(z3.Implies(z3.And(*rng), kb >= 0), *sk), 4000)[0] == "proved"
    e = kb if pos else z3.If(kb >= 0, kb, kb + n)
    m = {0: e}
    if a.ndim > 1:
        raise Unsupported("fancy indexing of a multi-dimensional array")
    body = tmpl(a.content(), m)
    return ndarray._derive(a, key._sh, a._dt, Buf(key._sh, a._dt, body))


# --------------------------------------------------------------------------
# construction helpers
# --------------------------------------------------------------------------
def new_array(shape, dt, body, cls=ndarray):
    return ndarray._make(cls, shape, dt, Buf(shape, dt, body))


def new_cells(cells, dt):
    return ndarray._make(ndarray, cells.shape, dt, cells=cells)


def full(shape, v, dt):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = tuple(shape)
    for s in shape:
        if isinstance(s, Sym) and not s.is_int:
            raise modelled(TypeError("shape must be integers"))
    if all(isinstance(s, int) for s in shape):
        n = 1
        for s in shape:
            n *= s
        if n <= 256:
            c = RN.empty(shape, object)
            for i in RN.ndindex(*shape):
                c[i] = v
            return new_cells(c, dt)
    if dt.kind == "O":
        raise Unsupported("object array with symbolic shape")
    return new_array(shape, dt, to_sorted(v, dt))


def input_array(name, ndim, dtype, shape=None, cls=ndarray, min_dim=1):
    """A fresh symbolic array owned by the caller (contract precondition)."""
    ctx = CTX()
    dt = as_dtype(dtype)
    if shape is None:
        shape = []
        for k in range(ndim):
            d = z3.Int(f"{name}.shape{k}")
            ctx.assume(d >= min_dim)
            shape.append(Sym(d))
    fn = z3.Function(name, *([INT] * len(shape)), sort_of(dt)) if len(shape) else z3.Const(name, sort_of(dt))
    if dt.kind in "ui":
        lo, hi = int_range(dt)
        INPUT_RANGE[name] = (lo, hi)
        REG.inputs[name] = lambda args, t, lo=lo, hi=hi: [t >= lo, t <= hi]
    else:
        INPUT_RANGE.pop(name, None)
        REG.inputs.pop(name, None)
    body = fn(*IDX[: len(shape)]) if len(shape) else fn
    a = new_array(shape, dt, body, cls=ndarray)
    a._buf.name = name
    ctx.inputs[name] = a
    if cls is not ndarray:
        a = a.view(cls)
    return a


def array_from(x, dtype=None, copy=True):
    """np.array / np.asarray on python data."""
    if isinstance(x, ndarray):
        if dtype is not None and as_dtype(dtype) is not x.dtype:
            r = x.astype(dtype)
            return r
        if copy:
            b, m, c = x._fresh()
            return ndarray._make(ndarray, x._sh, x._dt, b, m, c)
        return x
    if hasattr(x, "_vc_to_array"):
        r = x._vc_to_array()
        return r if dtype is None else r.astype(dtype)
    if is_foreign(x):
        return array_from(x.numpy(), dtype)
    if isinstance(x, RN.ndarray):
        c = RN.empty(x.shape, object)
        for i in RN.ndindex(*x.shape):
            c[i] = x[i].item()
        return new_cells(c, as_dtype(dtype) if dtype is not None else DT[x.dtype.name])
    if scalar_like(x):
        c = RN.empty((), object)
        dt = as_dtype(dtype) if dtype is not None else py_dtype(x)
        c[()] = cast_cell(x if not isinstance(x, RN.generic) else x.item(), py_dtype(x), dt)
        return new_cells(c, dt)
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if any(isinstance(v, ndarray) and (v.ndim > 0) for v in x):
            arrs = [array_from(v, copy=False) for v in x]
            r = stack_arrays(arrs, 0)
            return r if dtype is None else r.astype(dtype)
        if any(isinstance(v, (list, tuple)) for v in x):
            subs = [array_from(v) for v in x]
            r = stack_arrays(subs, 0)
            return r if dtype is None else r.astype(dtype)
        vals = [v.item() if isinstance(v, ndarray) else v for v in x]
        vals = [v.item() if is_foreign(v) else v for v in vals]
        if not all(scalar_like(v) for v in vals):
            if dtype is not None and as_dtype(dtype).kind == "O" or True:
                raise Unsupported("np.array of non-numeric data")
        dt = None
        for v in vals:
            d = py_dtype(v)
            dt = d if dt is None else promote(dt, d)
        dt = dt or F64
        if dtype is not None:
            dt2 = as_dtype(dtype)
        else:
            dt2 = dt
        c = RN.empty((len(vals),), object)
        for i, v in enumerate(vals):
            v0 = v.item() if isinstance(v, RN.generic) else v
            c[i] = cast_cell(v0, py_dtype(v), dt2)
        return new_cells(c, dt2)
    raise Unsupported(f"np.array of {type(x).__name__}")


def stack_arrays(arrs, axis):
    """np.stack along axis of a concrete number of arrays."""
    if not arrs:
        return new_cells(RN.empty((0,), object), F64)
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = promote(dt, a.dtype)
    nd = arrs[0].ndim
    for a in arrs[1:]:
        if a.ndim != nd:
            raise modelled(ValueError("all input arrays must have the same shape"))
        for p, q in zip(a._sh, arrs[0]._sh):
            if not same_dim(p, q):
                raise modelled(ValueError("all input arrays must have the same shape"))
    axis = axis % (nd + 1)
    if all(a._cells is not None for a in arrs):
        c = RN.stack([a.astype(dt)._cells for a in arrs], axis)
        return new_cells(c, dt)
    sh = list(arrs[0]._sh)
    sh.insert(axis, len(arrs))
    m = {k: IDX[k] if k < axis else IDX[k + 1] for k in range(nd)}
    bodies = [tmpl(cast_term(a.content(), a.dtype, dt), m) for a in arrs]
    body = bodies[-1]
    for j in range(len(bodies) - 2, -1, -1):
        body = z3.If(IDX[axis] == j, bodies[j], body)
    return new_array(sh, dt, body)


def elementwise_unary_fn(a, fname, dt):
    f = z3.Function(fname, sort_of(a.dtype), sort_of(dt))
    return a._derive(a._sh, dt, Buf(a._sh, dt, f(a.content())))


def arr_arg(a):
    """Application argument of an array."""
    if isinstance(a, ndarray):
        if a.is_concrete() and a.dtype.kind != "O":
            c = a.const()
            return ("py", ("const", c.shape, a.dtype.name, c.tobytes()))
        return ("arr", [to_z3(s) for s in a._sh], a.content(), a.dtype.name)
    raise Unsupported("array argument expected")


def any_arg(x):
    """Application argument of anything."""
    if isinstance(x, ndarray):
        return arr_arg(x)
    if is_foreign(x):
        return any_arg(x.data_arr())
    if isinstance(x, Sym):
        v = concrete(simp(x.e))
        if v is None:
            return ("val", x.e)
        x = v
    if isinstance(x, (list, tuple)):
        parts = [any_arg(v) for v in x]
        if all(p[0] == "py" for p in parts):
            return ("py", tuple(p[1] for p in parts))
        return ("multi", parts)
    if isinstance(x, dict):
        return any_arg([(k, v) for k, v in sorted(x.items())])
    if isinstance(x, RN.generic):
        x = x.item()
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return ("py", x)
    if isinstance(x, (int, float, fractions.Fraction)):
        f = float(x)
        if f == f and abs(f) != float("inf"):
            return ("val", real_val(x) if not isinstance(x, int) else z3.IntVal(x))
        return ("py", f)
    if isinstance(x, DType):
        return ("py", x.name)
    if isinstance(x, type):
        return ("py", x.__name__)
    raise Unsupported(f"opaque argument of type {type(x).__name__}")


def flat_args(args):
    out = []
    for a in args:
        if a[0] == "multi":
            out.append(("py", ("multi", len(a[1]))))
            out.extend(flat_args(a[1]))
        else:
            out.append(a)
    return out


def opaque(name, args, shape=(), dt=F64, cls=None):
    """Value of an uninterpreted library function."""
    a = flat_args([any_arg(x) for x in args])
    app = make_app(name, a, len(shape), sort_of(dt))
    if len(shape) == 0:
        return Sym(app(), dt)
    return new_array(shape, dt, app(*IDX[: len(shape)]))
