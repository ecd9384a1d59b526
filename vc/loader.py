"""Mechanical loading of /repo/src/viqa for the verifier.

Every run parses the current source files, applies the purely syntactic
transformation below and executes the modules with the library models of
``libs`` in place of numpy, scipy, torch ...  The transformation

* routes ``for`` loops, comprehensions and generator expressions through
  handlers, so that loops over a symbolic number of iterations are summarised
  (concrete loops run natively),
* routes calls of the builtin types int, float, type, list, tuple, range,
  enumerate, zip, map, reversed, round, set, dict, bool, str through models which
  behave natively on concrete values,
* records function entry (coverage of the evidence file).

Nothing else of the code is changed or dropped (docstrings and annotations are
evaluated as usual).
"""

import ast
import builtins
import os
import types
import z3

from . import arr as A
from . import induct
from . import libs
from . import loops as L
from . import npmod as N
from . import state
from .core import (
    CTX, _CTX, REAL, Infeasible, Sym, Unsupported, as_bool, as_int, as_real, concrete, modelled, scalar_like,
    simp, to_z3, trunc_real, walk,
)

TYPE_CALLS = {"int", "float", "type", "list", "tuple", "range", "enumerate", "zip", "map", "reversed", "round",
              "set", "dict", "bool", "str", "frozenset", "filter", "complex"}


# --------------------------------------------------------------------------
# transformation
# --------------------------------------------------------------------------
def _n(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def _call(fn, *args):
    return ast.Call(func=_n(fn) if isinstance(fn, str) else fn, args=list(args), keywords=[])


def _stored_names(stmts):
    """Names bound by the statements in the current scope."""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        def visit_MatchAs(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        visit_MatchStar = visit_MatchAs

    v = V()
    for s in stmts:
        v.visit(s)
    return list(dict.fromkeys(out))


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.n = 0

    # functions: entry recording
    def _func(self, node):
        self.stack.append(node.name)
        q = f"{self.mod}.{'.'.join(self.stack)}"
        node = self.generic_visit(node)
        body = node.body
        i = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(
            body[0].value.value, str) else 0
        body.insert(i, ast.Expr(_call("_vc__enter", ast.Constant(q))))
        self.stack.pop()
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in TYPE_CALLS:
            return ast.Call(func=_n("_vc__tcall"), args=[ast.Constant(node.func.id), node.func, *node.args],
                            keywords=node.keywords)
        if isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1:
            pass
        return node

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call("_vc__list", node)
        return node

    def visit_Dict(self, node):
        return _call("_vc__dict", self.generic_visit(node))

    def _comp_iter(self, node):
        node.generators[0].iter = _call("_vc__lc", node.generators[0].iter)
        for g in node.generators[1:]:
            g.iter = _call("_vc__noniter", g.iter)

    def visit_ListComp(self, node):
        node = self.generic_visit(node)
        self._comp_iter(node)
        return _call("_vc__lc_end", node)

    def visit_GeneratorExp(self, node):
        node = self.generic_visit(node)
        self._comp_iter(node)
        return _call("_vc__gen_end", node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        for g in node.generators:
            g.iter = _call("_vc__noniter", g.iter)
        return node

    visit_DictComp = visit_SetComp

    def visit_MatchClass(self, node):
        node = self.generic_visit(node)
        self.bad_match = True
        return node

    def visit_Match(self, node):
        self.bad_match = False
        node = self.generic_visit(node)
        if self.bad_match:
            return [ast.Expr(_call("_vc__match_class", node.subject)), node]
        return node

    def visit_For(self, node):
        names = _stored_names([ast.Assign(targets=[node.target], value=ast.Constant(0))] + node.body)
        node = self.generic_visit(node)
        self.n += 1
        h, it = f"_vc__h{self.n}", f"_vc__it{self.n}"

        def getters():
            return ast.Dict(
                keys=[ast.Constant(x) for x in names],
                values=[ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                                                      defaults=[]), body=_n(x)) for x in names])

        def setters():
            out = []
            for x in names:
                out.append(ast.If(
                    test=ast.Call(func=ast.Attribute(_n(h), "has", ast.Load()), args=[ast.Constant(x)], keywords=[]),
                    body=[ast.Assign(targets=[_n(x, ast.Store())], value=ast.Call(
                        func=ast.Attribute(_n(h), "get", ast.Load()), args=[ast.Constant(x)], keywords=[]))],
                    orelse=[]))
            return out

        def hcall(m, *a):
            return ast.Call(func=ast.Attribute(_n(h), m, ast.Load()), args=list(a), keywords=[])

        import copy

        inner = ast.For(
            target=copy.deepcopy(node.target), iter=hcall("items"), body=copy.deepcopy(node.body),
            orelse=[ast.Expr(hcall("end", getters())), ast.Continue()])
        loop = ast.While(
            test=hcall("more"), body=setters() + [inner, ast.Expr(hcall("broke"))], orelse=[])
        sym = [
            ast.Assign(targets=[_n(h, ast.Store())], value=_call("_vc__loop", _n(it), getters())),
            ast.Try(body=[loop], handlers=[], orelse=[], finalbody=[ast.Expr(hcall("leave"))]),
        ] + setters() + copy.deepcopy(node.orelse)
        conc = ast.For(target=node.target, iter=_n(it), body=node.body, orelse=node.orelse)
        return [
            ast.Assign(targets=[_n(it, ast.Store())], value=_call("_vc__iter", node.iter)),
            ast.If(test=_call("_vc__issym", _n(it)), body=sym, orelse=[conc]),
        ]

    def visit_AsyncFor(self, node):
        return ast.Expr(_call("_vc__unsupported", ast.Constant("async for")))


_CODE = {}


def compile_file(path, modname):
    with open(path, "rb") as f:
        src = f.read()
    key = (path, src)
    if key not in _CODE:
        tree = ast.parse(src, path)
        tree = Transform(modname).visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[key] = compile(tree, path, "exec", dont_inherit=True)
    return _CODE[key]


# --------------------------------------------------------------------------
# builtin models
# --------------------------------------------------------------------------
def vc_isinstance(x, t):
    if isinstance(t, tuple):
        return any(vc_isinstance(x, u) for u in t)
    if isinstance(t, types.UnionType):
        return any(vc_isinstance(x, u) for u in t.__args__)
    if isinstance(x, Sym):
        if t is object:
            return True
        if x.dt is None:
            if t is int:
                return x.is_int or x.is_bool
            if t is float:
                return x.is_real
            if t is bool:
                return x.is_bool
        else:
            if t is float:
                return x.dt is A.F64
            if t is int or t is bool:
                return False
        if t in (str, list, tuple, dict, bytes, type(None), complex, set):
            return False
        if isinstance(t, A.ScalarMeta):
            return isinstance(x, t)
        if isinstance(t, type):
            if t.__module__ in ("numbers", "collections.abc", "typing"):
                raise Unsupported(f"isinstance of a symbolic value and {t}")
            return False
        raise Unsupported("isinstance")
    if isinstance(t, A.ScalarMeta) and not isinstance(x, Sym):
        return isinstance(x, t)
    if t is A.ndarray and isinstance(x, A.MaskSelected):
        return True
    return isinstance(x, t)


def vc_len(x):
    if isinstance(x, A.ndarray):
        return x._len()
    if isinstance(x, (L.SymSeq, L.VList)):
        return x._vc_len()
    if isinstance(x, (Sym,)):
        raise modelled(TypeError("object of type 'int' has no len()"))
    if hasattr(type(x), "__len__"):
        return len(x)
    if getattr(x, "_vc_model", False):
        raise Unsupported("len of a model object")
    return len(x)


def _sym_truth_fold(items, key, pick):
    it = iter(items)
    try:
        best = next(it)
    except StopIteration:
        return None
    kb = key(best) if key else best
    for v in it:
        kv = key(v) if key else v
        if pick(kv, kb):
            best, kb = v, kv
    return best


def _ite_ok(v):
    return isinstance(v, (int, float, Sym)) or isinstance(v, A.ndarray)


def _ite(c, a, b):
    """Value c ? a : b of two scalars or arrays of equal shape and dtype."""
    if a is b:
        return a
    if scalar_like(a) and scalar_like(b):
        ta, tb = to_z3(a), to_z3(b)
        if ta.sort() != tb.sort():
            ta, tb = as_real(ta), as_real(tb)
        da = a.dt if isinstance(a, Sym) else None
        db = b.dt if isinstance(b, Sym) else None
        if da is not db:
            raise Unsupported("ite of different scalar types")
        return Sym(z3.If(c, ta, tb), da)
    if isinstance(a, A.ndarray) and isinstance(b, A.ndarray) and a.dtype is b.dtype and a.ndim == b.ndim and type(
            a) is type(b):
        for p, q in zip(a._sh, b._sh):
            if not A.same_term(p, q) and CTX().prove(to_z3(p) == to_z3(q), 3000)[0] != "proved":
                raise Unsupported("ite of arrays of different shapes")
        r = A.new_array(a._sh, a.dtype, z3.If(c, a.content(), b.content()))
        return r if type(a) is A.ndarray else r.view(type(a))
    raise Unsupported("ite of these values")


class SortedView(list):
    """sorted(...) with symbolic keys: only element 0 or -1 is determined lazily."""

    def __init__(self, items, keys, reverse):
        super().__init__()
        self._items, self._keys, self._rev = items, keys, reverse

    def __getitem__(self, i):
        n = len(self._items)
        if i in (0, -n):
            return _extreme(self._items, self._keys, bigger=self._rev, last=False)
        if i in (-1, n - 1):
            return _extreme(self._items, self._keys, bigger=not self._rev, last=True)
        raise Unsupported("element of a symbolically sorted list")

    def __iter__(self):
        raise Unsupported("iterating a symbolically sorted list")

    def __len__(self):
        return len(self._items)

    def __getattribute__(self, n):
        if n.startswith("_"):
            return object.__getattribute__(self, n)
        if n == "pop":
            def pop(i=-1):
                return self[i]
            return pop
        raise Unsupported(f"method {n} of a symbolically sorted list")


def _extreme(items, keys, bigger, last):
    """First (or last) item with the extreme key as a nested choice."""
    best, kb = items[0], keys[0]
    for v, k in zip(items[1:], keys[1:]):
        if bigger:
            c = (k >= kb) if last else (k > kb)
        else:
            c = (k <= kb) if last else (k < kb)
        ce = simp(as_bool(to_z3(c)))
        cc = concrete(ce)
        if cc is None and not scalar_like(v):
            ctx = CTX()
            cc = True if ctx.entails_light(ce) else False if ctx.entails_light(z3.Not(ce)) else None
        if cc is None and isinstance(v, tuple) and isinstance(best, tuple) and len(v) == len(best):
            best = tuple(_ite(ce, x, y) for x, y in zip(v, best))
        elif cc is None:
            best = _ite(ce, v, best)
        elif cc:
            best = v
        kb = _ite(ce, k, kb) if cc is None else (k if cc else kb)
    return best


def _symbolic_keys(keys):
    return any(isinstance(k, Sym) for k in keys)


def vc_minmax(which, bigger):
    real = getattr(builtins, which)

    def f(*a, key=None, **kw):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, A.ndarray):
                if x.ndim == 1 and key is None:
                    return (N.amax if bigger else N.amin)(x)
                if x.ndim > 1:
                    raise modelled(ValueError("The truth value of an array with more than one element is ambiguous."))
            items = list(L.concrete_iter(x))
        else:
            items = list(a)
        if not items:
            return real(items, key=key, **kw)
        keys = [key(v) for v in items] if key else items
        keys = [k.item() if isinstance(k, A.ndarray) and k.ndim == 0 else k for k in keys]
        if any(isinstance(k, A.ndarray) for k in keys):
            raise Unsupported("min/max of arrays")
        if not _symbolic_keys(keys):
            return real(items, key=key, **kw)
        return _extreme(items, keys, bigger, False)

    f.__name__ = which
    return f


def vc_sorted(x, *, key=None, reverse=False):
    items = list(L.concrete_iter(x))
    keys = [key(v) for v in items] if key else items
    keys = [k.item() if isinstance(k, A.ndarray) and k.ndim == 0 else k for k in keys]
    if len(items) > 1 and _symbolic_keys(keys):
        return SortedView(items, keys, bool(reverse))
    return L.VList(sorted(items, key=key, reverse=reverse))


def vc_sum(x, start=0):
    if isinstance(x, L.SymGen) or L.is_symseq(x):
        return L.sum_seq(x, start)
    if isinstance(x, A.ndarray):
        if x.ndim == 0:
            raise modelled(TypeError("iteration over a 0-d array"))
        if not isinstance(x._sh[0], int):
            r = N.sum_(x, axis=0)
            return r if start == 0 else r + start
    r = start
    for v in L.concrete_iter(x):
        r = r + v
    return r


def vc_all(x):
    if isinstance(x, L.SymGen) or L.is_symseq(x):
        return L.all_seq(x, True)
    for v in L.concrete_iter(x):
        if not v:
            return False
    return True


def vc_any(x):
    if isinstance(x, L.SymGen) or L.is_symseq(x):
        return L.all_seq(x, False)
    for v in L.concrete_iter(x):
        if v:
            return True
    return False


def vc_abs(x):
    if isinstance(x, A.ndarray):
        return N.UFUNCS["absolute"](x)
    return abs(x)


def _num(x):
    if isinstance(x, A.ndarray):
        if x.ndim == 0 or all(A.concrete_eq(s, 1) for s in x._sh):
            x = x.item()
        else:
            raise modelled(TypeError("only size-1 arrays can be converted to Python scalars"))
    if A.is_foreign(x):
        x = x.item()
    return x


def _native(f, *a, **k):
    try:
        return f(*a, **k)
    except (TypeError, ValueError, OverflowError) as e:
        raise modelled(e) from None


def int_part(e):
    """int(e); the integer part of a product of unknowns gets a name and its defining inequalities."""
    e = simp(e)
    if _CTX and any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and sum(concrete(c) is None for c in t.children()) > 1
                    for t in walk(e)):
        ctx = CTX()
        if ctx.entails(e >= 0):
            memo = ctx.norm_memo.setdefault("intpart", {})
            if e.get_id() not in memo:
                memo[e.get_id()] = (ctx.fresh_int("ip"), e)
            n = memo[e.get_id()][0]
            ctx.assume(z3.And(n >= 0, z3.ToReal(n) <= e, e < z3.ToReal(n) + 1))
            return n
    return simp(trunc_real(e))


def t_int(*a, **k):
    if len(a) == 1 and not k:
        x = _num(a[0])
        if isinstance(x, Sym):
            if x.is_int:
                return Sym(x.e)
            if x.is_bool:
                return Sym(as_int(x.e))
            return Sym(int_part(x.e))
        if isinstance(x, str) and _CTX:
            d = CTX().ghost.get("digits", {})
            s = x.strip()
            if s in d:
                return d[s]
            t = CTX().tokens.get(s)
            if t is not None and t[0] == "v" and t[1].sort() == z3.IntSort():
                return Sym(t[1])
            if "\u27e8" in x:
                raise Unsupported("int() of symbolic text")
        return _native(int, x)
    return _native(int, *a, **k)


def t_float(*a):
    if len(a) == 1:
        x = _num(a[0])
        if isinstance(x, Sym):
            return Sym(as_real(x.e))
        return _native(float, x)
    return _native(float, *a)


def t_bool(*a):
    return bool(*a)


def t_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, Sym):
        if x.dt is not None:
            return x.dt.type
        return bool if x.is_bool else int if x.is_int else float
    if isinstance(x, L.VList):
        return list
    if type(x).__module__ == "numpy":
        t = A.TYPES.get(getattr(getattr(x, "dtype", None), "name", ""))
        return t or type(x)
    return type(x)


def t_list(*a):
    if not a:
        return L.VList()
    return L.to_list(a[0])


def t_tuple(*a):
    if not a:
        return ()
    x = L.to_list(a[0])
    if L.is_symseq(x):
        return x
    return tuple(x)


def t_enumerate(x, start=0):
    if L.is_symseq(x):
        return L.sym_enumerate(x, start)
    if isinstance(start, Sym):
        return ((start + i, v) for i, v in enumerate(L.concrete_iter(x)))
    return enumerate(L.concrete_iter(x), start)


def t_zip(*xs, strict=False):
    if any(L.is_symseq(x) for x in xs):
        return L.sym_zip(xs, strict)
    return zip(*[L.concrete_iter(x) for x in xs], strict=strict)


def t_map(f, *xs):
    if any(L.is_symseq(x) for x in xs):
        return L.sym_map(f, xs)
    if f in (int, float, str, bool, tuple, list):
        f0 = f
        f = lambda *a: tcall(f0.__name__, f0, *a)  # noqa: E731
    return map(f, *[L.concrete_iter(x) for x in xs])


def t_filter(f, x):
    if L.is_symseq(x):
        raise Unsupported("filter of a symbolic sequence")
    return filter(f, L.concrete_iter(x))


def t_reversed(x):
    if L.is_symseq(x):
        return L.sym_reversed(x)
    return reversed(x)


def t_round(x, nd=None):
    if isinstance(x, (Sym, A.ndarray)):
        if nd is None:
            raise Unsupported("round() to int")
        return N.round_(x, nd)
    return round(x, nd) if nd is not None else round(x)


def t_set(*a):
    return set(L.concrete_iter(a[0])) if a else set()


def t_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        return dict(L.concrete_iter(a[0]), **k)
    return dict(*a, **k)


def t_str(*a, **k):
    return str(*a, **k)


TCALL = {"int": t_int, "float": t_float, "bool": t_bool, "type": t_type, "list": t_list, "tuple": t_tuple,
         "range": L.vc_range, "enumerate": t_enumerate, "zip": t_zip, "map": t_map, "reversed": t_reversed,
         "round": t_round, "set": t_set, "frozenset": lambda *a: frozenset(t_set(*a)), "dict": t_dict, "str": t_str,
         "filter": t_filter, "complex": complex}


def tcall(name, fn, *a, **k):
    if fn is getattr(builtins, name):
        return TCALL[name](*a, **k)
    return fn(*a, **k)


def vc_hasattr(o, n):
    return hasattr(o, n)


def _unsupported(what):
    raise Unsupported(what)


def _match_class(x):
    if isinstance(x, Sym) or isinstance(x, L.VList) and x._vc_segmented():
        raise Unsupported("class pattern on a symbolic value")


# --------------------------------------------------------------------------
# program
# --------------------------------------------------------------------------
ENTERED = set()


class Program:
    """A fresh instance of the package (one per path)."""

    def __init__(self, root="/repo", patches=None, extra_stubs=None):
        self.root = os.path.join(root, "src")
        self.modules = {}
        self.patched = set()
        self.stubs = libs.make_stubs()
        self.stubs["tqdm"].trange = L.vc_range_tq
        self.stubs["tqdm.autonotebook"].trange = L.vc_range_tq
        sc = libs.StubModule("viqa.fr_metrics.stat_utils.statisticscalc", {
            "minstd": stat_minstd, "getstatistics": stat_getstatistics})
        su = libs.StubModule("viqa.fr_metrics.stat_utils", {"statisticscalc": sc})
        self.stubs["viqa.fr_metrics.stat_utils"] = su
        self.stubs["viqa.fr_metrics.stat_utils.statisticscalc"] = sc
        qm = libs.StubModule("viqa.nr_metrics.qmeasure_utils", {})
        qc = libs.StubModule("viqa.nr_metrics.qmeasure_utils.qmeasurecalc", {})
        qm.qmeasurecalc = qc
        self.stubs["viqa.nr_metrics.qmeasure_utils"] = qm
        self.stubs["viqa.nr_metrics.qmeasure_utils.qmeasurecalc"] = qc
        self.stubs.update(extra_stubs or {})
        self.builtins = self._builtins()
        self.load("viqa")

    def _builtins(self):
        d = dict(vars(builtins))
        d.update(
            __import__=self._import, isinstance=vc_isinstance, len=vc_len, min=vc_minmax("min", False),
            max=vc_minmax("max", True), sorted=vc_sorted, sum=vc_sum, all=vc_all, any=vc_any, abs=vc_abs,
            print=libs.vc_print, open=libs.vc_open, input=lambda *a: _unsupported("input"),
            eval=lambda *a: _unsupported("eval"), exec=lambda *a: _unsupported("exec"),
            _vc__enter=ENTERED.add, _vc__tcall=tcall, _vc__list=L.VList, _vc__lc=L.lc, _vc__lc_end=L.lc_end,
            _vc__gen_end=L.gen_end, _vc__noniter=L.concrete_iter, _vc__match_class=_match_class, _vc__loop=induct.make_loop, _vc__dict=induct.VDict,
            _vc__iter=L.loop_iter, _vc__issym=L.is_symseq, _vc__unsupported=_unsupported)
        return d

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"]
            parts = pkg.split(".")
            parts = parts[: len(parts) - (level - 1)]
            name = ".".join(parts + ([name] if name else []))
        mod = self.load(name)
        if not fromlist:
            if level:
                return mod
            return self.load(name.split(".")[0])
        for f in fromlist:
            if f != "*" and name.split(".")[0] == "viqa" and f not in mod.__dict__:
                sub = f"{name}.{f}"
                if sub in self.stubs or self._path(sub):
                    self.load(sub)
        return mod

    def _path(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        parent = name.rpartition(".")[0]
        if parent and name.split(".")[0] == "viqa" and parent not in self.modules:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        if name in self.stubs:
            m = self.stubs[name]
        elif name.split(".")[0] == "viqa":
            path = self._path(name)
            if path is None:
                raise ModuleNotFoundError(f"No module named '{name}'")
            m = types.ModuleType(name)
            m.__file__ = path
            is_pkg = path.endswith("__init__.py")
            m.__package__ = name if is_pkg else parent
            if is_pkg:
                m.__path__ = [os.path.dirname(path)]
            m.__builtins__ = self.builtins
            self.modules[name] = m
            exec(compile_file(path, name), m.__dict__)
        elif name in libs.REAL_OK:
            import importlib

            m = importlib.import_module(name)
        else:
            m = libs.StubModule(name)
        self.modules[name] = m
        if parent and name.split(".")[0] == "viqa":
            pm = self.modules[parent]
            setattr(pm, name.rpartition(".")[2], m)
        return m

    def get(self, dotted):
        """Object by module path and qualified name ('viqa.utils.misc:_to_float')."""
        mod, _, q = dotted.partition(":")
        try:
            o = self.load(mod)
            for p in q.split("."):
                o = getattr(o, p) if not isinstance(o, types.ModuleType) else o.__dict__[p]
        except (KeyError, AttributeError, ModuleNotFoundError):
            raise Unsupported(f"{dotted} not found") from None
        return o

    def patch_value(self, old, fn):
        """Replace a (library) object by its contract wherever the code refers to it; number of places."""
        n = 0
        for m in list(self.modules.values()) + list(self.stubs.values()):
            if isinstance(m, types.ModuleType):
                for k, v in list(m.__dict__.items()):
                    if v is old:
                        m.__dict__[k] = fn
                        self.patched.add(f"{m.__name__}:{k}")
                        n += m.__name__.startswith("viqa")
        return n

    def patch(self, dotted, fn):
        """Replace a function by its contract in every module; False if absent."""
        try:
            old = self.get(dotted)
        except Unsupported:
            return False
        for m in list(self.modules.values()):
            if isinstance(m, types.ModuleType) and m.__name__.startswith("viqa"):
                for k, v in list(m.__dict__.items()):
                    if v is old:
                        m.__dict__[k] = fn
                        self.patched.add(f"{m.__name__}:{k}")
        return True


def _c_args(img, block, stride):
    if not isinstance(img, A.ndarray):
        raise Unsupported("argument of the native kernel")
    if img.ndim != 2:
        raise modelled(ValueError("expected a 2D array"))
    if img.dtype.kind == "c":
        raise Unsupported("complex argument of the native kernel")
    return img.view(A.ndarray), block, stride


def stat_minstd(img, block, stride):
    img, b, s = _c_args(img, block, stride)
    return A.opaque("minstd", [img, b, s], img._sh)


def stat_getstatistics(img, block, stride):
    img, b, s = _c_args(img, block, stride)
    return tuple(A.opaque(f"getstatistics.{n}", [img, b, s], img._sh) for n in ("std", "skw", "krt"))


# --------------------------------------------------------------------------
# calls
# --------------------------------------------------------------------------
_HERE = os.path.dirname(os.path.abspath(__file__))


class Out:
    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc

    @property
    def ok(self):
        return self.kind == "return"

    def raises(self, *t):
        return self.kind == "raise" and isinstance(self.exc, t)

    def __repr__(self):
        return f"<{self.kind} {self.value!r} {self.exc!r}>"


def run_call(fn, *a, **k):
    """Call the real code; classify the outcome."""
    keep = []
    objs = state.instances(fn, a, k)
    before = state.objects(objs, keep)
    try:
        return _run_call(fn, *a, **k)
    finally:
        MOVED.update(state.moved(objs, before, keep))


MOVED = set()


def _run_call(fn, *a, **k):
    try:
        return Out("return", fn(*a, **k))
    except (Unsupported, Infeasible):
        raise
    except RecursionError:
        raise Unsupported("recursion") from None
    except Exception as e:
        if not getattr(e, "_vc_modelled", False):
            tb = e.__traceback__
            last = None
            while tb is not None:
                last = tb.tb_frame.f_code.co_filename
                tb = tb.tb_next
            if last and os.path.abspath(last).startswith(_HERE):
                raise Unsupported(f"engine: {type(e).__name__}: {e}") from e
        return Out("raise", exc=e)
