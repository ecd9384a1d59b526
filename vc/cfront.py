"""Symbolic execution of the C extension module.

The translation unit is parsed by clang on every run (its JSON AST); the
CPython/NumPy headers are replaced by ``cstubs`` (declarations only, so every
API macro is a call with a contract below).  Functions are executed
symbolically for unbounded image sizes, block sizes and strides:

* every memory access, pointer dereference, signed integer operation,
  conversion, ``free`` and reference release is an obligation;
* loops are summarised as in :mod:`loops` (sums, running minima, unique writer
  of every element), with the loop's own range assumed only inside the loop;
* every allocation and every API call that can fail forks a failing path.

Doubles are real numbers; pointers are (object, element offset).
"""

import contextlib
import json
import os
import subprocess

import z3

from . import arr as A
from . import loader
from . import loops as L
from .core import (
    CTX, IDX, INT, PARAM, REAL, REG, Infeasible, Sym, Unsupported, as_bool, as_int, as_real, concrete, make_app,
    mono, scalar_like, simp, to_z3, walk,
)

HERE = os.path.dirname(os.path.abspath(__file__))
SOURCE = "src/viqa/fr_metrics/stat_utils/statisticsmodule.c"
I64 = 2 ** 63 - 1
SIZES = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "float": 4, "double": 8}
ALIAS = {"npy_intp": "long", "Py_ssize_t": "long", "ssize_t": "long", "ptrdiff_t": "long", "size_t": "unsigned long",
         "npy_uintp": "unsigned long", "npy_double": "double", "_Bool": "unsigned char", "npy_bool": "unsigned char",
         "int64_t": "long", "int32_t": "int", "uint64_t": "unsigned long", "uint32_t": "unsigned int",
         "__int64_t": "long", "intptr_t": "long"}


# --------------------------------------------------------------------------
# running minimum / maximum
# --------------------------------------------------------------------------
_WIT = {}


MINF = z3.Function("MINF", INT, REAL, REAL)


def minacc(shape, body, guard, init, sign):
    """min (sign 1) or max (sign -1) of init and body(idx) over the box where
    guard holds."""
    shape = [simp(s) for s in shape]
    t = make_app("MINSET", [("arr", shape, body, "float64"), ("arr", shape, guard, "bool"), ("py", sign)], 0, INT)()
    return MINF(t, init)


def _min_parts(t):
    if not z3.is_app(t) or t.decl().name() != "MINF":
        return None
    h = t.arg(0)
    d = REG.by_name.get(h.decl().name())
    if d is None or d.name != "MINSET":
        return None
    ps = h.children()[: d.nparam]
    sp = [(PARAM[k], ps[k]) for k in range(d.nparam)]

    def S(e):
        return z3.substitute(e, *sp) if sp else e

    return ([S(s) for s in d.args[0][1]], S(d.args[0][2]), S(d.args[1][2]), t.arg(1), d.args[2][1])


def min_witness(t):
    p = _min_parts(t)
    key = t.get_id()
    if key not in _WIT:
        _WIT[key] = (t, [z3.Int(f"minwit!{key}!{k}") for k in range(len(p[0]))])
    return p, _WIT[key][1]


def _min_facts(args, t):
    if _min_parts(t) is None:
        return []
    (sh, body, guard, init, sign), w = min_witness(t)
    sub = [(IDX[k], w[k]) for k in range(len(sh))]
    bw, gw = z3.substitute(body, *sub), z3.substitute(guard, *sub)
    inr = z3.And(*[z3.And(x >= 0, x < s) for x, s in zip(w, sh)])
    le = t <= init if sign > 0 else t >= init
    return [le, z3.Or(t == init, z3.And(inr, gw, t == bw))]


REG.inputs["MINF"] = _min_facts


def parse_min(e, f):
    """e = min/max(f, X): (shape, body, guard, sign) or None."""
    p = _min_parts(e)
    if p is not None and p[3].get_id() == f.get_id():
        return p[0], p[1], p[2], p[4]
    if e.decl().kind() != z3.Z3_OP_ITE:
        return None
    c, a, b = e.children()
    if a.get_id() == f.get_id():
        c, a, b = simp(z3.Not(c)), b, a
    if b.get_id() != f.get_id():
        return None
    guards, sign = [], None
    for x in L._conj(c):
        neg = z3.is_not(x)
        y = x.arg(0) if neg else x
        k = y.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and L._mentions(y, [f]):
            l, r = y.children()
            d = z3.simplify(l - r - (a - f), som=True)
            d2 = z3.simplify(l - r - (f - a), som=True)
            less = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
            if neg:
                less = not less
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                s = 1 if less else -1
            elif z3.is_rational_value(d2) and d2.as_fraction() == 0:
                s = -1 if less else 1
            else:
                return None
            if sign is not None:
                return None
            sign = s
        elif L._mentions(x, [f]):
            return None
        else:
            guards.append(x)
    if sign is None or L._mentions(a, [f]):
        return None
    return [], a, (z3.And(*guards) if guards else z3.BoolVal(True)), sign


# --------------------------------------------------------------------------
# scopes
# --------------------------------------------------------------------------
@contextlib.contextmanager
def scoped(ctx, *conds):
    """Assumptions that hold only inside the block."""
    pc, facts, seen = list(ctx.pc), list(ctx.facts), set(ctx.fact_seen)
    memo = {k: (dict(v) if isinstance(v, dict) else v) for k, v in ctx.norm_memo.items()}
    ctx.solver.push()
    try:
        ctx.norm_memo["ent"] = {}
        for c in conds:
            ctx.assume(c)
        yield
    finally:
        ctx.solver.pop()
        ctx.pc, ctx.facts, ctx.fact_seen = pc, facts, seen
        ctx.norm_memo.clear()
        ctx.norm_memo.update(memo)


def prove_mono(ctx, goal, timeout=6000):
    light = not any(z3.is_real(t) for t in walk(goal))  # values: only the prover knows sums and roots
    if light and ctx.entails(goal):
        return "proved", None
    with scoped(ctx, *mono(ctx, goal)):
        if light and ctx.entails(goal):
            return "proved", None
        return ctx.prove(goal, timeout)


# --------------------------------------------------------------------------
# memory
# --------------------------------------------------------------------------
class Uninit:
    def __repr__(self):
        return "<uninitialised>"


UNINIT = Uninit()


class Stale(Uninit):
    """Value of a variable after a loop that assigns it; not modelled."""


class Mem:
    """A block of memory holding elements of one type (rows x cols)."""

    def __init__(self, kind, ctype, array, what, owner=None, writable=True):
        self.kind, self.ctype, self.a, self.what, self.owner, self.writable = kind, ctype, array, what, owner, writable
        self.alive = True
        self.target = None  # pointers stored in this block all point into target
        self.depth = CTX().loop_depth
        self.layout = True

    def live(self):
        return self.alive and (self.owner is None or self.owner.refs > 0)


class Raw:
    """malloc'ed block whose element type is not known yet."""

    def __init__(self, size, zero):
        self.size, self.zero = size, zero
        self.mem = None
        self.alive = True
        self.depth = CTX().loop_depth


class CPtr:
    def __init__(self, obj, off, ctype):
        self.obj, self.off, self.ctype = obj, off, ctype  # ctype: pointee type


class NullPtr:
    pass


NULL = NullPtr()


class Cell:
    """Address of a local variable."""

    def __init__(self, env, name):
        self.env, self.name = env, name


class LocalArray:
    def __init__(self, n, ctype):
        self.cells, self.ctype = [UNINIT] * n, ctype


class PyObj:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.refs = 1
        self.made = False
        self.__dict__.update(kw)


class CFunc:
    def __init__(self, node):
        self.node = node


class Return(BaseException):
    def __init__(self, v):
        self.v = v


class Continue(BaseException):
    pass


class Break(BaseException):
    pass


class Goto(BaseException):
    def __init__(self, label):
        self.label = label


class CFail(BaseException):
    """The path ends here (a violated obligation without continuation)."""


# --------------------------------------------------------------------------
# loops
# --------------------------------------------------------------------------
class CLoop(L.Loop):
    def more(self):
        if self.phase == 0:
            self._start(1)
            return True
        if self.phase == 1:
            self._analyse()
            self._start(2)
            return True
        self._finish()
        self.done = True
        return False

    def _analyse(self):
        # running minima and maxima are taken out before the linear analysis
        self.minima = {}
        ids = {f.get_id(): n for n, f in self.pre.items()}
        for name, f in list(self.pre.items()):
            v = self.post.get(name)
            if v is None or not L._numeric(v):
                continue
            e = to_z3(v)
            if e.sort() != f.sort() or f.sort() != REAL or not L._mentions(e, [f]):
                continue
            e = lift_ite(simp(e))
            p = parse_min(e, f)
            if p is None:
                continue
            sh, body, guard, sign = p
            if any(L._mentions_any(t, ids) for t in [body, guard] + sh) or any(L._mentions(s, [self.k]) for s in sh):
                raise Unsupported("running minimum over a range that depends on the outer loop")
            self.minima[name] = p
            del self.pre[name]
            self._min_carry(name, p, v)
        super()._analyse()

    def _min_carry(self, name, p, v):
        sh, body, guard, sign = p
        k0, init = self.k, as_real(to_z3(self.init[name]))
        nd = len(sh)
        m = {j: IDX[j + 1] for j in range(nd)}
        b2 = z3.substitute(A.tmpl(body, m), (k0, IDX[0]))
        g2 = z3.substitute(A.tmpl(guard, m), (k0, IDX[0]))
        dt = v.dt if isinstance(v, Sym) else None
        self.carry[name] = lambda k: Sym(minacc([to_z3(k)] + sh, b2, g2, init, sign), dt)

    def _finish(self):
        for name, p in self.minima.items():
            cur = self.carry[name](self.k).e
            q = parse_min(lift_ite(simp(to_z3(self.post[name]))), cur)
            if q is None or q[3] != p[3] or len(q[0]) != len(p[0]) or not all(
                    self.ctx.entails(a == b) for a, b in zip(q[0], p[0])):
                raise Unsupported("running minimum not inductive")
            for a, b in ((q[1], p[1]), (q[2], p[2])):
                if not simp(a).eq(simp(b)) and not self.ctx.entails(a == b):
                    raise Unsupported("running minimum not inductive")
        fin = {n: self.carry.pop(n)(self.n) for n in self.minima}
        post = {n: self.post.pop(n) for n in self.minima}
        super()._finish()
        self.vals.update(fin)
        self.post.update(post)


def lift_ite(e):
    """If(a, If(b, x, f), f) -> If(a and b, x, f)."""
    while e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if a.decl().kind() == z3.Z3_OP_ITE and a.arg(2).eq(b):
            e = z3.If(z3.And(c, a.arg(0)), a.arg(1), b)
        elif a.decl().kind() == z3.Z3_OP_ITE and a.arg(1).eq(b):
            e = z3.If(z3.And(c, z3.Not(a.arg(0))), a.arg(2), b)
        elif b.decl().kind() == z3.Z3_OP_ITE and b.arg(1).eq(a):
            e = z3.If(z3.And(z3.Not(c), z3.Not(b.arg(0))), b.arg(2), a)
        elif b.decl().kind() == z3.Z3_OP_ITE and b.arg(2).eq(a):
            e = z3.If(z3.And(z3.Not(c), b.arg(0)), b.arg(1), a)
        else:
            break
    return e


# --------------------------------------------------------------------------
# translation unit
# --------------------------------------------------------------------------
_AST = {}


class Unit:
    def __init__(self, root):
        path = os.path.join(root, SOURCE)
        with open(path, "rb") as f:
            src = f.read()
        h = os.path.join(os.path.dirname(path))
        heads = tuple(open(os.path.join(h, x), "rb").read() for x in sorted(os.listdir(h)) if x.endswith(".h"))
        key = (path, src, heads)
        if key not in _AST:
            r = subprocess.run(
                ["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-I", os.path.join(HERE, "cstubs"), path],
                capture_output=True, text=True)
            if r.returncode != 0 or not r.stdout:
                raise Unsupported("clang cannot parse the module with declaration headers: " + r.stderr[:300])
            _AST[key] = json.loads(r.stdout)
        self.funcs, self.globals, self.fields, self.types, self.enums = {}, {}, {}, {}, {}
        line = [0]
        for n in _AST[key]["inner"]:
            self._lines(n, line)
            k = n.get("kind")
            if k == "FunctionDecl":
                if any(c.get("kind") == "CompoundStmt" for c in n.get("inner", ())):
                    self.funcs[n["name"]] = n
            elif k == "VarDecl":
                if n["name"] not in self.globals or n.get("init"):
                    self.globals[n["name"]] = n
            elif k == "EnumDecl":
                v = -1
                for c in n.get("inner", ()):
                    if c["kind"] == "EnumConstantDecl":
                        v = self._enum_value(c, v)
                        self.enums[c["name"]] = v
            elif k == "TypedefDecl":
                self.types[n["name"]] = n["type"].get("desugaredQualType", n["type"]["qualType"])

    @staticmethod
    def _enum_value(c, v):
        for x in c.get("inner", ()):
            if "value" in x:
                return int(x["value"])
        return v + 1

    def _lines(self, n, line):
        loc = n.get("range", {}).get("begin", {})
        loc = loc.get("expansionLoc", loc)
        if "line" in loc:
            line[0] = loc["line"]
        n["_line"] = line[0]
        end = n.get("range", {}).get("end", {})
        for c in n.get("inner", ()):
            self._lines(c, line)
        end = end.get("expansionLoc", end)
        if "line" in end:
            line[0] = end["line"]

    # ---- method table ------------------------------------------------------
    def methods(self):
        """Python name -> C function name, from the module's method table."""
        out = {}
        for g in self.globals.values():
            if "PyMethodDef" not in g["type"]["qualType"]:
                continue
            for e in g.get("inner", ()):
                rows = e.get("inner", ()) if e.get("kind") == "InitListExpr" else ()
                for row in rows:
                    names = [x["value"].strip('"') for x in _flat_nodes(row) if x.get("kind") == "StringLiteral"]
                    fns = [x["referencedDecl"]["name"] for x in _flat_nodes(row) if x.get("kind") == "DeclRefExpr"]
                    if names and fns:
                        out[names[0]] = fns[0]
        return out


def _flat_nodes(n):
    yield n
    for c in n.get("inner", ()):
        yield from _flat_nodes(c)


def assigned(n):
    """Names of variables assigned in a statement."""
    out = set()
    for x in _flat_nodes(n):
        k = x.get("kind")
        if k in ("BinaryOperator", "CompoundAssignOperator") and x.get("opcode", "").endswith("=") and x["opcode"] not in (
                "==", "!=", "<=", ">="):
            t = _strip(x["inner"][0])
            if t.get("kind") == "DeclRefExpr":
                out.add(t["referencedDecl"]["name"])
        elif k == "UnaryOperator" and x.get("opcode") in ("++", "--", "&"):
            t = _strip(x["inner"][0])
            if t.get("kind") == "DeclRefExpr":
                out.add(t["referencedDecl"]["name"])
    return out


def _strip(n):
    while n.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr") and n.get("inner"):
        n = n["inner"][-1]
    return n


def _has(n, kinds):
    return any(x.get("kind") in kinds for x in _flat_nodes(n))


# --------------------------------------------------------------------------
# interpreter
# --------------------------------------------------------------------------
class C:
    """One run of the extension module."""

    def __init__(self, k, root):
        self.k, self.ctx = k, k.ctx
        self.unit = Unit(root)
        self.err = None
        self.objs, self.blocks = [], []
        self.guards = []
        self.statics = {}
        self.fname = "?"
        self.depth = 0
        self.nofail = False
        # a deterministic limit for the many small questions of the execution
        self.ctx.solver.set("timeout", 20000)
        self.ctx.rlimit = 600000
        self.ctx.solver.set("rlimit", self.ctx.rlimit)

    # ---- obligations --------------------------------------------------------
    def oblige(self, what, goal, node=None, fatal=False):
        """Record an obligation; afterwards it is assumed."""
        g = simp(as_bool(to_z3(goal)))
        if self.ctx.spec:
            return
        label = f"{self.fname}: {what}"
        import time

        t = time.time()
        if z3.is_true(g):
            self.k.rec.add(label, "proved", self.ctx, None, None, 0.0)
            return
        r, m = prove_mono(self.ctx, g)
        why = f"line {node['_line']}" if node is not None and "_line" in node else ""
        self.k.rec.add(label, r, self.ctx, g, m, time.time() - t, why)
        if r != "proved":
            if fatal or z3.is_false(g):
                raise CFail()
            self.ctx.assume(g)
            if self.ctx.dead():
                raise CFail()

    def must(self, what, ok, node=None):
        self.oblige(what, z3.BoolVal(bool(ok)), node, fatal=True)

    # ---- types ---------------------------------------------------------------
    def ctype(self, t):
        if isinstance(t, dict):
            t = t.get("desugaredQualType", t["qualType"])
        t = t.replace("const ", "").replace("volatile ", "").replace("restrict", "").replace(" const", "").strip()
        stars = 0
        while t.endswith("*"):
            t, stars = t[:-1].strip(), stars + 1
        for _ in range(4):
            if t in ALIAS:
                t = ALIAS[t]
            elif t in self.unit.types and self.unit.types[t] != t:
                u = self.unit.types[t]
                if "(" in u:
                    break
                t = u
                while t.endswith("*"):
                    t, stars = t[:-1].strip(), stars + 1
        if t.startswith("struct "):
            t = t[7:]
        return t + "*" * stars

    def sizeof(self, t, node=None):
        t = self.ctype(t)
        if t.endswith("*"):
            return 8
        if t in SIZES:
            return SIZES[t]
        raise Unsupported(f"sizeof {t}")

    def is_int(self, t):
        return t in SIZES and t not in ("float", "double")

    def int_range(self, t):
        b = 8 * SIZES[t]
        return (0, 2 ** b - 1) if t.startswith("unsigned") else (-(2 ** (b - 1)), 2 ** (b - 1) - 1)

    def fit(self, e, t, node, what):
        """Value e of integer type t: no signed overflow; unsigned wraps."""
        e = simp(e)
        v = concrete(e)
        lo, hi = self.int_range(t)
        if v is not None and lo <= v <= hi:
            return Sym(e)
        inr = z3.And(e >= lo, e <= hi)
        if t.startswith("unsigned"):
            if prove_mono(self.ctx, inr, 2000)[0] == "proved":
                return Sym(e)
            return Sym(e % (hi + 1))
        self.oblige(what, inr, node)
        return Sym(e)

    # ---- functions --------------------------------------------------------------
    def call_function(self, name, args):
        node = self.unit.funcs.get(name)
        if node is None:
            raise Unsupported(f"function {name} is not defined in the module")
        if self.depth > 12:
            raise Unsupported("recursion")
        loader.ENTERED.add(SOURCE + ":" + name)
        env = {}
        types = self.types_of
        self._types = {}
        ps = [c for c in node["inner"] if c["kind"] == "ParmVarDecl"]
        for p, a in zip(ps, args):
            env[p.get("name", "_")] = self.convert(a, self.ctype(p["type"]), p)
            self._types[p.get("name", "_")] = self.ctype(p["type"])
        body = [c for c in node["inner"] if c["kind"] == "CompoundStmt"][0]
        old, self.fname = self.fname, name
        oldenv = getattr(self, "env", None)
        self.env = env
        self.depth += 1
        try:
            self.function_body(body)
            r = None
        except Return as e:
            if self.guards:
                raise Unsupported("return under a loop-dependent condition")
            r = e.v
            if r is not None:
                rt = node["type"]["qualType"].split("(")[0].strip()
                r = self.convert(r, self.ctype(rt), node)
        finally:
            self.fname, self.env, self._types = old, oldenv, types
            self.depth -= 1
        return r

    def function_body(self, body):
        stmts = body.get("inner", [])
        pos = 0
        hops = 0
        while True:
            try:
                self.block(stmts[pos:])
                return
            except Goto as g:
                hops += 1
                if hops > 10:
                    raise Unsupported("goto loop") from None
                for i, s in enumerate(stmts):
                    if s["kind"] == "LabelStmt" and s.get("name") == g.label:
                        if i < pos:
                            raise Unsupported("backward goto") from None
                        pos = i
                        break
                else:
                    raise Unsupported("goto into a nested block") from None

    # ---- statements ------------------------------------------------------------
    def block(self, stmts):
        for i, s in enumerate(stmts):
            # if (c) continue;  rest  ->  if (!c) rest
            if s["kind"] == "IfStmt" and self.ctx.loop_depth and _has(s, ("ContinueStmt",)):
                inner = s["inner"]
                then = inner[1]
                if len(inner) == 2 and self._ends_continue(then):
                    c = self.truth(self.expr(inner[0]))
                    v = self.decide(c)
                    if v is True:
                        self.stmt(then)
                        return
                    if v is False:
                        continue
                    self.branches(c, lambda: self._drop_continue(then), lambda: self.block(stmts[i + 1:]))
                    return
            self.stmt(s)

    def _ends_continue(self, s):
        while s["kind"] == "CompoundStmt" and s.get("inner"):
            s = s["inner"][-1]
        return s["kind"] == "ContinueStmt"

    def _drop_continue(self, s):
        try:
            self.stmt(s)
        except Continue:
            pass

    def stmt(self, n):
        self.ctx.check_time()
        f = getattr(self, "s_" + n["kind"], None)
        if f is not None:
            return f(n)
        return self.expr(n)

    def s_CompoundStmt(self, n):
        self.block(n.get("inner", []))

    def s_LabelStmt(self, n):
        for c in n.get("inner", []):
            self.stmt(c)

    def s_GotoStmt(self, n):
        if self.ctx.loop_depth:
            raise Unsupported("goto in a symbolic loop")
        tid = n["targetLabelDeclId"]
        fn = self.unit.funcs[self.fname]
        for x in _flat_nodes(fn):
            if x.get("kind") == "LabelStmt" and x.get("declId") == tid:
                raise Goto(x["name"])
        raise Unsupported("goto")

    def s_NullStmt(self, n):
        pass

    def s_BreakStmt(self, n):
        raise Break()

    def s_ContinueStmt(self, n):
        raise Continue()

    def s_DeclStmt(self, n):
        for d in n["inner"]:
            if d["kind"] != "VarDecl":
                continue
            t = self.ctype(d["type"])
            name = d["name"]
            if d.get("storageClass") == "static":
                self.env[name] = self.static(d)
                continue
            q = d["type"].get("desugaredQualType", d["type"]["qualType"])
            if "[" in q:
                cnt = q[q.index("[") + 1: q.index("]")]
                if not cnt.isdigit():
                    raise Unsupported("variable length array")
                la = LocalArray(int(cnt), self.ctype(q[: q.index("[")]))
                for x in d.get("inner", ()):
                    if x["kind"] == "InitListExpr":
                        for i, c in enumerate(x.get("inner", ())):
                            la.cells[i] = self.convert(self.expr(c), la.ctype, c)
                self.env[name] = la
                continue
            if d.get("init") and d.get("inner"):
                self.env[name] = self.convert(self.expr(d["inner"][-1]), t, d)
            else:
                self.env[name] = UNINIT
            self.types_of[name] = t

    @property
    def types_of(self):
        return self.__dict__.setdefault("_types", {})

    def static(self, d):
        """A static variable: arbitrary contents left by earlier calls."""
        t = self.ctype(d["type"])
        if t in ("double", "float"):
            return Sym(self.ctx.fresh_real("static." + d["name"]))
        if self.is_int(t):
            v = self.ctx.fresh_int("static." + d["name"])
            lo, hi = self.int_range(t)
            self.ctx.assume(z3.And(v >= lo, v <= hi))
            return Sym(v)
        raise Unsupported("static variable of type " + t)

    def s_ReturnStmt(self, n):
        v = self.expr(n["inner"][0]) if n.get("inner") else None
        raise Return(v)

    def decide(self, c):
        """True/False if the path decides c, None if it depends on a loop."""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.ctx.loop_depth and any(z3.is_real(t) for t in walk(c)):
            return None  # conditions on pixel values
        if self.ctx.loop_depth or self.guards:
            if self.ctx.entails(c):
                return True
            if self.ctx.entails(z3.Not(c)):
                return False
            if self.ctx.loop_depth:
                return None
        return self.ctx.branch(c)

    def branches(self, c, then, els):
        """Both branches of a loop-dependent condition; values are merged."""
        env0 = dict(self.env)
        res = []
        for cond, f in ((c, then), (simp(z3.Not(c)), els)):
            self.env.clear()
            self.env.update(env0)
            self.guards.append(cond)
            try:
                with scoped(self.ctx, cond):
                    f()
            except (Return, Break, Continue, Goto):
                raise Unsupported("jump under a loop-dependent condition") from None
            finally:
                self.guards.pop()
            res.append(dict(self.env))
        a, b = res
        self.env.clear()
        for name in a:
            x, y = a[name], b.get(name, UNINIT)
            if x is y:
                self.env[name] = x
            elif scalar_like(x) and scalar_like(y):
                p, q = to_z3(x), to_z3(y)
                if p.sort() != q.sort():
                    p, q = as_real(p), as_real(q)
                self.env[name] = Sym(p) if p.eq(q) else Sym(simp(z3.If(c, p, q)))
            else:
                self.env[name] = Stale()

    def s_IfStmt(self, n):
        inner = n["inner"]
        c = self.truth(self.expr(inner[0]))
        v = self.decide(c)
        if v is None:
            self.branches(c, lambda: self.stmt(inner[1]), lambda: self.stmt(inner[2]) if len(inner) > 2 else None)
        elif v:
            self.stmt(inner[1])
        elif len(inner) > 2:
            self.stmt(inner[2])

    # ---- loops ------------------------------------------------------------------
    def s_ForStmt(self, n):
        init, _, cond, inc, body = n["inner"]
        saved = set(self.env)
        if init:
            self.stmt(init)
        if not cond or not inc:
            raise Unsupported("for loop without condition or increment")
        self.loop(n, cond, inc, [body])
        if init and init["kind"] == "DeclStmt":
            for d in init["inner"]:
                if d["name"] not in saved:
                    self.env.pop(d["name"], None)

    def s_WhileStmt(self, n):
        cond, body = n["inner"][0], n["inner"][-1]
        if n.get("inner") and len(n["inner"]) != 2:
            raise Unsupported("while with declaration")
        stmts = body.get("inner", []) if body["kind"] == "CompoundStmt" else [body]
        if not stmts or _has(body, ("ContinueStmt",)):
            raise Unsupported("while loop form")
        self.loop(n, cond, stmts[-1], stmts[:-1])

    def s_DoStmt(self, n):
        body, cond = n["inner"]
        c = _strip(cond)
        if c["kind"] == "IntegerLiteral" and c["value"] == "0":
            self.stmt(body)
            return
        raise Unsupported("do loop")

    def _step(self, inc):
        """(variable, step expression or int)."""
        e = _strip(inc)
        if e["kind"] == "UnaryOperator" and e["opcode"] in ("++", "--"):
            t = _strip(e["inner"][0])
            if t["kind"] == "DeclRefExpr":
                return t["referencedDecl"]["name"], (1 if e["opcode"] == "++" else -1)
        if e["kind"] == "CompoundAssignOperator" and e["opcode"] in ("+=", "-="):
            t = _strip(e["inner"][0])
            if t["kind"] == "DeclRefExpr":
                return t["referencedDecl"]["name"], (e["inner"][1], e["opcode"] == "-=")
        if e["kind"] == "BinaryOperator" and e["opcode"] == "=":
            t, r = _strip(e["inner"][0]), _strip(e["inner"][1])
            if t["kind"] == "DeclRefExpr" and r["kind"] == "BinaryOperator" and r["opcode"] in "+-":
                nm = t["referencedDecl"]["name"]
                a, b = _strip(r["inner"][0]), _strip(r["inner"][1])
                if a["kind"] == "DeclRefExpr" and a["referencedDecl"]["name"] == nm:
                    return nm, (r["inner"][1], r["opcode"] == "-")
                if r["opcode"] == "+" and b["kind"] == "DeclRefExpr" and b["referencedDecl"]["name"] == nm:
                    return nm, (r["inner"][0], False)
        raise Unsupported("loop increment")

    def _bounds(self, cond, var, st):
        """Exclusive bound(s) of the loop variable."""
        e = cond
        while e["kind"] in ("ParenExpr", "ImplicitCastExpr") and e.get("castKind", "NoOp") in ("NoOp",):
            e = e["inner"][0]
        if e["kind"] == "BinaryOperator" and e["opcode"] == "&&":
            return self._bounds(e["inner"][0], var, st) + self._bounds(e["inner"][1], var, st)
        if e["kind"] != "BinaryOperator" or e["opcode"] not in ("<", "<=", ">", ">=", "!="):
            raise Unsupported("loop condition")
        x = self.ctx.loopvar("x")
        old = self.env[var]
        self.env[var] = Sym(x)
        self.quiet = getattr(self, "quiet", 0) + 1
        self.ctx.spec.add(x.get_id())
        try:
            l, r = to_z3(self.expr(e["inner"][0])), to_z3(self.expr(e["inner"][1]))
        finally:
            self.env[var] = old
            self.ctx.spec.discard(x.get_id())
        if not (z3.is_int(l) and z3.is_int(r)):
            raise Unsupported("loop condition on non-integers")
        op = e["opcode"]
        d = z3.simplify(l - r - x, som=True)
        if L._mentions(d, [x]):
            d = z3.simplify(l - r + x, som=True)
            if L._mentions(d, [x]):
                raise Unsupported("loop condition not linear in the loop variable")
            # d - x op 0  ->  x op' d
            b = d
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
        else:
            b = simp(-d)  # x op b
        if st > 0 and op == "<" or st < 0 and op == ">":
            return [b]
        if st > 0 and op == "<=":
            return [simp(b + 1)]
        if st < 0 and op == ">=":
            return [simp(b - 1)]
        if op == "!=":
            s0 = to_z3(old)
            if st > 0 and self.ctx.entails(s0 <= b) and self._unit or st < 0 and self.ctx.entails(s0 >= b) and self._unit:
                return [b]
        raise Unsupported("loop condition")

    def loop(self, node, cond, inc, body):
        ctx = self.ctx
        var, step = self._step(inc)
        names = set()
        for b in body:
            names |= assigned(b)
        condvars = {x["referencedDecl"]["name"] for x in _flat_nodes(cond) if x.get("kind") == "DeclRefExpr"}
        stepvars = set() if isinstance(step, int) else {
            x["referencedDecl"]["name"] for x in _flat_nodes(step[0]) if x.get("kind") == "DeclRefExpr"}
        if var in names or var not in condvars or (condvars | stepvars) & names:
            raise Unsupported("loop bounds change in the loop")
        if _has(node, ("CallExpr",)) and any(
                x.get("kind") == "CallExpr" for y in (cond, inc) for x in _flat_nodes(y)):
            raise Unsupported("call in a loop header")
        if any(_has(b, ("BreakStmt", "ReturnStmt", "GotoStmt")) for b in body):
            raise Unsupported("jump out of a symbolic loop")
        s0 = self.env.get(var, UNINIT)
        if isinstance(s0, Uninit) or not scalar_like(s0):
            raise Unsupported("loop variable")
        s0 = to_z3(s0)
        t = self.types_of.get(var, "long")
        if isinstance(step, int):
            st, sgn, self._unit = z3.IntVal(step), step, True
        else:
            st = to_z3(self.expr(step[0]))
            st = simp(-st if step[1] else st)
            self._unit = concrete(st) in (1, -1)
            self.oblige("loop step is not zero (termination)", st != 0, node)
            sgn = 1 if ctx.entails(st > 0) else -1 if ctx.entails(st < 0) else 0
            if sgn == 0:
                raise Unsupported("loop step of unknown sign")
        bs = self._bounds(cond, var, sgn)
        stop = bs[0]
        for b in bs[1:]:
            stop = z3.If(b < stop, b, stop) if sgn > 0 else z3.If(b > stop, b, stop)
        stop = simp(stop)
        d = simp(stop - s0) if sgn > 0 else simp(s0 - stop)
        ast = st if sgn > 0 else simp(-st)
        if concrete(ast) == 1:
            cnt = d
            facts = []
        else:
            cnt = ctx.fresh_int("n")
            facts = None
        some = ctx.entails(d > 0)
        none = not some and ctx.entails(d <= 0)
        if none:
            return
        if not some and not ctx.loop_depth and not self.guards:
            if not ctx.branch(d > 0):
                return
            some = True
        if facts is None:
            # cnt = ceil(d / ast) as a function of d and ast
            cnt = ceil_div(ctx, d, ast)
        n = cnt if some else simp(z3.If(d > 0, cnt, z3.IntVal(0)))
        k = ctx.loopvar("k")
        inr = [k >= 0, k < n, d > 0, k * ast < d, k * ast >= 0] + (
            [] if concrete(ast) == 1 else [cnt >= 1, (cnt - 1) * ast < d, d <= cnt * ast])
        vals = [m for m in names if m in self.env]
        for m in vals:
            if not scalar_like(self.env[m]) and not isinstance(self.env[m], (LocalArray, Uninit)):
                self.env[m] = Stale()
            if isinstance(self.env[m], LocalArray):
                raise Unsupported("local array written in a loop")

        def getters():
            out = {}
            for m in names:
                if m in self.env and scalar_like(self.env[m]) and m != var:
                    out[m] = lambda m=m: self.env[m]
            return out

        env0 = dict(self.env)
        item = simp(s0 + k * st)
        seq = L.SymSeq(n, lambda j: Sym(simp(s0 + to_z3(j) * st)))
        guards, self.guards = self.guards, []
        if guards and any(_has(b, ("ArraySubscriptExpr",)) and self._writes_memory(b) for b in body):
            gsave = guards
        else:
            gsave = None
        if gsave:
            raise Unsupported("loop that writes memory under a loop-dependent condition")
        try:
            with scoped(ctx, *inr):
                if ctx.dead():
                    return
                lp = CLoop(seq, getters())
                lp.k = k
                if concrete(ast) != 1:
                    lp.inrange = lambda q: z3.And(d > 0, q * ast < d)
                try:
                    while lp.more():
                        self.env.clear()
                        self.env.update(env0)
                        for m, v in lp.vals.items():
                            self.env[m] = v
                        self.env[var] = Sym(item)
                        lp.in_body = True
                        try:
                            self.block(body)
                        except Continue:
                            pass
                        # the increment itself must not overflow
                        self.fit(to_z3(self.env[var]) + st, t, node, "loop counter does not overflow")
                        lp.end(getters())
                finally:
                    lp.leave()
                fin = lp.vals
        finally:
            self.guards = guards
        self.env.clear()
        self.env.update(env0)
        for m in names:
            if m not in env0:
                continue
            if m in lp.carry or m in getattr(lp, "minima", {}):
                v = fin.get(m)
                if m in lp.carry and self._local(lp, m):
                    v = Stale()
                self.env[m] = v if v is not None else Stale()
            else:
                self.env[m] = Stale()
        self.env[var] = Sym(simp(s0 + n * st))

    def _local(self, lp, m):
        cur = lp.carry[m](lp.k)
        return isinstance(cur, Sym) and any(cur.e.get_id() == f.get_id() for f in lp._all_pre())

    def _writes_memory(self, n):
        for x in _flat_nodes(n):
            if x.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and x.get("opcode", "").endswith("=") and x[
                    "opcode"] not in ("==", "!=", "<=", ">="):
                if _strip(x["inner"][0])["kind"] != "DeclRefExpr":
                    return True
            if x.get("kind") == "CallExpr":
                return True
        return False

    # ---- expressions ------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, (NullPtr,)):
            return z3.BoolVal(False)
        if isinstance(v, (CPtr, PyObj, Cell, CFunc, LocalArray, str)):
            return z3.BoolVal(True)
        if isinstance(v, Uninit):
            self.bad_read(v)
        e = to_z3(v)
        if z3.is_bool(e):
            return simp(e)
        return simp(e != 0)

    def bad_read(self, v, node=None):
        if isinstance(v, Stale):
            raise Unsupported("value of a loop-local variable after the loop")
        if self.ctx.spec:
            raise Unsupported("uninitialised value")
        self.must("no uninitialised value is used", False, node)

    def expr(self, n):
        f = getattr(self, "e_" + n["kind"], None)
        if f is None:
            raise Unsupported("C construct " + n["kind"])
        return f(n)

    def e_ParenExpr(self, n):
        return self.expr(n["inner"][0])

    e_ConstantExpr = e_ParenExpr

    def e_IntegerLiteral(self, n):
        return int(n["value"])

    def e_CharacterLiteral(self, n):
        return int(n["value"])

    def e_FloatingLiteral(self, n):
        return Sym(z3.RealVal(n["value"]) if "e" not in n["value"].lower() else z3.RealVal(
            str(__import__("fractions").Fraction(n["value"]))))

    def e_StringLiteral(self, n):
        return n["value"].strip('"')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") != "sizeof":
            raise Unsupported("type trait")
        if "argType" in n:
            return self.sizeof(n["argType"])
        return self.sizeof(n["inner"][0]["type"])

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        name = d["name"]
        if d["kind"] == "FunctionDecl":
            return CFunc(name)
        if d["kind"] == "EnumConstantDecl":
            return self.unit.enums[name]
        if name in self.env:
            v = self.env[name]
            return v
        return self.global_value(name, d)

    def global_value(self, name, d):
        if name.startswith("PyExc_") or name in ("PyArray_Type", "_Py_NoneStruct"):
            return PyObj("static", name=name)
        g = self.unit.globals.get(name)
        if g is None:
            raise Unsupported("global " + name)
        q = g["type"]["qualType"]
        if q.startswith("const ") and g.get("inner"):
            env, self.env = self.env, {}
            try:
                return self.convert(self.expr(g["inner"][-1]), self.ctype(g["type"]), g)
            finally:
                self.env = env
        if name not in self.statics:
            self.statics[name] = self.static(g)
        return self.statics[name]

    def e_ImplicitCastExpr(self, n):
        ck = n["castKind"]
        v = self.expr(n["inner"][0])
        if ck == "LValueToRValue":
            if isinstance(v, Uninit):
                self.bad_read(v, n)
            return v
        if ck in ("FunctionToPointerDecay", "NoOp", "BuiltinFnToFnPtr", "ToVoid"):
            return v
        if ck == "ArrayToPointerDecay":
            if isinstance(v, LocalArray):
                return CPtr(v, z3.IntVal(0), v.ctype)
            return v
        if ck == "NullToPointer":
            return NULL
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
            return Sym(self.truth(v))
        return self.convert(v, self.ctype(n["type"]), n, ck)

    def e_CStyleCastExpr(self, n):
        v = self.expr(n["inner"][0])
        if n["castKind"] == "NullToPointer":
            return NULL
        if n["castKind"] == "ToVoid":
            return None
        return self.convert(v, self.ctype(n["type"]), n, n["castKind"])

    def convert(self, v, t, node, ck=None):
        """Value v as type t."""
        if v is None or isinstance(v, (NullPtr, Cell, CFunc, str)):
            return v
        if isinstance(v, Uninit):
            return v
        if t.endswith("*"):
            if isinstance(v, PyObj) or isinstance(v, LocalArray):
                return v
            if isinstance(v, CPtr):
                return self.retype(v, t[:-1], node)
            if isinstance(v, (int,)) and v == 0:
                return NULL
            raise Unsupported("integer used as a pointer")
        if isinstance(v, (CPtr, PyObj)):
            raise Unsupported("pointer used as a number")
        e = to_z3(v)
        if z3.is_bool(e):
            e = as_int(e)
        if t in ("double", "float"):
            if t == "float":
                raise Unsupported("single precision arithmetic")
            return Sym(simp(as_real(e)))
        if self.is_int(t):
            if z3.is_int(e):
                lo, hi = self.int_range(t)
                if t.startswith("unsigned"):
                    return self.fit(e, t, node, "")
                return self.fit(e, t, node, "integer conversion keeps the value")
            from .core import trunc_real

            return self.fit(trunc_real(e), t, node, "conversion to integer in range")
        if t == "void":
            return None
        raise Unsupported("conversion to " + t)

    def retype(self, p, t, node):
        """Pointer p with pointee type t."""
        if isinstance(p.obj, Raw):
            raw = p.obj
            if t in ("void", "char"):
                return p
            if raw.mem is None:
                sz = self.sizeof(t)
                cnt = exact_count(raw.size, sz)
                raw.mem = self.new_mem("heap", t, [cnt], "allocated block", raw.zero)
                raw.mem.raw = raw
                self.blocks.append(raw.mem)
            return self.retype(CPtr(raw.mem, p.off, raw.mem.ctype), t, node)
        if t in ("void", "char") or p.ctype == t:
            return CPtr(p.obj, p.off, t if t not in ("void", "char") else p.ctype)
        m = p.obj
        if isinstance(m, Mem) and m.ctype == t:
            return CPtr(m, p.off, t)
        if isinstance(m, Mem) and p.ctype in ("void", "char"):
            return CPtr(m, p.off, t)
        raise Unsupported(f"pointer cast {p.ctype} to {t}")

    def new_mem(self, kind, t, shape, what, zero=False, body=None, owner=None, writable=True):
        dt = A.as_dtype("int64" if (t.endswith("*") or self.is_int(t)) else "float64")
        if body is None:
            if zero:
                body = z3.IntVal(0) if dt.kind == "i" else z3.RealVal(0)
            else:
                fn = z3.Function(self.ctx.name("uninit"), *([INT] * len(shape)), A.sort_of(dt))
                body = fn(*IDX[: len(shape)])
        a = A.new_array([Sym(s) if not isinstance(s, (int, Sym)) else s for s in shape], dt, body)
        return Mem(kind, t, a, what, owner, writable)

    # ---- operators ----------------------------------------------------------------
    def e_UnaryOperator(self, n):
        op = n["opcode"]
        x = n["inner"][0]
        if op == "&":
            t = _strip(x)
            if t["kind"] == "DeclRefExpr":
                nm = t["referencedDecl"]["name"]
                if nm in self.env:
                    v = self.env[nm]
                    if isinstance(v, LocalArray):
                        return CPtr(v, z3.IntVal(0), v.ctype)
                    return Cell(self.env, nm)
                return self.e_DeclRefExpr(t)
            if t["kind"] == "ArraySubscriptExpr":
                return self.address(t)
            raise Unsupported("address of an expression")
        if op in ("++", "--"):
            old = self.load_lv(x)
            new = self.arith("+" if op == "++" else "-", old, 1, self.ctype(n["type"]), n)
            self.store_lv(x, new, n)
            return old if n.get("isPostfix") else new
        if op == "*":
            p = self.expr(x)
            return self.load(p, z3.IntVal(0), n)
        v = self.expr(x)
        if op == "!":
            return Sym(simp(z3.Not(self.truth(v))))
        if op == "+":
            return v
        if op == "-":
            return self.arith("-", 0, v, self.ctype(n["type"]), n)
        if op in ("__extension__",):
            return v
        raise Unsupported("operator " + op)

    def e_ConditionalOperator(self, n):
        c = self.truth(self.expr(n["inner"][0]))
        v = self.decide(c)
        if v is True:
            return self.expr(n["inner"][1])
        if v is False:
            return self.expr(n["inner"][2])
        with scoped(self.ctx, c):
            a = self.expr(n["inner"][1])
        with scoped(self.ctx, z3.Not(c)):
            b = self.expr(n["inner"][2])
        a, b = to_z3(a), to_z3(b)
        if a.sort() != b.sort():
            a, b = as_real(a), as_real(b)
        return Sym(simp(z3.If(c, a, b)))

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.expr(b)
            self.store_lv(a, v, n)
            return v
        if op == ",":
            self.expr(a)
            return self.expr(b)
        if op in ("&&", "||"):
            x = self.truth(self.expr(a))
            pure = not _has(b, ("CallExpr", "ArraySubscriptExpr", "MemberExpr"))
            if z3.is_true(x) or z3.is_false(x):
                if z3.is_true(x) == (op == "||"):
                    return Sym(x)
                return Sym(self.truth(self.expr(b)))
            if pure or self.ctx.loop_depth:
                with scoped(self.ctx, x if op == "&&" else z3.Not(x)):
                    if self.ctx.dead():
                        return Sym(z3.BoolVal(op == "||"))
                    y = self.truth(self.expr(b))
                return Sym(simp(z3.And(x, y) if op == "&&" else z3.Or(x, y)))
            if self.ctx.branch(x):
                return Sym(z3.BoolVal(True)) if op == "||" else Sym(self.truth(self.expr(b)))
            return Sym(z3.BoolVal(False)) if op == "&&" else Sym(self.truth(self.expr(b)))
        x, y = self.expr(a), self.expr(b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, x, y)
        return self.arith(op, x, y, self.ctype(n["type"]), n)

    def compare(self, op, x, y):
        if isinstance(x, (NullPtr, CPtr, PyObj)) or isinstance(y, (NullPtr, CPtr, PyObj)):
            if op not in ("==", "!="):
                raise Unsupported("pointer order")
            if isinstance(x, NullPtr) or isinstance(y, NullPtr):
                eq = isinstance(x, NullPtr) and isinstance(y, NullPtr)
            elif isinstance(x, PyObj) and isinstance(y, PyObj):
                eq = x is y or x.kind == y.kind == "static" and x.name == y.name
            else:
                raise Unsupported("pointer comparison")
            return Sym(z3.BoolVal(eq == (op == "==")))
        p, q = to_z3(x), to_z3(y)
        if z3.is_bool(p):
            p = as_int(p)
        if z3.is_bool(q):
            q = as_int(q)
        if p.sort() != q.sort():
            p, q = as_real(p), as_real(q)
        r = {"==": lambda: p == q, "!=": lambda: p != q, "<": lambda: p < q, ">": lambda: p > q, "<=": lambda: p <= q,
             ">=": lambda: p >= q}[op]()
        return Sym(simp(r))

    def arith(self, op, x, y, t, n):
        if isinstance(x, CPtr) or isinstance(y, CPtr):
            if isinstance(y, CPtr) and op == "+":
                x, y = y, x
            if not isinstance(x, CPtr) or isinstance(y, CPtr) or op not in "+-":
                raise Unsupported("pointer arithmetic")
            if isinstance(x.obj, Raw) or x.ctype in ("void", "char"):
                raise Unsupported("byte pointer arithmetic")
            d = as_int(to_z3(y))
            return CPtr(x.obj, simp(x.off + d if op == "+" else x.off - d), x.ctype)
        for v in (x, y):
            if isinstance(v, Uninit):
                self.bad_read(v, n)
            if not scalar_like(v):
                raise Unsupported("arithmetic on " + type(v).__name__)
        p, q = to_z3(x), to_z3(y)
        if z3.is_bool(p):
            p = as_int(p)
        if z3.is_bool(q):
            q = as_int(q)
        if t in ("double", "float"):
            p, q = as_real(p), as_real(q)
            if op == "/":
                return Sym(simp(p / q))
            return Sym(simp({"+": p + q, "-": p - q, "*": p * q}[op]))
        if not self.is_int(t):
            raise Unsupported("arithmetic in " + t)
        if op in "+-*":
            e = {"+": p + q, "-": p - q, "*": p * q}[op]
            return self.fit(e, t, n, "no integer overflow")
        if op in "/%":
            self.oblige("divisor is not zero", q != 0, n)
            ctx = self.ctx
            if ctx.entails(z3.And(p >= 0, q > 0)):
                return Sym(simp(p / q if op == "/" else p % q))
            ap, aq = z3.If(p >= 0, p, -p), z3.If(q >= 0, q, -q)
            d = z3.If((p >= 0) == (q > 0), ap / aq, -(ap / aq))
            return Sym(simp(d if op == "/" else p - q * d))
        if op == "<<" and concrete(q) is not None:
            return self.fit(p * 2 ** int(concrete(q)), t, n, "no integer overflow")
        if op == ">>" and concrete(q) is not None:
            return Sym(simp(p / (2 ** int(concrete(q)))))
        if op in "|&^" and concrete(p) is not None and concrete(q) is not None:
            a, b = int(concrete(p)), int(concrete(q))
            return {"|": a | b, "&": a & b, "^": a ^ b}[op]
        raise Unsupported("operator " + op)

    def e_CompoundAssignOperator(self, n):
        a, b = n["inner"]
        op = n["opcode"][:-1]
        ct = self.ctype(n.get("computeResultType", n["type"]))
        lt = self.ctype(a["type"])
        old = self.load_lv(a)
        if isinstance(old, Uninit):
            self.bad_read(old, n)
        y = self.expr(b)
        if scalar_like(old):
            old2 = self.convert(old, ct, n)
        else:
            old2 = old
        v = self.arith(op, old2, y, ct, n)
        if scalar_like(v):
            v = self.convert(v, lt, n)
        self.store_lv(a, v, n)
        return v

    # ---- lvalues ------------------------------------------------------------------
    def load_lv(self, x):
        v = self.expr(x)
        return v

    def store_lv(self, x, v, node):
        t = x
        while t["kind"] in ("ParenExpr",):
            t = t["inner"][0]
        if t["kind"] == "DeclRefExpr":
            nm = t["referencedDecl"]["name"]
            if nm in self.env:
                self.env[nm] = self.convert(v, self.ctype(t["type"]), node) if not isinstance(v, Uninit) else v
                return
            raise Unsupported("write to a global variable")
        if t["kind"] == "ArraySubscriptExpr":
            p = self.expr(t["inner"][0])
            i = self.expr(t["inner"][1])
            if not isinstance(p, (CPtr, NullPtr)) and isinstance(i, CPtr):
                p, i = i, p
            self.store(p, to_z3(i), v, node)
            return
        if t["kind"] == "UnaryOperator" and t["opcode"] == "*":
            p = self.expr(t["inner"][0])
            if isinstance(p, Cell):
                p.env[p.name] = v
                return
            self.store(p, z3.IntVal(0), v, node)
            return
        raise Unsupported("assignment to " + t["kind"])

    def e_ArraySubscriptExpr(self, n):
        p = self.expr(n["inner"][0])
        i = self.expr(n["inner"][1])
        if isinstance(i, CPtr):
            p, i = i, p
        return self.load(p, to_z3(i), n)

    def address(self, n):
        p = self.expr(n["inner"][0])
        i = to_z3(self.expr(n["inner"][1]))
        if not isinstance(p, CPtr):
            raise Unsupported("address")
        return CPtr(p.obj, simp(p.off + i), p.ctype)

    def deref(self, p, node):
        if isinstance(p, NullPtr):
            self.must("no NULL pointer is dereferenced", False, node)
        if isinstance(p, Uninit):
            self.bad_read(p, node)
        if not isinstance(p, CPtr):
            raise Unsupported("dereference of " + type(p).__name__)
        return p

    def where(self, p, i, node, what):
        """Index terms of element p[i], with the in-bounds obligation."""
        m = p.obj
        if isinstance(m, Raw):
            raise Unsupported("access to an untyped block")
        self.must("no released memory is used", m.live(), node)
        if m.ctype != p.ctype:
            self.must(f"{m.what}: accessed with its own element type", False, node)
        if not m.layout:
            self.must(f"{m.what}: the memory layout is the one that is assumed", False, node)
        off = simp(p.off + i)
        sh = [to_z3(s) for s in m.a._sh]
        if len(sh) == 1:
            self.oblige(f"{m.what} {what} inside", z3.And(off >= 0, off < sh[0]), node)
            return [off]
        off = self.resolve(off)
        cols = sh[1]
        dec = L._flat(off, cols)
        if dec is None:
            with scoped(self.ctx, *mono(self.ctx, off == 0)):
                dec = L._flat(off, cols)
        if dec is not None:
            r, c = dec
            self.oblige(f"{m.what} {what} inside", z3.And(r >= 0, r < sh[0], c >= 0, c < cols), node)
            return [r, c]
        self.oblige(f"{m.what} {what} inside", z3.And(off >= 0, off < sh[0] * cols), node)
        return [off / cols, off % cols]

    def resolve(self, e):
        """Decide conditionals inside a term."""
        seen = {}
        for _ in range(12):
            for t in walk(e):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                    c = t.arg(0)
                    if c.get_id() in seen:
                        continue
                    v = self.decided(c)
                    if v is None:
                        seen[c.get_id()] = c
                        continue
                    e = simp(z3.substitute(e, (t, t.arg(1) if v else t.arg(2))))
                    break
            else:
                return e
        return e

    def decided(self, c):
        """Truth of a condition under the path condition, if it is fixed."""
        vals = []
        if any(z3.is_real(t) for t in walk(c)):
            return None  # conditions on pixel values
        for x in L._conj(simp(c)):
            if self.ctx.entails_light(x):
                continue
            if self.ctx.entails_mono(x):
                continue
            if self.ctx.entails_mono(z3.Not(x)):
                return False
            with scoped(self.ctx, *mono(self.ctx, x)):
                if self.ctx.entails(x, quick=True):
                    continue
                if self.ctx.entails(z3.Not(x), quick=True):
                    return False
            vals.append(x)
        return None if vals else True

    def load(self, p, i, node):
        p = self.deref(p, node)
        if isinstance(p.obj, LocalArray):
            v = concrete(simp(p.off + i))
            if v is None:
                raise Unsupported("symbolic index of a local array")
            self.must("local array read inside", 0 <= v < len(p.obj.cells), node)
            return p.obj.cells[int(v)]
        if isinstance(p.obj, DimsOf):
            return p.obj.get(self, simp(p.off + i), node)
        idx = self.where(p, i, node, "read")
        m = p.obj
        e = simp(self.resolve(L.rewrite_flat(simp(m.a.at(*idx)))))
        if m.ctype.endswith("*"):
            if m.target is None:
                self.must("no uninitialised pointer is used", False, node)
            return CPtr(m.target, e, m.ctype[:-1])
        return Sym(e)

    def store(self, p, i, v, node):
        p = self.deref(p, node)
        if isinstance(p.obj, LocalArray):
            c = concrete(simp(p.off + i))
            if c is None:
                raise Unsupported("symbolic index of a local array")
            self.must("local array write inside", 0 <= c < len(p.obj.cells), node)
            if self.ctx.loop_depth:
                raise Unsupported("local array written in a loop")
            p.obj.cells[int(c)] = self.convert(v, p.obj.ctype, node)
            return
        if isinstance(p.obj, DimsOf):
            self.must("the shape of an array is not modified", False, node)
        idx = self.where(p, i, node, "write")
        m = p.obj
        self.must("the input image is not modified", m.writable, node)
        if isinstance(v, Uninit):
            self.bad_read(v, node)
        if m.ctype.endswith("*"):
            if not isinstance(v, CPtr):
                raise Unsupported("non-pointer stored in a pointer table")
            if m.target is None:
                m.target = v.obj
            elif m.target is not v.obj:
                raise Unsupported("pointer table into several objects")
            e = v.off
        else:
            e = to_z3(self.convert(v, m.ctype, node))
        if self.guards:
            g = simp(z3.And(*self.guards))
            e = z3.If(g, e, m.a.at(*idx))
        cond = z3.And(*[IDX[k] == x for k, x in enumerate(idx)])
        m.a._buf.write(z3.If(cond, e, m.a._buf.body))

    def e_MemberExpr(self, n):
        o = self.expr(n["inner"][0])
        return self.member(o, n["name"], n)

    def member(self, o, name, node):
        o = self.array(o, node)
        if name == "nd":
            return Sym(o.ndim) if not isinstance(o.ndim, int) else o.ndim
        if name == "dimensions":
            return CPtr(DimsOf(o), z3.IntVal(0), "long")
        if name == "data":
            if o.data is None:
                raise Unsupported("data of an array of unknown layout")
            return CPtr(o.data, z3.IntVal(0), "char")
        raise Unsupported("array field " + name)

    def array(self, o, node):
        if isinstance(o, NullPtr):
            self.must("no NULL pointer is dereferenced", False, node)
        if isinstance(o, Uninit):
            self.bad_read(o, node)
        if not isinstance(o, PyObj):
            raise Unsupported("array expected")
        self.must("no released object is used", o.refs > 0, node)
        self.must("an object is known to be an array before it is used as one", o.kind == "array", node)
        return o

    # ---- calls --------------------------------------------------------------------
    def e_CallExpr(self, n):
        f = self.expr(n["inner"][0])
        args = [self.expr(a) for a in n["inner"][1:]]
        if not isinstance(f, CFunc):
            raise Unsupported("indirect call")
        for a in args:
            if isinstance(a, Uninit):
                self.bad_read(a, n)
        name = f.node
        m = getattr(self, "c_" + name, None)
        if name in self.unit.funcs:
            return self.call_function(name, args)
        if m is None:
            if name.startswith("__builtin_") and hasattr(self, "c_" + name[10:]):
                m = getattr(self, "c_" + name[10:])
            else:
                raise Unsupported("call of " + name)
        return m(n, *args)

    def no_loop(self, what):
        if self.ctx.loop_depth or self.guards:
            raise Unsupported(what + " in a symbolic loop")

    def fails(self, what):
        """Fork: does this allocation fail?"""
        self.no_loop(what)
        if self.nofail:
            return False
        b = z3.Bool(self.ctx.name("fail." + what))
        self.ctx.inputs[str(b)] = b
        return self.ctx.branch(b)

    # C library
    def c_sqrt(self, n, x):
        return Sym(A.unary_term("sqrt", as_real(to_z3(x)), A.as_dtype("float64"))[0])

    def c_fabs(self, n, x):
        e = as_real(to_z3(x))
        return Sym(z3.If(e >= 0, e, -e))

    def c_pow(self, n, x, y):
        e, v = as_real(to_z3(x)), concrete(simp(to_z3(y)))
        if v is not None and v == int(v) and 0 <= v <= 8:
            r = z3.RealVal(1)
            for _ in range(int(v)):
                r = r * e
            return Sym(simp(r))
        if v is not None and v == 0.5:
            return self.c_sqrt(n, x)
        raise Unsupported("pow with a general exponent")

    def c_fmin(self, n, x, y):
        a, b = as_real(to_z3(x)), as_real(to_z3(y))
        return Sym(z3.If(a < b, a, b))

    def c_fmax(self, n, x, y):
        a, b = as_real(to_z3(x)), as_real(to_z3(y))
        return Sym(z3.If(a > b, a, b))

    def c_printf(self, n, *a):
        return 0

    def c_exit(self, n, *a):
        self.must("the process is not terminated", False, n)

    c_abort = c_exit

    def _alloc(self, size, zero):
        if self.fails("malloc"):
            return NULL
        r = Raw(simp(to_z3(size)), zero)
        self.blocks.append(r)
        return CPtr(r, z3.IntVal(0), "void")

    def c_malloc(self, n, size):
        return self._alloc(size, False)

    def c_calloc(self, n, a, b):
        return self._alloc(simp(to_z3(a) * to_z3(b)), True)

    c_PyMem_Malloc = c_PyMem_RawMalloc = c_malloc
    c_PyMem_Calloc = c_calloc

    def c_free(self, n, p):
        if isinstance(p, NullPtr):
            return None
        self.no_loop("free")
        if not isinstance(p, CPtr):
            raise Unsupported("free")
        m = p.obj
        ok = isinstance(m, Raw) or isinstance(m, Mem) and m.kind == "heap"
        self.must("only allocated blocks are freed", ok, n)
        self.oblige("only allocated blocks are freed", p.off == 0, n)
        self.must("no block is freed twice", m.alive, n)
        m.alive = False
        if isinstance(m, Mem):
            m.raw.alive = False
        return None

    c_PyMem_Free = c_PyMem_RawFree = c_free

    # CPython
    def c_PyArg_ParseTuple(self, n, args, fmt, *ptrs):
        if not (isinstance(args, PyObj) and args.kind == "args"):
            raise Unsupported("argument tuple")
        self.no_loop("PyArg_ParseTuple")
        fmt = fmt.split(":")[0].split(";")[0]
        units, i = [], 0
        while i < len(fmt):
            if fmt[i] == "O" and fmt[i + 1: i + 2] == "!":
                units.append("O!")
                i += 2
            elif fmt[i] in "Oinlkd":
                units.append(fmt[i])
                i += 1
            else:
                raise Unsupported("argument format " + fmt)
        self.must("three arguments are parsed", len(units) == len(args.items), n)
        ps = list(ptrs)
        todo = []
        for u, item in zip(units, args.items):
            if u == "O!":
                typ, p = ps.pop(0), ps.pop(0)
                if not (isinstance(typ, PyObj) and typ.name == "PyArray_Type"):
                    raise Unsupported("type argument")
                if item.kind == "other":
                    return self._err("TypeError", 0)
            else:
                p = ps.pop(0)
            if not isinstance(p, Cell):
                raise Unsupported("target of an argument")
            if u in ("O", "O!"):
                todo.append((p, item, None))
                continue
            if item is OTHER:
                return self._err("TypeError", 0)
            t = {"i": "int", "n": "long", "l": "long", "k": "unsigned long", "d": "double"}[u]
            want = self.types_of.get(p.name)
            self.must("arguments are parsed into variables of their type", want in (None, t), n)
            if u == "d":
                todo.append((p, Sym(as_real(to_z3(item))), None))
                continue
            lo, hi = self.int_range(t)
            if not self.ctx.branch(z3.And(to_z3(item) >= lo, to_z3(item) <= hi)):
                return self._err("OverflowError", 0)
            todo.append((p, item, None))
        for p, v, _ in todo:
            p.env[p.name] = v
        return 1

    def _err(self, name, r):
        self.err = name
        return r

    def c_PyErr_SetString(self, n, exc, msg):
        self.no_loop("PyErr_SetString")
        self.err = exc.name.replace("PyExc_", "")

    def c_PyErr_Format(self, n, exc, *a):
        self.c_PyErr_SetString(n, exc, "")
        return NULL

    def c_PyErr_NoMemory(self, n):
        return self._err("MemoryError", NULL)

    def c_PyErr_Occurred(self, n):
        return NULL if self.err is None else PyObj("static", name="PyExc_" + self.err)

    def _release(self, n, o):
        self.no_loop("reference release")
        if not isinstance(o, PyObj):
            raise Unsupported("reference count of a non-object")
        if o.kind == "static":
            return
        self.must("no reference is released that is not owned", o.refs > (1 if not o.made else 0), n)
        o.refs -= 1

    def c_vc_decref(self, n, o):
        if isinstance(o, NullPtr):
            self.must("no NULL pointer is dereferenced", False, n)
        self._release(n, o)

    def c_vc_xdecref(self, n, o):
        if not isinstance(o, NullPtr):
            self._release(n, o)

    def c_vc_incref(self, n, o):
        self.no_loop("reference")
        if isinstance(o, NullPtr):
            self.must("no NULL pointer is dereferenced", False, n)
        if not isinstance(o, PyObj):
            raise Unsupported("reference count of a non-object")
        o.refs += 1

    def c_vc_xincref(self, n, o):
        if not isinstance(o, NullPtr):
            self.c_vc_incref(n, o)

    def made(self, o):
        o.made = True
        self.objs.append(o)
        return o

    def c_Py_BuildValue(self, n, fmt, *a):
        fmt = fmt.strip()
        inner = fmt[1:-1] if fmt.startswith("(") and fmt.endswith(")") else fmt
        if any(c not in "NO" for c in inner) or len(inner) != len(a):
            raise Unsupported("Py_BuildValue format")
        for c, o in zip(inner, a):
            if not isinstance(o, PyObj):
                self.must("no NULL pointer is dereferenced", False, n)
            self.must("no released object is used", o.refs > 0, n)
            if c == "O":
                o.refs += 1
        if len(inner) == 1 and fmt == inner:
            return a[0]
        return self.made(PyObj("tuple", items=list(a)))

    def c_PyTuple_Pack(self, n, cnt, *a):
        for o in a:
            self.c_vc_incref(n, o)
        return self.made(PyObj("tuple", items=list(a)))

    def c_PyTuple_New(self, n, cnt):
        c = concrete(to_z3(cnt))
        if c is None:
            raise Unsupported("tuple length")
        if self.fails("tuple"):
            return self._err("MemoryError", NULL)
        return self.made(PyObj("tuple", items=[None] * int(c)))

    def c_PyTuple_SetItem(self, n, t, i, o):
        c = concrete(to_z3(i))
        self.must("tuple item inside", c is not None and 0 <= c < len(t.items), n)
        t.items[int(c)] = o
        return 0

    # NumPy
    def _from(self, n, o, typ, flags):
        typ, flags = concrete(to_z3(typ)), concrete(to_z3(flags))
        if typ is None or flags is None:
            raise Unsupported("array conversion arguments")
        if isinstance(o, NullPtr):
            self.must("no NULL pointer is dereferenced", False, n)
        self.must("no released object is used", o.refs > 0, n)
        if o.kind != "array":
            raise Unsupported("conversion of a non-array")
        if self.fails("conversion"):
            return self._err("MemoryError", NULL)
        flags = int(flags)
        r = PyObj("array", ndim=o.ndim, shape=o.shape, image=o.image)
        r.data = None
        if o.image is not None:
            copy = bool(flags & 0x20)
            cf = bool(flags & 1)
            a = o.image
            body = a.content()
            r.data = self.new_mem("array", "double" if typ == 12 else "other", list(a._sh), "image", body=body, owner=r,
                                  writable=copy)
            # a C-contiguous aligned native double array is what the row pointers assume
            r.data.layout = cf and bool(flags & 0x100 or flags & 0x20 or True)
        return self.made(r)

    def c_vc_from_otf(self, n, o, t, f):
        return self._from(n, o, t, f)

    def c_vc_from_any(self, n, o, t, mn, mx, f):
        o2 = o
        if isinstance(o2, PyObj) and o2.kind == "array":
            lo, hi = concrete(to_z3(mn)), concrete(to_z3(mx))
            nd = o2.ndim if not isinstance(o2.ndim, int) else z3.IntVal(o2.ndim)
            bad = z3.Or(nd < int(lo), z3.And(z3.BoolVal(int(hi) > 0), nd > int(hi)))
            if self.ctx.branch(bad):
                return self._err("ValueError", NULL)
        return self._from(n, o, t, f)

    def _new_array(self, n, nd, dims, typ, order, zero):
        c, t, f = concrete(to_z3(nd)), concrete(to_z3(typ)), concrete(to_z3(order))
        if None in (c, t, f):
            raise Unsupported("array creation arguments")
        sh = []
        for j in range(int(c)):
            v = self.load(dims, z3.IntVal(j), n)
            if isinstance(v, Uninit):
                self.bad_read(v, n)
            sh.append(to_z3(v))
        for s in sh:
            self.oblige("array dimensions are not negative", s >= 0, n)
        if self.fails("array"):
            return self._err("MemoryError", NULL)
        r = PyObj("array", ndim=int(c), shape=sh, image=None)
        r.data = None
        r.dtype = int(t)
        r.fortran = bool(f)
        if len(sh) == 2:
            r.data = self.new_mem("array", "double" if t == 12 else "other", sh[::-1] if f else sh, "result array",
                                  zero, owner=r)
        elif len(sh) == 1:
            r.data = self.new_mem("array", "double" if t == 12 else "other", sh, "result array", zero, owner=r)
        else:
            raise Unsupported("array rank")
        return self.made(r)

    def c_vc_zeros(self, n, nd, dims, typ, order):
        return self._new_array(n, nd, dims, typ, order, True)

    def c_vc_empty(self, n, nd, dims, typ, order):
        return self._new_array(n, nd, dims, typ, order, False)

    def c_PyArray_Return(self, n, o):
        if isinstance(o, NullPtr):
            return o
        return self.array(o, n)

    def c_vc_ndim(self, n, o):
        o = self.array(o, n)
        return Sym(o.ndim) if not isinstance(o.ndim, int) else o.ndim

    def c_vc_dims(self, n, o):
        return CPtr(DimsOf(self.array(o, n)), z3.IntVal(0), "long")

    def c_vc_dim(self, n, o, i):
        return DimsOf(self.array(o, n)).get(self, to_z3(i), n)

    def c_vc_data(self, n, o):
        return self.member(o, "data", n)

    def c_vc_type(self, n, o):
        o = self.array(o, n)
        raise Unsupported("element type of an array")

    def c_vc_check(self, n, o):
        return 1 if isinstance(o, PyObj) and o.kind == "array" else 0

    def c_vc_getptr2(self, n, o, i, j):
        o = self.array(o, n)
        if o.data is None or not o.data.layout or getattr(o, "fortran", False):
            raise Unsupported("element pointer into an array of unknown layout")
        m = o.data
        off = simp(to_z3(i) * to_z3(m.a._sh[1]) + to_z3(j))
        return CPtr(m, off, m.ctype)

    # ---- entry ----------------------------------------------------------------------
    def run(self, method, items):
        """Call the Python-level function; (result or NULL)."""
        tbl = self.unit.methods()
        if method not in tbl:
            raise Unsupported(f"no function {method} in the method table")
        args = PyObj("args", items=items)
        self_obj = PyObj("static", name="module")
        self.args = args
        return self.call_function(tbl[method], [self_obj, args])

    def exit_checks(self, r, label):
        """Ownership at the end of a call."""
        k = self.k
        res = []
        if isinstance(r, PyObj):
            res = [r] + (r.items if r.kind == "tuple" else [])
        for o in self.objs:
            want = sum(1 for x in res if x is o)
            what = "results are owned by the caller once" if want else "everything but the results is released"
            k.check(f"{label}: {what}", o.refs == want, f"{o.kind}: {o.refs} references, {want} expected")
        for x in self.args.items:
            if isinstance(x, PyObj) and x.kind != "static":
                k.check(f"{label}: references of the arguments are balanced", x.refs == 1, f"{x.refs} references")
        for b in self.blocks:
            if isinstance(b, Raw):
                k.check(f"{label}: every allocated block is freed", not b.alive)


class DimsOf:
    def __init__(self, o):
        self.o = o

    def get(self, c, i, node):
        c.must("no released object is used", self.o.refs > 0, node)
        nd = self.o.ndim if not isinstance(self.o.ndim, int) else z3.IntVal(self.o.ndim)
        c.oblige("array dimension index inside", z3.And(i >= 0, i < nd), node)
        v = concrete(simp(i))
        if v is None or self.o.shape is None:
            raise Unsupported("dimension index")
        if not 0 <= v < len(self.o.shape):
            raise CFail()
        return Sym(self.o.shape[int(v)])


OTHER = object()
_CEIL = {}


def ceil_div(ctx, d, s):
    """Number of steps of size s > 0 that fit in d (a function of d and s)."""
    return simp((d + s - 1) / s)


def exact_count(size, sz):
    """size / sz for a byte count."""
    v = concrete(size)
    if v is not None:
        return z3.IntVal(int(v) // sz)
    d = z3.simplify(size, som=True)
    terms = d.children() if d.decl().kind() == z3.Z3_OP_ADD else [d]
    out = []
    for t in terms:
        v = concrete(t)
        if v is not None and v % sz == 0:
            out.append(z3.IntVal(int(v) // sz))
            continue
        if t.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % sz == 0:
            c = t.arg(0).as_long() // sz
            rest = t.children()[1:]
            x = rest[0]
            for y in rest[1:]:
                x = x * y
            out.append(x if c == 1 else c * x)
            continue
        return simp(size / sz)
    return simp(z3.Sum(out)) if len(out) > 1 else out[0]
