"""Core of the verifier: path exploration, symbolic scalars, uninterpreted
library applications, and the prover.

A *contract run* executes the real (mechanically loaded) Python function under
CPython with symbolic values.  Every time the program needs the truth value of
a symbolic condition the current path forks (``Ctx.branch``); all feasible
paths are visited by re-execution.  On each path the contract's obligations are
discharged by z3 (``Ctx.prove``).
"""

import fractions
import itertools
import time

import z3

z3.set_param("model.completion", True)


class Unsupported(BaseException):
    """The code uses something outside the verifier's reach (not a verdict)."""


class Infeasible(BaseException):
    """The current path has a contradictory path condition."""


class Budget(Unsupported):
    """Path or time budget exhausted."""


def modelled(exc):
    """Mark an exception as deliberately raised by a library model."""
    exc._vc_modelled = True
    return exc


INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()

# canonical array index variables, parameters of applications
IDX = [z3.Int(f"I!{k}") for k in range(8)]
PARAM = [z3.Int(f"P!{k}") for k in range(16)]
_IDX_IDS = {v.get_id(): k for k, v in enumerate(IDX)}


# --------------------------------------------------------------------------
# helpers on z3 terms
# --------------------------------------------------------------------------
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def real_val(x):
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    # decimal repr of a float: identifies 0.1 with 1/10 (floats as reals)
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float constant in arithmetic")
    return z3.RealVal(repr(x))


def to_z3(x):
    """Convert python/Sym scalar into a z3 term."""
    if isinstance(x, Sym):
        return x.e
    if is_z3(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, fractions.Fraction)):
        return real_val(x)
    import numpy as _n

    if isinstance(x, _n.bool_):
        return z3.BoolVal(bool(x))
    if isinstance(x, _n.integer):
        return z3.IntVal(int(x))
    if isinstance(x, _n.floating):
        return real_val(float(x))
    raise Unsupported(f"cannot convert {type(x).__name__} to a term")


def as_int(e):
    e = to_z3(e)
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(e):
        return e
    raise Unsupported("integer expected")


def as_real(e):
    e = to_z3(e)
    if z3.is_bool(e):
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def as_bool(e):
    e = to_z3(e)
    if z3.is_bool(e):
        return e
    return e != 0


def simp(e):
    return z3.simplify(e)


def concrete(e):
    """Return the python value of a constant z3 term or None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def trunc_real(e):
    """Truncate a real term towards zero (C cast)."""
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


_KIDS = {}  # id -> (term kept alive, [(child id, child)])


def kids(t, i=None):
    """Children of a term with their ids (cached: the python bindings are slow)."""
    i = t.get_id() if i is None else i
    r = _KIDS.get(i)
    if r is None:
        if len(_KIDS) > 400000:
            _KIDS.clear()
        cs = [t.body()] if isinstance(t, z3.QuantifierRef) else t.children()
        r = _KIDS[i] = (t, [(c.get_id(), c) for c in cs])
    return r[1]


def walk(e, seen=None):
    """Iterate over all subterms once."""
    seen = set() if seen is None else seen
    stack = [(e.get_id(), e)]
    while stack:
        i, t = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        yield t
        stack.extend(kids(t, i))


# --------------------------------------------------------------------------
# uninterpreted functions with a nan-meaning
# --------------------------------------------------------------------------
SQRT = z3.Function("sqrt", REAL, REAL)
LOG = z3.Function("log", REAL, REAL)
EXP = z3.Function("exp", REAL, REAL)
POW = z3.Function("pow", REAL, REAL, REAL)
SIN = z3.Function("sin", REAL, REAL)
COS = z3.Function("cos", REAL, REAL)
TAN = z3.Function("tan", REAL, REAL)
ATAN2 = z3.Function("arctan2", REAL, REAL, REAL)
# a value "x / 0" (inf or nan): uninterpreted in the numerator
DIV0 = z3.Function("div0", REAL, REAL)


def div(a, b):
    a, b = as_real(a), as_real(b)
    return a / b


def nan_pred(e, memo=None):
    """Condition under which the IEEE evaluation of e is nan (structural)."""
    return _nan_inf(e, {} if memo is None else memo)[0]


def _nan_inf(e, memo):
    """(nan, infinite) conditions; infinities of unknown sign are not subtracted."""
    i = e.get_id()
    if i not in memo:
        memo[i] = (e, _nan_inf_1(e, memo))
    return memo[i][1]


def _nan_inf_1(e, memo):
    F = z3.BoolVal(False)
    if not z3.is_app(e) or e.num_args() == 0:
        return F, F
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ITE:
        (na, ia), (nb, ib) = _nan_inf(ch[1], memo), _nan_inf(ch[2], memo)
        return simp(z3.If(ch[0], na, nb)), simp(z3.If(ch[0], ia, ib))
    if z3.is_bool(e):
        return F, F
    nan, inf = [], []
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        if n in ("sqrt", "log"):
            nan.append(ch[0] < 0)
        elif n not in ("exp", "pow", "sin", "cos", "tan", "arctan2"):
            return F, F  # library values and inputs: never nan
    cl = [_nan_inf(c, memo) for c in ch]
    nan += [c[0] for c in cl]
    infs = [c[1] for c in cl]
    if k == z3.Z3_OP_DIV:
        fin = z3.Not(z3.Or(*infs))
        nan += [z3.And(fin, ch[0] == 0, ch[1] == 0), z3.And(*infs)]
        inf = [z3.And(infs[0], z3.Not(infs[1])), z3.And(fin, ch[0] != 0, ch[1] == 0)]
    elif k == z3.Z3_OP_MUL:
        for a in range(len(ch)):
            if not z3.is_false(infs[a]):
                nan += [z3.And(infs[a], ch[b] == 0) for b in range(len(ch)) if b != a]
        inf = infs
    else:
        inf = infs
    N = simp(z3.Or(*nan))
    return N, simp(z3.And(z3.Not(N), z3.Or(*inf)))


# --------------------------------------------------------------------------
# applications of opaque library functions
# --------------------------------------------------------------------------
class Decl:
    """One interned application ``name(args)``; ``fn`` is its value function.

    ``fn`` takes first the parameters (loop variables free in the arguments)
    and then the output indices.
    """

    def __init__(self, ident, name, nparam, nidx, sort, args):
        self.id, self.name, self.nparam, self.nidx = ident, name, nparam, nidx
        self.args = args
        self.sort = sort
        self.fn = z3.Function(f"{name}!{ident}", *([INT] * (nparam + nidx)), sort)


class Registry:
    def __init__(self):
        self.by_key = {}
        self.by_name = {}  # z3 function name -> Decl
        self.families = {}
        self.axioms = []  # callables (decl, params, idx) -> facts
        self.inputs = {}  # z3 function name -> fact callable(args, term)

    def intern(self, name, canon, nparam, nidx, sort):
        key = (name, nparam, nidx, str(sort), tuple(k for k, _ in canon))
        d = self.by_key.get(key)
        if d is None:
            d = Decl(len(self.by_key), name, nparam, nidx, sort, [v for _, v in canon])
            self.by_key[key] = d
            self.by_name[d.fn.name()] = d
            self.families.setdefault((name, nidx, str(sort)), []).append(d)
        return d


REG = Registry()


class ArrArg:
    """Canonicalised array argument of an application."""

    def __init__(self, shape, body, dtype, nanp=None):
        self.shape, self.body, self.dtype, self.nanp = shape, body, dtype, nanp


def make_app(name, args, nidx=0, sort=None, ctx=None):
    """Create (or find) the application ``name(*args)``.

    args: list of ('arr', shape(list of terms), body, dtype) | ('val', term)
    | ('py', hashable).  Returns function idx_terms -> term.
    """
    ctx = ctx or CTX()
    sort = REAL if sort is None else sort
    loopvars = []
    seen = set()

    def collect(t):
        for s in walk(t, seen):
            if s.num_args() == 0 and s.get_id() in ctx.loopvar_ids:
                loopvars.append(s)

    norm = []
    for a in args:
        if a[0] == "arr":
            _, shape, body, dt = a
            if str(dt).startswith("float"):
                dt = "float64"  # floats are reals, whatever their width
            shape = [simp(to_z3(s)) for s in shape]
            body = ctx.norm(body, shape)
            norm.append(("arr", shape, body, dt))
            for s in shape:
                collect(s)
            collect(body)
        elif a[0] == "val":
            v = simp(a[1])
            norm.append(("val", v))
            collect(v)
        else:
            norm.append(a)
    # deterministic order: by creation order of the loop variable
    loopvars.sort(key=lambda v: ctx.loopvar_ids[v.get_id()])
    sub = [(v, PARAM[i]) for i, v in enumerate(loopvars)]
    canon = []
    for a in norm:
        if a[0] == "arr":
            _, shape, body, dt = a
            if sub:
                shape = [simp(z3.substitute(s, *sub)) for s in shape]
                body = simp(z3.substitute(body, *sub))
            key = ("arr", tuple(s.get_id() for s in shape), body.get_id(), str(dt))
            canon.append((key, ("arr", shape, body, dt)))
        elif a[0] == "val":
            v = simp(z3.substitute(a[1], *sub)) if sub else a[1]
            canon.append((("val", v.get_id()), ("val", v)))
        else:
            canon.append((("py", a[1]), a))
    d = REG.intern(name, canon, len(loopvars), nidx, sort)
    params = list(loopvars)

    def at(*idx):
        return d.fn(*params, *[to_z3(i) for i in idx])

    at.decl = d
    at.params = params
    return at


# --------------------------------------------------------------------------
# context
# --------------------------------------------------------------------------
_CTX = []


def CTX():
    return _CTX[-1]


class Outcome:
    def __init__(self, kind, value, ctx):
        self.kind, self.value, self.ctx = kind, value, ctx

    def __repr__(self):
        return f"<{self.kind} {self.value!r}>"


BEAT = None  # shared with the parent process: time of the last sign of progress


def beat():
    if BEAT is not None:
        BEAT.value = time.time()


class Ctx:
    """State of one path."""

    def __init__(self, prefix=(), deadline=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.trail = []
        self.pending = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 3000)
        self.rlimit = 0
        self.fact_seen = set()
        self.fresh = itertools.count()
        self.loopvar_ids = {}
        self.loopvar_keep = []
        self.ranges = {}  # loopvar id -> (lo, hi) bounds for local facts
        self.log = []  # events: warnings, prints, calls, files
        self.ghost = {}
        self.spec = set()  # state variables of loop bodies executed to find an invariant
        self.tokens = {}  # token string -> value
        self.token_of = {}
        self.loop_depth = 0
        self.deadline = deadline
        self.norm_memo = {}
        self.nsplit = 0
        self.inputs = {}  # name -> description for counterexamples
        self.files = {}
        self.solver_time = 0.0
        self.facts = []
        self.hints = []

    # ---- fresh symbols -----------------------------------------------
    def name(self, base):
        return f"{base}~{next(self.fresh)}"

    def fresh_int(self, base):
        return z3.Int(self.name(base))

    def fresh_real(self, base):
        return z3.Real(self.name(base))

    def loopvar(self, base="k"):
        v = z3.Int(self.name(base))
        self.loopvar_ids[v.get_id()] = len(self.loopvar_keep)
        self.loopvar_keep.append(v)
        return v

    # ---- assumptions --------------------------------------------------
    def assume(self, c):
        c = to_z3(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self._add_facts(c)
        self.solver.add(c)

    def _add_facts(self, e):
        for f in facts_of(e, self.fact_seen):
            self.facts.append(f)
            self.solver.add(f)
            self._add_facts(f)

    def check_time(self):
        beat()
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def feasible(self, c):
        self.check_time()
        self._add_facts(c)
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.solver_time += time.time() - t
        return r != z3.unsat

    def dead(self):
        """The path condition is contradictory (a quick question)."""
        if self.rlimit:
            self.solver.set("rlimit", self.rlimit // 10)
        r = not self.feasible(z3.BoolVal(True))
        if self.rlimit:
            self.solver.set("rlimit", self.rlimit)
        return r

    def entails(self, c, quick=False):
        c = simp(to_z3(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), len(self.pc))
        memo = self.norm_memo.setdefault("ent", {})
        if key in memo:
            return memo[key][1]
        if quick and self.rlimit:
            self.solver.set("rlimit", self.rlimit // 10)
        r = not self.feasible(z3.Not(c))
        if quick and self.rlimit:
            self.solver.set("rlimit", self.rlimit)
        memo[key] = (c, r)
        return r

    def entails_light(self, c):
        """Entailment with quotients, products and applications taken as atoms."""
        memo = {}
        fs = [_abstract(simp(f), memo) for f in list(self.pc) + [z3.Not(to_z3(c))]]
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r == z3.unsat

    def entails_mono(self, c):
        """Entailment with products and quotients as atoms, plus instances of the monotonicity of products."""
        memo = {}
        c = simp(to_z3(c))
        fs = [_abstract(simp(f), memo) for f in list(self.pc) + mono(self, c) + [z3.Not(c)]]
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r == z3.unsat

    def branch(self, cond):
        c = simp(to_z3(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.spec and any(x.num_args() == 0 and x.get_id() in self.spec for x in walk(c)):
            # first execution of a loop body: only proposes an invariant, the
            # second execution checks it
            if self.feasible(c):
                return True
            if not self.feasible(z3.Not(c)):
                raise Infeasible()
            return False
        known = self.norm_memo.setdefault("known", {})
        if c.get_id() in known:
            return known[c.get_id()][1]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(val)
            known[c.get_id()] = (c, val)
            self.assume(c if val else z3.Not(c))
            return val
        t = self.feasible(c)
        f = self.feasible(z3.Not(c))
        if not t and not f:
            raise Infeasible()
        self.pos += 1
        if t and f:
            if self.loop_depth and self._mentions_loopvar(c):
                if self.entails_mono(c):
                    f = False
                elif self.entails_mono(z3.Not(c)):
                    t = False
                else:
                    raise Unsupported("branch on a loop-dependent condition")
        if t and f:
            self.nsplit += 1
            if self.nsplit > 60:
                raise Budget("too many splits on one path")
            self.pending.append(self.trail + [False])
            val = True
        else:
            val = t
        self.trail.append(val)
        known[c.get_id()] = (c, val)
        self.assume(c if val else z3.Not(c))
        return val

    def choose(self, n):
        """Fork over n alternatives (used by contracts)."""
        for i in range(n - 1):
            b = z3.Bool(f"choice!{len(self.trail)}")
            if self.branch(b):
                return i
        return n - 1

    def _mentions_loopvar(self, c):
        return any(
            s.num_args() == 0 and s.get_id() in self.loopvar_ids for s in walk(c)
        )

    # ---- normal forms ----------------------------------------------------
    def norm(self, body, shape=None):
        return simp(body)

    def int_value(self, e):
        """Concrete int if the path condition fixes it, else None."""
        e = simp(to_z3(e))
        v = concrete(e)
        if v is not None:
            return int(v)
        self._add_facts(e)
        if self.solver.check() != z3.sat:
            return None
        m = self.solver.model().eval(e, model_completion=True)
        v = concrete(m)
        if v is None:
            return None
        return int(v) if self.entails(e == m) else None

    # ---- tokens -------------------------------------------------------
    def token(self, value_expr, kind="v"):
        e = simp(value_expr)
        key = (kind, e.get_id())
        if key not in self.token_of:
            t = f"\u27e8{kind}{len(self.token_of)}\u27e9"
            self.token_of[key] = (t, e)
            self.tokens[t] = (kind, e)
        return self.token_of[key][0]

    # ---- proving --------------------------------------------------------
    def prove(self, goal, timeout=20000):
        """Return ('proved'|'refuted'|'unknown', model or None)."""
        return prove(self.pc, to_z3(goal), timeout, self)


def mono(ctx, goal, more=()):
    """Instances of monotonicity of multiplication for products in the goal."""
    prods = {}
    for f in list(ctx.pc) + [goal] + list(more):
        for t in walk(f):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and z3.is_int(t):
                for i, y in enumerate(t.children()):
                    if z3.is_int_value(y):
                        continue
                    rest = [c for j, c in enumerate(t.children()) if j != i]
                    x = rest[0]
                    for c in rest[1:]:
                        x = x * c
                    prods.setdefault(y.get_id(), (y, {}))[1][simp(x).get_id()] = simp(x)
            elif z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)):
                y = t.arg(1)
                q = t.arg(0) / y
                prods.setdefault(y.get_id(), (y, {}))[1][q.get_id()] = q
    out = []
    for y, xs in prods.values():
        xs = list(xs.values())
        for x in xs:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_IDIV and x.arg(1).get_id() == y.get_id():
                out.append(z3.Implies(y > 0, z3.And(x * y <= x.arg(0), x.arg(0) < x * y + y)))
        for a in xs[:8]:
            for b in xs[:8]:
                if a is not b:
                    out.append(z3.Implies(z3.And(a < b, y >= 0), a * y + y <= b * y))
            out.append(z3.Implies(z3.And(a >= 0, y >= 0), a * y >= 0))
            out.append(z3.Implies(z3.And(a >= 1, y >= 0), a * y >= y))
    return out


def _abstract(e, memo):
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    r = e
    if z3.is_app(e) and e.num_args():
        k = e.decl().kind()
        ch = e.children()
        atom = k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_UNINTERPRETED) or (
            k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in ch) > 1)
        if atom:
            r = z3.Const(f"abs!{i}", e.sort())
        else:
            n = [_abstract(c, memo) for c in ch]
            if any(a.get_id() != b.get_id() for a, b in zip(n, ch)):
                r = e.decl()(*n)
    memo[i] = (e, r)
    return r


def facts_of(e, seen):
    """Range facts for input elements, axioms for special functions."""
    out = []
    for t in walk(e, seen):
        if not z3.is_app(t):
            continue
        d = t.decl()
        if d.kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        if t.num_args() == 0 and d.name() not in REG.by_name:
            f = REG.inputs.get(d.name())
            if f:
                out.extend(f((), t))
            continue
        n = d.name()
        f = REG.inputs.get(n)
        if f:
            out.extend(f(t.children(), t))
            continue
        if n == "sqrt":
            x = t.arg(0)
            out.append(t >= 0)
            out.append(z3.Implies(x >= 0, t * t == x))
        elif n == "exp":
            out.append(t > 0)
        elif n == "pow":
            x, y = t.children()
            out += [z3.Implies(y == 0, t == 1), z3.Implies(y == 1, t == x), z3.Implies(z3.And(x == 0, y > 0), t == 0),
                    z3.Implies(x >= 0, t >= 0), z3.Implies(x > 0, t > 0)]
        elif n in REG.by_name:
            dec = REG.by_name[n]
            for ax in REG.axioms:
                out.extend(ax(dec, t))
    return out


STATS = {"obligations": 0, "proved": 0, "refuted": 0, "unknown": 0, "time": 0.0}


INSTANCES = []


def _solve(pc, goal, timeout, ctx):
    beat()
    goal = simp(goal)
    if z3.is_true(goal):
        return "proved", None
    s = z3.Solver()
    s.set("timeout", timeout)
    seen = set()
    fs = []

    def addf(e):
        for f in facts_of(e, seen):
            fs.append(f)
            addf(f)

    for p in pc:
        s.add(p)
        addf(p)
    ng = z3.Not(goal)
    addf(ng)
    for f in list(fs):
        s.add(f)
    for h in ctx.hints:
        for f in h(pc, goal, fs):
            s.add(f)
            addf(f)
    s.add(*fs) if fs else None
    if INSTANCES:
        ins = INSTANCES[0](list(pc) + fs + [ng])
        for f in ins:
            s.add(f)
            addf(f)
        s.add(*fs) if fs else None
    s.add(ng)
    t0 = time.time()
    r = s.check()
    STATS["time"] += time.time() - t0
    if r == z3.unsat:
        return "proved", None
    if r == z3.sat:
        return "refuted", s.model()
    return "unknown", None


def _app_terms(es):
    out = {}
    seen = set()
    for e in es:
        for t in walk(e, seen):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                d = REG.by_name.get(t.decl().name())
                if d is not None:
                    out.setdefault((d.name, d.nidx, str(d.sort), len(d.args)), []).append((d, t))
    return out


def _has_idx(t):
    return any(s.num_args() == 0 and s.get_id() in _IDX_IDS for s in walk(t))


def _has_skolem(t):
    return any(
        z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().name().startswith("sk~")
        for s in walk(t)
    )


def _congruence_lemmas(hyps, goal, ctx, depth, timeout, wide=False):
    """Equalities between applications whose arguments are provably equal."""
    lemmas = []
    memo = ctx.norm_memo.setdefault("cong", {})
    ctx.norm_memo.setdefault("keep", []).extend(hyps)
    base = ctx.norm_memo.get("base")
    if depth == 0 or base is None:
        base = ctx.norm_memo["base"] = list(hyps)
    mine = {t.get_id() for fam in _app_terms([goal]).values() for _, t in fam}
    for fam in _app_terms((list(hyps) if wide else []) + [goal]).values():
        if wide and not any(t.get_id() in mine for _, t in fam):
            continue
        # distinct (decl, params)
        reps = {}
        for d, t in fam:
            p = t.children()[: d.nparam]
            reps.setdefault((d.id, tuple(x.get_id() for x in p)), (d, p, []))[2].append(t)
        keys = list(reps)
        if len(keys) > 40:
            keys = keys[:40]
        for i, ka in enumerate(keys):
            for kb in keys[i + 1 :]:
                da, pa, ta = reps[ka]
                db, pb, tb = reps[kb]
                ctx.norm_memo["keep"].extend(pa)
                ctx.norm_memo["keep"].extend(pb)
                use = hyps if any(_has_skolem(x) for x in pa + pb) else base
                key = (ka, kb, tuple(h.get_id() for h in use))
                if key not in memo:
                    ctx.check_time()
                    memo[key] = False  # cut recursion
                    memo[key] = _args_equal(use, da, pa, db, pb, ctx, depth, timeout)
                if memo[key]:
                    for x in ta:
                        for y in tb:
                            ix, iy = x.children()[da.nparam :], y.children()[db.nparam :]
                            eqs = [u == v for u, v in zip(ix, iy) if u.get_id() != v.get_id()]
                            lemmas.append(z3.Implies(z3.And(*eqs), x == y) if eqs else x == y)
    return lemmas


def _args_equal(hyps, a, pa, b, pb, ctx, depth, timeout):
    sa = [(PARAM[k], pa[k]) for k in range(a.nparam)]
    sb = [(PARAM[k], pb[k]) for k in range(b.nparam)]

    def S(e, s):
        return z3.substitute(e, *s) if s else e

    todo = []
    for x, y in zip(a.args, b.args):
        if x[0] != y[0]:
            return False
        if x[0] == "py":
            if x[1] != y[1]:
                return False
            continue
        if x[0] == "val":
            ex, ey = S(x[1], sa), S(y[1], sb)
            if ex.sort() != ey.sort():
                return False
            if ex.get_id() != ey.get_id():
                todo.append(ex == ey)
            continue
        _, sx, bx, dx = x
        _, sy, by, dy = y
        if len(sx) != len(sy) or bx.sort() != by.sort() or str(dx) != str(dy):
            return False
        sx = [S(s, sa) for s in sx]
        sy = [S(s, sb) for s in sy]
        bx, by = S(bx, sa), S(by, sb)
        sk = [ctx.fresh_int("sk") for _ in sx]
        rng = [z3.And(sk[k] >= 0, sk[k] < sx[k]) for k in range(len(sx))]
        si = [(IDX[k], sk[k]) for k in range(len(sx))]
        for u, v in zip(sx, sy):
            if u.get_id() != v.get_id():
                todo.append(u == v)
        if by.get_id() != bx.get_id():
            bx, by = S(bx, si), S(by, si)
            todo.append(z3.Implies(z3.And(*rng), bx == by) if rng else bx == by)
    for g in todo:
        if prove_rec(hyps, g, min(timeout, 5000), ctx, depth + 1)[0] != "proved":
            return False
    return True


def _constant_sum_lemmas(hyps, goal, ctx, depth, timeout):
    """A sum whose every term is provably 1 is the number of its terms, one of zeros is zero."""
    out = []
    memo = ctx.norm_memo.setdefault("constsum", {})
    for fam in _app_terms([goal]).values():
        for d, t in fam:
            if d.name not in ("SUM", "SUMI"):
                continue
            _, shape, body, _ = d.args[0]
            sp = [(PARAM[k], x) for k, x in enumerate(t.children()[: d.nparam])]
            shape = [z3.substitute(s, *sp) if sp else s for s in shape]
            body = z3.substitute(body, *sp) if sp else body
            key = (t.get_id(), tuple(h.get_id() for h in hyps))
            if key not in memo:
                ctx.norm_memo.setdefault("keep", []).append(t)
                memo[key] = False
                sk = [ctx.fresh_int("sk") for _ in shape]
                rng = [z3.And(a >= 0, a < n) for a, n in zip(sk, shape)]
                g = z3.substitute(body, *[(IDX[k], a) for k, a in enumerate(sk)]) == 1
                memo[key] = prove_rec(hyps + rng, g, min(timeout, 5000), ctx, depth + 1)[0] == "proved"
                if not memo[key] and z3.is_rational_value(simp(body)) and simp(body).as_fraction() == 0:
                    memo[key] = 0
            if memo[key] == 0 and memo[key] is not False:
                out.append(t == 0)
            elif memo[key]:
                n = z3.IntVal(1)
                for s in shape:
                    n = n * s
                n = simp(z3.ToReal(n) if t.sort() == REAL else n)
                pos = z3.And(*[s > 0 for s in shape]) if shape else z3.BoolVal(True)
                if prove_rec(hyps, pos, 2000, ctx, depth + 1)[0] == "proved":
                    out += [t == n, n > 0]
                else:
                    out.append(t == z3.If(pos, n, 0))
    return out + _mixed_sum_lemmas(hyps, goal, ctx, depth, timeout)


def _mixed_sum_lemmas(hyps, goal, ctx, depth, timeout):
    """A sum of reals that are provably the terms of a sum of integers."""
    terms = {"SUM": {}, "SUMI": {}}
    for fam in _app_terms([goal]).values():
        for d, t in fam:
            if d.name in terms:
                terms[d.name][t.get_id()] = (d, t)
    out = []

    def inst(d, t):
        _, shape, body, _ = d.args[0]
        sp = [(PARAM[k], x) for k, x in enumerate(t.children()[: d.nparam])]
        return [z3.substitute(s, *sp) if sp else s for s in shape], z3.substitute(body, *sp) if sp else body

    for d, t in list(terms["SUM"].values())[:3]:
        for e, u in list(terms["SUMI"].values())[:3]:
            (sa, ba), (sb, bb) = inst(d, t), inst(e, u)
            if len(sa) != len(sb) or any(not z3.eq(simp(x), simp(y)) for x, y in zip(sa, sb)):
                continue
            sk = [ctx.fresh_int("sk") for _ in sa]
            rng = [z3.And(a >= 0, a < n) for a, n in zip(sk, sa)]
            si = [(IDX[k], a) for k, a in enumerate(sk)]
            g = z3.substitute(ba, *si) == z3.ToReal(z3.substitute(bb, *si))
            if prove_rec(hyps + rng, g, min(timeout, 5000), ctx, depth + 1)[0] == "proved":
                out.append(t == z3.ToReal(u))
    return out


def _relevant(hyps, goal):
    """Hypotheses about library values that the goal mentions."""
    by = REG.by_name.keys()
    g = {n for n in _names(goal) if n in by}
    return [h for h in hyps if all(n in g for n in _names(h) if n in by)]


_NAMES = {}


def _names(e):
    """Names of all symbols of a term."""
    r = _NAMES.get(e.get_id())
    if r is None:
        if len(_NAMES) > 20000:
            _NAMES.clear()
        r = _NAMES[e.get_id()] = (frozenset(t.decl().name() for t in walk(e) if z3.is_app(t)), e)
    return r[0]


def prove_rec(hyps, goal, timeout, ctx, depth=0):
    hyps = list(hyps)
    while True:
        if z3.is_implies(goal):
            hyps.append(goal.arg(0))
            goal = goal.arg(1)
            continue
        if z3.is_not(goal) and z3.is_not(goal.arg(0)):
            goal = goal.arg(0).arg(0)
            continue
        break
    if z3.is_and(goal):
        worst = ("proved", None)
        for g in goal.children():
            r = prove_rec(hyps, g, timeout, ctx, depth)
            if r[0] == "refuted":
                return r
            if r[0] != "proved":
                worst = r
        return worst
    if z3.is_true(simp(goal)):
        return "proved", None
    rel = _relevant(hyps, goal)
    again = any(len({d.id for d, _ in fam}) > 1 for fam in _app_terms([goal]).values())
    if len(rel) < len(hyps) and _solve(rel, goal, 300 if again and depth == 0 else 1500, ctx)[0] == "proved":
        return "proved", None
    r, m = _solve(hyps, goal, min(timeout, 800 if again and depth <= 6 else 6000), ctx)
    if r == "proved" or depth > 6:
        return r, m
    if r == "unknown":
        from . import normal

        g2 = normal.exact_div(hyps, goal, ctx)
        if not z3.eq(g2, goal):
            return prove_rec(hyps, g2, timeout, ctx, depth + 1)
        g2 = normal.abstract(hyps, goal, ctx, depth, timeout)
        if not z3.eq(g2, goal) and prove_rec(hyps, g2, timeout, ctx, depth + 1)[0] == "proved":
            return "proved", None
    lem = _congruence_lemmas(hyps, goal, ctx, depth, timeout)
    if lem:
        if _solve(lem, goal, 500, ctx)[0] == "proved":
            return "proved", None
        r, m = _solve(hyps + lem, goal, timeout, ctx)
    if r != "proved" and depth == 0:
        more = _constant_sum_lemmas(hyps, goal, ctx, depth, timeout)
        if more:
            if _solve(more, goal, 2000, ctx)[0] == "proved":
                return "proved", None
            lem = lem + more
            r, m = _solve(hyps + lem, goal, timeout, ctx)
    if r != "proved" and depth == 0:
        lem2 = _congruence_lemmas(hyps, goal, ctx, depth, timeout, wide=True)
        if lem2:
            lem = lem + lem2
            r, m = _solve(hyps + lem, goal, timeout, ctx)
    if r == "unknown":
        r2 = _nlsat(hyps + lem, goal, timeout, ctx)
        if r2 is not None:
            r, m = r2
    return r, m


def prove(pc, goal, timeout, ctx):
    STATS["obligations"] += 1
    r, m = prove_rec(pc, goal, timeout, ctx)
    STATS[r] += 1
    return r, m


def _nlsat(pc, goal, timeout, ctx):
    """Ackermannise all uninterpreted terms and try the nonlinear solver."""
    fs, seen = [], set()

    def addf(e):
        for f in facts_of(e, seen):
            fs.append(f)
            addf(f)

    for p in pc:
        addf(p)
    addf(goal)
    form = z3.And(*pc, *fs, z3.Not(goal))
    terms = {}
    for t in walk(form):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            terms.setdefault(t.decl().name(), []).append(t)
    subs = []
    extra = []
    order = sorted(
        [t for ts in terms.values() for t in ts], key=lambda t: -len(list(walk(t)))
    )
    for i, t in enumerate(order):
        subs.append((t, z3.Const(f"ack!{i}", t.sort())))
    for ts in terms.values():
        for a, b in itertools.combinations(ts, 2):
            extra.append(
                z3.Implies(
                    z3.And(*[x == y for x, y in zip(a.children(), b.children())]), a == b
                )
            )
    form = z3.And(form, *extra)
    for t, c in subs:
        form = z3.substitute(form, (t, c))
    s = z3.Then("simplify", "purify-arith", "solve-eqs", "smt").solver()
    s.set("timeout", timeout)
    s.add(form)
    t0 = time.time()
    r = s.check()
    STATS["time"] += time.time() - t0
    if r == z3.unsat:
        return "proved", None
    return None


# --------------------------------------------------------------------------
# symbolic scalars
# --------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, Sym)


def _binkind(a, b):
    return a, b


class Sym:
    """Symbolic python/numpy scalar."""

    __slots__ = ("e", "dt", "__weakref__")
    __array_priority__ = 1000

    def __init__(self, e, dt=None):
        self.e = e
        self.dt = dt

    # -- classification
    @property
    def is_int(self):
        return z3.is_int(self.e)

    @property
    def is_real(self):
        return z3.is_real(self.e)

    @property
    def is_bool(self):
        return z3.is_bool(self.e)

    @property
    def dtype(self):
        if self.dt is None:
            raise Unsupported("dtype of a python scalar")
        return self.dt

    ndim = 0
    shape = ()

    def item(self):
        return Sym(self.e)

    def astype(self, dt, **kw):
        from . import arr

        return arr.cast_scalar(self, arr.as_dtype(dt))

    def tolist(self):
        return Sym(self.e)

    # -- truth
    def __bool__(self):
        return CTX().branch(as_bool(self.e))

    def __index__(self):
        v = CTX().int_value(self.e) if self.is_int else None
        if v is None:
            raise Unsupported("symbolic value used as a concrete index")
        return v

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        raise Unsupported("symbolic value converted to a concrete float")

    def __hash__(self):
        v = concrete(simp(self.e))
        if v is not None:
            return hash(v)
        raise Unsupported("hash of a symbolic value")

    def __repr__(self):
        return CTX().token(self.e) if _CTX else f"Sym({self.e})"

    __str__ = __repr__

    def __format__(self, spec):
        t = CTX().token(self.e)
        return t if not spec else f"{t}:{spec}"

    # -- arithmetic
    def _bin(self, other, op, swap=False):
        from . import arr

        if isinstance(other, arr.ndarray) or arr.is_foreign(other):
            return NotImplemented
        if not scalar_like(other):
            return NotImplemented
        a, b = (other, self) if swap else (self, other)
        return arr.scalar_op(op, a, b)

    def __add__(self, o):
        return self._bin(o, "add")

    def __radd__(self, o):
        return self._bin(o, "add", True)

    def __sub__(self, o):
        return self._bin(o, "subtract")

    def __rsub__(self, o):
        return self._bin(o, "subtract", True)

    def __mul__(self, o):
        return self._bin(o, "multiply")

    def __rmul__(self, o):
        return self._bin(o, "multiply", True)

    def __truediv__(self, o):
        return self._bin(o, "divide")

    def __rtruediv__(self, o):
        return self._bin(o, "divide", True)

    def __floordiv__(self, o):
        return self._bin(o, "floor_divide")

    def __rfloordiv__(self, o):
        return self._bin(o, "floor_divide", True)

    def __mod__(self, o):
        return self._bin(o, "remainder")

    def __rmod__(self, o):
        return self._bin(o, "remainder", True)

    def __pow__(self, o):
        return self._bin(o, "power")

    def __rpow__(self, o):
        return self._bin(o, "power", True)

    def __and__(self, o):
        return self._bin(o, "logical_and_bit")

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, "logical_or_bit")

    __ror__ = __or__

    def __neg__(self):
        from . import arr

        return arr.scalar_op("subtract", 0, self) if self.dt is None else arr.scalar_unary("negative", self)

    def __pos__(self):
        return self

    def __abs__(self):
        from . import arr

        return arr.scalar_unary("absolute", self)

    def __invert__(self):
        if self.is_bool:
            return Sym(z3.Not(self.e), self.dt)
        raise Unsupported("~ on a symbolic integer")

    def __round__(self, nd=None):
        raise Unsupported("round")

    def __trunc__(self):
        raise Unsupported("trunc")

    # -- comparison
    def _cmp(self, other, op):
        from . import arr

        if isinstance(other, arr.ndarray) or arr.is_foreign(other):
            return NotImplemented
        if not scalar_like(other):
            return NotImplemented
        return arr.scalar_op(op, self, other)

    def __eq__(self, o):
        return self._cmp(o, "equal")

    def __ne__(self, o):
        return self._cmp(o, "not_equal")

    def __lt__(self, o):
        return self._cmp(o, "less")

    def __le__(self, o):
        return self._cmp(o, "less_equal")

    def __gt__(self, o):
        return self._cmp(o, "greater")

    def __ge__(self, o):
        return self._cmp(o, "greater_equal")

    # numpy scalar methods
    def mean(self, *a, **k):
        return self

    def any(self):
        return Sym(as_bool(self.e))

    def all(self):
        return Sym(as_bool(self.e))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of a symbolic scalar")


def _symlike(o):
    return hasattr(o, "_vc_symlike")


def scalar_like(x):
    if isinstance(x, (Sym, bool, int, float, fractions.Fraction)):
        return True
    import numpy as _n

    return isinstance(x, _n.generic) and not isinstance(x, (_n.str_, _n.bytes_, _n.void))


# --------------------------------------------------------------------------
# exploration driver
# --------------------------------------------------------------------------
def explore(body, max_paths=4000, deadline=None, on_path=None):
    """Run ``body(ctx)`` on every feasible path.

    ``body`` returns an Outcome-able value; exceptions are classified by the
    caller through run_call.  Yields contexts.
    """
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        ctx = Ctx(prefix, deadline)
        _CTX.append(ctx)
        try:
            n += 1
            if n > max_paths:
                raise Budget(f"more than {max_paths} paths")
            ctx.check_time()
            try:
                body(ctx)
            except Infeasible:
                pass
        finally:
            _CTX.pop()
            work.extend(ctx.pending)
    return n
