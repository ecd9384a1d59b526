"""Goal rewriting before the solver: exact quotients, and abstraction of function values whose arguments are proved equal."""

import z3

from . import core

FUNS = ("log", "exp", "pow", "sqrt", "sin", "cos", "tan", "arctan2", "arctan", "log2", "log10")


def _poly(e, atoms):
    """Polynomial with integer coefficients: {sorted tuple of atom ids: coefficient}."""
    if z3.is_int_value(e):
        v = e.as_long()
        return {(): v} if v else {}
    if z3.is_app(e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = {}
            for n, c in enumerate(e.children()):
                s = -1 if k == z3.Z3_OP_SUB and n else 1
                for m, v in _poly(c, atoms).items():
                    r[m] = r.get(m, 0) + s * v
            return {m: v for m, v in r.items() if v}
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in _poly(e.arg(0), atoms).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): 1}
            for c in e.children():
                r = _mul(r, _poly(c, atoms))
            return r
    atoms[e.get_id()] = e
    return {(e.get_id(),): 1}


def _mul(a, b):
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            t = tuple(sorted(m + n))
            r[t] = r.get(t, 0) + v * w
    return {m: v for m, v in r.items() if v}


def _term(p, atoms):
    out = []
    for m, v in sorted(p.items()):
        t = z3.IntVal(v)
        for a in m:
            t = t * atoms[a]
        out.append(t)
    return core.simp(z3.Sum(out)) if out else z3.IntVal(0)


def _quot(e, c, hyps, ctx):
    """(quotient, remainder) of e by c when e = q*c + r is visible and 0 <= r < c follows."""
    atoms = {}
    pe, pc = _poly(e, atoms), _poly(c, atoms)
    for m, v in pc.items():
        if len(m) != 1 or abs(v) != 1:
            continue
        a = m[0]
        q = {}
        for mm, w in pe.items():
            if a in mm:
                x = list(mm)
                x.remove(a)
                q[tuple(x)] = w * v
        if not q:
            continue
        r = dict(pe)
        for mm, w in _mul(q, pc).items():
            r[mm] = r.get(mm, 0) - w
        r = _term({x: w for x, w in r.items() if w}, atoms)
        if core._solve(hyps, z3.And(r >= 0, r < c), 1500, ctx)[0] == "proved":
            return _term(q, atoms), r
    return None


def exact_div(hyps, goal, ctx):
    """Rewrites e / c and e % c for symbolic c where the quotient is visible."""
    memo = {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        r = t
        if z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            if any(not z3.eq(a, b) for a, b in zip(ch, t.children())):
                r = core.simp(t.decl()(*ch))
            if z3.is_app(r) and r.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(r.arg(1)):
                q = _quot(r.arg(0), r.arg(1), hyps, ctx)
                if q is not None:
                    r = q[0] if r.decl().kind() == z3.Z3_OP_IDIV else q[1]
        memo[i] = (t, r)
        return r

    if not any(z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)) for t in core.walk(goal)):
        return goal
    return go(goal)


def abstract(hyps, goal, ctx, depth, timeout):
    """Replaces function values by constants, one constant per class of provably equal arguments.

    Sound: every model of the goal gives a model of the abstraction (the constants take the function values)."""
    for _ in range(6):
        fs = [t for t in core.walk(goal) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
              and t.num_args() and t.decl().name() in FUNS]
        ids = {t.get_id() for t in fs}
        inner = []
        for t in fs:
            if not any(s.get_id() in ids for c in t.children() for s in core.walk(c)):
                inner.append(t)
        if not inner:
            return goal
        inner = list({t.get_id(): t for t in inner}.values())
        if len(inner) > 60:
            return goal
        reps, subs, keep = [], [], []
        for t in inner:
            for u, c in reps:
                if u.decl().eq(t.decl()) and all(
                        z3.eq(a, b) or core.prove_rec(hyps, a == b, min(timeout, 5000), ctx, depth + 1)[0] == "proved"
                        for a, b in zip(t.children(), u.children())):
                    subs.append((t, c))
                    break
            else:
                c = z3.Const(f"{t.decl().name()}~{ctx.fresh_int('ab').decl().name()}", t.sort())
                reps.append((t, c))
                subs.append((t, c))
        goal = core.simp(z3.substitute(goal, *subs))
        ctx.norm_memo.setdefault("keep", []).append(goal)
    return goal
