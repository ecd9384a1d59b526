"""Contracts, obligations and their bookkeeping."""

import multiprocessing as mp
import os
import signal
import time
import traceback

import z3

from . import arr as A
from . import core
from . import loader
from . import loops as L
from . import npmod as N
from . import state
from .core import (
    CTX, _CTX, IDX, Budget, Ctx, Infeasible, Sym, Unsupported, as_bool, as_real, simp, to_z3,
)


class Contract:
    def __init__(self, name, body, functions, params, max_paths, reach, timeout, prepare):
        self.name, self.body, self.functions, self.params = name, body, functions, params
        self.max_paths, self.reach, self.timeout, self.prepare = max_paths, reach, timeout, prepare


class Suite:
    """All contracts of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.items = []
        self.assumptions = []
        self.bounded_notes = []

    def contract(self, name, functions=(), cases=((),), max_paths=600, reach=(), timeout=150, prepare=None):
        """cases: list of parameter tuples (each is run as its own job)."""

        def deco(f):
            for c in cases:
                c = c if isinstance(c, tuple) else (c,)
                nm = name + (("[" + ",".join(str(x) for x in c) + "]") if c else "")
                self.items.append(Contract(nm, f, tuple(functions), c, max_paths, tuple(reach), timeout, prepare))
            return f

        return deco


class K:
    """Interface handed to contract bodies (one instance per path)."""

    def __init__(self, ctx, rec, prog):
        self.ctx, self.rec, self.prog = ctx, rec, prog

    # ---- inputs ----------------------------------------------------------
    def arr(self, name, ndim=None, dtype="float64", shape=None, cls=None, min_dim=1):
        if ndim is None:
            ndim = len(shape)
        return A.input_array(name, ndim, dtype, shape=shape, cls=cls or A.ndarray, min_dim=min_dim)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.ctx.inputs[name] = v
        if lo is not None:
            self.ctx.assume(v >= to_z3(lo))
        if hi is not None:
            self.ctx.assume(v <= to_z3(hi))
        return Sym(v)

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self.ctx.inputs[name] = v
        if lo is not None:
            self.ctx.assume(v >= as_real(to_z3(lo)))
        if hi is not None:
            self.ctx.assume(v <= as_real(to_z3(hi)))
        return Sym(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.ctx.inputs[name] = v
        return Sym(v)

    def assume(self, c):
        c = as_bool(to_z3(c))
        self.ctx.assume(c)
        if not self.ctx.feasible(z3.BoolVal(True)):
            raise Infeasible()

    def choose(self, options):
        return options[self.ctx.choose(len(options))]

    def split(self, cond):
        return self.ctx.branch(as_bool(to_z3(cond)))

    # ---- code --------------------------------------------------------------
    def get(self, dotted):
        return self.prog.get(dotted)

    def call(self, fn, *a, **k):
        if isinstance(fn, str):
            fn = self.prog.get(fn)
        return loader.run_call(fn, *a, **k)

    def np(self):
        return self.prog.stubs["numpy"]

    # ---- obligations ------------------------------------------------------
    def reach(self, label):
        self.rec.reached.add(label)

    def prove(self, label, goal, timeout=12000):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = as_bool(to_z3(goal))
        t = time.time()
        r, m = self.ctx.prove(g, timeout)
        self.rec.add(label, r, self.ctx, g, m, time.time() - t)
        return r == "proved"

    def fail(self, label, why=""):
        """This point must be unreachable."""
        t = time.time()
        r, m = self.ctx.prove(z3.BoolVal(False), 8000)
        if r == "proved":
            return
        self.rec.add(label, r, self.ctx, z3.BoolVal(False), m, time.time() - t, why)
        raise Infeasible()

    def check(self, label, ok, why=""):
        """Structural (path-level) obligation."""
        if isinstance(ok, (Sym, z3.ExprRef)):
            return self.prove(label, ok)
        if ok:
            self.rec.add(label, "proved", self.ctx, None, None, 0.0)
            return True
        self.fail(label, why)

    def returns(self, out, label):
        if not out.ok:
            self.fail(label, f"unexpected {type(out.exc).__name__}: {out.exc}")
        self.rec.add(label, "proved", self.ctx, None, None, 0.0)
        return out.value

    def raises(self, out, types, label):
        if not out.raises(types):
            self.fail(label, f"expected {types}, got {out!r}")
        self.rec.add(label, "proved", self.ctx, None, None, 0.0)

    def skolem(self, shape):
        idx = []
        for s in shape:
            i = self.ctx.fresh_int("i")
            idx.append(i)
            self.ctx.assume(z3.And(i >= 0, i < to_z3(s)))
        return idx

    def same_shape(self, label, a, shape):
        if not isinstance(a, A.ndarray) or a.ndim != len(shape):
            self.fail(label, f"rank/type {type(a).__name__}")
        eqs = [to_z3(x) == to_z3(y) for x, y in zip(a._sh, shape)]
        return self.prove(label, z3.And(*eqs) if eqs else z3.BoolVal(True))

    def elements(self, label, a, shape, fn, tol_sort=True):
        """a has the shape and at every index the value fn(*idx)."""
        if not self.same_shape(label + ".shape", a, shape):
            return
        if not self.ctx.feasible(z3.And(*[to_z3(s) > 0 for s in shape])):
            return
        save = list(self.ctx.pc)
        idx = self.skolem(shape)
        x = a.at(*idx)
        y = to_z3(fn(*idx))
        if x.sort() != y.sort():
            x, y = as_real(x), as_real(y)
        return self.prove(label, x == y)

    def unchanged(self, label, a, name=None):
        """The caller's array still has its original contents."""
        b = a._buf
        if b is None:
            raise Unsupported("frame of a cell array")
        if b.writes == 0 and b.body.eq(b.orig):
            self.rec.add(label, "proved", self.ctx, None, None, 0.0)
            return
        idx = self.skolem(b.shape)
        self.prove(label, A.tmpl(b.body, {k: v for k, v in enumerate(idx)}) == A.tmpl(
            b.orig, {k: v for k, v in enumerate(idx)}))

    def eq(self, label, x, y):
        """Scalars are equal."""
        for v in (x, y):
            if not (core.scalar_like(v) or isinstance(v, z3.ExprRef) or isinstance(v, A.ndarray) and v.ndim == 0):
                self.fail(label, f"not a scalar: {type(v).__name__}")
        x = x.item() if isinstance(x, A.ndarray) else x
        y = y.item() if isinstance(y, A.ndarray) else y
        fx = [v for v in (x, y) if isinstance(v, float) and (v != v or abs(v) == float("inf"))]
        if fx:
            ok = isinstance(x, float) and isinstance(y, float) and (x == y or (x != x and y != y))
            return self.check(label, ok, f"{x!r} vs {y!r}")
        x, y = to_z3(x), to_z3(y)
        if x.sort() != y.sort():
            x, y = as_real(x), as_real(y)
        return self.prove(label, x == y)


class Record:
    def __init__(self, name):
        self.name = name
        self.obl = {}  # label -> dict
        self.reached = set()
        self.paths = 0
        self.unsupported = []
        self.wall = 0.0
        self.entered = []
        self.error = None

    def add(self, label, status, ctx, goal, model, secs, why=""):
        o = self.obl.setdefault(label, {"proved": 0, "refuted": 0, "unknown": 0, "time": 0.0, "detail": None})
        o[status] += 1
        o["time"] += secs
        if status != "proved" and (o["detail"] is None or (status == "refuted" and o["detail"]["status"] != "refuted")):
            o["detail"] = {"status": status, "why": why, "goal": str(goal)[:1500] if goal is not None else "",
                           "pc": [str(p)[:300] for p in ctx.pc[:40]],
                           "model": model_dict(ctx, model) if model is not None else None}

    def status(self, reach):
        if self.error:
            return "error"
        if any(o["refuted"] for o in self.obl.values()):
            return "refuted"
        if self.unsupported:
            return "unsupported"
        if any(o["unknown"] for o in self.obl.values()):
            return "unknown"
        if not self.obl:
            return "vacuous"
        if set(reach) - self.reached:
            return "vacuous"
        return "proved"


def model_dict(ctx, m):
    out = {}
    try:
        for name, v in ctx.inputs.items():
            if isinstance(v, A.ndarray):
                out[name + ".shape"] = [str(m.eval(to_z3(s), model_completion=True)) for s in v._sh]
                out[name + ".dtype"] = v.dtype.name
                f = None
                for d in m.decls():
                    if d.name() == name and d.arity():
                        f = m[d]
                if f is not None:
                    out[name + ".values"] = str(f)[:600]
            else:
                out[name] = str(m.eval(to_z3(v), model_completion=True))
    except Exception as e:  # noqa: BLE001
        out["error"] = repr(e)
    return out


def run_contract(c, deadline=None, root="/repo"):
    rec = Record(c.name)
    t0 = time.time()
    limit = t0 + c.timeout
    if deadline:
        limit = min(limit, deadline)
    loader.ENTERED.clear()
    st0 = dict(core.STATS)
    work = [[]]
    rec.stats = {}

    def alarm(*_):
        raise Budget("budget: time (interrupted)")

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(max(1, int(limit - t0) + 15))
    try:
        while work:
            prefix = work.pop()
            rec.paths += 1
            if rec.paths > c.max_paths or time.time() > limit:
                rec.unsupported.append("budget: " + ("paths" if rec.paths > c.max_paths else "time"))
                break
            ctx = Ctx(prefix, limit)
            _CTX.append(ctx)
            try:
                prog = loader.Program(root)
                keep = []
                before = state.modules(prog, keep)
                loader.MOVED.clear()
                try:
                    c.body(K(ctx, rec, prog), *c.params)
                finally:
                    kept = state.changed(prog, before, keep) + sorted(loader.MOVED)
                    if kept and len(rec.unsupported) < 8:
                        rec.unsupported.append("state kept between calls: " + ", ".join(kept)[:200])
            except Infeasible:
                pass
            except Unsupported as e:
                rec.unsupported.append(str(e)[:300])
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exc()
                if isinstance(e, Budget):
                    break
                if len(rec.unsupported) > 8:
                    break
            finally:
                _CTX.pop()
                work.extend(ctx.pending)
    except Unsupported as e:
        rec.unsupported.append(str(e)[:300])
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        rec.error = f"{type(e).__name__}: {e}\n{tb[-1500:]}"
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    signal.alarm(0)
    rec.entered = sorted(loader.ENTERED)
    rec.wall = time.time() - t0
    rec.solver = {k: core.STATS[k] - st0[k] for k in core.STATS}
    rec.st = rec.status(c.reach)
    return rec


def _child(suite_items, i, deadline, root, conn, beat, seed):
    core.BEAT = beat
    if seed:
        z3.set_param("smt.random_seed", seed)
    try:
        rec = run_contract(suite_items[i], deadline, root)
        conn.send(rec)
    except BaseException as e:  # noqa: BLE001
        r = Record(suite_items[i].name)
        r.error = repr(e)
        r.st = "error"
        r.solver = {}
        conn.send(r)
    conn.close()


def run_suite(suite, procs=8, budget=400, root="/repo", only=None, failed=None):
    """Run all contracts, each in its own process.

    Once a violation is certain (failed() or eight refuted contracts), the rest gets another 100 s."""
    items = [c for c in suite.items if only is None or only in c.name]
    deadline = time.time() + budget
    ctxm = mp.get_context("fork")
    todo = list(range(len(items)))
    running = {}
    out = {}
    again = set()
    grace, short = 60, False
    while todo or running:
        if not short and (sum(1 for r in out.values() if r is not None and r.st == "refuted") >= 8 or failed and failed()):
            short = True
            deadline, grace = min(deadline, time.time() + 100), 15
        while todo and len(running) < procs:
            i = todo.pop(0)
            a, b = ctxm.Pipe(False)
            beat = mp.RawValue("d", time.time())
            p = ctxm.Process(target=_child, args=(items, i, deadline, root, b, beat, 7 if i in again else 0))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), beat)
        for i, (p, a, t0, beat) in list(running.items()):
            if a.poll(0.02):
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = None
                p.join()
                del running[i]
            elif not p.is_alive() and not a.poll(0):
                out[i] = None
                del running[i]
            elif i not in again and time.time() - beat.value > 60 and time.time() < deadline - 60:
                # one solver call that does not come back: another attempt with another random seed
                p.kill()
                p.join()
                del running[i]
                again.add(i)
                todo.insert(0, i)
            elif time.time() - t0 > items[i].timeout + 60 or time.time() > deadline + grace:
                p.kill()
                p.join()
                r = Record(items[i].name)
                r.unsupported.append("budget: killed")
                r.st, r.solver, r.wall = "unsupported", {}, time.time() - t0
                out[i] = r
                del running[i]
    res = []
    for i, c in enumerate(items):
        r = out.get(i)
        if r is None:
            r = Record(c.name)
            r.error, r.st, r.solver = "worker died", "error", {}
        r.functions = c.functions
        res.append(r)
    return res
