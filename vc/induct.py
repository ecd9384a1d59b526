"""Loops with a carried state that is not a number: proof by induction.

A sequence with the attribute ``induct`` (an Induct object) is not summarised
like other symbolic sequences.  Its loop body is executed symbolically

  1. from the state before the loop, for a generic element a (index ka),
  2. from the state before the loop, for a generic element b (index ka + 1),
  3. from the state that (1) leaves behind, for b,

and the states after (2) and (3) are compared.  Variables that differ are
replaced by a poison value before (3) is repeated, until the remaining
variables V agree.  Invariant: at the head of every iteration i + 1 the
variables of V have the value that processing element i alone would give them,
and no other variable is read before it is written.  (1) is the base case, (3)
the induction step; the effects of (1) and (3) on dictionaries that existed
before the loop are handed to the contract, which states what a generic
iteration must write, and so are the texts appended to open files (the text of
the whole loop is marked by LOOP in the file).  Reading such a dictionary inside the loop, or changing
any other container that existed before the loop, is outside the method and
raises Unsupported.
"""

import sys

import z3

from . import arr as A
from .core import CTX, Sym, Unsupported, scalar_like, simp, to_z3


LOOP = "\x00loop\x00"


class VDict(dict):
    """Dictionary display of the verified code."""

    def __init__(self, *a):
        super().__init__(*a)
        self._writes = None

    def __setitem__(self, k, v):
        if self._writes is not None:
            self._writes[k] = v
            return
        dict.__setitem__(self, k, v)


def _guarded(name):
    f = getattr(dict, name)

    def m(self, *a, **k):
        if self._writes is not None:
            raise Unsupported("dictionary read inside an inductive loop")
        return f(self, *a, **k)

    return m


for _n in ("__getitem__", "__delitem__", "__contains__", "__iter__", "__len__", "get", "keys", "values", "items", "pop",
           "popitem", "update", "setdefault", "clear", "copy", "__eq__", "__ne__", "__or__", "__ior__"):
    setattr(VDict, _n, _guarded(_n))
VDict.__hash__ = None


class Poisoned:
    _vc_model = True

    def __getattribute__(self, n):
        if n in ("__class__", "_vc_model"):
            return object.__getattribute__(self, n)
        raise Unsupported("state variable without an invariant is read")

    def _bad(self, *a):
        raise Unsupported("state variable without an invariant is read")

    __eq__ = __ne__ = __lt__ = __bool__ = __len__ = __iter__ = __call__ = __add__ = __radd__ = __getitem__ = _bad
    __contains__ = __hash__ = __str__ = __setitem__ = _bad


def _shape(v, depth=3):
    """Fingerprint of a container."""
    if isinstance(v, VDict) and v._writes is not None:
        return id(v)
    if depth and isinstance(v, dict):
        return ("d", id(v), tuple((_shape(a, 0), _shape(b, depth - 1)) for a, b in dict.items(v)))
    if depth and isinstance(v, (list, tuple)):
        return ("l", id(v), tuple(_shape(x, depth - 1) for x in list.__iter__(v)) if isinstance(v, list) else
                tuple(_shape(x, depth - 1) for x in v))
    if depth and isinstance(v, (set, frozenset)):
        return ("s", id(v), frozenset(id(x) for x in v))
    if isinstance(v, A.ndarray) and v._buf is not None:
        return ("a", id(v), v._buf.writes)
    if isinstance(v, (str, int, float, bool, type(None))):
        return ("c", v)
    return ("o", id(v))


def same(x, y):
    """Provable equality of two values of the state."""
    if x is y:
        return True
    if x is None or y is None:
        return False
    if scalar_like(x) and scalar_like(y) and (isinstance(x, Sym) or isinstance(y, Sym)):
        tx, ty = to_z3(x), to_z3(y)
        return tx.sort() == ty.sort() and CTX().prove(tx == ty, 5000)[0] == "proved"
    if isinstance(x, A.ndarray) or isinstance(y, A.ndarray):
        if type(x) is not type(y) or x.dtype is not y.dtype or x.ndim != y.ndim:
            return False
        if not all(A.same_term(p, q) or CTX().prove(to_z3(p) == to_z3(q), 5000)[0] == "proved"
                   for p, q in zip(x._sh, y._sh)):
            return False
        return x.content().eq(y.content()) or CTX().prove(x.content() == y.content(), 5000)[0] == "proved"
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        if isinstance(x, VDict) and (x._writes is not None or y._writes is not None):
            return False
        return list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    try:
        return bool(x == y)
    except Unsupported:
        return False


class Induct:
    """Controller; ``done`` receives [(label, ka or kb, writes per dictionary)]."""

    def __init__(self):
        self.result = None

    def begin(self, seq, getters, frame):
        return _Loop(self, seq, getters, frame)


class _Loop:
    def __init__(self, ctl, seq, getters, frame):
        self.ctl, self.seq = ctl, seq
        ctx = self.ctx = CTX()
        if getattr(seq, "raise_after", None) is not None:
            raise Unsupported("strict zip of unequal lengths")
        self.frame = frame
        self.getters = getters
        self.init = self._read(getters)
        self.stored = set(getters)
        self.guards = []
        for nm, v in self._outer():
            if isinstance(v, VDict) and not any(v is g for _, g in self.guards):
                self.guards.append((nm, v))
        self.phase = 0
        self.dead = set()
        self.eff = {}
        self.texts, self.logs = {}, {}
        self.vals = {}
        self.rounds = 0

    @staticmethod
    def _read(getters):
        out = {}
        for k, g in getters.items():
            try:
                out[k] = g()
            except NameError:
                pass
        return out

    def _outer(self):
        loc = self.frame.f_locals
        for n, v in list(loc.items()):
            if n.startswith("_vc__"):
                continue
            if n not in self.stored:
                yield n, v
        s = loc.get("self")
        if s is not None and hasattr(s, "__dict__"):
            for n, v in list(vars(s).items()):
                yield "self." + n, v
        for n, v in list(self.frame.f_globals.items()):
            if isinstance(v, (dict, list, set)) and not n.startswith("__"):
                yield "global." + n, v

    def _print(self):
        return [(n, _shape(v)) for n, v in self._outer()]

    def has(self, n):
        return n in self.vals

    def get(self, n):
        return self.vals[n]

    def more(self):
        ctx = self.ctx
        if self.phase == 0:
            if not ctx.branch(self.seq.n > 0):
                self.ctl.result = "empty"
                return False
            for _, g in self.guards:
                if dict.__len__(g):
                    raise Unsupported("dictionary filled before the loop")
                g._writes = {}
            self.outer = self._print()
            self.k = ctx.loopvar("ka")
            ctx.assume(z3.And(self.k >= 0, self.k < self.seq.n))
            self.label = "a"
            self._go(dict(self.init), self.k)
            self.phase = 1
            return True
        self._collect()
        if self.phase == 1:
            self.after_a = self.post
            if not ctx.branch(self.k + 1 < self.seq.n):
                return self._finish("single")
            self.label = "b"
            self._go(dict(self.init), simp(self.k + 1))
            self.phase = 2
            return True
        if self.phase == 2:
            self.after_b = self.post
            self.label = "step"
            self._go(dict(self.after_a), simp(self.k + 1))
            self.phase = 3
            return True
        names = set(self.after_b) | set(self.post)
        diff = {n for n in names if n not in self.dead and not (
            n in self.after_b and n in self.post and same(self.after_b[n], self.post[n]))}
        # values left over from element a that a lone run of b does not bind
        diff |= {n for n in self.after_a if n not in self.after_b and n not in self.dead}
        self.rounds += 1
        if not diff:
            return self._finish("induction")
        if self.rounds > 6:
            raise Unsupported("no inductive state found")
        self.dead |= diff
        vals = {n: (Poisoned() if n in self.dead else v) for n, v in self.after_a.items()}
        for n in self.dead:
            vals.setdefault(n, Poisoned())
        self._go(vals, simp(self.k + 1))
        return True

    def _go(self, vals, k):
        self.vals = vals
        self.cur = k
        for _, g in self.guards:
            g._writes = {}
        self.handles = [h for h in self.ctx.ghost.get("handles", []) if not h.closed]
        for h in self.handles:
            h.mark()
        self.nlog, self.nopen = len(self.ctx.log), len(self.ctx.ghost.get("handles", []))

    def _collect(self):
        self.eff[self.label] = {n: dict(g._writes) for n, g in self.guards}
        if len(self.ctx.ghost.get("handles", [])) != self.nopen or any(h.closed for h in self.handles):
            raise Unsupported("files opened or closed inside an inductive loop")
        self.texts[self.label] = {h.path: h.take() for h in self.handles}
        self.logs[self.label] = self.ctx.log[self.nlog:]
        del self.ctx.log[self.nlog:]
        if self._print() != self.outer:
            a, b = dict(self.outer), dict(self._print())
            raise Unsupported("inductive loop changes " + ", ".join(n for n in b if a.get(n) != b[n]))

    def _finish(self, kind):
        self.ctl.result = kind
        self.ctl.ka, self.ctl.kb = self.k, simp(self.k + 1)
        self.ctl.effects = self.eff
        self.ctl.texts, self.ctl.logs = self.texts, self.logs
        for h in self.handles:
            h.write(LOOP)
        self.ctl.dead = sorted(self.dead)
        self.vals = {n: Poisoned() for n in self.stored}
        return False

    def items(self):
        return [self.seq.item(self.cur)]

    def end(self, getters):
        self.post = self._read(getters)

    def broke(self):
        raise Unsupported("break out of an inductive loop")

    def leave(self):
        exc = sys.exc_info()[1]
        if exc is None and self.ctl.result is None:
            raise Unsupported("return from inside an inductive loop")


def make_loop(seq, getters):
    from .loops import Loop

    c = getattr(seq, "induct", None)
    if c is None:
        return Loop(seq, getters)
    return c.begin(seq, getters, sys._getframe(1))
