"""State the package keeps between calls.

The contracts look at a call on freshly loaded modules and fresh objects.  What is proved of such a call holds
of every call only if nothing but the arguments reaches it.  This guard notices module, class, function and
instance state that a call changes; a contract during which that happens is not counted as proved."""

import functools
import types

from . import arr as A
from . import core

# module globals the package is known to set per call, and attributes the contracts themselves speak about
GLOBALS = {"viqa.fr_metrics.mad:M", "viqa.fr_metrics.mad:N", "viqa.fr_metrics.mad:BLOCK_SIZE", "viqa.fr_metrics.mad:STRIDE"}
GLOBAL_PREFIX = "glob_"
ATTRS = {"score_val"}
OBJECTS = {"SNR.parameters", "CNR.parameters",  # what the visual methods draw; no score reads them
           "BatchMetrics.global_roi", "BatchMetrics.results", "MultipleMetrics.results"}
OBJECTS |= {f"ImageArray.{n}" for n in ("histogram", "kurtosis", "maximum", "mean_value", "median", "minimum", "skewness",
                                       "standarddev", "variance")}  # C18 starts from arbitrary old values of these
_LRU = type(functools.lru_cache()(lambda: 0))


def _fp(v, depth, keep):
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return (type(v).__name__, repr(v) if isinstance(v, float) else v)
    keep.append(v)
    if isinstance(v, A.ndarray):
        b = v._buf
        return ("array", id(v), b.writes if b is not None else 0, fp_vars(v, keep, depth - 1) if depth > 0 else 0)
    if isinstance(v, core.Sym) or depth <= 0:
        return ("id", id(v))
    if isinstance(v, _LRU):
        return ("lru", id(v), v.cache_info().currsize, v.cache_info().misses)
    if isinstance(v, dict):
        return ("dict", id(v), tuple((_fp(k, depth - 1, keep), _fp(x, depth - 1, keep)) for k, x in dict.items(v)))
    if isinstance(v, (list, tuple)):
        return ("seq", id(v) if isinstance(v, list) else 0, tuple(_fp(x, depth - 1, keep) for x in v))
    if isinstance(v, (set, frozenset)):
        return ("set", len(v), tuple(sorted(map(repr, v))) if len(v) < 1000 else 0)
    if isinstance(v, types.FunctionType):
        cells = []
        for c in v.__closure__ or ():
            try:
                cells.append(_fp(c.cell_contents, depth - 1, keep))
            except ValueError:
                cells.append("empty")
        return ("fn", id(v), _fp(v.__defaults__, depth - 1, keep), _fp(v.__kwdefaults__, depth - 1, keep),
                _fp(v.__dict__, depth - 1, keep), tuple(cells))
    if isinstance(v, (staticmethod, classmethod)):
        return ("m", _fp(v.__func__, depth, keep))
    if isinstance(v, property):
        return ("prop", id(v))
    if isinstance(v, type):
        if not str(getattr(v, "__module__", "")).startswith("viqa"):
            return ("id", id(v))
        return ("class", id(v), tuple((k, _fp(x, depth - 1, keep)) for k, x in sorted(vars(v).items())
                                      if not k.startswith("__") and not k.startswith("_abc")))
    if str(getattr(type(v), "__module__", "")).startswith("viqa"):
        return ("obj", id(v), fp_vars(v, keep, depth - 1))
    return ("id", id(v))


def fp_vars(v, keep, depth=4):
    d = getattr(v, "__dict__", None)
    if not isinstance(d, dict):
        return ()
    return tuple((k, _fp(x, depth, keep)) for k, x in d.items()
                 if not (isinstance(v, A.ndarray) and k.startswith("_")) and k not in ATTRS
                 and f"{type(v).__name__}.{k}" not in OBJECTS)


def modules(prog, keep):
    out = {}
    for name, m in prog.modules.items():
        if not name.startswith("viqa") or not isinstance(m, types.ModuleType) or type(m).__name__ == "StubModule":
            continue
        for k, v in m.__dict__.items():
            if k.startswith("__") or isinstance(v, types.ModuleType):
                continue
            out[f"{name}:{k}"] = _fp(v, 5, keep)
    return out


def changed(prog, before, keep):
    """Names of module state that is not what it was."""
    now = modules(prog, keep)
    known = {n.partition(":")[0] for n in before}
    bad = []
    for n in now.keys() | before.keys():
        mod, _, g = n.partition(":")
        if mod not in known or now.get(n) == before.get(n) or n in GLOBALS or g.startswith(GLOBAL_PREFIX) or n in prog.patched:
            continue
        bad.append(n)
    return sorted(bad)


def instances(fn, a, k):
    """The package's objects a call can reach through its own arguments."""
    out = []
    for v in (getattr(fn, "__self__", None), *a, *k.values()):
        if v is None or isinstance(v, type):
            continue
        if str(getattr(type(v), "__module__", "")).startswith("viqa") or isinstance(v, A.ndarray):
            out.append(v)
    return out


def objects(objs, keep):
    return [dict(fp_vars(v, keep)) for v in objs]


def moved(objs, before, keep):
    bad = []
    for v, b in zip(objs, before):
        n = dict(fp_vars(v, keep))
        for q in n.keys() | b.keys():
            if n.get(q) != b.get(q):
                bad.append(f"{type(v).__name__}.{q}")
    return bad
