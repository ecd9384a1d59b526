"""Replays contracts against the real code with concrete inputs.

usage: run.py CNN OUT.json SEED TIER
Runs under /opt/venv/bin/python; imports viqa from /repo/src, with the native
extension built from the current tree in a scratch directory.
"""

import importlib
import importlib.util
import io
import contextlib
import json
import os
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("VIQA_ROOT", "/repo")


def build_native(tmp):
    """Compile the C extension of the current tree; preload it."""
    import numpy

    src = os.path.join(ROOT, "src/viqa/fr_metrics/stat_utils/statisticsmodule.c")
    so = os.path.join(tmp, "statisticscalc.so")
    cmd = ["gcc", "-shared", "-fPIC", "-std=c11", "-O2", "-w", "-I" + sysconfig.get_paths()["include"],
           "-I" + numpy.get_include(), src, "-o", so, "-lm"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("native extension does not compile: " + r.stderr[-400:])
    name = "viqa.fr_metrics.stat_utils.statisticscalc"
    spec = importlib.util.spec_from_file_location(name, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[name] = mod
    return so


class Battery:
    def __init__(self, pid, seed, tier, tmp):
        import numpy as np

        self.pid, self.seed, self.tier, self.tmp = pid, seed, tier, tmp
        self.rng = np.random.default_rng(seed)
        self.n = 0
        self.failures = []
        self.t0 = time.time()
        self.limit = 60 if tier == "quick" else 500
        self.np = np

    @property
    def thorough(self):
        return self.tier != "quick"

    def over(self):
        return time.time() - self.t0 > self.limit

    def case(self, label, fn, **desc):
        """fn() returns None/True if the property holds, else a message."""
        self.n += 1
        try:
            with warnings.catch_warnings(), self.np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    r = fn()
        except Exception as e:  # noqa: BLE001
            r = f"unexpected {type(e).__name__}: {e} @ {traceback.format_exc()[-500:]}"
        if r is None or (isinstance(r, (bool, self.np.bool_)) and r):
            return True
        if len(self.failures) < 20:
            self.failures.append({"label": label, "message": str(r)[:800],
                                  "input": {k: _short(v) for k, v in desc.items()}, "case": self.n, "seed": self.seed})
        return False


def _short(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        d = {"shape": list(v.shape), "dtype": str(v.dtype)}
        if v.size <= 600:
            d["values"] = v.tolist()
        return d
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    if isinstance(v, (list, tuple)) and len(v) < 20:
        return [_short(x) for x in v]
    return repr(v)[:300]


def close(a, b, rtol=1e-6, atol=1e-9):
    """None if equal up to rounding, else a message."""
    import numpy as np

    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shape {a.shape} != {b.shape}"
    if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
        bad = np.argwhere(~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        i = tuple(bad[0]) if len(bad) and a.ndim else ()
        return f"got {a[i]!r}, expected {b[i]!r} at {i} ({len(bad)} differing)"
    return None


def exact(a, b):
    import numpy as np

    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} != {b.shape}"
    if a.dtype != b.dtype:
        return f"dtype {a.dtype} != {b.dtype}"
    if not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
        i = tuple(np.argwhere(~(a == b))[0]) if a.ndim else ()
        return f"got {a[i]!r}, expected {b[i]!r} at {i}"
    return None


def raises(types, fn, *a, **k):
    """None if fn raises one of the types, else a message."""
    try:
        r = fn(*a, **k)
    except types:
        return None
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__}: {e} instead of {types}"
    return f"returned {r!r} instead of raising {types}"


def main():
    pid, out, seed, tier = sys.argv[1:5]
    warnings.simplefilter("ignore")
    res = {"property": pid, "cases": 0, "failures": [], "error": None}
    with tempfile.TemporaryDirectory(prefix="viqa-bat-") as tmp:
        os.chdir(tmp)
        sys.path.insert(0, HERE)
        sys.path.insert(0, os.path.join(ROOT, "src"))
        b = None
        try:
            if os.path.basename(out) != "x":
                build_native(tmp)
            if ROOT != "/repo":  # scratch copies: the sandbox leaves QMeasure out for /repo only
                import types

                q = types.ModuleType("viqa.nr_metrics.qmeasure_utils")
                q.qmeasurecalc = types.ModuleType("qmeasurecalc")
                sys.modules[q.__name__] = q
            import viqa

            if not os.path.abspath(viqa.__file__).startswith(os.path.abspath(ROOT)):
                raise RuntimeError(f"wrong viqa: {viqa.__file__}")
            b = Battery(pid, int(seed), tier, tmp)
            importlib.import_module("history").run(b)
            importlib.import_module("b" + pid[1:]).run(b)
        except Exception as e:  # noqa: BLE001
            res["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"
        if b is not None:
            res.update(cases=b.n, failures=b.failures, wall=round(time.time() - b.t0, 2))
        os.chdir("/")
    with open(out, "w") as f:
        json.dump(res, f, indent=1, default=str)


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    main()
