import csv
import os

from run import close, exact


def run(b):
    import numpy as np
    import viqa
    from scipy.stats import kurtosis, skew
    from viqa.utils import ImageArray, load_data

    rng = b.rng

    def mk(shape, dt):
        return (rng.random(size=shape) * 250 + 1).astype(dt)

    BIN = ["add", "subtract", "multiply", "true_divide", "floor_divide", "remainder", "power", "maximum", "minimum", "less", "greater", "equal", "not_equal",
           "hypot", "arctan2", "fmod", "logical_and", "copysign", "divmod"]
    UN = ["negative", "absolute", "sqrt", "exp", "log", "square", "sign", "floor", "isnan", "isfinite", "logical_not", "sin", "modf", "frexp", "reciprocal", "conjugate"]

    def same(g, e, cls=True):
        gs, es = (g if isinstance(g, tuple) else (g,)), (e if isinstance(e, tuple) else (e,))
        if len(gs) != len(es):
            return "number of results"
        for x, y in zip(gs, es):
            if cls and not isinstance(x, ImageArray):
                return f"result is {type(x).__name__}"
            r = exact(np.asarray(x), np.asarray(y))
            if r:
                return r

    for dt, d2 in [("uint8", "uint8"), ("float32", "float32"), ("float64", "uint8"), ("int32", "float32"), ("uint16", "int16")]:
        for sh in [(3, 4), (2, 3, 4), (1, 1), (5,)]:
            a, c = mk(sh, dt), mk(sh, d2)
            for n in BIN:
                f = getattr(np, n)
                for x, y, p, q in ((ImageArray(a), ImageArray(c), a, c), (ImageArray(a), c, a, c), (a, ImageArray(c), a, c), (ImageArray(a), 2, a, 2), (3, ImageArray(a), 3, a),
                                   (ImageArray(a)[::-1], c, a[::-1], c), (ImageArray(a), c[:1], a, c[:1])):
                    b.case(f"ufunc {n}", lambda: same(f(x, y), f(p, q)), shape=sh, dtypes=(dt, d2))
            for n in UN:
                f = getattr(np, n)
                try:
                    e = f(a)
                except TypeError:
                    continue
                b.case(f"ufunc {n}", lambda: same(f(ImageArray(a)), e), shape=sh, dtype=dt)
            for o, op in (("+", lambda u, v: u + v), ("*", lambda u, v: u * v), ("-", lambda u, v: u - v), ("/", lambda u, v: u / v), ("<", lambda u, v: u < v), ("==", lambda u, v: u == v),
                          ("**", lambda u, v: u ** 2), ("abs", lambda u, v: abs(u))):
                b.case(f"operator {o}", lambda: same(op(ImageArray(a), ImageArray(c)), op(a, c)), shape=sh)
                b.case(f"operator {o}", lambda: same(op(ImageArray(a), c), op(a, c)), shape=sh)

            def outs(n, kind, inp):
                o = np.full(sh, -7.0)
                ov = ImageArray(o) if kind == "image" else o
                x, y = (ImageArray(a), ImageArray(c)) if inp == "image" else (a, ImageArray(c)) if inp == "mixed" else (a, c)
                g = getattr(np, n)(x, y, out=ov)
                if g is not ov:
                    return "another object is returned"
                return close(np.asarray(ov), getattr(np, n)(a, c).astype(float))

            for n in ("add", "multiply", "true_divide", "maximum"):
                for kind in ("image", "plain"):
                    for inp in ("image", "mixed", "plain"):
                        b.case("explicit output", lambda: outs(n, kind, inp), shape=sh, op=n, out=kind, operands=inp)

            def part():
                af = a.astype(float)
                o = ImageArray(np.zeros(sh))
                w = af > 100
                g = np.multiply(ImageArray(af), 2.0, out=o, where=w)
                return close(np.asarray(g), np.where(w, af * 2, 0)) or ("another object" if g is not o else None)

            b.case("where", part, shape=sh)

            def two():
                af = a.astype(float) / 3
                o = ImageArray(np.zeros(sh))
                f, i = np.modf(ImageArray(af), out=(o, None))
                ef, ei = np.modf(af)
                return ("output" if f is not o else None) or close(np.asarray(f), ef) or close(np.asarray(i), ei)

            b.case("partial outputs", two, shape=sh)

            def inpl():
                af = ImageArray(a.astype(float))
                keep = af
                af *= 3
                af += c
                return ("another object" if keep is not af else None) or close(np.asarray(af), a.astype(float) * 3 + c)

            b.case("in place", inpl, shape=sh)

            def at():
                x, y = ImageArray(a.astype(float).ravel()), a.astype(float).ravel()
                idx = np.array([0, 0, -1])
                np.add.at(x, idx, 5.0)
                np.add.at(y, idx, 5.0)
                return close(np.asarray(x), y)

            b.case("at", at, shape=sh)
            b.case("reduce", lambda: close(np.asarray(np.add.reduce(ImageArray(a.astype(float)), axis=0)), np.add.reduce(a.astype(float), axis=0)), shape=sh)
    names = {"mean": "mean_value", "median": "median", "variance": "variance", "standarddev": "standarddev", "skewness": "skewness", "kurtosis": "kurtosis",
             "minimum": "minimum", "maximum": "maximum"}

    def stats(a):
        v = a.astype(float)
        return {"mean": v.mean(), "median": np.median(v), "variance": v.var(), "standarddev": v.std(), "skewness": skew(v, axis=None), "kurtosis": kurtosis(v, axis=None),
                "minimum": v.min(), "maximum": v.max()}

    def chk(a, x):
        x.calculate_statistics()
        e = stats(a)
        for n, at in names.items():
            r = close(float(getattr(x, at)), e[n], 1e-3 if a.dtype == np.float32 else 1e-7, 1e-4)
            if r:
                return f"{n}: {r}"
        cnt, edg = x.histogram
        h = np.histogram(a, bins=len(cnt))
        r = close(cnt, h[0]) or close(edg, h[1], 1e-5)
        if r:
            return f"histogram: {r}"
        if int(np.sum(cnt)) != a.size:
            return "histogram does not count every voxel"
        for fn in ("s", "t.csv"):
            p = os.path.join(b.tmp, fn if fn.endswith(".csv") else fn + ".csv")
            d = x.describe(b.tmp, fn)
            if set(d) != set(e):
                return f"entries {sorted(d)}"
            with open(p, newline="") as f:
                rows = list(csv.DictReader(f))
            if len(rows) != 1 or set(rows[0]) != set(e):
                return f"file {rows}"
            for n in e:
                r = close(float(d[n]), e[n], 1e-3 if a.dtype == np.float32 else 1e-7, 1e-4) or close(float(rows[0][n]), float(d[n]), 1e-6 if a.dtype == np.float32 else 1e-12)
                if r:
                    return f"{n}: {r}"
            os.unlink(p)
        d = x.describe()
        if set(d) != set(e):
            return f"entries {sorted(d)}"

    for rep in range(6 if b.thorough else 2):
        for dt in ("uint8", "uint16", "int16", "int32", "float32", "float64"):
            for sh in [(4, 5), (3, 4, 5), (7, 7, 3), (12, 9)]:
                a = mk(sh, dt)
                if rep:
                    a.flat[: a.size // 2] = 3
                b.case("statistics", lambda: chk(a, ImageArray(a)), img=a)
                b.case("statistics of loaded", lambda: chk(a, load_data(a)), img=a)
                c = np.ascontiguousarray(np.moveaxis(a, 0, -1))
                b.case("statistics of a view", lambda: chk(a[::2, 1:], ImageArray(a)[::2, 1:]), img=a)
    _ = viqa
