from run import raises

INTS = ("uint8", "int8", "uint16", "int16", "uint32", "int32")
OUT = {1: "float32", 255: "uint8", 65535: "uint16"}
FULL = {("uint8", 255), ("uint16", 65535)}


def run(b):
    import warnings

    import numpy as np
    from viqa.utils import ImageArray, load_data, normalize_data

    rng = b.rng

    def expected(a, lo, hi, dr):
        from fractions import Fraction

        x = a.astype(np.longdouble)
        e = (x - np.longdouble(lo)) / (np.longdouble(hi) - np.longdouble(lo)) * dr
        return e

    def check(r, a, lo, hi, dr):
        r = np.asarray(r)
        if str(r.dtype) != OUT[dr]:
            return f"dtype {r.dtype}"
        if r.shape != a.shape:
            return "shape"
        e = expected(a, lo, hi, dr)
        y = r.astype(np.longdouble)
        if dr == 1:
            if not np.allclose(y.astype(float), e.astype(float), rtol=1e-6, atol=1e-7):
                return "affine map"
        else:
            tol = 1e-9 * dr  # rounding of the float64 computation
            if not (np.all(y <= e + tol) and np.all(e < y + 1 + tol)):
                i = np.argmax(~((y <= e + tol) & (e < y + 1 + tol)))
                return f"got {y.flat[i]} for {e.flat[i]}"
        if y.min() < 0 or y.max() > dr:
            return "outside the range"
        o = np.argsort(a, axis=None, kind="stable")
        if np.any(np.diff(y.ravel()[o]) < 0):
            return "order"
        return None

    def ends(r, a, dr):
        r = np.asarray(r)
        if not (np.all(r[a == a.min()] == 0) and np.all(r[a == a.max()] == dr)):
            return f"extrema map to {r[a == a.min()][0]}, {r[a == a.max()][0]}"

    def warned(f):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = f()
        return r, [x for x in w if issubclass(x.category, RuntimeWarning)]

    shapes = [(1, 2), (2, 2), (5, 4), (3, 3, 3), (4, 5, 6), (17, 9), (6, 5, 3)]
    for rep in range(20 if b.thorough else 4):
        for shape in shapes:
            for dt in INTS + ("float16", "float32", "float64"):
                arrs = []
                if dt in INTS:
                    ii = np.iinfo(dt)
                    arrs.append(rng.integers(ii.min, ii.max, size=shape, endpoint=True, dtype=dt))
                    arrs.append(rng.integers(0, 100, size=shape).astype(dt))
                    e = np.full(shape, ii.max, dtype=dt)
                    e.flat[0] = ii.min
                    arrs.append(e)
                    e = np.full(shape, ii.max, dtype=dt)
                    e.flat[-1] = ii.max - 1
                    arrs.append(e)
                    e = rng.integers(0, 2, size=shape).astype(dt)
                    arrs.append(e)
                    lo = int(rng.integers(ii.min, ii.max))
                    arrs.append(rng.integers(lo, ii.max, size=shape, endpoint=True, dtype=dt))
                else:
                    arrs.append((rng.normal(size=shape) * 10).astype(dt))
                    arrs.append((rng.random(size=shape) * 1e-3 + 5).astype(dt))
                    arrs.append((rng.random(size=shape) * 255).astype(dt))
                    arrs.append((rng.random(size=shape) * 2e4 - 4e4).astype(dt))
                for a in arrs:
                    if a.min() == a.max():
                        a.flat[0] = a.flat[0] - 1 if a.flat[0] > 0 else a.flat[0] + 1
                    for dr in OUT:
                        for nm, f in (("normalize_data", lambda: normalize_data(a, (0, dr))),
                                      ("normalize_data(ImageArray)", lambda: normalize_data(ImageArray(a), (0, dr))),
                                      ("load_data", lambda: load_data(a, data_range=dr, normalize=True))):
                            if (dt, dr) in FULL:
                                def same():
                                    r, w = warned(f)
                                    return (np.array_equal(r, a) and r.dtype == a.dtype and bool(w)) or "not unchanged with warning"
                                b.case("full range " + nm, same, img=a, data_range=dr)
                            else:
                                b.case("map " + nm, lambda: check(f(), a, a.min(), a.max(), dr), img=a, data_range=dr)
                                b.case("ends " + nm, lambda: ends(f(), a, dr), img=a, data_range=dr)
                        if (dt, dr) not in FULL:
                            for lo, hi in ((float(a.min()) - 3, float(a.max()) + 2.5), (int(np.floor(float(a.min()))), int(np.ceil(float(a.max()))) + 1)):
                                b.case("explicit range", lambda: check(normalize_data(a, (0, dr), (lo, hi), False), a, lo, hi, dr),
                                       img=a, data_range=dr, lo=lo, hi=hi)
                            b.case("missing input range", lambda: raises(ValueError, normalize_data, a, (0, dr), automatic_data_range=False))
                    for bad in ((0, 254), (0, 256), (1, 255), (0, 65534), (-1, 1), (0, 2), (0, 4095), (1, 1)):
                        if dt in INTS and bad == (np.iinfo(dt).min, np.iinfo(dt).max):
                            continue
                        b.case("bad range", lambda: raises(ValueError, normalize_data, a, bad), img=a, range=bad)
    for a in (np.array([[True, False]]), np.array([[1j, 2]]), np.array([["a", "b"]])):
        for dr in OUT:
            b.case("bad type", lambda: raises(ValueError, normalize_data, a, (0, dr)))
    b.case("no range", lambda: raises(ValueError, load_data, np.eye(3), normalize=True))
