from run import close, raises


def run(b):
    import warnings

    import numpy as np
    import scipy.ndimage as ndi
    import viqa
    from viqa.nr_metrics.cnr import contrast_to_noise_ratio
    from viqa.nr_metrics.snr import signal_to_noise_ratio
    from viqa.utils import find_largest_region

    rng = b.rng
    CUBE, SPH = ("cubic", "cube", "square"), ("spherical", "sphere", "circle")
    W = np.array([0.2125, 0.7154, 0.0721])
    Y = np.array([[0.2126, 0.7152, 0.0722], [-0.09991, -0.33609, 0.436], [0.615, -0.55861, -0.05639]])

    def step(a, grow):
        """One dilation / erosion with the axis cross, nothing outside the image."""
        p = np.pad(a, 1, constant_values=False)
        c = tuple(slice(1, -1) for _ in a.shape)
        out = p[c].copy()
        for ax in range(a.ndim):
            for d in (-1, 1):
                q = np.roll(p, d, ax)[c]
                out = out | q if grow else out & q
        return out

    def clean(a, it):
        for _ in range(it):
            a = step(a, True)
        for _ in range(it + 1):
            a = step(a, False)
        return a

    def distance2(a):
        """Squared distance to the nearest voxel that is not set."""
        z = np.argwhere(~a)
        out = np.zeros(a.shape, dtype=np.int64)
        for p in np.argwhere(a):
            out[tuple(p)] = ((z - p) ** 2).sum(1).min()
        return out

    def inside(shape, c, r, rt):
        g = np.indices(shape)
        if rt in CUBE:
            return np.all([(x >= m - r) & (x < m + r) for x, m in zip(g, c)], axis=0)
        return sum((x - m) ** 2 for x, m in zip(g, c)) <= r * r

    def detect(a, it):
        d2 = distance2(clean(a, it))
        return d2, int(np.floor(np.sqrt(d2.max()) + 1e-9))

    def check_region(a, it, rt):
        cl = clean(a, it)
        d2, r = detect(a, it)
        keep = a.copy()
        c, rad, reg = find_largest_region(a, it, rt)
        if not np.array_equal(a, keep):
            return "input changed"
        if len(c) != a.ndim or any(type(x) is not int for x in c) or type(rad) is not int:
            return f"types {c!r} {rad!r}"
        if d2[c] != d2.max():
            return f"centre {c} has squared distance {d2[c]}, largest is {d2.max()}"
        if rad != r:
            return f"radius {rad}, expected {r}"
        if rad > 0 and any(x - rad < 0 or x + rad >= n for x, n in zip(c, a.shape)):
            return "region leaves the image"
        if rt == "original":
            return None if np.array_equal(reg, a) else "not the input"
        if rt == "cleaned":
            return None if np.array_equal(reg, cl) else "not the cleaned foreground"
        if rt == "full":
            m = step(step(cl, False), False)
        else:
            m = inside(a.shape, c, rad, rt)
        if not np.array_equal(np.ma.getmaskarray(reg), ~m):
            return "mask"
        return None

    def blobs(shape):
        a = ndi.gaussian_filter(rng.random(shape), float(rng.choice([1, 2, 3]))) if rng.random() < 0.7 else rng.random(shape)
        return a > np.quantile(a, float(rng.choice([0.3, 0.5, 0.7, 0.9])))

    def solid(shape):
        a = np.zeros(shape, dtype=bool)
        for _ in range(int(rng.integers(1, 4))):
            lo = [int(rng.integers(0, max(1, n - 3))) for n in shape]
            a[tuple(slice(x, x + int(rng.integers(3, n + 1))) for x, n in zip(lo, shape))] = True
        return a

    shapes = [(20, 23), (31, 9), (14, 3), (3, 17), (40, 40), (11, 12, 13), (9, 15, 4), (5, 16, 12)]
    for rep in range(12 if b.thorough else 3):
        for s in shapes:
            for mk in (blobs, solid):
                a = mk(s)
                if a.all() or not a.any():
                    continue
                for it in (1, 2, 5):
                    for rt in ("cubic", "sphere", "full", "original", "cleaned", "square", "circle", "cube", "spherical")[: 9 if rep == 0 else 3]:
                        if b.over():
                            return
                        b.case("largest region", lambda: check_region(a, it, rt), img=a, iterations=it, region=rt)
    for s in shapes:
        for a in (np.zeros(s, dtype=bool), np.ones(s, dtype=bool), np.eye(*s[:2]), np.eye(*s[:2], dtype="uint8"), rng.random(s)):
            b.case("not binary", lambda: raises(ValueError, find_largest_region, a, 2, "cubic"), img=a)

    for s in ((7,), (4, 5, 6, 7), (9, 9, 2)):
        a = rng.random(s) < 0.5
        a.flat[0], a.flat[1] = True, False
        b.case("other rank", lambda: raises(ValueError, find_largest_region, a, 2, "cubic"), img=a)

    # scores
    def picture(shape, dt):
        a = ndi.gaussian_filter(rng.random(shape), 2.0)
        a = (a - a.min()) / (a.max() - a.min()) * 200 + 5
        for _ in range(2):
            lo = [int(rng.integers(1, max(2, n - 8))) for n in shape[:2]] + ([int(rng.integers(1, max(2, shape[2] - 8)))] if len(shape) == 3 and shape[2] != 3 else [])
            a[tuple(slice(x, x + int(rng.integers(5, 14))) for x in lo)] += rng.random() * 60
        return np.clip(a, 0, 255).astype(dt)

    def grey(a):
        return np.minimum(a @ W, 255) if a.ndim == 3 and a.shape[2] == 3 else a

    def search(a, lo, hi, it):
        g = grey(a)
        m = (g > np.percentile(g, lo)) & (g <= np.percentile(g, hi))
        if m.all() or not m.any():
            return None
        d2, r = detect(m, it)
        best = [tuple(p) for p in np.argwhere(d2 == d2.max())]
        return best, r, g.shape

    def quiet(f, *a, **k):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(*a, **k)

    def ratio(x, y):
        return 0.0 if y == 0 else x / y

    def snr_values(a, c, r, rt, yuv):
        if not (a.ndim == 3 and a.shape[2] == 3):
            v = a[inside(a.shape, c, r, rt)].astype(float)
            return [ratio(v.mean(), v.std())]
        m = inside(a.shape[:2], c, r, rt)
        if yuv:
            v = (a @ Y.T)[m]
            return [ratio(v[:, 0].mean(), v[:, i].std()) for i in range(3)]
        v = a[m].astype(float)
        g = grey(a)[m]
        return [ratio(g.mean(), g.std())] + [ratio(v[:, i].mean(), v[:, i].std()) for i in range(3)]

    def check_snr(a, it, lo, hi, rt, yuv, score):
        f = search(a, lo, hi, it)
        kw = dict(region_type=rt, auto_center=True, iterations=it, lower_threshold=lo, upper_threshold=hi)
        if a.ndim == 3 and a.shape[2] == 3:
            kw["yuv"] = yuv

        def call():
            if score:
                return quiet(viqa.SNR().score, a, signal_center=(0,) * a.ndim, radius=1, **kw)
            return quiet(signal_to_noise_ratio, a, None, None, **kw)

        if f is None or f[1] == 0:
            return raises(ValueError if f is None else TypeError, call)
        got = np.atleast_1d(np.array(call(), dtype=float))
        for c in f[0]:
            e = np.array(snr_values(a, c, f[1], rt, yuv))
            if got.shape == e.shape and np.allclose(got, e, rtol=1e-4, atol=1e-6):
                return None
        return f"got {got}, expected {e} at {f[0][:3]} radius {f[1]}"

    def check_cnr(a, it, rt, score):
        s, g = search(a, 90, 100, it), search(a, 0, 90, it)

        def call():
            kw = dict(region_type=rt, auto_center=True, iterations=it)
            if score:
                return quiet(viqa.CNR().score, a, signal_center=(0,) * a.ndim, background_center=(0,) * a.ndim, radius=1, **kw)
            return quiet(contrast_to_noise_ratio, a, None, None, None, **kw)

        if s is None or g is None:
            return raises(ValueError, call)
        r = min(s[1], g[1])
        if r == 0:
            return raises(TypeError, call)
        got = float(call())
        for c in s[0]:
            for d in g[0]:
                x, y = (a[inside(a.shape, p, r, rt)].astype(float) for p in (c, d))
                e = ratio(x.mean() - y.mean(), y.std())
                if close(got, e, 1e-4) in (None, True):
                    return None
        return f"got {got}, expected {e} radius {r}"

    for rep in range(10 if b.thorough else 3):
        for s in [(26, 31), (40, 22), (18, 3), (24, 26, 3), (17, 15, 12), (20, 14, 5)]:
            for dt in ("uint8", "float64", "uint16"):
                a = picture(s, dt)
                for it in (1, 2):
                    rt = (CUBE + SPH)[int(rng.integers(0, 6))]
                    lo, hi = [(90, 99), (60, 100), (40, 90), (20.5, 80)][int(rng.integers(0, 4))]
                    if b.over():
                        return
                    for yuv in (True, False)[: 2 if s[-1] == 3 and len(s) == 3 else 1]:
                        b.case("automatic snr", lambda: check_snr(a, it, lo, hi, rt, yuv, False), img=a, it=it, lo=lo, hi=hi, region=rt)
                    if not (len(s) == 3 and s[2] == 3):
                        b.case("automatic cnr", lambda: check_cnr(a, it, rt, False), img=a, it=it, region=rt)
    # foreground and background regions of chosen sizes (below the 90th percentile: less than a tenth is foreground)
    for rep in range(20 if b.thorough else 8):
        n = int(rng.integers(100, 125))
        a = np.full((n, n), 10, dtype="uint8")
        f = int(n * 0.29)
        x, y = (int(v) for v in rng.integers(3, n // 2 - f, 2))
        a[x:x + f, y:y + f] = rng.integers(180, 211, (f, f))
        if rep % 3 == 1:  # the brightest voxels lie together
            a[x + f // 2:x + f // 2 + 4, y + f // 2:y + f // 2 + 4] = rng.integers(240, 256, (4, 4))
        w = int(rng.integers(9, 16)) if rep % 2 == 0 else int(n * 0.45)
        for i in range(max(2, 1 + n * n * 3 // (100 * w * w))):  # w by w patches below and beside it
            u, v = (n // 2 + 3, 2 + i * (w + 3)) if 2 + i * (w + 3) + w < n else (n // 2 + w + 6, 2 + (i * (w + 3)) % max(1, n - w - 3))
            a[u:u + w, v:v + w] = rng.integers(90, 121, a[u:u + w, v:v + w].shape)
        for rt in ("cubic", "sphere"):
            b.case("automatic cnr", lambda: check_cnr(a, 1, rt, False), img=a, it=1, region=rt)
            b.case("automatic snr", lambda: check_snr(a, 1, 92, 100, rt, False, False), img=a, it=1, region=rt)
    a = np.full((20, 20), 7, dtype="uint8")
    b.case("constant image", lambda: check_snr(a, 2, 90, 99, "cubic", False, False))
    b.case("constant image", lambda: check_cnr(a, 2, "cubic", False))
