from run import close, raises


def run(b):
    import numpy as np
    import viqa
    from scipy.ndimage import gaussian_filter, uniform_filter

    rng = b.rng

    def definition(r, m, dr, win=None, gauss=True, K1=0.01, K2=0.03, sigma=1.5, alpha=1, beta=1, gamma=1, mode="reflect", cval=0):
        r, m = r.astype(np.float64), m.astype(np.float64)
        c = None
        if win is None:
            win = 2 * int(3.5 * sigma + 0.5) + 1 if gauss else 7
            c = 1.0 if gauss else None
        n = win ** r.ndim
        c = n / (n - 1) if c is None else c

        def f(x):
            if gauss:
                return gaussian_filter(x, sigma=sigma, truncate=3.5, mode=mode, cval=cval)
            return uniform_filter(x, size=win, mode=mode, cval=cval)

        ux, uy = f(r), f(m)
        vx, vy, vxy = (c * (f(p) - q) for p, q in ((r * r, ux * ux), (m * m, uy * uy), (r * m, ux * uy)))
        c1, c2 = (K1 * dr) ** 2, (K2 * dr) ** 2
        lum = np.nan_to_num((2 * ux * uy + c1) / (ux ** 2 + uy ** 2 + c1), nan=1)
        con = np.nan_to_num((2 * np.sqrt(vx) * np.sqrt(vy) + c2) / (vx + vy + c2), nan=1)
        st = np.nan_to_num((vxy + c2 / 2) / (np.sqrt(vx) * np.sqrt(vy) + c2 / 2), nan=1)
        p = (win - 1) // 2
        s = lum ** alpha * con ** beta * st ** gamma
        return s[tuple(slice(p, k - p) for k in s.shape)].mean()

    def images(shape, dt):
        # smooth structure plus noise, so that local variances are well conditioned
        g = np.add.outer(np.arange(shape[0]) * 3.0, np.arange(shape[1]) * 2.0)
        if len(shape) == 3:
            g = g[..., None] + np.arange(shape[2])
        r = 20 + 60 * rng.random(shape) + g / g.max() * 40
        m = r + rng.normal(size=shape) * rng.uniform(1, 20)
        if rng.random() < 0.3:  # opposed structures
            m = m + r.mean() - (r - r.mean()) * rng.uniform(1, 3) - r
        r, m = np.clip(r, 1, 250), np.clip(m, 1, 250)
        if dt == "float1":
            return (r / 255).astype(np.float32), (m / 255).astype(np.float32), 1
        if dt == "uint16":
            return (r * 256).astype(dt), (m * 256).astype(dt), 65535
        return r.astype(dt), m.astype(dt), 255

    def tol(a, ref):
        return abs(float(a) - float(ref)) <= 1e-4 or f"score {a!r}, definition {ref!r}"

    settings = [{}, dict(win_size=3), dict(win_size=5), dict(win_size=9), dict(gaussian_weights=False), dict(gaussian_weights=False, win_size=5),
                dict(gaussian_weights=False, win_size=11), dict(K1=0.02, K2=0.05), dict(K1=0, K2=0.1), dict(K1=0.3, K2=0), dict(alpha=2), dict(beta=3), dict(gamma=2), dict(gamma=3), dict(alpha=2, beta=3, gamma=4), dict(beta=2, gamma=5), dict(alpha=3, gamma=2),
                dict(alpha=0, beta=0), dict(alpha=0, gamma=0), dict(beta=0, gamma=0), dict(sigma=0.8), dict(sigma=2.0, win_size=7), dict(sigma=1.1),
                dict(mode="constant", cval=50, win_size=5), dict(mode="nearest", win_size=3), dict(mode="wrap", win_size=3), dict(sigma=3.0, win_size=3, mode="mirror"),
                dict(gaussian_weights=False, win_size=5, mode="constant", cval=40), dict(gaussian_weights=False, win_size=3, mode="wrap")]
    shapes = [(11, 11), (12, 17), (23, 14), (11, 12, 13), (14, 11, 11), (11, 40), (33, 15)]
    for rep in range(8 if b.thorough else 1):
        for shape in shapes:
            for dt in ("uint8", "uint16", "float32", "float1", "float64", "int16"):
                r, m, dr = images(shape, dt)
                met = viqa.SSIM(data_range=dr)
                if r.dtype == "float32" and dt != "float1":
                    met = viqa.SSIM(data_range=dr)
                for kw in settings if dt in ("uint8", "float1") or b.thorough else settings[:3]:
                    d = {("win" if k == "win_size" else "gauss" if k == "gaussian_weights" else k): v for k, v in kw.items()}
                    if (11 if d.get("sigma", 1) < 3 else 1) > min(shape):
                        continue
                    if d.get("win") is None and d.get("gauss", True) and 2 * int(3.5 * d.get("sigma", 1.5) + 0.5) + 1 > min(shape):
                        continue
                    b.case("ssim", lambda: tol(met.score(r, m, **kw), definition(r, m, dr, **d)), r=r, m=m, kw=kw, data_range=dr)
                    b.case("ssim swapped", lambda: close(met.score(r, m, **kw), met.score(m, r, **kw), 1e-4), r=r, m=m, kw=kw)
                    b.case("ssim identical", lambda: tol(met.score(r, r.copy(), **kw), 1), r=r, kw=kw)
                    b.case("ssim frame", lambda: (lambda x, y: (met.score(x, y, **kw), np.array_equal(x, r) and np.array_equal(y, m))[1])(r.copy(), m.copy()), kw=kw)
                u = viqa.UQI(data_range=dr)
                for kw in ({}, dict(win_size=3), dict(win_size=5), dict(win_size=11), dict(mode="constant", cval=9)):
                    d = {("win" if k == "win_size" else k): v for k, v in kw.items()}
                    b.case("uqi", lambda: tol(u.score(r, m, **kw), definition(r, m, dr, gauss=False, K1=0, K2=0, **d)), r=r, m=m, kw=kw)
                    b.case("uqi swapped", lambda: close(u.score(r, m, **kw), u.score(m, r, **kw), 1e-4), r=r, m=m, kw=kw)
                    b.case("uqi identical", lambda: tol(u.score(r, r.copy(), **kw), 1), r=r, kw=kw)
                for cls, dflt in ((viqa.SSIM, 11), (viqa.UQI, 7)):
                    o = cls(data_range=dr)
                    for w in (0, 2, 4, 10):
                        b.case("even window", lambda: raises(ValueError, lambda: o.score(r, m, win_size=w)), shape=shape, w=w)
                    big = min(shape) + 1 + min(shape) % 2
                    for w in (big, big + 2, 2 * max(shape) + 1):
                        b.case("large window", lambda: raises(ValueError, lambda: o.score(r, m, win_size=w)), shape=shape, w=w)
                    b.case("largest window", lambda: tol(o.score(r, m, win_size=big - 2), o.score_val), shape=shape)
                    small = r[tuple(slice(0, dflt - 1 if i == r.ndim - 1 else None) for i in range(r.ndim))]
                    b.case("default window", lambda: raises(ValueError, lambda: o.score(small, small)), shape=small.shape)
                for kw in (dict(K1=-0.01), dict(K2=-1e-9), dict(sigma=-1.0), dict(K1=-1, gaussian_weights=False)):
                    b.case("negative constant", lambda: raises(ValueError, lambda: viqa.SSIM(data_range=dr).score(r, m, **kw)), kw=kw)
        for dt in ("uint8", "float1"):
            r, m, dr = images((14, 12, 3), dt)
            for w in ([1, 1, 1], [0.2, 0.3, 0.5], [3, 0, 0], [0, 0, 1.0], np.array([1.0, 2.0, 3.0]), (0.1, 0.7, 0.2)):
                for kw in ({}, dict(win_size=5), dict(gaussian_weights=False), dict(alpha=2, K1=0.1)):
                    d = {("win" if k == "win_size" else "gauss" if k == "gaussian_weights" else k): v for k, v in kw.items()}
                    ref = sum(np.asarray(w, float)[c] * definition(r[..., c], m[..., c], dr, **d) for c in range(3)) / 3
                    b.case("colour", lambda: tol(viqa.SSIM(data_range=dr, chromatic=True).score(r, m, color_weights=w, **kw), ref), r=r, m=m, w=w, kw=kw)
            g = [0.2125 * x[..., 0] + 0.7154 * x[..., 1] + 0.0721 * x[..., 2] for x in (r.astype(float), m.astype(float))]
            b.case("grey", lambda: tol(viqa.SSIM(data_range=dr).score(r, m), definition(g[0], g[1], dr)), r=r, m=m)
