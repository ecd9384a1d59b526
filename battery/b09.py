from run import close


def run(b):
    import itertools

    import numpy as np
    import viqa
    from scipy.ndimage import correlate1d  # noqa: F401

    rng = b.rng
    D = np.array([[0, 0, -1, 0, 0], [0, -8, -3, 0, 0], [-1, -3, 0, 3, 1], [0, 0, 3, 8, 0], [0, 0, 1, 0, 0]])
    X = np.array([[0, -w, 0, w, 0] for w in (1, 3, 8, 3, 1)])
    D2 = np.array([[0, 0, -1, 0, 0], [0, 0, -3, -8, 0], [1, 3, 0, -3, -1], [0, 8, 3, 0, 0], [0, 0, 1, 0, 0]])
    K2 = [X, X.T, D2, D]
    z = np.zeros((5, 5, 5))
    for i, j in itertools.product(range(5), repeat=2):
        w = {0: 8, 1: 3, 2: 1}.get(abs(i - 2) + abs(j - 2), 0)
        z[i, j, 1], z[i, j, 3] = -w, w
    yz = np.zeros((5, 5, 5))
    yz[2] = D
    yz[1, 1:4, 1:4] = yz[3, 1:4, 1:4] = [[-3, -1, 0], [-1, 0, 1], [0, 1, 3]]
    yz[0, 1, 1] = yz[4, 1, 1] = -1
    yz[0, 3, 3] = yz[4, 3, 3] = 1
    q = np.zeros((5, 5, 5))
    for x in (0, 4):
        for (i, j), v in {(0, 1): -1, (1, 0): 1, (1, 3): -1, (3, 1): 1, (3, 4): -1, (4, 3): 1}.items():
            q[x, i, j] = v
    for x in (1, 3):
        for (i, j), v in {(1, 2): -3, (2, 1): 3, (2, 3): -3, (3, 2): 3}.items():
            q[x, i, j] = v
    for (i, j), v in {(0, 2): -1, (1, 3): -8, (2, 0): 1, (2, 4): -1, (3, 1): 8, (4, 2): 1}.items():
        q[2, i, j] = v
    r90 = np.rot90
    K3 = [z, r90(z, 1, (2, 0)), r90(z, 1, (2, 1)), yz] + [r90(yz, 1, a) for a in ((2, 0), (0, 2), (2, 1), (1, 0), (0, 1))] + \
        [q] + [r90(q, 1, a) for a in ((1, 2), (0, 1), (0, 2))]

    def corr(a, k):
        """Correlation with mirrored borders, by its definition."""
        p = np.pad(a, 2, mode="symmetric")
        while min(p.shape) < min(a.shape) + 4:
            p = np.pad(a, 2, mode="symmetric")
        out = np.zeros(a.shape)
        for off in np.ndindex(*k.shape):
            if k[off]:
                out += k[off] * p[tuple(slice(o, o + n) for o, n in zip(off, a.shape))]
        return out

    def definition(r, m, dr, c=200, p=0.1):
        """None if two kernels tie."""
        r, m = r.astype(np.float64), m.astype(np.float64)
        ks = K2 if r.ndim == 2 else K3
        best = []
        for a in (r, m):
            gs = [corr(a, k) for k in ks]
            means = [np.abs(g).mean() for g in gs]
            o = np.argsort(means)
            if means[o[-1]] - means[o[-2]] < 1e-6 * (means[o[-1]] + 1e-30):
                return None
            best.append((gs[o[-1]], means[o[-1]]))
        (gr, ar), (gm, am) = best
        if 0 < abs(ar - am) < 1e-9 * ar:
            return None
        st = gr if ar >= am else gm
        K = c / max(np.abs(gr).max(), np.abs(gm).max())
        R = np.abs(gr - gm) / st
        g = (2 * (1 - R) + K) / (1 + (1 - R) ** 2 + K)
        W = p * g
        qn = (1 - W) * g + W * (1 - ((r - m) / dr) ** 2)
        return np.nanmean(qn)

    def check(got, ref, tol=1e-6):
        return True if ref is None else close(got, ref, tol)

    shapes = [(5, 5), (7, 12), (16, 9), (30, 31), (6, 7, 8), (9, 5, 6), (12, 10, 11)]
    for rep in range(10 if b.thorough else 2):
        for shape in shapes:
            g = np.indices(shape)
            base = []
            for d in itertools.product((-1, 0, 1), repeat=len(shape)):
                if any(d):
                    base.append(100 + 6.0 * sum(x * (y - y.mean()) for x, y in zip(d, g)) + rng.normal(size=shape))
            base.append(rng.random(shape) * 255)
            if len(shape) == 3 and not b.thorough:
                base = [base[i] for i in rng.permutation(len(base))[:6]]
            for f in base:
                r0 = np.clip(f, 0, 255)
                m0 = np.clip(r0 + rng.normal(size=shape) * rng.choice([0.5, 5, 40]), 0, 255)
                if rng.random() < 0.3:
                    m0 = np.clip(base[int(rng.integers(len(base)))], 0, 255)
                for dt in ("uint8", "float64", "int16", "float32", "uint16", "int32"):
                    r, m = r0.astype(dt), m0.astype(dt)
                    kw = [{}, dict(c=500), dict(p=0.4), dict(c=1, p=0)][int(rng.integers(4))]
                    dr = [255, 1, 65535][int(rng.integers(3))]
                    ex = dict(dim=int(rng.integers(3)), experimental=True) if len(shape) == 3 else {}
                    s = viqa.GSM(data_range=dr)
                    tol = 2e-3 if dt == "float32" else 1e-6
                    b.case("definition", lambda: check(s.score(r, m, **kw, **ex), definition(r, m, dr, **kw), tol), r=r, m=m, kw=kw, data_range=dr)
                    if dt.startswith("u") or dt.startswith("i"):
                        b.case("storage type", lambda: close(s.score(r, m, **kw, **ex), s.score(r.astype(np.float64), m.astype(np.float64), **kw, **ex), 1e-9), r=r, m=m)
                    b.case("identical", lambda: close(s.score(r, r.copy(), **kw, **ex), 1, 1e-9), r=r, kw=kw)
        for a in (np.tile(np.r_[np.arange(10, 0, -1) * 10, np.zeros(10, int)], (20, 1)), np.tile(np.arange(200, 100, -5), (12, 1)), np.tile(np.arange(200, 100, -5), (12, 1)).T):
            for dt in ("uint8", "float64"):
                x = a.astype(dt)
                b.case("identical, falling", lambda: close(viqa.GSM(data_range=255).score(x, x.copy()), 1, 1e-9), r=x)
