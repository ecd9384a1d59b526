import itertools

from run import close, raises


def run(b):
    import numpy as np
    import viqa
    from viqa.utils import ImageArray

    rng = b.rng
    CUBE, SPH, FULL = ("cubic", "cube", "square"), ("spherical", "sphere", "circle"), ("full", "original")
    M = np.array([[0.2126, 0.7152, 0.0722], [-0.09991, -0.33609, 0.436], [0.615, -0.55861, -0.05639]])
    W = np.array([0.2125, 0.7154, 0.0721])

    def region(a, c, r, reg):
        """Voxels of the region; a has len(c) axes."""
        if reg in FULL:
            return a.ravel()
        g = np.indices(a.shape)
        if reg in CUBE:
            m = np.all([(g[d] >= c[d] - r) & (g[d] <= c[d] + r - 1) for d in range(a.ndim)], axis=0)
        else:
            m = sum((g[d].astype(float) - c[d]) ** 2 for d in range(a.ndim)) <= r * r
        return a[m]

    def rat(x, s):
        return x / s if s != 0 else 0.0

    def mk(shape, dt):
        return (rng.random(size=shape) * 250).astype(dt)

    shapes = [(4, 4), (2, 3), (7, 5), (5, 9), (6, 3), (4, 5, 6), (6, 4, 8), (5, 5, 4), (3, 3, 4)]
    for rep in range(4 if b.thorough else 1):
        for shape in shapes:
            for dt in ("float64", "uint8", "int16", "float32"):
                a = mk(shape, dt)
                f = a.astype(float)
                tol = 1e-3 if dt == "float32" else 1e-7
                for r in (1, 2, 3):
                    cs = [range(r, n - r + 1) for n in shape]
                    allc = list(itertools.product(*cs))
                    if not allc:
                        continue
                    pick = [allc[0], allc[-1]] + [allc[i] for i in rng.integers(len(allc), size=6)]
                    for c in pick:
                        c = tuple(int(x) for x in c)
                        for reg in CUBE + SPH + FULL:
                            v = region(f, c, r, reg)
                            b.case("snr", lambda: close(viqa.SNR().score(a, signal_center=c, radius=r, region_type=reg),
                                                        rat(v.mean(), v.std()), tol, 1e-5), img=a, c=c, r=r, region=reg)
                            d = tuple(int(x) for x in allc[int(rng.integers(len(allc)))])
                            w = region(f, d, r, reg)
                            b.case("cnr", lambda: close(viqa.CNR().score(a, signal_center=c, background_center=d, radius=r, region_type=reg),
                                                        rat(v.mean() - w.mean(), w.std()), tol, 1e-5), img=a, s=c, b=d, r=r, region=reg)
                    for d in range(len(shape)):
                        for bad in (r - 1, shape[d] - r + 1, 0, shape[d]):
                            c = list(pick[0])
                            c[d] = bad
                            c = tuple(int(x) for x in c)
                            o = tuple(int(x) for x in pick[0])
                            b.case("border", lambda: raises(ValueError, viqa.SNR().score, a, signal_center=c, radius=r), shape=shape, c=c, r=r)
                            b.case("border", lambda: raises(ValueError, viqa.CNR().score, a, signal_center=c, background_center=o, radius=r), shape=shape, c=c, r=r)
                            b.case("border", lambda: raises(ValueError, viqa.CNR().score, a, signal_center=o, background_center=c, radius=r), shape=shape, c=c, r=r)
                        c = list(int(x) for x in pick[0])
                        c[d] = float(c[d])
                        o = tuple(int(x) for x in pick[0])
                        b.case("float centre", lambda: raises(TypeError, viqa.SNR().score, a, signal_center=tuple(c), radius=r), c=c)
                        b.case("float centre", lambda: raises(TypeError, viqa.CNR().score, a, signal_center=tuple(c), background_center=o, radius=r), c=c)
                        b.case("float centre", lambda: raises(TypeError, viqa.CNR().score, a, signal_center=o, background_center=tuple(c), radius=r), c=c)
                        b.case("float centre", lambda: raises(TypeError, viqa.SNR().score, a, signal_center=tuple(c), radius=r, region_type="spherical"), c=c)
                        b.case("float centre", lambda: raises(TypeError, viqa.CNR().score, a, signal_center=tuple(c), background_center=o, radius=r, region_type="spherical"), c=c)
                        b.case("float centre", lambda: raises(TypeError, viqa.CNR().score, a, signal_center=o, background_center=tuple(c), radius=r, region_type="full"), c=c)
                    for br in (0, -1, float(r), r + 0.0):
                        o = tuple(int(x) for x in pick[0])
                        b.case("bad radius", lambda: raises(TypeError, viqa.SNR().score, a, signal_center=o, radius=br), r=br)
                        b.case("bad radius", lambda: raises(TypeError, viqa.CNR().score, a, signal_center=o, background_center=o, radius=br), r=br)
        # the same image in other units has the same scores; a deviation is zero or it is not
        for shape in ((7, 9), (8, 7, 9)):
            for unit in (2.0 ** -10, 2.0 ** -30, 2.0 ** -60, 2.0 ** 20):
                a = rng.random(size=shape) * unit
                c, d = (tuple(int(rng.integers(2, n - 1)) for n in shape) for _ in range(2))
                for reg in ("cubic", "spherical", "full"):
                    v, w = region(a, c, 2, reg), region(a, d, 2, reg)
                    b.case("snr in other units", lambda: close(viqa.SNR().score(a, signal_center=c, radius=2, region_type=reg), rat(v.mean(), v.std()), 1e-7, 0), unit=unit, c=c, region=reg)
                    b.case("cnr in other units", lambda: close(viqa.CNR().score(a, signal_center=c, background_center=d, radius=2, region_type=reg), rat(v.mean() - w.mean(), w.std()), 1e-6, 1e-9), unit=unit, c=c, d=d, region=reg)
            a = 100 + 1e-7 * rng.random(size=shape)
            c = tuple(n // 2 for n in shape)
            v = region(a, c, 2, "cubic")
            b.case("snr of little noise", lambda: close(viqa.SNR().score(a, signal_center=c, radius=2), rat(v.mean(), v.std()), 1e-4, 0), c=c)
        flat = np.full((6, 6), 7.0)
        b.case("constant snr", lambda: close(viqa.SNR().score(flat, signal_center=(3, 3), radius=2), 0))
        b.case("constant cnr", lambda: close(viqa.CNR().score(flat, signal_center=(3, 3), background_center=(2, 2), radius=2), 0))
        half = flat.copy()
        half[3:] = rng.random((3, 6))
        b.case("constant background", lambda: close(viqa.CNR().score(half, signal_center=(5, 3), background_center=(1, 3), radius=1), 0), img=half)
        for shape in ((4, 4), (7, 5), (6, 3), (2, 2)):
            for dt in ("float64", "uint8", "float32"):
                a = mk(shape + (3,), dt)
                f = a.astype(float)
                y = np.einsum("ijc,dc->ijd", f, M)
                lum = np.minimum(f @ W, 255)
                for r in (1, 2, 3):
                    allc = list(itertools.product(*[range(r, n - r + 1) for n in shape]))
                    if not allc:
                        continue
                    for c in [allc[0], allc[-1]] + [allc[i] for i in rng.integers(len(allc), size=3)]:
                        c = tuple(int(x) for x in c)
                        for reg in CUBE + SPH + FULL:
                            R = lambda z: region(z, c, r, reg)  # noqa: E731
                            ey = [rat(R(y[..., 0]).mean(), R(y[..., ch]).std()) for ch in range(3)]
                            er = [rat(R(lum).mean(), R(lum).std())] + [rat(R(f[..., ch]).mean(), R(f[..., ch]).std()) for ch in range(3)]
                            b.case("colour yuv", lambda: close(viqa.SNR().score(a, signal_center=c, radius=r, region_type=reg, yuv=True), ey, 1e-3 if dt == "float32" else 1e-7, 1e-5),
                                   img=a, c=c, r=r, region=reg)
                            b.case("colour rgb", lambda: close(viqa.SNR().score(a, signal_center=c, radius=r, region_type=reg, yuv=False), er, 1e-3 if dt == "float32" else 1e-7, 1e-5),
                                   img=a, c=c, r=r, region=reg)
