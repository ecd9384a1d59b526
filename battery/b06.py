from run import close

RANGES = {"uint8": (0, 256), "uint16": (0, 65536), "int8": (-128, 128), "int16": (-32768, 32768),
          "int32": (-2 ** 31, 2 ** 31), "uint32": (0, 2 ** 32), "float32": None, "float64": None}


def sample(rng, shape, dt):
    import numpy as np

    if RANGES[dt] is None:
        return rng.normal(size=shape).astype(dt) * 50
    lo, hi = RANGES[dt]
    return rng.integers(lo, hi, size=shape).astype(dt)


def run(b):
    import numpy as np
    import viqa

    rng = b.rng

    def mse(r, m):
        d = r.astype(np.longdouble) - m.astype(np.longdouble)
        return float((d * d).mean())

    shapes = [(1, 1), (1, 7), (2, 2), (5, 4), (9, 1), (8, 8), (4, 5, 2), (3, 4, 5), (6, 2, 7), (4, 4, 3), (1, 1, 3), (40, 31), (9, 13, 11)]
    for rep in range(12 if b.thorough else 2):
        for shape in shapes:
            chrom = len(shape) == 3 and shape[-1] == 3
            for dt in RANGES:
                r, m = sample(rng, shape, dt), sample(rng, shape, dt)
                near = r.copy()
                near.flat[int(rng.integers(r.size))] = m.flat[0]
                last = r.copy()
                last.flat[-1] = last.flat[-1] ^ 1 if RANGES[dt] else last.flat[-1] + 1
                ext = np.full(shape, RANGES[dt][0] if RANGES[dt] else -1e3).astype(dt)
                ext2 = np.full(shape, RANGES[dt][1] - 1 if RANGES[dt] else 1e3).astype(dt)
                for x, y in ((r, m), (r, near), (r, last), (ext, ext2), (ext2, ext), (r, r.copy())):
                    e = mse(x, y)
                    same = np.array_equal(x, y)
                    kw = {"chromatic": True} if chrom else {}
                    tol = 1e-4 if dt == "float32" else 1e-6
                    for dr in (None, 255):
                        s = viqa.RMSE(data_range=dr, **kw)
                        b.case("rmse", lambda: close(s.score(x, y), np.sqrt(e), tol), r=x, m=y)
                        b.case("rmse swapped", lambda: close(s.score(y, x), np.sqrt(e), tol), r=x, m=y)
                        b.case("rmse zero iff same", lambda: (float(s.score(x, y)) == 0) == same, r=x, m=y)
                    for dr in (1, 255, 65535, 17.5):
                        p = viqa.PSNR(data_range=dr, **kw)
                        ref = np.inf if same else 10 * np.log10(float(dr) ** 2 / e)
                        b.case("psnr", lambda: close(p.score(x, y), ref, tol), r=x, m=y, data_range=dr)
                        b.case("psnr swapped", lambda: close(p.score(y, x), ref, tol), r=x, m=y, data_range=dr)
