from run import close


def run(b):
    import numpy as np
    import piq
    import torch
    import viqa
    import viqa.utils.misc as misc
    from viqa.utils import ImageArray

    rng = b.rng
    W = np.array([0.2125, 0.7154, 0.0721])
    M = np.array([[0.2126, 0.7152, 0.0722], [-0.09991, -0.33609, 0.436], [0.615, -0.55861, -0.05639]])
    dts = ["uint8", "uint16", "int16", "int32", "float32", "float64"]
    gray, yuv, tens = (getattr(misc, n, None) for n in ("_to_grayscale", "_rgb_to_yuv", "_check_chromatic"))

    def luma(a):
        return np.minimum(a.astype(float) @ W, 255)

    def mk(shape, dt, signed=False):
        hi = 256 if dt == "uint8" else 600
        lo = 0 if not signed or dt.startswith("u") or rng.random() < 0.6 else -200
        if signed and dt != "uint8" and rng.random() < 0.3:  # around the limit
            lo, hi = 250, 255.6
        return (lo + rng.random(size=shape) * (hi - lo)).astype(dt)

    for rep in range(10 if b.thorough else 3):
        for shape in [(1, 1), (2, 3), (3, 3), (5, 2), (4, 7), (3, 9), (16, 11)]:
            for dt in dts:
                a, c = mk(shape + (3,), dt, True), mk(shape + (3,), dt, True)
                tol, at = (1e-5, 2e-4) if dt == "float32" else (1e-9, 1e-9)
                if gray:
                    for x in (a, ImageArray(a)):
                        b.case("grey", lambda: close(np.asarray(gray(x)), luma(a), tol, at), img=a)
                if yuv:
                    for x in (a, ImageArray(a)):
                        b.case("yuv", lambda: close(np.asarray(yuv(x)), np.einsum("ijc,dc->ijd", a.astype(float), M), tol, 1e-6), img=a)
                met = viqa.RMSE()
                b.case("grey pair", lambda: close(np.stack([np.asarray(v) for v in met.load_images(a, c)]),
                                                  np.stack([luma(a), luma(c)]), tol, at), r=a, m=c)
                b.case("rmse of grey", lambda: close(viqa.RMSE().score(a, c), np.sqrt(((luma(a) - luma(c)) ** 2).mean()), 1e-4, 1e-4), r=a, m=c)
                a, c = mk(shape + (3,), dt), mk(shape + (3,), dt)
                if tens:
                    f = np.float64 if dt == "float64" else np.float32

                    def chk(x, y, chrom, ref):
                        t, u = tens(x, y, chrom)
                        for z, o in ((t, x), (u, y)):
                            e = ref(o.astype(f))
                            if tuple(z.shape) != e.shape:
                                return f"shape {tuple(z.shape)} != {e.shape}"
                            if z.numpy().dtype != f or not np.array_equal(z.numpy(), e):
                                return f"values or type differ ({z.dtype})"

                    b.case("tensor rgb", lambda: chk(a, c, True, lambda o: np.moveaxis(o, 2, 0)[None]), r=a, m=c)
                    p, q = mk(shape, dt), mk(shape, dt)
                    b.case("tensor 2d", lambda: chk(p, q, False, lambda o: o[None, None]), r=p, m=q)
                    p, q = mk(shape + (4,), dt), mk(shape + (4,), dt)
                    b.case("tensor 3d", lambda: chk(p, q, False, lambda o: np.moveaxis(o, 2, 0)[:, None]), r=p, m=q)
    # through the metrics
    for dt in ("uint8", "float32", "float64"):
        a, c = mk((48, 44, 3), dt), mk((48, 44, 3), dt)
        a, c = a / 256 * 255 if a.dtype.kind == "f" else a, c / 256 * 255 if c.dtype.kind == "f" else c
        a, c = np.minimum(a, 255).astype(dt), np.minimum(c, 255).astype(dt)
        T = lambda o: torch.tensor(np.ascontiguousarray(np.moveaxis(o.astype("float64" if dt == "float64" else "float32"), 2, 0)))[None]  # noqa: E731
        for M_, f, kw in ((viqa.FSIM, piq.fsim, {"chromatic": True}), (viqa.VSI, piq.vsi, {}), (viqa.VIFp, piq.vif_p, {})):
            b.case("colour " + M_.__name__, lambda: close(float(M_(data_range=255, chromatic=True).score(a, c)),
                                                         float(f(T(a), T(c), data_range=255, **kw)), 1e-4), dtype=dt)
    for rep in range(3):
        a = mk((12, 14, 3), "float64")
        y = np.einsum("ijc,dc->ijd", a, M)
        reg = y[4:8, 5:9]
        s = viqa.SNR()
        b.case("yuv through SNR", lambda: close(s.score(a, signal_center=(6, 7), radius=2, region_type="cubic", yuv=True),
                                                [reg[..., 0].mean() / reg[..., ch].std() for ch in range(3)], 1e-6), img=a)
