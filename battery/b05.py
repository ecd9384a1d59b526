import io
import operator
import re
import contextlib
import warnings

from run import close


def run(b):
    import numpy as np
    import viqa

    rng = b.rng
    FR = (viqa.RMSE, viqa.PSNR, viqa.SSIM, viqa.UQI, viqa.MSSSIM, viqa.FSIM, viqa.VIFp, viqa.VSI, viqa.GSM, viqa.MAD)

    def mk(shape, dt="uint8"):
        return (rng.random(size=shape) * 200 + 3).astype(dt)

    def val(x):
        return np.asarray([float(v) for v in x]) if isinstance(x, (tuple, list)) else float(x)

    def same(x, y):
        if x is None or y is None:
            return x is y
        return close(val(x), val(y), 1e-6, 0) is None

    def step(met, *a, **k):
        before = met.score_val
        try:
            v = met.score(*a, **k)
        except Exception as e:  # noqa: BLE001
            if met.score_val is not before and not same(met.score_val, before):
                return f"stored score changed to {met.score_val} by a call that raised {type(e).__name__}"
            return None
        return None if same(v, met.score_val) else f"returned {v}, stored {met.score_val}"

    def history(M, steps, **mkw):
        met = M(data_range=255, **mkw)
        for a, k in steps:
            r = step(met, *a, **k)
            if r:
                return r

    for M in FR:
        n = 176 if M is viqa.MSSSIM else 48
        g, h, same2 = mk((n, n)), mk((n, n)), mk((n, n))
        v, w = mk((n, n, 4)), mk((n, n, 4))
        sl = M not in FR[:4]
        good = [((g, h), {}), ((g, g.copy()), {}), ((same2, h), {})]
        bad = [((g, h.astype("float32")), {}), ((g, h[1:]), {}), ((g, None), {}), ((g[0], h[0]), {}), ((g[:3, :3], h[:3, :3]), {})]
        vol = [((v, w), dict(dim=2, im_slice=1)), ((v, w), dict(dim=2)), ((v, w), dict(dim=5)), ((v, w), {}), ((v, w), dict(dim=2, im_slice=99)),
               ((v, w), dict(dim=1, im_slice=1.5)), ((v, w), dict(dim=2, im_slice=3))] if sl else [((v, w), {})]
        extra = [((g, h), dict(no_such_parameter=1))] + ([((g, h), dict(K1=-1)), ((g, h), dict(win_size=4))] if M is viqa.SSIM else []) + \
            ([((g, h), dict(block_size=0)), ((g, h), dict(weights=[1]))] if M is viqa.MAD else [])
        pool = good + bad + vol + extra
        b.case(f"{M.__name__} history", lambda: history(M, pool))
        for rep in range(8 if b.thorough else 1):
            idx = rng.permutation(len(pool))
            b.case(f"{M.__name__} shuffled history", lambda: history(M, [pool[i] for i in idx]), order=idx.tolist())
        if M in (viqa.PSNR, viqa.RMSE, viqa.SSIM, viqa.FSIM, viqa.VIFp, viqa.VSI, viqa.MSSSIM):
            c, d = mk((n, n, 3)), mk((n, n, 3))
            kw = {"color_weights": np.array([0.2, 0.3, 0.4])} if M is viqa.SSIM else {}
            b.case(f"{M.__name__} colour history", lambda: history(M, [((c, d), kw), ((c, d), {}), ((c, d[1:]), kw), ((g, h), kw), ((c, c), kw)], chromatic=True))
    a2, a3, ac = mk((30, 31)), mk((30, 31, 32)), mk((30, 31, 3))
    for M in (viqa.SNR, viqa.CNR):
        def K(nd, **k):
            d = dict(signal_center=(9,) * nd, radius=2) | ({"background_center": (15,) * nd} if M is viqa.CNR else {})
            return d | k
        pool = [((a2,), K(2)), ((a2,), K(2, region_type="full")), ((a2,), K(2, region_type="circle")), ((a2,), K(2, region_type="x")), ((a2,), K(2, radius=0)),
                ((a2,), K(2, signal_center=(1, 1))), ((a2,), K(2, signal_center=(9.5, 9))), ((None,), K(2)), ((a3,), K(3)), ((a3,), K(2)), ((ac,), K(2)),
                ((ac,), K(2, yuv=False)), ((a2,), {}), ((a2 * 0 + 5,), K(2))]
        for rep in range(4):
            idx = rng.permutation(len(pool)) if rep else range(len(pool))
            b.case(f"{M.__name__} history", lambda: history(M, [pool[i] for i in idx]), order=list(idx))
    # comparisons
    OPS = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]
    vals = [0.0, 1.0, -2.5, 3, float("inf"), float("nan"), None, np.float64(1.0), np.float32(0.5), 1, True]

    def cmp(op, x, y, metric, refl=False):
        p = viqa.PSNR()
        p.score_val = x
        if metric:
            q = viqa.SSIM()
            q.score_val = y
        else:
            q = y
        try:
            e = op(x, y)
        except TypeError:
            e = TypeError
        try:
            g = op(p, q)
        except TypeError:
            g = TypeError
        if (g is TypeError) != (e is TypeError) or (e is not TypeError and bool(g) != bool(e)):
            return f"{op.__name__}: got {g}, scores give {e}"

    for op in OPS:
        for x in vals:
            for y in vals:
                for metric in (True, False):
                    b.case("comparison", lambda: cmp(op, x, y, metric), op=op.__name__, x=repr(x), y=repr(y), metric=metric)

    # printing
    def prt(M, x, dec):
        met = M()
        met.score_val = x
        out = io.StringIO()
        with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(out):
            warnings.simplefilter("always")
            met.print_score(*(() if dec is None else (dec,)))
        t = out.getvalue()
        if met.score_val is not x:
            return "score changed"
        if x is None:
            if t:
                return f"printed {t!r}"
            return None if any(issubclass(w.category, RuntimeWarning) for w in ws) else "no RuntimeWarning"
        num = re.findall(r"(?<![A-Za-z\d])-?(?:\d+\.?\d*(?:e[+-]?\d+)?|inf|nan)", t.split(":", 1)[-1])
        exp = np.atleast_1d(np.round(x, 2 if dec is None else dec))
        if len(num) != len(exp):
            return f"printed {t!r}"
        return close([float(q) for q in num], exp, 1e-12, 1e-12)

    for M in FR + (viqa.SNR, viqa.CNR):
        for x in [0.0, 0, 1.0, 0.123456789, -3.98765, 123456.789, np.float64(12.3456), np.float64(0), float("inf"), None] + \
                ([(1.23456, 2.34567, -0.00456)] if M is viqa.SNR else []):
            for dec in (None, 0, 1, 3, 6):
                b.case(f"{M.__name__} printing", lambda: prt(M, x, dec), score=repr(x), decimals=dec)
