from run import close, exact, raises


def run(b):
    import sys

    import numpy as np
    import scipy.fft as fft
    import viqa
    from scipy.ndimage import convolve
    from viqa.fr_metrics import mad as madm

    stat = sys.modules["viqa.fr_metrics.stat_utils.statisticscalc"]
    rng = b.rng
    gabor = getattr(madm, "gabor_convolve", None) or getattr(viqa.utils, "gabor_convolve", None)
    csf = getattr(madm, "_contrast_sensitivity_function", None)

    def cells(a, B, s, f):
        out = np.zeros(a.shape)
        for x in range(0, a.shape[0] - B + 1, s):
            for y in range(0, a.shape[1] - B + 1, s):
                out[x:x + s, y:y + s] = f(a[x:x + B, y:y + B])
        return out

    def rms(a, B):
        c = a[B:-B, B:-B]
        return np.sqrt((c ** 2).sum() / c.size)

    def detect(r, m, B, s, p):
        cpd = 32
        if p.get("account_monitor"):
            cpd = p["display_function"]["disp_res"] * p["display_function"]["view_dis"] * np.tan(np.pi / 180) / 2
        c = csf(*r.shape, cpd, **p.get("csf_function", {"lambda_csf": 0.114, "f_peak": 7.8909}))
        lum = dict({"b": 0, "k": 0.02874, "gamma": 2.2}, **p.get("luminance_function", {}))
        img = [np.real(fft.ifftn(fft.ifftshift(c * fft.fftshift(fft.fftn(lum["b"] + lum["k"] * x.astype(float) ** (lum["gamma"] / 3))))))
               for x in (r, m)]
        mu = cells(img[0], B, s, np.mean)
        dev = cells(img[1] - img[0], B, s, lambda v: np.std(v, ddof=1))
        lo = np.log(stat.minstd(img[0], B, s) / mu)
        le = np.log(np.where(mu > 0.5, dev / mu, 0))
        mask = np.where((le > -5) & (lo <= -5), le + 5, np.where((le > lo) & (lo > -5), le - lo, 0)) / p.get("ms_scale", 1)
        mse = convolve((r.astype(float) - m.astype(float)) ** 2, np.full((B, B), 1 / B ** 2), mode="reflect")
        return 200 * rms(mask * mse, B)

    def appear(r, m, B, s, p):
        ns, no = p.get("scales_num", 5), p.get("orientations_num", 4)
        w = np.array(p.get("weights", [0.5, 0.75, 1, 5, 6]), dtype=float)
        w = w / w.sum()
        bk = [gabor(x, scales_num=ns, orientations_num=no, min_wavelength=3, wavelength_scaling=3, bandwidth_param=0.55, d_theta_on_sigma=1.5)
              for x in (r, m)]
        out = np.zeros(r.shape)
        for i in range(ns):
            for j in range(no):
                q = [stat.getstatistics(np.abs(g[i, j]), B, s) for g in bk]
                out += w[i] * sum(c * np.abs(x - y) for c, x, y in zip((1, 2, 1), *q))
        return rms(out, B)

    def definition(r, m, B=16, ov=0.75, b1=0.467, b2=0.130, t1=None, t2=None, **p):
        s = B - int(ov * B)
        d, a = detect(r, m, B, s, p), appear(r, m, B, s, p)
        if t1 and t2:
            b1, b2 = np.exp(-t1 / t2), 1 / (np.log(10) * t2)
        al = 1 / (1 + b1 * d ** b2)
        return d ** al * a ** (1 - al)

    def args(kw):
        kw = dict(kw)
        out = {"block_size": kw.pop("B", 16), "block_overlap": kw.pop("ov", 0.75), "beta_1": kw.pop("b1", 0.467), "beta_2": kw.pop("b2", 0.130)}
        if "t1" in kw:
            out["thresh_1"] = kw.pop("t1")
        if "t2" in kw:
            out["thresh_2"] = kw.pop("t2")
        return dict(out, **kw)

    def image(sh, dt):
        """Mostly images of little contrast: only there are distortions not masked (score above zero)."""
        k, (x, y) = rng.random(), np.indices(sh)
        if k < 0.1:
            a = rng.integers(1, 256, sh)
        elif k < 0.2:
            a = 100 + 60 * np.sin(x / 3) + 30 * np.cos(y / 2) + rng.normal(0, 4, sh)
        else:
            a = rng.uniform(60, 190) + rng.uniform(2, 25) * np.sin(x / rng.uniform(4, 12)) * np.cos(y / rng.uniform(4, 12)) + rng.normal(0, rng.choice([0.01, 1, 3]), sh)
        return np.clip(a, 1, 255).astype(dt)

    def noisy(r):
        sd, (x, y) = float(rng.choice([5, 20, 50, 90])), np.indices(r.shape)
        d = rng.normal(0, sd, r.shape) if rng.random() < 0.6 else sd * np.sin(x / 1.5) * np.sin(y / 2.5)
        if rng.random() < 0.3:
            d = d * (x > r.shape[0] // 2)
        return np.clip(r.astype(float) + d, 1, 255).astype(r.dtype)

    SETS = [{}, {"b1": 0.9, "b2": 0.4}, {"t1": 2.55, "t2": 3.35}, {"t1": 1.0}, {"ms_scale": 2, "orientations_num": 3},
            {"scales_num": 2, "weights": [1.0, 3.0]}, {"scales_num": 1, "weights": [2], "orientations_num": 2},
            {"scales_num": 6, "weights": [1, 2, 0.5, 3, 1, 9.0], "orientations_num": 1},
            {"luminance_function": {"b": 0.1, "k": 0.05, "gamma": 1.8}}, {"csf_function": {"lambda_csf": 0.2, "f_peak": 5.0}},
            {"account_monitor": True, "display_function": {"disp_res": 9.0, "view_dis": 80.0}}]
    GEO = [(4, 0.5), (4, 0.75), (3, 0.5), (5, 0.4), (8, 0.9), (7, 0.3), (16, 0.75), (2, 0), (6, 0.5), (4, 0)]

    if gabor is not None and csf is not None:
        for rep in range(10 if b.thorough else 4):
            for n, (B, ov) in enumerate(GEO):
                for j in range(3):
                    if b.over():
                        return
                    sh = tuple(int(2 * B + 3 + rng.integers(0, 14)) for _ in range(2))
                    dt = ("uint8", "float64", "float32")[(n + j) % 3]
                    r = image(sh, dt)
                    m = noisy(r)
                    kw = dict(SETS[(3 * n + j + rep) % len(SETS)], B=B, ov=ov)
                    b.case("definition", lambda: close(viqa.MAD(data_range=255).score(r, m, **args(kw)), definition(r, m, **kw), rtol=2e-2 if dt == "float32" else 1e-6),
                           r=r, m=m, kw=repr(kw))
        # one image size, every parameter set after every other one
        r = image((24, 27), "float64")
        m = noisy(r)
        more = SETS + [{"csf_function": {"lambda_csf": 0.4, "f_peak": 2.0}}, {"luminance_function": {"k": 0.1, "gamma": 3.0}},
                       {"account_monitor": True, "display_function": {"disp_res": 4.0, "view_dis": 60.0}}]
        for turn in (more, more[::-1]):
            for q in turn:
                kw = dict(q, B=8, ov=0.5)
                b.case("definition after other parameters", lambda: close(viqa.MAD(data_range=255).score(r, m, **args(kw)), definition(r, m, **kw), rtol=1e-6), r=r, m=m, kw=repr(kw))
    met = viqa.MAD(data_range=255)
    for B, ov in GEO:
        for dt in ("uint8", "float64"):
            r = image((2 * B + 5, 2 * B + 9), dt)
            b.case("identical images score 0", lambda: close(met.score(r, r.copy(), block_size=B, block_overlap=ov), 0.0), r=r, B=B, ov=ov)
    # histories
    for rep in range(40 if b.thorough else 8):
        r = image((24 + rep, 29), "float64")
        m = noisy(r)
        kw = dict(block_size=int(rng.integers(2, 6)), block_overlap=float(rng.choice([0, 0.5])), **({} if rep % 2 else {"scales_num": 2, "weights": [1.0, 3.0]}))
        ref = viqa.MAD(data_range=255).score(r, m, **kw)
        old = viqa.MAD(data_range=255)
        met = viqa.MAD(data_range=255)
        for _ in range(int(rng.integers(1, 4))):
            k = int(rng.integers(0, 6))
            x = image((40, 20) if k % 2 else r.shape, "float64")
            y = noisy(x)
            try:
                if k < 2:
                    (met, old)[k].score(x, y, block_size=8, block_overlap=0.75, ms_scale=5)
                elif k < 4:
                    met.score(x, y, block_size=4, block_overlap=0.25, scales_num=3, weights=[1, 1, 7.0], orientations_num=2)
                elif k == 4:
                    met.score(x, y, block_size=2000)
                else:
                    met.score(x, y, block_size=3, scales_num=2)
            except ValueError:
                pass
        b.case("earlier calls do not matter", lambda: exact(np.float64(met.score(r, m, **kw)), np.float64(ref)), r=r, m=m, kw=repr(kw))
    # far larger blocks and images before
    r = image((31, 36), "float64")
    m = noisy(r)
    small = dict(scales_num=1, weights=[1.0], orientations_num=1)
    kw = dict(block_size=6, block_overlap=0.5)
    ref = viqa.MAD(data_range=255).score(r, m, **kw)
    for B, ov in ((40, 0.25), (200, 2), (300, -1)):
        x = image((2 * B + 1, 2 * B + 3), "float64")
        y = noisy(x)
        met = viqa.MAD(data_range=255)
        try:
            met.score(x, y, block_size=B, block_overlap=ov, **small)
        except ValueError:
            pass
        b.case("earlier calls do not matter", lambda: exact(np.float64(met.score(r, m, **kw)), np.float64(ref)), r=r, m=m, kw=repr(kw), earlier_block=B)
    r = image((20, 23), "float64")
    m = noisy(r)
    for kw in [dict(block_size=v) for v in (0, -1, -16, 21, 24, 1000)] + [dict(block_size=4, block_overlap=v) for v in (1, 1.0, 1.5, -0.1, -1, 100)] + \
            [dict(block_size=4, scales_num=s, weights=w) for s, w in ((2, [1]), (1, [1, 2]), (5, [1, 2, 3, 4]), (3, [1.0] * 5))] + [dict(block_size=4, scales_num=4)]:
        b.case("rejected", lambda: raises(ValueError, viqa.MAD(data_range=255).score, r, m, **kw), kw=repr(kw))
