from run import close, raises


def prep(r, m, roi=None, order=1):
    """Reference implementation of the prepared pair."""
    import skimage as ski

    if r.shape != m.shape:
        m = ski.transform.resize(m, r.shape, preserve_range=True, order=order).astype(r.dtype)
    if roi is not None:
        box = tuple(slice(*x) for x in roi)
        r, m = r[box], m[box]
    if r.ndim == 3 and r.shape[-1] == 3:
        import numpy as np

        w = np.array([0.2125, 0.7154, 0.0721])
        r, m = (np.minimum(x.astype(float) @ w, 255) for x in (r, m))
    return r, m


def fake(kind, dtypes=False):
    """A metric whose score depends on every voxel, its place, its parameters and, if asked for, the data type."""
    import numpy as np
    from viqa import _metrics as M

    base = M.FullReferenceMetricsInterface if kind == "f" else M.NoReferenceMetricsInterface

    class Fake(base):
        def __init__(self, name, salt):
            super().__init__(data_range=255, normalize=False)
            self._name, self.salt = name, salt

        def value(self, *imgs, **par):
            t = self.salt
            for n, i in enumerate(imgs):
                t += i.dtype.itemsize * (n + 1) if dtypes else 0
                i = np.asarray(i, dtype=float)
                t += (n + 1) * float((i * np.cos(np.arange(i.size)).reshape(i.shape)).sum()) + sum(p * q for p, q in enumerate(i.shape, 3))
            for n in sorted(par):
                t += len(n) * float(par[n])
            return t

        def score(self, *imgs, **par):
            assert len(imgs) == (2 if kind == "f" else 1)
            self.score_val = self.value(*imgs, **par)
            return self.score_val

        def print_score(self, decimals=2):
            pass

    return Fake


def expected(mets, pars, pair):
    out = {}
    for m, p in zip(mets, pars):
        if m.type == "full-reference":
            out[m._name] = m.value(*pair, **p)
        else:
            out[m._name + "_r"] = m.value(pair[0], **p)
            out[m._name + "_m"] = m.value(pair[1], **p)
    return out


def same(res, want):
    if list(res) != list(want):
        return f"entries {list(res)} instead of {list(want)}"
    for n in want:
        e = close(res[n], want[n], 1e-6, 5e-3)
        if e or not isinstance(res[n], float):
            return f"{n}: {e or type(res[n])}"


def run(b):
    import numpy as np
    import viqa

    rng = b.rng
    F, N = fake("f"), fake("n")
    for rep in range(40 if b.thorough else 12):
        for kind in ("2d", "3d", "rgb"):
            for mix in ("", "f", "n", "fn", "nf", "ffn", "nn", "fnfnn"):
                dr, dm = [("uint8", "uint8"), ("float64", "float64"), ("uint8", "uint16"), ("float32", "uint8"), ("uint16", "float32")][int(rng.integers(5))]

                def img(dt):
                    sh = [int(x) for x in rng.integers(5, 11, 2)] + ([3] if kind == "rgb" else [int(rng.integers(5, 9))] if kind == "3d" else [])
                    return (rng.random(sh) * 200).astype(dt)

                r, m = img(dr), img(dm)
                if rng.random() < 0.4:
                    m = (rng.random(r.shape) * 200).astype(dr)
                if r.shape == m.shape and r.dtype != m.dtype:
                    continue
                mets = [(F if t == "f" else N)(f"M{i}", i * 1.25) for i, t in enumerate(mix)]
                pars = [{"q": float(rng.random()), "zz": 2.0} if rng.random() < 0.6 else {} for _ in mix]
                kw = {}
                order = 1
                if rng.random() < 0.3:
                    order = kw["scaling_order"] = int(rng.choice([0, 3]))
                roi = None
                if rng.random() < 0.5:
                    roi = [(int(lo), int(lo + rng.integers(2, 4))) for lo in rng.integers(0, 2, r.ndim if kind == "3d" else 2)]
                    if kind == "3d":
                        roi[2] = (0, 4)
                    kw["roi"] = roi
                mm = viqa.MultipleMetrics(mets, pars)
                keep = [dict(p) for p in pars]
                b.case("prepared pair", lambda: same(mm.calculate(r, m, **kw), expected(mets, pars, prep(r, m, roi, order))),
                       mix=mix, shapes=[r.shape, m.shape], dtypes=[dr, dm], **kw)
                b.case("stored", lambda: mm.results is not None and (pars == keep or "parameters changed"))
    # scores of any size reach the results unchanged
    for v in (1.2345678901234e-11, 9.87654321098765e15, float("nan"), float("inf"), -0.0, 1 / 3):
        def one(v=v):
            m = F("M", 0.0)
            m.value = lambda *imgs, **par: v
            r = (rng.random((6, 7)) * 200).astype("uint8")
            got = viqa.MultipleMetrics([m], [{}]).calculate(r, r)["M"]
            return (got == v or got != got and v != v) or f"{got!r} instead of {v!r}"

        b.case("score unchanged", one, value=str(v))
    # real metrics, normalisation
    for rep in range(12 if b.thorough else 4):
        for dt, rg in (("uint8", 1), ("float64", 1), ("float32", 255), ("uint16", 255), ("int16", 65535)):
            r, m = ((rng.random((14, 15)) * 250).astype(dt) for _ in range(2))
            roi = [(2, 9), (3, 13)] if rep % 2 else None
            mets = [viqa.PSNR(data_range=rg), viqa.RMSE(), viqa.SNR(data_range=rg)]
            pars = [{}, {}, {"signal_center": (4, 4), "radius": 2, "region_type": "cubic"}]

            def go():
                res = viqa.MultipleMetrics(mets, pars).calculate(r, m, normalize=True, data_range=rg, roi=roi)
                kw = dict(data_range=rg, normalize=True, roi=roi)
                s = viqa.SNR(**kw)
                want = {"PSNR": viqa.PSNR(**kw).score(r, m), "RMSE": viqa.RMSE(**kw).score(r, m), "SNR_r": s.score(r, **pars[2]), "SNR_m": s.score(m, **pars[2])}
                return same(res, {k: float(v) for k, v in want.items()})

            b.case("normalised pair", go, dtype=dt, data_range=rg, roi=roi, r=r, m=m)
    P = viqa.PSNR(data_range=255)
    for bad in (([P], []), ([P], [{}, {}]), ([P, None], [{}, {}]), ([viqa.PSNR], [{}]), ([P, "x"], [{}, {}]), ([P], [None]), ([P, P], [{}, []]), ([], [{}])):
        b.case("rejected lists", lambda: raises(ValueError, viqa.MultipleMetrics, *bad), lists=repr(bad))
