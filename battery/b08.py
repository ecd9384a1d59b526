from run import close, raises


def run(b):
    import numpy as np
    import piq
    import torch
    import viqa

    rng = b.rng
    torch.set_num_threads(1)
    MS = dict(scale_weights=[0.5, 0.5], kernel_size=7)
    # metric, minimal side, extra parameters, slice axis lengths
    METS = {"FSIM": (16, [{}, dict(scales=3, k=1.0)]), "GSM": (6, [{}, dict(c=500, p=0.3)]), "MAD": (36, [{}, dict(block_size=8, block_overlap=0.5, beta_1=0.3)]),
            "MSSSIM": (20, [MS, dict(MS, k1=0.1, kernel_sigma=1.0)]), "VIFp": (42, [{}, dict(sigma_n_sq=0.7)]), "VSI": (16, [{}, dict(c1=2.0, alpha=0.7)])}
    PIQ = {"FSIM": lambda x, y, dr, kw: piq.fsim(x, y, data_range=dr, chromatic=False, **kw), "VIFp": lambda x, y, dr, kw: piq.vif_p(x, y, data_range=dr, **kw),
           "VSI": lambda x, y, dr, kw: piq.vsi(x, y, data_range=dr, **kw),
           "MSSSIM": lambda x, y, dr, kw: piq.multi_scale_ssim(x, y, data_range=dr, **dict(kw, scale_weights=torch.tensor(kw["scale_weights"])))}

    def cut(a, d, s):
        return np.ascontiguousarray(np.moveaxis(a, d, 0)[s])

    for rep in range(4 if b.thorough else 1):
        for name, (side, kws) in METS.items():
            cls = getattr(viqa, name)
            for ax in range(3):
                for dt, dr in ((("float32", 1), ("uint8", 255)) if name != "MAD" or b.thorough else (("uint8", 255),)):
                    for n in ([2, 3, 5] if ax < 2 else [2, 4, 5]) if name != "MAD" or b.thorough else [4]:
                        sh = [side + int(rng.integers(0, 4)), side + 4 + int(rng.integers(0, 4))]
                        sh.insert(ax, n)
                        if sh[2] == 3:
                            continue
                        r = rng.random(sh)
                        m = np.clip(r + rng.normal(size=sh) * 0.2 * np.moveaxis(np.broadcast_to(np.arange(1, n + 1) / n, tuple(sh[:ax] + sh[ax + 1:]) + (n,)), -1, ax), 0, 1)
                        r, m = (r * dr).astype(dt), (m * dr).astype(dt)
                        for kw in kws:
                            kw = dict(kw)
                            met = cls(data_range=dr)
                            ref = []
                            for s in range(n):
                                with np.errstate(all="ignore"):
                                    ref.append(float(cls(data_range=dr).score(cut(r, ax, s), cut(m, ax, s), **dict(kw))))
                            tol = 2e-4
                            for s in range(n):
                                b.case(name + " slice", lambda: close(float(met.score(r, m, dim=ax, im_slice=s, **dict(kw))), ref[s], tol), axis=ax, slice=s, shape=sh, kw=kw, r=r, m=m)
                            b.case(name + " axis", lambda: close(float(met.score(r, m, dim=ax, **dict(kw))), np.mean(ref), tol), axis=ax, shape=sh, kw=kw, r=r, m=m)
                            if name in PIQ:
                                x, y = (torch.tensor(cut(a, ax, 0).astype(np.float32))[None, None] for a in (r, m))
                                b.case(name + " parameters", lambda: close(ref[0], float(PIQ[name](x, y, dr, kw)), tol), kw=kw, data_range=dr)
                            a2, b2 = cut(r, ax, 0), cut(m, ax, 0)
                            for extra in (dict(dim=1), dict(im_slice=2), dict(dim=2, im_slice=1), dict(dim=7, im_slice=1)):
                                if name == "MAD" and not b.thorough and extra != dict(dim=2, im_slice=1):
                                    continue
                                b.case(name + " 2D", lambda: close(float(met.score(a2, b2, **extra, **dict(kw))), ref[0], 1e-6), extra=extra)
                        vol = cls(data_range=dr)
                        for bad in (dict(), dict(dim=3), dict(dim=-1), dict(dim=3, im_slice=0), dict(dim=-1, im_slice=0), dict(im_slice=0), dict(im_slice=1), dict(dim="x"), dict(dim=1.5),
                                    dict(dim="x", im_slice=1), dict(dim=0, im_slice=1.0), dict(dim=1, im_slice="0"), dict(dim=2, im_slice=0.5)):
                            b.case(name + " rejected", lambda: raises(ValueError, lambda: vol.score(r, m, **bad, **dict(kws[0]))), bad=bad, shape=sh)
            # volumes whose slices are many: every axis is the longest one once
            kw0 = dict(kws[0])
            if name == "MAD":
                side, kw0 = 14, dict(block_size=4, block_overlap=0.5)
            for perm in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
                sh = [[side, side + 3, side + 7][i] for i in perm]
                r = rng.random(sh)
                m = np.clip(r + rng.normal(size=sh) * 0.2 * np.linspace(0.1, 1, sh[1])[None, :, None], 0, 1)
                if name == "MAD":  # distortions of a smooth image count
                    g = np.indices(sh)
                    r = 0.5 + 0.08 * np.sin(g[0] / 9) * np.cos(g[1] / 7) * np.cos(g[2] / 8)
                    m = np.clip(r + 0.24 * np.sin(g[0] / 1.5) * np.sin(g[1] / 2.5 + g[2]) * (g[0] + 2 * g[1] + 3 * g[2]) / sum(sh), 0, 1)
                    r, m = r * 255, m * 255
                kw = dict(kw0)
                cube = cls(data_range=1)
                r, m = r.astype("float32"), m.astype("float32")
                for ax in range(3):
                    if name == "VIFp" and ax != int(np.argmax(sh)) and not b.thorough:
                        continue
                    ref = [float(cls(data_range=1).score(cut(r, ax, s), cut(m, ax, s), **dict(kw))) for s in range(sh[ax])]
                    b.case(name + " axis of a cube", lambda: close(float(cube.score(r, m, dim=ax, **dict(kw))), np.mean(ref), 2e-4), axis=ax, shape=sh)
                    for s in (-1, -2, sh[ax] - 1, sh[ax] // 2):
                        b.case(name + " slice of a cube", lambda: close(float(cube.score(r, m, dim=ax, im_slice=s, **dict(kw))), ref[s], 2e-4), axis=ax, slice=s, shape=sh)
                for bad in (dict(dim=-1), dict(dim=-2), dict(dim=-3), dict(dim=3), dict(dim=-1, im_slice=0), dict(dim=-2, im_slice=1), dict(dim=-2, im_slice=0), dict(dim=-3, im_slice=1), dict(dim=True + 2, im_slice=0)):
                    b.case(name + " rejected for a cube", lambda: raises(ValueError, lambda: cube.score(r, m, **bad, **dict(kw))), bad=bad, shape=sh)
