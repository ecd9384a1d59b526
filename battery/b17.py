def run(b):
    import copy
    import os

    import imageio.v3 as iio
    import numpy as np
    import torch
    import viqa
    from viqa.utils import loading, misc

    rng = b.rng
    torch.set_num_threads(1)

    def snap(o):
        if isinstance(o, np.ndarray):
            return ("a", type(o), o.dtype, o.shape, o.strides, np.array(o).copy())
        if isinstance(o, torch.Tensor):
            return ("t", o.dtype, tuple(o.shape), o.clone().numpy())
        if isinstance(o, dict):
            return ("d", [(k, snap(v)) for k, v in o.items()])
        if isinstance(o, (list, tuple)):
            return ("l", type(o), [snap(v) for v in o])
        if hasattr(o, "score_val"):
            return ("m", id(o))
        return ("v", type(o), copy.deepcopy(o))

    def same(x, y):
        if type(x) is not type(y):
            return False
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or x.dtype != y.dtype:
                return False
            if np.ma.isMaskedArray(x):
                return np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(y)) and np.array_equal(x.filled(0), y.filled(0))
            if x.dtype == object:
                return all(same(p, q) for p, q in zip(x.ravel(), y.ravel()))
            return np.array_equal(np.asarray(x), np.asarray(y), equal_nan=x.dtype.kind in "fc")
        if isinstance(x, torch.Tensor):
            return same(x.numpy(), y.numpy())
        if isinstance(x, (list, tuple)):
            return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
        if isinstance(x, dict):
            return list(x) == list(y) and all(same(x[k], y[k]) for k in x)
        if isinstance(x, (float, np.floating)):
            return x == y or (x != x and y != y)
        return bool(x == y)

    def check(label, fn, *objs, repeat=True, **desc):
        def go():
            was = [snap(o) for o in objs]
            out = []
            for _ in range(2 if repeat else 1):
                try:
                    out.append(copy.deepcopy(fn()))
                except Exception as e:  # noqa: BLE001
                    out.append(("raised", type(e).__name__))
                for o, s in zip(objs, was):
                    if not same(_t(snap(o)), _t(s)):
                        return f"argument changed: {s!r:.300} -> {snap(o)!r:.300}"
            if repeat and not same(out[0], out[1]):
                return f"repeated call differs: {out[0]!r:.200} vs {out[1]!r:.200}"
            if isinstance(out[0], tuple) and out[0] and isinstance(out[0][0], str) and out[0][0] == "raised":
                raised.append((label, out[0][1]))
            return None

        b.case(label, go, **desc)

    def _t(s):
        return s

    raised = []
    DT = ("uint8", "uint16", "int16", "float32", "float64")

    def img(sh, dt, how=0, hi=250):
        a = rng.integers(1, hi, sh)
        a = a.astype(dt) if np.dtype(dt).kind != "f" else (a + rng.random(sh)).astype(dt)
        if how == 1:
            a = np.asfortranarray(a)
        elif how == 2:
            big = np.zeros(tuple(2 * n for n in sh[:2]) + tuple(sh[2:]), dtype=a.dtype)
            big[::2, ::2] = a
            a = big[::2, ::2]
        elif how == 3:
            a = viqa.ImageArray(a)
        return a

    SH = {"2d": (24, 21), "3d": (12, 11, 13), "rgb": (22, 19, 3)}
    for kd, sh in SH.items():
        for dt in DT:
            for how in range(4):
                a = img(sh, dt, how)
                d = dict(kind=kd, dtype=dt, layout=how)
                nd = 2 if kd == "rgb" else len(sh)
                roi = [(1, n - 2) for n in sh[:nd]]
                rl = [[1, n - 2] for n in sh[:nd]]
                for kw in ({}, {"normalize": True, "data_range": 255}, {"normalize": True, "data_range": 1}, {"roi": roi}, {"roi": rl, "normalize": True, "data_range": 65535}):
                    check("load_data", lambda: viqa.load_data(a, **kw), a, kw, kw=repr(kw), **d)
                if how < 2 and dt in ("uint8", "float32", "float64", "int16"):
                    t = torch.from_numpy(np.ascontiguousarray(a))
                    check("load_data(tensor)", lambda: viqa.load_data(t, normalize=True, data_range=255), t, **d)
                for out in ((0, 1), [0, 255], (0, 65535)):
                    check("normalize_data", lambda: viqa.normalize_data(a, out), a, out, out=repr(out), **d)
                    check("normalize_data", lambda: viqa.normalize_data(a, out, False, [0, 300]), a, out, out=repr(out), **d)
                check("crop_image", lambda: viqa.crop_image(a, *rl), a, rl, **d)
                check("ImageArray", lambda: [np.asarray(viqa.ImageArray(a) * 2), np.asarray(viqa.ImageArray(a) - a), np.asarray(-viqa.ImageArray(a))], a, **d)
                check("statistics", lambda: _stats(viqa.ImageArray(a)), a, **d)
                if kd == "rgb":
                    for f in ("_to_grayscale", "_rgb_to_yuv"):
                        if hasattr(misc, f):
                            check(f, lambda: getattr(misc, f)(a), a, **d)
                for f in ("_to_float",):
                    if hasattr(misc, f):
                        check(f, lambda: getattr(misc, f)(a), a, **d)
                bigger = img(tuple(n + 3 for n in sh[:nd]) + sh[nd:], dt, how)
                for f in ("_resize_image", "_check_imgs"):
                    if hasattr(loading, f):
                        other = bigger if f == "_resize_image" else img(sh, dt, how)
                        check(f, lambda: getattr(loading, f)(a, other), a, other, **d)
                if hasattr(misc, "_check_chromatic"):
                    m = img(sh, dt, how)
                    check("_check_chromatic", lambda: misc._check_chromatic(a, m, kd == "rgb"), a, m, **d)
                if hasattr(misc, "_get_binary"):
                    check("_get_binary", lambda: misc._get_binary(a, 20, 90), a, **d)
                c = [n // 2 for n in sh[:nd]]
                for f in ("_to_cubic", "_to_spherical"):
                    if hasattr(misc, f):
                        check(f, lambda: getattr(misc, f)(a, c, 3), a, c, **d)
    if hasattr(misc, "find_largest_region"):
        for sh in ((40, 44), (24, 26, 28)):
            a = np.zeros(sh, dtype=bool)
            a[tuple(slice(4, n - 4) for n in sh)] = True
            for rt in ("cubic", "spherical", "full", "original", "x"):
                check("find_largest_region", lambda: list(misc.find_largest_region(a, 2, rt)[:2]), a, rt=rt)
    if hasattr(misc, "gabor_convolve"):
        a = img((20, 23), "float64")
        check("gabor_convolve", lambda: misc.gabor_convolve(a, scales_num=2, orientations_num=2, min_wavelength=3, wavelength_scaling=3, bandwidth_param=0.55, d_theta_on_sigma=1.5), a)
    if hasattr(misc, "correlate_convolve_abs"):
        for md in ("correlate", "convolve"):
            for bm in ("constant", "reflect", "nearest", "mirror", "wrap"):
                a, ker = img((7, 8), "float64"), rng.random((3, 3))
                check("correlate_convolve_abs", lambda: misc.correlate_convolve_abs(a, ker, md, bm), a, ker, mode=md, border=bm)

    METS = {"PSNR": [{}], "RMSE": [{}], "UQI": [{}], "SSIM": [{}], "MSSSIM": [dict(scale_weights=[0.5, 0.5], kernel_size=7)], "FSIM": [{}],
            "VIFp": [{}], "VSI": [{}], "GSM": [{}, dict(c=100, p=0.2)],
            "MAD": [dict(block_size=4, block_overlap=0.5), dict(block_size=4, weights=[1.0, 2.0], scales_num=2, account_monitor=True,
                    display_function={"disp_res": 9.0, "view_dis": 80.0}, luminance_function={"k": 0.02874, "gamma": 2.2},
                    csf_function={"lambda_csf": 0.114, "f_peak": 7.8909})]}
    big = {"2d": (50, 48), "3d": (46, 44, 45), "rgb": (48, 50, 3)}
    for name, pars in METS.items():
        for kd in ("2d", "3d", "rgb"):
            if kd == "rgb" and name in ("GSM", "UQI"):
                continue
            if kd == "3d" and name in ("SSIM",) and not b.thorough:
                continue
            for dt in ("uint8", "float32", "float64"):
                for how in ((0, 1, 2, 3) if b.thorough or name in ("PSNR", "RMSE", "MAD") and kd != "3d" else (0, 3)):
                    for par in pars:
                        if b.over():
                            break
                        par = copy.deepcopy(par)
                        r = img(big[kd], dt, how)
                        m = img(big[kd], dt, how)
                        kw = {"data_range": 255}
                        if rng.random() < 0.5:
                            kw["normalize"] = True
                        if kd == "rgb" and name not in ("MAD",) and rng.random() < 0.5:
                            kw["chromatic"] = True
                        if kd == "3d" and name in ("FSIM", "GSM", "MAD", "MSSSIM", "VIFp", "VSI"):
                            par = dict(par, dim=int(rng.integers(0, 3)), im_slice=5)
                        met = getattr(viqa, name)(**kw)
                        check(name, lambda: np.asarray(met.score(r, m, **par)), r, m, par, kind=kd, dtype=dt, layout=how, par=repr(par), init=repr(kw))
    for name in ("SNR", "CNR"):
        for kd, sh in SH.items():
            for dt in ("uint8", "float64"):
                for how in range(4):
                    for rt in ("cubic", "spherical", "full"):
                        a = img(sh, dt, how)
                        nd = len(sh) if kd != "rgb" else 2
                        kw = dict(signal_center=tuple(n // 2 for n in sh[:nd]), radius=2, region_type=rt)
                        if name == "CNR":
                            kw["background_center"] = tuple(n // 3 for n in sh[:nd])
                        if how == 1:
                            kw = {k: list(v) if isinstance(v, tuple) else v for k, v in kw.items()}
                        met = getattr(viqa, name)()
                        check(name, lambda: np.asarray(met.score(a, **kw)), a, kw, kind=kd, dtype=dt, region=rt, layout=how)
    # several metrics
    for kd in ("2d", "3d"):
        for eq in (True, False):
            for dt in ("uint8", "float32"):
                r = img(SH[kd], dt)
                m = img(SH[kd] if eq else tuple(n + 2 for n in SH[kd]), dt)
                c = tuple(n // 2 for n in SH[kd])
                mets = [viqa.PSNR(data_range=255), viqa.SNR(), viqa.RMSE(), viqa.CNR()]
                pars = [{}, {"signal_center": c, "radius": 2}, {}, {"signal_center": c, "background_center": tuple(n // 3 for n in SH[kd]), "radius": 2}]
                kw = {"roi": [[0, n] for n in SH[kd]]} if eq else {}
                mm = viqa.MultipleMetrics(mets, pars)
                check("MultipleMetrics", lambda: dict(mm.calculate(r, m, **kw)), r, m, mets, pars, kw, kind=kd, dtype=dt)
    d = os.path.join(b.tmp, "c17")
    os.makedirs(d, exist_ok=True)
    for i in range(3):
        iio.imwrite(os.path.join(d, f"p{i}.png"), img((20, 22), "uint8"))
    with open(os.path.join(d, "pairs.csv"), "w") as f:
        f.write("reference_image,modified_image\np0.png,p1.png\np0.png,p2.png\n")
    for rois, kw in ((None, {}), ([[(0, 10), (0, 12)], [(2, 9), (3, 14)]], {}), (None, {"roi": [(0, 12), (1, 15)]})):
        mets = [viqa.PSNR(data_range=255), viqa.SNR()]
        pars = [{}, {"signal_center": (4, 4), "radius": 2}]

        def go():
            bm = viqa.BatchMetrics(d, os.path.join(d, "pairs.csv"), mets, pars, *([rois] if rois else []))
            return {k: dict(v) if isinstance(v, dict) else v for k, v in bm.calculate(**kw).items()}

        check("BatchMetrics", go, mets, pars, kw, *([rois] if rois else []))
    mets = [viqa.PSNR(data_range=255), viqa.RMSE()]
    for m in mets:
        m.score(img((20, 20), "uint8"), img((20, 20), "uint8"))
    w = [0.3, 0.7]
    check("fusion", lambda: viqa.fuse_metrics_linear_combination(mets, w), mets, w)
    if os.environ.get("B17_DEBUG"):
        import collections
        open(os.environ["B17_DEBUG"], "w").write(str(collections.Counter(raised)))


def _stats(a):
    a.calculate_statistics()
    return [getattr(a, n, None) for n in ("mean_value", "median", "variance", "standarddev", "skewness", "kurtosis", "minimum", "maximum")]
