"""Call histories: what a call returns must not depend on the calls before it.

A plan is a sequence of calls on shared objects, shared files and shared buffers.  Every call of it is first
made alone in a process of its own (forked before anything of the package has been called); then the plan is
run in this process and every result compared with the one the call gave alone."""

import io
import contextlib
import os
import pickle
import warnings


def _quiet(fn):
    import numpy as np

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                return plain(fn())
            except Exception as e:  # noqa: BLE001
                return ("raised", type(e).__name__)


def plain(v):
    import numpy as np

    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if np.ma.isMaskedArray(v):
        return [np.ma.getmaskarray(v).astype(float), np.asarray(v.filled(0), float)]
    if hasattr(v, "detach"):
        v = v.detach().numpy()
    if isinstance(v, (np.ndarray, np.generic)):
        return np.array(v)
    return v


def equal(x, y):
    import numpy as np

    if isinstance(x, list) or isinstance(x, tuple) or isinstance(x, dict):
        if type(x) is not type(y) or len(x) != len(y):
            return False
        if isinstance(x, dict):
            return list(x) == list(y) and all(equal(x[k], y[k]) for k in x)
        return all(equal(p, q) for p, q in zip(x, y))
    if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
        return x == y
    a, b = np.asarray(x), np.asarray(y)
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and bool(np.allclose(a, b, rtol=1e-6, atol=1e-7, equal_nan=True))


def alone(calls, par=6):
    """Result of each call in a process of its own."""
    out = [None] * len(calls)
    todo = list(enumerate(calls))
    running = []
    while todo or running:
        while todo and len(running) < par:
            i, fn = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.mkdir(f"alone{i}")
                    os.chdir(f"alone{i}")
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(_quiet(fn), f)
                except BaseException:  # noqa: BLE001
                    pass
                os._exit(0)
            os.close(w)
            running.append((i, r, pid))
        i, r, pid = running.pop(0)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out[i] = pickle.loads(data) if data else ("no answer",)
    return out


class Plan:
    def __init__(self, b):
        self.b, self.calls = b, []

    def add(self, label, make, use, shared, desc):
        """make(): the object the call is made on; shared: key of the object, buffer or file it shares."""
        self.calls.append((label, make, use, shared, desc))

    def run(self):
        b = self.b
        cs = self.calls
        ref = alone([lambda c=c: c[2](c[1](), {}) for c in cs])
        objs, bufs = {}, {}
        past = []

        for (label, make, use, shared, desc), want in zip(cs, ref):
            if isinstance(want, tuple) and want == ("no answer",):
                continue
            if shared not in objs:
                objs[shared] = make()
            got = _quiet(lambda: use(objs[shared], bufs))
            b.case(label + " after other calls", lambda: equal(got, want) or f"{got!r:.200} after other calls, {want!r:.200} alone",
                   after=list(past[-6:]), **desc)
            past.append(f"{label} {desc}"[:160])


def variants(rng, sh, dt, hi):
    """Images that share shape, first rows, contents up to order, or value range."""
    import numpy as np

    g = sum(x * k for x, k in zip(np.indices(sh), (3.0, 2.0, 1.0)))
    a = 0.2 + 0.5 * rng.random(sh) + 0.25 * g / g.max()
    lo = a.copy()
    k = tuple(slice(n // 2, None) for n in sh[:2])
    lo[k] = 1 - lo[k]
    out = [a, lo, np.ascontiguousarray(a[::-1]), np.clip(a * 0.6, 0, 1)]
    return [(np.clip(x, 0, 1) * hi).astype(dt) for x in out]


MODES = ("array", "buffer", "file", "image")


def given(how, imgs, bufs, ext):
    """The arguments of a call: plain arrays, one reused buffer, one rewritten file, image arrays."""
    import numpy as np
    import viqa

    if how == "image":
        return [viqa.ImageArray(x.copy()) for x in imgs]
    if how == "buffer":
        out = []
        for n, x in enumerate(imgs):
            y = bufs.setdefault((n, x.shape, x.dtype.str), np.zeros_like(x))
            y[...] = x
            out.append(y)
        return out
    if how == "file":
        import imageio.v3 as iio

        out = []
        for n, x in enumerate(imgs):
            if x.ndim == 3 and x.shape[2] > 3:
                name = "img%d_%dx%dx%d_%dbit.raw" % (n, *x.shape[::-1], x.itemsize * 8)
                np.asarray(x).transpose(2, 1, 0).tofile(name)
            else:
                name = f"img{n}.png"
                iio.imwrite(name, x)
            out.append(name)
        return out
    return [x.copy() for x in imgs]


def full(cls, kws, kinds, inits=({},), dts=("uint8", "float32"), two=True, modes=MODES):
    return dict(cls=cls, kws=kws, kinds=kinds, inits=inits, dts=dts, two=two, modes=modes)


def metrics(pid):
    import viqa

    dr = ({"data_range": 255},)
    nr2 = lambda c: [dict(signal_center=(9, 8), radius=4, **c), dict(signal_center=(9, 9), radius=4, **c), dict(signal_center=(9, 8), radius=3, **c),  # noqa: E731
                     dict(signal_center=(9, 8), radius=4, region_type="spherical", **c), dict(signal_center=(9, 9), radius=4, region_type="spherical", **c),
                     dict(signal_center=(9, 8), radius=4, region_type="full", **c)]
    nr3 = lambda c, n: [dict(signal_center=(6, 6, 5), radius=3, **c), dict(signal_center=(6, 5, 6), radius=3, **c), dict(signal_center=(6, 6, 5), radius=2, **c),  # noqa: E731
                        dict(signal_center=(6, 6, 5), radius=3, region_type="spherical", **c), dict(signal_center=(5, 6, 6), radius=3, region_type="spherical", **c)]
    bg2, bg3 = {"background_center": (14, 15)}, {"background_center": (6, 7, 6)}
    S2, S3, SC = {"2d": [(20, 22), (22, 20)]}, {"3d": [(12, 13, 14)]}, {"rgb": [(20, 22, 3)]}
    ms = dict(scale_weights=[0.5, 0.5], kernel_size=7)
    t = {
        "rmse": full(viqa.RMSE, [{}], {**S2, **S3, **SC}, ({},)),
        "psnr": full(viqa.PSNR, [{}], {**S2, **S3, **SC}, ({"data_range": 255}, {"data_range": 1})),
        "ssim": full(viqa.SSIM, [{}, dict(K1=0.3, K2=0.2), dict(sigma=0.8), dict(win_size=5), dict(win_size=5, gaussian_weights=False), dict(mode="constant", win_size=5),
                                 dict(mode="constant", cval=90, win_size=5), dict(alpha=2, gamma=0), dict(mode="constant", cval=90, win_size=5, gaussian_weights=False),
                                 dict(mode="constant", win_size=5, gaussian_weights=False)], {**S2, **S3}, dr + ({"data_range": 65535},), two=True, modes=("array", "buffer")),
        "ssim colour": full(viqa.SSIM, [dict(color_weights=[1, 1, 1]), dict(color_weights=[3, 0, 0])], SC, ({"data_range": 255, "chromatic": True},), modes=("array",)),
        "uqi": full(viqa.UQI, [{}, dict(win_size=3), dict(win_size=5), dict(win_size=5, mode="constant", cval=9)], {**S2, **S3}, dr, modes=("array", "buffer")),
        "gsm": full(viqa.GSM, [{}, dict(c=500), dict(p=0.6)], {**S2}, dr + ({"data_range": 1},), modes=("array", "buffer", "image")),
        "gsm volume": full(viqa.GSM, [dict(dim=0), dict(dim=1), dict(dim=0, im_slice=4), dict(dim=0, im_slice=5), dict(dim=2, im_slice=4), dict(dim=0, experimental=True), dict(dim=0, c=500)],
                           S3, dr, modes=("array", "buffer")),
        "mad": full(viqa.MAD, [dict(block_size=4), dict(block_size=8), dict(block_size=4, beta_1=0.4), dict(block_size=4, luminance_function={"b": 0, "k": 0.03, "gamma": 2.0})],
                    {"2d": [(20, 22), (22, 20)]}, dr, modes=("array", "buffer")),
        "fsim": full(viqa.FSIM, [{}, dict(scales=3)], {"2d": [(20, 22), (22, 20)]}, dr + ({"data_range": 65535},), modes=("array", "buffer")),
        "fsim volume": full(viqa.FSIM, [dict(dim=2, im_slice=1), dict(dim=2, im_slice=2), dict(dim=2), dict(dim=2, im_slice=2, scales=3)], {"3d": [(20, 20, 4)]}, dr, modes=("array", "buffer")),
        "fsim colour": full(viqa.FSIM, [{}], {"rgb": [(20, 22, 3)]}, ({"data_range": 255, "chromatic": True},), modes=("array",)),
        "msssim": full(viqa.MSSSIM, [ms, dict(ms, k1=0.2), dict(ms, scale_weights=[0.2, 0.8]), dict(ms, kernel_sigma=0.7)], {"2d": [(22, 24)]}, dr, modes=("array", "buffer")),
        "msssim volume": full(viqa.MSSSIM, [dict(ms, dim=2, im_slice=1), dict(ms, dim=2, im_slice=2), dict(ms, dim=2)], {"3d": [(22, 22, 4)]}, dr, modes=("array", "buffer")),
        "vif": full(viqa.VIFp, [{}, dict(sigma_n_sq=0.7)], {"2d": [(42, 44)]}, dr, modes=("array", "buffer")),
        "vsi": full(viqa.VSI, [{}, dict(c1=2.0)], {"2d": [(20, 22), (22, 20)]}, dr, modes=("array", "buffer")),
        "vsi volume": full(viqa.VSI, [dict(dim=2, im_slice=1), dict(dim=2, im_slice=2), dict(dim=2)], {"3d": [(20, 20, 4)]}, dr, modes=("array", "buffer")),
        "snr": full(viqa.SNR, nr2({}), {**S2, **SC}, ({},), two=False),
        "snr volume": full(viqa.SNR, nr3({}, 1), S3, ({},), two=False),
        "cnr": full(viqa.CNR, nr2(bg2)[:5], {**S2, **SC}, ({},), two=False),
        "cnr volume": full(viqa.CNR, nr3(bg3, 2), S3, ({},), two=False),
    }
    return t


USE = {"C05": ("rmse", "psnr", "ssim", "uqi", "gsm", "fsim", "snr", "cnr"), "C06": ("rmse", "psnr"), "C07": ("ssim", "ssim colour", "uqi"),
       "C08": ("fsim volume", "gsm volume", "msssim volume", "vsi volume", "fsim"), "C09": ("gsm", "gsm volume"), "C10": ("mad",),
       "C15": ("snr", "snr volume", "cnr", "cnr volume"), "C16": ("fsim", "fsim colour", "msssim", "msssim volume", "vsi", "vif", "rmse"),
       "C17": ("rmse", "psnr", "ssim", "uqi", "gsm", "gsm volume", "mad", "fsim", "fsim colour", "msssim", "vsi", "vif", "snr", "snr volume", "cnr", "cnr volume")}
COUNT = {"quick": 36, "thorough": 200}


def plan_metrics(b, plan):
    import numpy as np

    rng = b.rng
    for key in USE.get(b.pid, ()):
        t = metrics(b.pid)[key]
        places = [(kd, sh, dt) for kd, shapes in t["kinds"].items() for sh in shapes for dt in t["dts"]]
        pool = {}
        for kd, sh, dt in places:
            hi = 255 if np.dtype(dt).kind == "u" or t["inits"][0].get("data_range", 255) == 255 else 1
            pool[kd, sh, dt] = variants(rng, sh, dt, hi), variants(rng, sh, dt, hi)
        factors = [len(places), 4, 3 if t["two"] else 1, len(t["kws"]), len(t["inits"]), len(t["modes"])]
        # a walk: every call differs from the one before in one respect (or in none)
        at = [int(rng.integers(n)) for n in factors]
        walk = []
        while len(walk) < COUNT["thorough" if b.thorough else "quick"]:
            walk.append(tuple(at))
            free = [i for i, n in enumerate(factors) if n > 1]
            i = free[int(rng.integers(len(free)))]
            at[i] = int(rng.integers(factors[i]))
            if rng.random() < 0.1:
                at = [int(rng.integers(n)) for n in factors]
        for pl, i, j, q, n, h in walk:
            kd, sh, dt = places[pl]
            r, m = pool[kd, sh, dt]
            imgs, kw, how, ij = (r[i], m[j]) if t["two"] else (r[i],), t["kws"][q], t["modes"][h], (i, j)
            if how == "file" and (dt != "uint8" or "chromatic" in t["inits"][n]):
                how = "array"

            def use(o, bufs, imgs=imgs, kw=kw, how=how):
                import copy

                return o.score(*given(how, imgs, bufs, None), **copy.deepcopy(kw))

            plan.add(key, lambda t=t, n=n: t["cls"](**t["inits"][n]), use, (key, n),
                     dict(images=ij, shape=sh, dtype=dt, kw=kw, init=t["inits"][n], given=how))


def plan_functions(b, plan):
    """Loading, normalising, cropping, conversion and region functions."""
    import numpy as np
    import viqa
    from viqa.utils import misc

    rng = b.rng
    fns = []
    none = lambda: None  # noqa: E731
    if b.pid in ("C02", "C03", "C04", "C17"):
        for kw in ({}, {"normalize": True, "data_range": 255}, {"normalize": True, "data_range": 1}, {"roi": [(2, 9), (1, 11)]}, {"roi": [(3, 10), (1, 11)]}):
            if (b.pid == "C02") <= ("normalize" in kw) and (b.pid == "C03") <= ("roi" in kw):
                fns.append(("load_data", lambda a, kw=kw: np.asarray(viqa.load_data(a, **{**kw, **({"roi": kw["roi"] + [(2, 7)]} if "roi" in kw and _nd(a) == 3 else {})})), ("2d", "3d"), MODES, kw))
    if b.pid in ("C02", "C17"):
        for args in (((0, 255),), ((0, 1),), ((0, 65535),), ((0, 255), False, [0, 300]), ((0, 255), False, [0, 280])):
            fns.append(("normalize_data", lambda a, args=args: np.asarray(viqa.normalize_data(a, *args)), ("2d", "3d"), ("array", "buffer"), args))
    if b.pid in ("C03", "C17"):
        for x, y, z in (((0, 5), (2, 9), (1, 6)), ((1, 5), (2, 9), (1, 6)), ((0, 5), (2, 9), (1, 7))):
            fns.append(("crop_image", lambda a, x=x, y=y, z=z: np.asarray(viqa.crop_image(a, x, y, *([z] if a.ndim == 3 and a.shape[2] > 3 else []))), ("2d", "3d", "rgb"), ("array", "buffer"), (x, y, z)))
    if b.pid in ("C16", "C17"):
        for f in ("_to_grayscale", "_rgb_to_yuv", "_to_float"):
            if hasattr(misc, f):
                fns.append((f, lambda a, f=f: np.asarray(getattr(misc, f)(a)), ("rgb",), ("array", "buffer", "image"), ()))
    if b.pid in ("C20", "C17") and hasattr(misc, "find_largest_region"):
        for kw in ({}, {"iterations": 1}, {"iterations": 2}, {"region_type": "spherical"}, {"region_type": "full"}):
            fns.append(("find_largest_region", lambda a, kw=kw: list(misc.find_largest_region(np.asarray(a) > 60, **kw)), ("2d", "3d"), ("array", "buffer"), kw))
    if b.pid in ("C18",):
        def stats(a):
            x = a if isinstance(a, viqa.ImageArray) else viqa.ImageArray(a)
            x.calculate_statistics()
            return [x.describe(), list(x.histogram)]
        fns.append(("statistics", stats, ("2d", "3d"), ("array", "buffer", "image"), ()))
        fns.append(("arithmetic", lambda a: [np.asarray(viqa.ImageArray(a) + 1), np.asarray(np.maximum(viqa.ImageArray(a), 7))], ("2d",), ("array", "buffer"), ()))
    SH = {"2d": [(14, 12), (12, 14)], "3d": [(12, 14, 9)], "rgb": [(14, 12, 3)]}
    every = []
    for name, f, kinds, modes, arg in fns:
        for kd in kinds:
            for sh in SH[kd]:
                for dt in ("uint8", "float32"):
                    for i, a in enumerate(variants(rng, sh, dt, 255)):
                        for how in modes:
                            if how != "file" or dt == "uint8":
                                every.append((name, f, a, how, dict(shape=sh, dtype=dt, image=i, given=how, args=repr(arg))))
    for q in rng.permutation(len(every))[:160 if not b.thorough else 800]:
        name, f, a, how, desc = every[q]
        plan.add(name, none, lambda o, bufs, a=a, how=how, f=f: f(given(how, (a,), bufs, None)[0]), name, desc)


def _nd(a):
    if isinstance(a, str):
        return 3 if a.endswith("raw") else 2
    return 3 if a.ndim == 3 and a.shape[2] > 3 else 2


def run(b):
    import torch

    if b.pid not in USE and b.pid not in ("C02", "C03", "C04", "C18", "C20"):
        return
    torch.set_num_threads(1)
    plan = Plan(b)
    plan_metrics(b, plan)
    plan_functions(b, plan)
    plan.run()
