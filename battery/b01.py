import os

from run import close


def run(b):
    import numpy as np
    import torch
    import viqa
    from skimage.io import imsave
    from viqa.utils import ImageArray, load_data

    rng = b.rng
    W = np.array([0.2125, 0.7154, 0.0721])
    SMALL = (viqa.RMSE, viqa.PSNR)
    ALL = (viqa.RMSE, viqa.PSNR, viqa.SSIM, viqa.UQI, viqa.MSSSIM, viqa.FSIM, viqa.VIFp, viqa.VSI, viqa.GSM, viqa.MAD)

    def mk(shape, dt):
        return (rng.random(size=shape) * 200 + 3).astype(dt)

    def rejects(M, r, m, mkw=None, **kw):
        met = M(data_range=255, **(mkw or {}))
        for f, args, k in ((met.load_images, (r, m), {}), (met.score, (r, m), kw)):
            try:
                v = f(*args, **k)
            except ValueError:
                continue
            except Exception as e:  # noqa: BLE001
                return f"{f.__name__} raised {type(e).__name__}: {e}"
            return f"{f.__name__} returned {type(v).__name__} instead of ValueError"
        if met.score_val is not None:
            return "score stored"

    def loads(M, r, m, er, em, mkw=None, tol=1e-6):
        met = M(**({"data_range": 255} | (mkw or {})))
        x, y = met.load_images(r, m)
        if x.shape != y.shape or x.dtype != y.dtype:
            return f"incompatible {x.shape} {x.dtype} / {y.shape} {y.dtype}"
        return close(np.asarray(x), er, tol) or close(np.asarray(y), em, tol)

    dts = ["uint8", "uint16", "int16", "int32", "float16", "float32", "float64"]
    shapes = [(1, 1), (3, 3), (4, 5), (5, 4), (4, 3), (3, 4, 5), (3, 5, 4), (4, 5, 1), (4, 5, 2), (4, 5, 3), (4, 4, 3), (5, 4, 4), (1, 1, 1)]

    def wraps(a):
        yield "ndarray", a
        yield "ImageArray", ImageArray(a)
        if a.dtype != np.uint16:
            yield "Tensor", torch.tensor(a)
        yield "strided", np.repeat(a, 2, axis=0)[::2]
        yield "F", np.asfortranarray(a)

    for s1 in shapes:
        for s2 in shapes:
            for d1, d2 in [("uint8", "uint8"), ("float32", "float32"), ("uint8", "int16"), ("float32", "float64")] + \
                    ([(x, y) for x in dts for y in dts] if b.thorough else []):
                r, m = mk(s1, d1), mk(s2, d2)
                if s1 == s2 and d1 == d2:
                    er, em = (r.astype(float), m.astype(float))
                    if len(s1) == 3 and s1[2] == 3:
                        er, em = np.minimum(er @ W, 255), np.minimum(em @ W, 255)
                    for (n1, w1) in wraps(r):
                        for (n2, w2) in wraps(m):
                            b.case("pair accepted", lambda: loads(viqa.RMSE, w1, w2, er, em, tol=1e-2 if d1 == "float16" else 1e-5),
                                   shape=s1, dtype=d1, kinds=(n1, n2))
                else:
                    for M in SMALL:
                        b.case("pair rejected", lambda: rejects(M, r, m), shapes=(s1, s2), dtypes=(d1, d2))
    # every pair of element types; equal but unsupported ranks
    alld = ["bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float16", "float32", "float64"]
    for s in ((4, 5), (4, 5, 6), (4, 5, 3)):
        for d1 in alld:
            for d2 in alld:
                if d1 != d2:
                    b.case("types rejected", lambda: rejects(viqa.RMSE, mk(s, d1), mk(s, d2)), shape=s, dtypes=(d1, d2))
    for s in ((), (5,), (2, 3, 4, 5), (4, 5, 6, 1), (1, 1, 4, 5), (6, 5, 4, 3), (2, 2, 2, 2, 2), (1, 1, 1, 1, 4, 5)):
        for M in SMALL + (viqa.SSIM, viqa.GSM):
            b.case("rank rejected", lambda: rejects(M, mk(s, "uint8"), mk(s, "uint8")), shape=s)
            b.case("rank rejected", lambda: rejects(M, ImageArray(mk(s, "float32")), ImageArray(mk(s, "float32"))), shape=s)
    # every metric
    big2, big3 = mk((48, 50), "uint8"), mk((48, 50, 44), "uint8")
    for M in ALL:
        for nd, good in ((2, big2), (3, big3)):
            kw = {} if nd == 2 or M in ALL[:4] else {"dim": 2, "im_slice": 1}
            bads = [good.astype("float32"), good.astype("int16"), good[1:], good[:, 1:], good.swapaxes(0, 1), good[..., 0], good[None],
                    good[None, None], good[..., None, None], good.ravel(), None, 5, 2.5, [1, 2], [[1.0]], {}, (1, 2), "nothing.txt", b"x", object()]
            if nd == 3:
                bads += [good[..., 1:], good[..., :3]]
            else:
                bads += [np.stack([good] * 3, -1), np.stack([good] * 2, -1)]
            for bad in bads:
                d = f"{type(bad).__name__}{getattr(bad, 'shape', '')}{getattr(bad, 'dtype', '')}"
                b.case(f"{M.__name__} rejects", lambda: rejects(M, good, bad, **kw), bad=d, nd=nd)
                b.case(f"{M.__name__} rejects", lambda: rejects(M, bad, good, **kw), bad=d, nd=nd, swapped=True)
    # chromatic
    for M in (viqa.PSNR, viqa.RMSE, viqa.SSIM, viqa.MSSSIM, viqa.FSIM, viqa.VIFp, viqa.VSI):
        for s in [(48, 48), (48, 3), (48, 44, 4), (48, 44, 2), (48, 44, 1), (3, 48, 44), (3, 3), (48, 48, 48)]:
            b.case(f"{M.__name__} chromatic rejects", lambda: rejects(M, mk(s, "uint8"), mk(s, "uint8"), {"chromatic": True}), shape=s)
        r, m = mk((48, 44, 3), "uint8"), mk((48, 44, 3), "uint8")
        b.case(f"{M.__name__} chromatic keeps colour", lambda: loads(M, r, m, r.astype(float), m.astype(float), {"chromatic": True}))
        b.case(f"{M.__name__} grey", lambda: loads(M, r, m, np.minimum(r @ W, 255), np.minimum(m @ W, 255)) if M is not viqa.VSI else None)
    # normalisation and regions
    for s in [(12, 14), (14, 3), (12, 14, 3), (12, 14, 9)]:
        for d1, d2, rg in [("uint8", "uint8", None), ("float64", "float64", None), ("uint8", "uint8", 1), ("uint8", "uint16", 255), ("uint8", "uint16", 1),
                           ("float32", "int16", 65535), ("uint8", "int16", None)]:
            for roi in (None, [(1, 9), (0, s[1]), (2, 8)][: 2 if len(s) == 2 or s[2] == 3 else 3]):
                r, m = mk(s, d1), mk(s, d2)
                nk = dict(normalize=bool(rg), roi=roi)
                pr, pm = (load_data(v, data_range=rg, **nk) for v in (r, m))
                if pr.dtype != pm.dtype:
                    b.case("prepared pair rejected", lambda: rejects(viqa.RMSE, r, m, nk | {}), shape=s, dtypes=(d1, d2))
                    continue
                er, em = np.asarray(pr).astype(float), np.asarray(pm).astype(float)
                if len(s) == 3 and s[2] == 3:
                    er, em = np.minimum(er @ W, 255), np.minimum(em @ W, 255)
                b.case("prepared pair", lambda: loads(viqa.PSNR, r, m, er, em, nk | {"data_range": rg or 255}, 1e-5), shape=s, dtypes=(d1, d2), roi=roi, rng=rg)
                b.case("score of the prepared pair", lambda: close(viqa.RMSE(data_range=rg or 255, **nk).score(r, m), np.sqrt(((er - em) ** 2).mean()), 1e-4),
                       shape=s, dtypes=(d1, d2), roi=roi, rng=rg)
                for M in ALL[2:9] if rg in (None, 255) and d1 == "uint8" and d2 != "int16" and len(s) == 2 and s[1] > 3 else ():
                    e = 120 if M is viqa.MSSSIM else 0
                    rr, mm = mk((60 + e, 64 + e), d1), mk((60 + e, 64 + e), d2)
                    R = roi and [(3, 55 + e), (1, 64 + e)]
                    k2 = dict(normalize=bool(rg), roi=R)
                    x, y = (load_data(v, data_range=rg, **k2) for v in (rr, mm))
                    b.case(f"{M.__name__} of the prepared pair", lambda: close(float(M(data_range=255, **k2).score(rr, mm)), float(M(data_range=255).score(x, y)), 1e-5),
                           roi=R, rng=rg)
    # files
    for s in [(6, 7), (6, 7, 3)]:
        r, m, o = mk(s, "uint8"), mk(s, "uint8"), mk((5, 7) + s[2:], "uint8")
        p = [os.path.join(b.tmp, n + ".png") for n in "rmo"]
        for q, v in zip(p, (r, m, o)):
            imsave(q, v, check_contrast=False)
        er, em = (r.astype(float), m.astype(float)) if len(s) == 2 else (np.minimum(r @ W, 255), np.minimum(m @ W, 255))
        b.case("files", lambda: loads(viqa.RMSE, p[0], p[1], er, em, tol=1e-5), shape=s)
        b.case("file and array", lambda: loads(viqa.RMSE, p[0], m, er, em, tol=1e-5), shape=s)
        b.case("files of unequal shape", lambda: rejects(viqa.RMSE, p[0], p[2]), shape=s)
        b.case("file and array of unequal type", lambda: rejects(viqa.RMSE, p[0], m.astype("uint16")), shape=s)
