import os

from b13 import expected, fake, prep, same
from run import raises


def run(b):
    import numpy as np
    import skimage as ski
    import viqa

    rng = b.rng
    F, N = fake("f", True), fake("n", True)
    n = 7
    imgs = {}
    d = os.path.join(b.tmp, "imgs")
    os.makedirs(os.path.join(d, "s"), exist_ok=True)
    # names that share folder, base name, stem or spelling
    nms = ["i0.png", "s/i0.png", "i0.bmp", "I0.png", "s/i4.png", "i5.png", "i6.png"]
    for i in range(n):
        sh = (12, 13) if i < 3 else (14, 12) if i == 3 else (12, 15) if i == 4 else (12, 13) if i == 5 else (13, 12)
        a = (rng.random(sh) * 255).astype(np.uint16 if i == 5 else np.uint8)
        imgs[nms[i]] = a
        ski.io.imsave(os.path.join(d, nms[i]), a, check_contrast=False)
    # volumes as raw files
    for i in range(3):
        sh = (6, 7, 8) if i < 2 else (7, 7, 6)
        a = (rng.random(sh) * 255).astype(np.uint8)
        nm = f"{('', 's/', '')[i]}v_{sh[0]}x{sh[1]}x{sh[2]}_8ubit.raw"
        a.transpose(2, 1, 0).tofile(os.path.join(d, nm))
        imgs[nm] = a
    two = list(nms)
    vol = [k for k in imgs if k not in nms]
    for rep in range(400 if b.thorough else 120):
        pool = vol if rep % 6 == 5 else two
        pool = list(rng.choice(pool, size=min(len(pool), int(rng.integers(1, 5))), replace=False))
        k = int(rng.integers(1, 7))
        pairs = []
        for i in range(k):
            if pairs and rng.random() < 0.5:
                p = list(pairs[-1] if rng.random() < 0.7 else pairs[int(rng.integers(len(pairs)))])
                if rng.random() < 0.6:
                    p[int(rng.integers(2))] = str(rng.choice(pool))
                pairs.append(tuple(p))
            else:
                pairs.append((str(rng.choice(pool)), str(rng.choice(pool))))
        # images of one shape and different types cannot be paired
        pairs = [(x, y) if imgs[x].dtype == imgs[y].dtype or imgs[x].shape != imgs[y].shape else (x, x) for x, y in pairs]
        nd = imgs[pool[0]].ndim

        def some():
            r = [(int(a), int(a) + 5) for a in rng.integers(0, 2, nd)]
            if nd == 3:
                r[2] = (int(rng.integers(0, 2)), 6)
            return r

        regs = [some() for _ in range(2)]
        how = ["none", "rois", "global", "both"][int(rng.integers(4))]
        rois = [[tuple(x) for x in regs[int(rng.integers(2))]] for _ in pairs] if how in ("rois", "both") else None
        kw = {"roi": regs[0]} if how in ("global", "both") else {}
        mix = [str(x) for x in rng.choice(["f", "n"], int(rng.integers(1, 4)))]
        mets = [(F if t == "f" else N)(f"M{i}", i * 1.25) for i, t in enumerate(mix)]
        pars = [{"q": float(rng.random())} if rng.random() < 0.6 else {} for _ in mix]
        f = os.path.join(b.tmp, "pairs.csv")
        sep = str(rng.choice([",", ";", "\t"]))
        with open(f, "w") as fh:
            fh.write(f"reference_image{sep}modified_image\n" + "".join(f"{x}{sep}{y}\n" for x, y in pairs))

        def go():
            bm = viqa.BatchMetrics(d, f, mets, pars, **({} if rois is None else {"rois": rois}))
            for again in range(2):
                res = bm.calculate(**kw)
                if list(res) != [str(i) for i in range(k)]:
                    return f"keys {list(res)}"
                for i, (x, y) in enumerate(pairs):
                    roi = kw.get("roi") or (rois[i] if rois else None)
                    e = same(res[str(i)], expected(mets, pars, prep(imgs[x], imgs[y], roi)))
                    if e:
                        return f"pair {i}: {e}" + (", after rewriting an image" if again else "")
                # an image is rewritten between the calculations
                if nd == 2 and not again:
                    x = pairs[-1][rep % 2]
                    imgs[x] = np.roll(imgs[x], 1, axis=1)
                    ski.io.imsave(os.path.join(d, x), imgs[x], check_contrast=False)

        b.case("batch", go, pairs=[list(p) for p in pairs], rois=rois, roi=kw.get("roi"), mix=mix)
    with open(os.path.join(b.tmp, "p.csv"), "w") as fh:
        fh.write("reference_image,modified_image\ni0.png,s/i0.png\n")
    with open(os.path.join(b.tmp, "q.csv"), "w") as fh:
        fh.write("reference,modified_image\ni0.png,s/i0.png\n")
    m = [viqa.RMSE()]
    b.case("region count", lambda: raises(ValueError, viqa.BatchMetrics, d, os.path.join(b.tmp, "p.csv"), m, [{}], rois=[[(0, 5), (0, 5)]] * 2))
    b.case("columns", lambda: raises(ValueError, viqa.BatchMetrics, d, os.path.join(b.tmp, "q.csv"), m, [{}]))
    # real metrics
    bm = viqa.BatchMetrics(d, os.path.join(b.tmp, "p.csv"), [viqa.RMSE(), viqa.PSNR(data_range=255)], [{}, {}])
    A, B = imgs["i0.png"], imgs["s/i0.png"]
    b.case("real metrics", lambda: same(bm.calculate()["0"], {"RMSE": float(viqa.RMSE().score(A, B)), "PSNR": float(viqa.PSNR(data_range=255).score(A, B))}))
