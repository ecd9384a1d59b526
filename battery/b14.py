import csv
import os
import copy

from b13 import fake
from run import raises


def rows(p):
    with open(p, newline="") as f:
        return list(csv.reader(f))


def num(cell, v):
    try:
        return type(v)(float(cell)) == v or (v != v and float(cell) != float(cell))
    except ValueError:
        return False


def run(b):
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib

    matplotlib.use("Agg")
    import numpy as np
    import viqa
    from viqa.utils import export_image, export_metadata, export_results

    rng = b.rng
    F, N = fake("f"), fake("n")
    vals = [0, 0.0, 1, -3.25, 1e-12, 123456789.123456789, float("inf"), 1 / 3, np.float64(2.5), np.float32(0.1), 17]

    def value():
        return vals[int(rng.integers(len(vals)))] if rng.random() < 0.5 else float(rng.normal() * 10 ** float(rng.integers(-8, 8)))

    def fresh(sub):
        d = os.path.join(b.tmp, sub)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        return d

    names = ["PSNR", "A b", "x,y", "q\"r", "SSIM", "Ü", "long name with spaces", "M"]
    for rep in range(300 if b.thorough else 120):
        k = int(rng.integers(0, 7))
        mets = []
        for i in range(k):
            m = (F if rng.random() < 0.5 else N)(names[i], 0.5)
            m.score_val = None if rng.random() < 0.35 else value()
            mets.append(m)
        given = list(mets)
        state = [copy.deepcopy(vars(m)) for m in mets]
        fname, out = [("r.csv", "r.csv"), ("r", "r.csv"), ("r.txt", "r.txt.csv"), ("a.b.csv", "a.b.csv")][rep % 4]

        def go():
            d = fresh("er")
            r = export_results(mets, d, fname, return_dict=True)
            if os.listdir(d) != [out]:
                return f"files {os.listdir(d)}"
            got = rows(os.path.join(d, out))
            have = [m for m in given if m.score_val is not None]
            if got[0] != ["Metric", "Value"] or [g[0] for g in got[1:]] != [m._name for m in have]:
                return f"rows {got}"
            if not all(len(g) == 2 and num(g[1], m.score_val) for g, m in zip(got[1:], have)):
                return f"values {got}"
            if list(r) != [m._name for m in given] or not all(r[m._name] == ("n/a" if m.score_val is None else m.score_val) for m in given):
                return f"dictionary {r}"
            if export_results(mets, d, fname) is not None:
                return "result without being asked"
            if mets != given or [vars(m) for m in mets] != state:
                return "metrics changed"

        b.case("export_results", go, scores=[repr(m.score_val) for m in mets], file=fname)

    def meta(mets, pars, call, state):
        d = fresh("em")
        call(d, "meta.txt")
        if os.listdir(d) != ["meta.txt"]:
            return f"files {os.listdir(d)}"
        lines = open(os.path.join(d, "meta.txt")).read().split("\n")
        body = lines[[i for i, x in enumerate(lines) if x.startswith("====")][0] + 1:]
        body = [x.rstrip() for x in body if x.strip() and set(x) != {"-"}]
        want = []
        for m, p in zip(mets, pars):
            want += [type(m).__name__, f"data_range: {m.parameters['data_range']}"] + [f"{k}: {v}" for k, v in p.items()]
        if body != want:
            return f"{body} instead of {want}"
        if [vars(m) for m in mets] != state[0] or pars != state[1]:
            return "parameters changed"

    classes = [viqa.PSNR, viqa.RMSE, viqa.SSIM, viqa.UQI, viqa.MSSSIM, viqa.FSIM, viqa.GSM, viqa.MAD, viqa.VIFp, viqa.VSI, viqa.SNR, viqa.CNR]
    for rep in range(150 if b.thorough else 60):
        k = int(rng.integers(0, 6))
        mets = [classes[int(rng.integers(len(classes)))](data_range=[1, 255, 65535][int(rng.integers(3))]) for _ in range(k)]
        for m in mets:
            m.score_val = None if rng.random() < 0.5 else value()
        pars = [{f"p{j}": [1, 0.5, "cubic", None, (1, 2), list(range(100))][int(rng.integers(6))] for j in range(int(rng.integers(0, 4)))} for _ in range(k)]
        st = (copy.deepcopy([vars(m) for m in mets]), copy.deepcopy(pars))
        b.case("metadata", lambda: meta(mets, pars, lambda d, f: export_metadata(mets, pars, d, f), st), pars=repr(pars))
        mm = viqa.MultipleMetrics(mets, pars)
        b.case("metadata method", lambda: meta(mets, pars, mm.export_metadata, st), pars=repr(pars))

    pf = os.path.join(b.tmp, "pairs.csv")
    for rep in range(200 if b.thorough else 80):
        k = int(rng.integers(1, 14))
        pairs = [(f"r{int(rng.integers(4))}.png", f"m, {int(rng.integers(4))}.png") for _ in range(k)]
        with open(pf, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["reference_image", "modified_image"])
            w.writerows(pairs)
        cols = names[:int(rng.integers(1, 5))]
        res = {str(i): {c: value() for c in cols} for i in range(k)}

        def go():
            d = fresh("eb")
            bm = viqa.BatchMetrics("x", pf, [], [])
            bm.results = copy.deepcopy(res)
            before = copy.deepcopy(bm.pairs)
            bm.export_results(d, "b.csv")
            if os.listdir(d) != ["b.csv"]:
                return f"files {os.listdir(d)}"
            got = rows(os.path.join(d, "b.csv"))
            if got[0] != ["pair_num", "reference_image", "modified_image", *cols] or len(got) != k + 1:
                return f"header or number of rows {got[0]} {len(got)}"
            for i, g in enumerate(got[1:]):
                if g[:3] != [str(i), *pairs[i]] or len(g) != 3 + len(cols) or not all(num(x, res[str(i)][c]) for x, c in zip(g[3:], cols)):
                    return f"row {g} instead of {pairs[i]} {res[str(i)]}"
            if bm.results != res or list(bm.results) != list(res) or bm.pairs != before:
                return "batch changed"
            mm = viqa.MultipleMetrics([], [])
            mm.results = dict(res["0"])
            mm.export_results(d, "m.csv")
            got = rows(os.path.join(d, "m.csv"))
            if len(got) != 2 or got[0] != list(cols) or len(got[1]) != len(cols) or not all(num(x, res["0"][c]) for x, c in zip(got[1], cols)):
                return f"multiple {got}"
            if mm.results != res["0"]:
                return "results changed"

        b.case("batch and multiple results", go, pairs=[list(p) for p in pairs], results=repr(res))

    bm = viqa.BatchMetrics("x", pf, [], [])
    bm.results = {"0": {"A": 1.0}}
    mm = viqa.MultipleMetrics([], [])
    mm.results = {"A": 1.0}
    img = (rng.random((12, 13)) * 255).astype(np.uint8)
    for name in ("x", "x.tx", "x.csv", "x.txt", "x.png", "x.csv.gz", "xcsv", "x.", "x.csv.txt", "x.txt.csv", "x.pngcsv"):
        for good, call in ((".csv", bm.export_results), (".csv", mm.export_results), (".txt", mm.export_metadata),
                           (".txt", lambda d, f: export_metadata([], [], d, f)),
                           (".png", lambda d, f: export_image({"A": 1.0}, img, img, file_path=d, file_name=f, show_image=False))):
            if name.endswith(good):
                continue

            def go():
                d = fresh("ex")
                e = raises(ValueError, call, d, name)
                return e or (f"written {os.listdir(d)}" if os.listdir(d) else None)

            b.case("wrong extension", go, name=name, good=good)

    # reports and figures
    import matplotlib.pyplot as plt
    for rep in range(16 if b.thorough else 8):
        nf, nn = [(0, 0), (1, 0), (4, 2), (5, 1), (9, 4), (0, 3), (13, 6), (23, 2)][rep % 8]
        res = {f"M{i}": float(i) + 0.256 for i in range(nf)}
        res.update({f"N{i // 2}" + ("_r", "_m")[i % 2]: float(-i) - 0.5 for i in range(nn)})
        for n, v in zip(rng.permutation(list(res)), (0.0, float("inf"), float("nan"), -1e-9, 1e9, 7, np.float32(0.125), np.float64(2.5))):
            if rep % 2:
                res[str(n)] = v

        def go():
            d = fresh("fig")
            plt.close("all")
            keep, im = dict(res), img.copy()
            mm = viqa.MultipleMetrics([], [])
            mm.results = dict(res)
            mm.report(csv=True, metadata=True, text=True, image=True, export_image=True, img_r=img, img_m=img, file_path=d, project_name="p",
                      **{"show_image": False})
            if sorted(os.listdir(d)) != ["p_image_comparison.png", "p_metadata.txt", "p_results.csv"]:
                return f"files {os.listdir(d)}"
            texts = [t.get_text() for f in plt.get_fignums() for t in plt.figure(f).texts]
            texts = [t for t in texts if not t.startswith("Image Comparison")]
            plt.close("all")
            if sorted(texts) != sorted(f"{n}: {v:.2f}" for n, v in keep.items()):
                return f"figure shows {texts}"
            if repr(mm.results) != repr(keep) or not np.array_equal(im, img):
                return "results or images changed"

        b.case("report", go, full=nf, no=nn)
