import itertools

from run import exact, raises


def run(b):
    import numpy as np
    import torch
    from viqa.utils import ImageArray, crop_image, load_data, normalize_data

    rng = b.rng
    dts = [np.uint8, np.uint16, np.int16, np.int32, np.float32, np.float64]

    def img(shape, dt):
        a = rng.integers(0, 200, size=shape).astype(dt)
        if a.size > 1:
            a.flat[0], a.flat[-1] = 3, 201 % 128
        return a

    def sl(box):
        return tuple(slice(lo, hi) for lo, hi in box)

    shapes = [(1, 1), (4, 5), (5, 4), (7, 2), (6, 6, 3), (3, 4, 3), (4, 5, 6), (5, 5, 5), (3, 6, 2), (6, 3, 4), (3, 3, 8)]
    for shape in shapes:
        nd = 2 if len(shape) == 2 or shape[-1] == 3 else 3
        for dt in dts if b.thorough else dts[::2]:
            a = img(shape, dt)
            boxes = [[(lo, hi) for lo in range(n) for hi in range(lo + 1, n + 1)] for n in shape[:nd]]
            allb = list(itertools.product(*boxes))
            if len(allb) > 60:
                allb = [allb[i] for i in rng.choice(len(allb), 60, replace=False)] + [tuple((0, n) for n in shape[:nd])]
                for d in range(nd):  # whole axis kept
                    allb += [tuple((0, n) if e == d else (1, n) for e, n in enumerate(shape[:nd]) if n > 1 or e == d)]
            allb = [x for x in allb if len(x) == nd]
            for box in allb:
                for inp in (a, ImageArray(a)):
                    b.case("crop", lambda: exact(np.asarray(crop_image(inp, *box)), a[sl(box)]), img=a, box=box)
                if nd == 2:
                    b.case("crop z ignored", lambda: exact(np.asarray(crop_image(a, *box, (0, 1))), a[sl(box)]), img=a, box=box)
                b.case("load roi", lambda: exact(np.asarray(load_data(a, roi=list(box))), a[sl(box)]), img=a, box=box)
            for box in allb[:: max(1, len(allb) // 12)]:
                t = torch.tensor(a.astype(np.float32))
                b.case("load tensor roi", lambda: exact(np.asarray(load_data(t, roi=list(box))), a.astype(np.float32)[sl(box)]),
                       img=a, box=box)
                for dr in (1, 255, 65535):
                    if a.size > 1:
                        b.case("normalise then crop", lambda: exact(
                            np.asarray(load_data(a, data_range=dr, normalize=True, roi=list(box))),
                            np.asarray(normalize_data(a, (0, dr)))[sl(box)]), img=a, box=box, dr=dr)
                p = f"{b.tmp}/v_8ubit_%dx%dx%d.raw"
            for d in range(nd):
                for lo, extra in ((0, 1), (0, 5), (-1, 1), (2, 3)):
                    box = [(0, n) for n in shape[:nd]]
                    box[d] = (lo, lo + shape[d] + extra)
                    b.case("too large", lambda: raises(ValueError, crop_image, a, *box), img=a, box=box)
                    b.case("too large load", lambda: raises(ValueError, load_data, a, roi=box), img=a, box=box)
                    for e in range(nd):  # smaller along the other axes
                        if e != d:
                            box2 = list(box)
                            box2[e] = (0, 1)
                            b.case("too large", lambda: raises(ValueError, crop_image, a, *box2), img=a, box=box2)
            if nd == 3:
                b.case("3d needs z", lambda: raises(ValueError, crop_image, a, (0, 1), (0, 1)), img=a)
                b.case("3d needs z", lambda: raises(ValueError, crop_image, a, (0, shape[0]), (0, shape[1])), img=a)
                b.case("3d needs z", lambda: raises(ValueError, load_data, a, roi=[(0, 1), (0, 2)]), img=a)
    # from disk
    for X, Y, Z in ((4, 5, 6), (5, 4, 2)):
        v = rng.integers(0, 255, size=X * Y * Z).astype(np.uint8)
        p = f"{b.tmp}/v_8ubit_{X}x{Y}x{Z}.raw"
        v.tofile(p)
        full = np.asarray(load_data(p))
        for box in (((1, 3), (0, Y), (0, 1)), ((0, X), (1, 2), (1, Z))):
            b.case("load file roi", lambda: exact(np.asarray(load_data(p, roi=list(box))), full[sl(box)]), box=box, values=v)
