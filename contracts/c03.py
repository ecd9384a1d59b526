"""C03: cropping returns exactly the requested box."""

import z3

from vc import arr as A
from vc.contract import Suite
from vc.core import to_z3

S = Suite("C03")
CROP = "viqa.utils.loading:crop_image"
LOAD = "viqa.utils.loading:load_data"


def image(k, kind, cls=None, dtype="float64"):
    if kind == "2d":
        return k.arr("img", 2, dtype, cls=cls)
    if kind == "rgb":
        nx, ny = k.int("nx", 1), k.int("ny", 1)
        return k.arr("img", shape=(nx, ny, 3), dtype=dtype, cls=cls)
    a = k.arr("img", 3, dtype, cls=cls)
    k.assume(to_z3(a._sh[2]) != 3)
    return a


def box(k, nd, sizes=None):
    b = []
    for d in range(nd):
        lo, hi = k.int(f"lo{d}"), k.int(f"hi{d}")
        if sizes is not None:
            k.assume(lo >= 0)
            k.assume(lo < hi)
            k.assume(hi.e <= to_z3(sizes[d]))
        b.append((lo, hi))
    return b


def mk_cls(k, cls):
    return k.get("viqa.utils.loading:ImageArray") if cls == "ImageArray" else None


@S.contract("crop inside", [CROP], cases=[(kd, c) for kd in ("2d", "rgb", "3d") for c in ("ndarray", "ImageArray")],
            reach=("end",))
def inside(k, kind, cls):
    a = image(k, kind, mk_cls(k, cls))
    nd = 3 if kind == "3d" else 2
    b = box(k, nd, a._sh)
    args = list(b)
    if nd == 2:
        z = k.choose([None, "none-given", (0, 1)])
        if z != "none-given":
            args.append(z)
    out = k.call(CROP, a, *args)
    r = k.returns(out, "returns")
    shape = [(hi - lo).e for lo, hi in b] + ([3] if kind == "rgb" else [])
    off = [lo.e for lo, _ in b] + ([0] if kind == "rgb" else [])
    k.elements("voxels of the box", r, shape, lambda *i: a.at(*[x + o for x, o in zip(i, off)]))
    k.check("type kept", r.dtype == a.dtype and type(r) is type(a))
    k.unchanged("input unchanged", a)
    k.reach("end")


@S.contract("crop too large", [CROP], cases=["2d", "rgb", "3d"], reach=("end",))
def large(k, kind):
    a = image(k, kind)
    nd = 3 if kind == "3d" else 2
    b = box(k, nd)
    k.assume(z3.Or(*[(hi - lo).e > to_z3(n) for (lo, hi), n in zip(b, a._sh)]))
    k.raises(k.call(CROP, a, *b), ValueError, "box larger than the image raises")
    k.reach("end")


@S.contract("3d needs z", [CROP, LOAD], reach=("end",))
def needz(k):
    a = image(k, "3d")
    b = box(k, 2)
    k.raises(k.call(CROP, a, *b), ValueError, "missing third range raises")
    k.raises(k.call(CROP, a, *b, None), ValueError, "missing third range raises")
    k.raises(k.call(LOAD, a, roi=b), ValueError, "missing third range raises when loading")
    k.reach("end")


@S.contract("load with roi", [LOAD, CROP, "viqa.utils.loading:normalize_data"],
            cases=[(kd, dt, nr) for kd in ("2d", "rgb", "3d") for dt, nr in
                   (("float64", None), ("uint8", None), ("float64", 255), ("uint16", 1), ("int16", 65535),
                    ("uint8", 255))], reach=("end",))
def roi(k, kind, dt, rng):
    a = image(k, kind, dtype=dt)
    nd = 3 if kind == "3d" else 2
    b = box(k, nd, a._sh)
    kw = dict(normalize=True, data_range=rng) if rng else {}
    if rng:
        i, j = k.skolem(a._sh), k.skolem(a._sh)
        k.assume(a.at(*i) != a.at(*j))
    full = k.returns(k.call(LOAD, a, **kw), "whole image loads")
    part = k.returns(k.call(LOAD, a, roi=b, **kw), "region loads")
    shape = [(hi - lo).e for lo, hi in b] + ([3] if kind == "rgb" else [])
    off = [lo.e for lo, _ in b] + ([0] if kind == "rgb" else [])
    k.check("same type", part.dtype == full.dtype)
    k.elements("same as cropping the loaded image", part, shape,
               lambda *i: full.at(*[x + o for x, o in zip(i, off)]))
    k.unchanged("input unchanged", a)
    k.reach("end")
