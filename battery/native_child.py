"""usage: native_child.py SO OUT SEED MODE THOROUGH; calls the native kernel, compares with numpy."""
import importlib.util
import json
import os
import sys

import numpy as np

so, out, seed, mode, thorough = sys.argv[1:6]
seed, thorough = int(seed), thorough == "1"
spec = importlib.util.spec_from_file_location("statisticscalc", so)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
np.seterr(all="ignore")
rng = np.random.default_rng(seed)
fails, n = [], 0
last = open(out + ".last", "w")


def note(call):
    last.seek(0)
    last.truncate()
    last.write(call)
    last.flush()


def fail(label, message, call):
    if len(fails) < 10:
        fails.append({"label": label, "message": message, "call": call})


def close(x, y):
    return (np.abs(x - y) <= 1e-7 + 1e-6 * np.abs(y)) | (np.isnan(x) & np.isnan(y))


def compare(a, B, s, label, unit=1.0):
    """unit: a power of two by which the image is scaled (deviations scale with it, the rest stays)."""
    global n
    n += 1
    call = f"{label}: image {a.shape} {a.dtype} strides {a.strides}, blocksize {B}, stride {s}, seed {seed}, case {n}"
    note(call)
    keep = a.copy()
    rc = sys.getrefcount(a)
    got = mod.getstatistics(a, B, s)
    mn = mod.minstd(a, B, s)
    if mode == "sanitised":
        return
    if sys.getrefcount(a) != rc:
        fail("references", f"reference count {rc} became {sys.getrefcount(a)}", call)
    if not np.array_equal(keep, a, equal_nan=a.dtype.kind == "f"):
        fail("input unchanged", "the image was modified", call)
    if not isinstance(got, tuple) or len(got) != 3:
        return fail("results", f"getstatistics returned {type(got)}", call)
    for g in (*got, mn):
        if sys.getrefcount(g) > 6:
            fail("references", "result is referenced elsewhere", call)
        if not isinstance(g, np.ndarray) or g.shape != a.shape or g.dtype != np.float64:
            return fail("results", f"shape {getattr(g, 'shape', None)}, dtype {getattr(g, 'dtype', None)}", call)
    got, mn = (got[0] / unit, *got[1:]), mn / unit
    r, c = a.shape
    ni, nj = (max((k - B) // s + 1, 0) if k >= B else 0 for k in (r, c))
    names = ("deviation", "skewness", "kurtosis", "minimum")
    if not ni or not nj:
        for g, w in zip((*got, mn), names):
            if g.any():
                fail("outside the cells", f"{w} is not 0 everywhere", call)
        return
    # every position belongs to the cell its coordinates fall in; cells without a whole block are 0
    inside = np.zeros(a.shape, bool)
    inside[:min(ni * s, r), :min(nj * s, c)] = True
    for g, w in zip((*got, mn), names):
        if g[~inside].any():
            fail("outside the cells", f"{w} is not 0 outside", call)
    x = np.lib.stride_tricks.sliding_window_view(np.asarray(a, dtype=float) / unit, (B, B))[::s, ::s]
    d = x - x.mean((2, 3), keepdims=True)
    q = (d ** 2).sum((2, 3))
    pop = np.sqrt(q / B ** 2)
    flat = x.min((2, 3)) == x.max((2, 3))
    near = np.ptp(x, (2, 3)) <= 1e-9 * np.abs(x).max((2, 3))
    near &= ~flat | ((x[:, :, 0, 0] != 0) & (a.dtype.kind == "f"))  # rounding decides whether the deviation is zero
    sd = np.sqrt(q / (B * B - 1))
    sk = np.where(flat, 0, (d ** 3).sum((2, 3)) / (B * B * pop ** 3))
    ku = np.where(flat, 0, (d ** 4).sum((2, 3)) / (B * B * pop ** 4))

    def spread(v):
        return np.repeat(np.repeat(v, s, 0), s, 1)[:r, :c]

    shp = (slice(0, min(ni * s, r)), slice(0, min(nj * s, c)))
    skip = spread(near)[shp]
    for g, w, t in zip(got, names, (sd, sk, ku)):
        t = spread(t)[shp]
        ok = close(g[shp], t)
        if w != "deviation":
            ok |= skip
        if not ok.all():
            i = tuple(np.argwhere(~ok)[0])
            fail("statistics", f"{w} at {i}: {g[i]}, expected {t[i]}", call)
    if B == 1:
        return
    h = mn[shp]
    uni = spread(mn[::s, ::s][:ni, :nj])[shp]
    if not np.array_equal(uni, h, equal_nan=True):
        fail("minimum", "a cell is not uniform", call)
    t = spread(sd)[shp]
    big = h > t + 1e-7 + 1e-6 * t
    if big.any():
        i = tuple(np.argwhere(big)[0])
        fail("minimum", f"at {i}: {h[i]} is larger than the own deviation {t[i]}", call)
    so_ = np.sort(sd.ravel())
    k = np.searchsorted(so_, h)
    ok = close(h, so_[np.clip(k, 0, so_.size - 1)]) | close(h, so_[np.clip(k - 1, 0, so_.size - 1)])
    if not ok.all():
        i = tuple(np.argwhere(~ok)[0])
        fail("minimum", f"at {i}: {h[i]} is not the deviation of any block", call)


def layouts(a):
    yield a, "plain"
    yield np.asfortranarray(a), "fortran"
    yield a[::-1, ::-1], "reversed"
    big = np.zeros((a.shape[0] * 2, a.shape[1] * 3), a.dtype)
    big[::2, ::3] = a
    yield big[::2, ::3], "strided"
    yield a.T.copy().T, "transposed"
    yield a.astype(a.dtype.newbyteorder()), "byteswapped"
    r = a.copy()
    r.flags.writeable = False
    yield r, "read-only"


def image(shape, kind):
    if kind == "int":
        return rng.integers(0, 255, shape)
    if kind == "uint8":
        return rng.integers(0, 256, shape).astype(np.uint8)
    if kind == "float32":
        return rng.normal(size=shape).astype(np.float32)
    if kind == "zero":
        return np.zeros(shape)
    if kind == "sparse":
        return np.where(rng.random(shape) < 0.06, rng.normal(size=shape) * 50, 0)
    if kind == "constant blocks":
        a = rng.random(shape)
        a[:shape[0] // 2, :shape[1] // 2] = 0
        return a
    if kind == "ramp":
        return np.add.outer(np.arange(shape[0]) ** 2.0, np.arange(shape[1]) * 3.0)
    return rng.normal(size=shape) * 20 - 3


def values(sanitised):
    kinds = ("normal", "int", "uint8", "float32", "zero", "sparse", "constant blocks", "ramp")
    shapes = [(1, 1), (2, 2), (3, 7), (7, 3), (16, 16), (16, 17), (17, 16), (19, 33), (33, 18), (40, 21), (64, 64), (1, 30), (30, 1), (5, 40)]
    params = [(2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 2), (5, 5), (6, 4), (8, 4), (8, 8), (8, 3), (8, 5), (8, 1), (16, 4), (16, 16), (16, 7),
              (1, 1), (40, 40), (64, 9), (7, 6), (11, 4)]
    for si, shape in enumerate(shapes):
        for B, s in params:
            if shape[0] * shape[1] / s / s * B * B > (3e5 if not thorough else 3e6):
                continue
            for ki, kind in enumerate(kinds if thorough else [kinds[(si + B * 3 + s) % len(kinds)], "normal"]):
                compare(image(shape, kind), B, s, kind)
    for rep in range(60 if thorough else 12):
        B = int(rng.integers(1, 12))
        s = int(rng.integers(1, B + 1))
        shape = (int(rng.integers(1, 45)), int(rng.integers(1, 45)))
        a = image(shape, kinds[rep % len(kinds)])
        for x, lab in layouts(a):
            compare(x, B, s, lab)
    # the same images in other units: nothing but the deviations depends on it
    for unit in (2.0 ** -10, 2.0 ** -34, 2.0 ** -70, 2.0 ** 30, 2.0 ** 60):
        for kind in ("normal", "sparse", "constant blocks", "ramp"):
            for B, s in ((4, 2), (3, 3), (8, 5)):
                compare(image((21, 26), kind) * unit, B, s, f"{kind} in units of {unit}", unit)
    compare(1000 + 1e-3 * rng.normal(size=(20, 20)), 4, 2, "small variation on a large mean")
    for shape in ((0, 0), (0, 5), (7, 0)):
        for B, s in ((1, 1), (4, 2), (3, 3)):
            compare(np.zeros(shape), B, s, "empty")
    compare(rng.normal(size=(4, 4)), 2 ** 40, 1, "huge block")
    compare(rng.normal(size=(4, 4)), 2 ** 40, 2 ** 40, "huge block and stride")
    compare(rng.normal(size=(4, 4)), 2 ** 62, 2 ** 61, "huge block and stride")
    compare(rng.normal(size=(4, 4)), 2 ** 31, 5, "block of 2**31")
    compare(rng.normal(size=(4, 4)), 2 ** 32 + 2, 2, "block of 2**32+2")
    compare(rng.normal(size=(4, 4)), 2 ** 63 - 1, 2 ** 63 - 1, "largest block")


def rejections():
    global n
    img = rng.random((12, 12))
    obj = np.array([[object(), 1], [2, 3]], dtype=object)
    bad = [((img, 0, 0), ValueError), ((img, -1, -1), ValueError), ((img, 4, 0), ValueError), ((img, 4, -2), ValueError),
           ((img, 2, 4), ValueError), ((img, 0, 1), ValueError), ((img, -4, 2), ValueError), ((img, 4, 5), ValueError), ((img, -2 ** 62, 1), ValueError),
           ((img[0], 4, 2), ValueError), ((img[..., None], 4, 2), ValueError), ((np.array(3.0), 4, 2), ValueError),
           ((np.zeros((2, 2, 2, 2)), 1, 1), ValueError),
           ((img.tolist(), 4, 2), TypeError), ((None, 4, 2), TypeError), (("x", 4, 2), TypeError), ((img, "4", 2), TypeError),
           ((img, 4, None), TypeError), ((img, 4.5, 2), TypeError), ((img, 4), TypeError), ((), TypeError), ((img, 4, 2, 1), TypeError),
           ((img, 2 ** 70, 2), (OverflowError, ValueError)), ((img, 4, 2 ** 70), (OverflowError, ValueError)), ((img, 2 ** 63, 2), (OverflowError, ValueError)),
           ((img, 2 ** 32, 2 ** 33), ValueError), ((img, 4, 2 ** 32 + 1), ValueError),
           ((obj, 2, 1), (TypeError, ValueError))]
    for f in ("getstatistics", "minstd"):
        for args, exc in bad:
            n += 1
            call = f"{f}{tuple(getattr(x, 'shape', x) for x in args)!r}"
            note(call)
            rcs = [sys.getrefcount(x) for x in args if isinstance(x, np.ndarray)]
            try:
                r = getattr(mod, f)(*args)
            except exc:
                pass
            except Exception as e:  # noqa: BLE001
                fail("rejections", f"raised {type(e).__name__}: {e} instead of {exc}", call)
            else:
                fail("rejections", f"accepted, returned {type(r).__name__}", call)
            if rcs != [sys.getrefcount(x) for x in args if isinstance(x, np.ndarray)]:
                fail("references", "reference count changed by a rejected call", call)


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def leaks():
    """Repeated calls do not grow the process."""
    global n
    a64, a32 = rng.random((128, 128)), rng.random((128, 128)).astype(np.float32)
    calls = [("getstatistics", lambda a: mod.getstatistics(a, 16, 16)), ("minstd", lambda a: mod.minstd(a, 16, 16)),
             ("getstatistics, block larger than the image", lambda a: mod.getstatistics(a, 200, 100)),
             ("minstd, block larger than the image", lambda a: mod.minstd(a, 200, 100))]

    def reject(f):
        def g(a):
            try:
                f(a)
            except (ValueError, TypeError):
                return
        return g
    for nm in ("getstatistics", "minstd"):
        f = getattr(mod, nm)
        calls += [(nm + " rejecting a stride", reject(lambda a, f=f: f(a, 4, 0))), (nm + " rejecting three dimensions", reject(lambda a, f=f: f(a[None], 4, 2)))]
    for nm, f in calls:
        for a, lab in ((a64, "float64"), (a32, "float32")):
            n += 1
            note(f"repeated {nm} {lab}")
            for _ in range(30):
                f(a)
            m0 = rss()
            rep = 150
            for _ in range(rep):
                f(a)
            grown = rss() - m0
            if grown > rep * 128 * 128 * 8 * 0.5:
                fail("leaks", f"{grown} bytes after {rep} calls", f"{nm} {lab}")


def nomem():
    """Without memory the calls raise MemoryError."""
    global n
    import resource

    img = np.zeros((3000, 3000))
    i32 = np.zeros((3000, 3000), np.float32)
    cur = int(open("/proc/self/statm").read().split()[0]) * os.sysconf("SC_PAGE_SIZE")
    for extra in (1, 30, 80, 100, 150, 200, 230):
        resource.setrlimit(resource.RLIMIT_AS, (cur + extra * 2 ** 20, resource.RLIM_INFINITY))
        for nm in ("getstatistics", "minstd"):
            for a in (img, i32):
                for B in (2999, 2500):
                    n += 1
                    call = f"{nm} {a.dtype} block {B} with {extra} MB left"
                    note(call)
                    try:
                        r = getattr(mod, nm)(a, B, B)
                        del r
                    except MemoryError:
                        pass
                    except Exception as e:  # noqa: BLE001
                        fail("no memory", f"raised {type(e).__name__}: {e}", call)
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


if mode == "nomem":
    nomem()
elif mode == "sanitised":
    rejections()
    values(True)
else:
    rejections()
    values(False)
    leaks()
with open(out, "w") as f:
    json.dump({"cases": n, "failures": fails}, f)
os._exit(0)
