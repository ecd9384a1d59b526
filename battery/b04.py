import os
import pathlib

from run import raises

DEPTH = {"8bit": "<u1", "8ubit": "<u1", "16bit": "<u2", "16ubit": "<u2", "32bit": "<u4", "32ubit": "<u4",
         "16fbit": "<f2", "32fbit": "<f4", "64fbit": "<f8"}
MET = {"MET_UCHAR": "<u1", "MET_USHORT": "<u2", "MET_UINT": "<u4", "MET_FLOAT": "<f4", "MET_DOUBLE": "<f8"}


def run(b):
    import numpy as np
    import viqa
    from viqa.utils import load_data
    import viqa.utils.loading as L

    rng = b.rng
    sub = os.path.join(b.tmp, "dir")
    os.makedirs(sub, exist_ok=True)
    odd = os.path.join(b.tmp, "scans_64fbit", "5x6x7_8ubit.raw")  # the folder's name says nothing about the file
    os.makedirs(odd, exist_ok=True)

    def check(a, vals, X, Y, Z, dt):
        a = np.asarray(a)
        if a.shape != (X, Y, Z):
            return f"shape {a.shape} instead of {(X, Y, Z)}"
        if a.dtype != np.dtype(dt):
            return f"type {a.dtype} instead of {dt}"
        for x in range(X):
            for y in range(Y):
                for z in range(Z):
                    if a[x, y, z] != vals[x + X * (y + Y * z)]:
                        return f"voxel {(x, y, z)} is {a[x, y, z]}, file value {vals[x + X * (y + Y * z)]}"

    def values(n, dt):
        t = np.dtype(dt)
        if t.kind == "f":
            return (np.arange(n) * 0.5 - 3).astype(t)
        v = rng.integers(0, np.iinfo(t).max, size=n, endpoint=True).astype(t)
        v[0], v[-1] = np.iinfo(t).max, 0
        return v

    dims = [(1, 1, 1), (2, 3, 4), (4, 3, 2), (3, 3, 3), (5, 1, 2), (1, 6, 1), (2, 2, 7), (10, 3, 2), (2, 12, 3), (3, 2, 11)]
    if b.thorough:
        dims += [tuple(int(v) for v in rng.integers(1, 14, size=3)) for _ in range(40)]
    for X, Y, Z in dims:
        n = X * Y * Z
        for d, dt in DEPTH.items():
            v = values(n, dt)
            for pat, at in (("v_{0}x{1}x{2}_{3}.raw", sub), ("{3}_s {0}x{1}x{2}.x.raw", sub), ("v_{0}x{1}x{2}_{3}.raw", odd)):
                p = os.path.join(at, pat.format(X, Y, Z, d))
                v.tofile(p)
                b.case("raw", lambda: check(load_data(p), v, X, Y, Z, dt), dims=(X, Y, Z), depth=d)
                b.case("raw path object", lambda: check(load_data(pathlib.Path(p)), v, X, Y, Z, dt), dims=(X, Y, Z), depth=d)
                if hasattr(L, "load_raw"):
                    b.case("load_raw", lambda: check(L.load_raw(os.path.dirname(p), os.path.basename(p)), v, X, Y, Z, dt), dims=(X, Y, Z), depth=d)
                for k in (n + 1, n - 1, 2 * n, 0):
                    values(max(k, 1), dt)[:k].tofile(p)
                    b.case("raw of another size", lambda: raises(ValueError, load_data, p), dims=(X, Y, Z), depth=d, values=k)
                os.unlink(p)
        for t, dt in MET.items():
            v = values(n, dt)
            for lay in (["ObjectType = Image", "NDims = 3", "D", "TransformMatrix = 1 0 0 0 1 0 0 0 1", "ElementSize = 2 2 2", "T", "F", ""], ["F", "T", "D"], ["D", "T", "Offset = 0 0 0", "F"], ["D", "F", "", "T", "", ""]):
                at, df = ((sub, "d.bin"), (odd, "9x8x7_16fbit.raw"))["NDims = 3" in lay]
                q, p = os.path.join(at, df), os.path.join(at, "h.mhd")
                v.tofile(q)
                txt = "\n".join({"D": f"DimSize = {X} {Y} {Z}", "T": f"ElementType = {t}", "F": f"ElementDataFile = {df}"}.get(l, l) for l in lay)
                with open(p, "w") as f:
                    f.write(txt)
                b.case("mhd", lambda: check(load_data(p), v, X, Y, Z, dt), dims=(X, Y, Z), type=t, header=txt)
                b.case("mhd path object", lambda: check(load_data(pathlib.Path(p)), v, X, Y, Z, dt), dims=(X, Y, Z), type=t, header=txt)
                for k in (n + 1, n - 1, 2 * n):
                    values(max(k, 1), dt)[:k].tofile(q)
                    b.case("mhd of another size", lambda: raises(ValueError, load_data, p), dims=(X, Y, Z), type=t, values=k)
    for nm in ["v_16bit.raw", "v_2x3_16bit.raw", "v_2x3x4.raw", "v_2x3x4_bit.raw", "v_2x3x4_12bit.raw", "v_2x3x4_64bit.raw", "v_2x3x4_8fbit.raw",
               "v_2x3x4_24bit.raw", "v_2x3x4_48fbit.raw", "v_2x3x4_16bit.txt", "v_2x3x4_16bit", "v.npy", "v_2x3x4_8bit.gz", "a.nii/v_2x3x4_8bit.gz", "a.raw/v_2x3x4_8bit.dat", "v_2x3x4_8bit.dat", "v_2x3x4_1bit.raw"]:
        p = os.path.join(sub, nm)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        np.zeros(24 * 8, "u1").tofile(p)
        b.case("rejected name", lambda: raises(ValueError, load_data, p), name=nm)
    for t in ["MET_CHAR", "MET_LONG", "MET_SHORT", "MET_INT", "UCHAR", "met_uchar", ""]:
        p = os.path.join(sub, "b.mhd")
        np.zeros(24, "u1").tofile(os.path.join(sub, "d.bin"))
        with open(p, "w") as f:
            f.write(f"DimSize = 2 3 4\nElementType = {t}\nElementDataFile = d.bin\n")
        b.case("rejected element type", lambda: raises(ValueError, load_data, p), type=t)
    # through a metric
    v, w = values(60, "<u2"), values(60, "<u2")
    p, q = os.path.join(sub, "r_5x3x4_16bit.raw"), os.path.join(sub, "m_5x3x4_16bit.raw")
    v.tofile(p)
    w.tofile(q)
    e = float(np.sqrt(((v.astype(float) - w) ** 2).mean()))
    b.case("metric of files", lambda: abs(viqa.RMSE().score(p, q) - e) < 1e-6 * e or "score differs")
