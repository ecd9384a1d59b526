"""C04: raw and mhd volumes decode every voxel at its coordinates."""

import z3

from vc import libs
from vc.contract import Suite
from vc.core import REG, Sym, to_z3

S = Suite("C04")
S.assumptions = ["file names and headers are representative texts; the three dimension numbers in them stand for arbitrary positive integers"]
LOAD = "viqa.utils.loading:load_data"
RAW = "viqa.utils.loading:load_raw"
MHD = "viqa.utils.loading:load_mhd"
BIN = "viqa.utils.loading:_load_binary"
PARSE = "viqa.utils.loading:_parse_bitdepth"
DISK = "viqa.utils.loading:_load_data_from_disk"
DEPTH = {"8bit": "uint8", "8ubit": "uint8", "16bit": "uint16", "16ubit": "uint16", "32bit": "uint32", "32ubit": "uint32",
         "16fbit": "float16", "32fbit": "float32", "64fbit": "float64"}
MET = {"MET_UCHAR": "uint8", "MET_USHORT": "uint16", "MET_UINT": "uint32", "MET_FLOAT": "float32", "MET_DOUBLE": "float64"}
D = ("731", "947", "853")
SIZE = {"uint8": 1, "uint16": 2, "uint32": 4, "float16": 2, "float32": 4, "float64": 8}


def dims(k):
    n = [k.int(c, 1) for c in "XYZ"]
    k.ctx.ghost["digits"] = dict(zip(D, n))
    return n


class P:
    """os.PathLike"""

    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


import os  # noqa: E402

os.PathLike.register(P)


def decoded(k, label, r, n, name, dt):
    """r[x, y, z] is value number x + X*(y + Y*z) of the file."""
    X, Y, Z = (to_z3(v) for v in n)
    k.check(label + " type", r.dtype.name == dt, r.dtype.name)
    vals = k.ctx.ghost["bin"].values(r.dtype)
    k.elements(label, r, n, lambda x, y, z: vals.at(x + X * (y + Y * z)))


def binfile(k, path, nbytes):
    f = libs.BinFile(path, nbytes)
    k.ctx.files[path] = f
    k.ctx.ghost["bin"] = f


def access(k, how, directory, name):
    path = directory + "/" + name if directory else name
    if how == "str":
        return k.call(LOAD, path)
    if how == "path":
        return k.call(LOAD, P(path))
    if how == "direct":
        return k.call(MHD if name.endswith(".mhd") else RAW, directory, name)


NAMES = ["vol_{d}_{b}.raw", "{b}-{d}.raw", "scan 12 {d}_{b}_final.v2.raw", "{d}_{b}.raw", "a_b_{b}_c_{d}_x.raw"]


@S.contract("raw", [RAW, BIN, PARSE, DISK, LOAD], cases=[(b, h) for b in DEPTH for h in ("str", "path", "direct")], reach=("ok", "size"))
def raw(k, depth, how):
    n = dims(k)
    name = k.choose(NAMES).format(d="x".join(D), b=depth)
    nb = k.int("bytes", 0)
    directory = k.choose(["/data", "", "/scans_64fbit/5x6x7_8ubit", "11x12x13.raw"])
    binfile(k, (directory + "/" if directory else "") + name, nb)
    dt = DEPTH[depth]
    out = access(k, how, directory, name)
    vol = n[0].e * n[1].e * n[2].e
    if k.split(nb.e / SIZE[dt] == vol):
        r = k.returns(out, "a file of the right size loads")
        decoded(k, "voxel at its coordinates", r, n, name, dt)
        k.reach("ok")
    else:
        k.raises(out, ValueError, "a file of another size is rejected")
        k.reach("size")


HEAD = ["ObjectType = Image", "NDims = 3", "ElementSpacing = 1 1 1", "Offset = 0 0 0", "ElementSize = 2 2 2", "TransformMatrix = 1 0 0 0 1 0 0 0 1",
        "ElementNumberOfChannels = 1"]


@S.contract("mhd", [MHD, BIN, DISK, LOAD], cases=[(b, h) for b in MET for h in ("str", "path", "direct")], reach=("ok", "size"))
def mhd(k, met, how):
    n = dims(k)
    lines = ["DimSize = " + " ".join(D), "ElementType = " + met, "ElementDataFile = data.bin"]
    lay = k.choose(["normal", "reversed", "first", "blank", "spaces"])
    if lay == "reversed":
        lines = lines[::-1] + HEAD
    elif lay == "first":
        lines = [lines[2]] + HEAD[:2] + lines[:2] + HEAD[2:]
    elif lay == "blank":
        lines = HEAD[:1] + [""] + lines[:1] + HEAD[1:] + lines[1:] + ["", ""]
    elif lay == "spaces":
        lines = HEAD + ["DimSize = " + "  ".join(D)] + lines[1:]
    else:
        lines = HEAD + lines
    text = "\n".join(lines) + k.choose(["\n", ""])
    nb = k.int("bytes", 0)
    directory, data, head = k.choose([("/data", "data.bin", "v.mhd"), ("", "data.bin", "v.mhd"), ("/data", "sub/v.raw", "v.mhd"),
                                      ("/scans_64fbit/5x6x7_8ubit", "9x8x7_16fbit.raw", "3x4x5_16bit.mhd"), ("v.raw", "data 1.x.raw", "a.b.mhd")])
    text = text.replace("data.bin", data)
    pre = directory + "/" if directory else ""
    k.ctx.files[pre + head] = text
    binfile(k, pre + data, nb)
    dt = MET[met]
    out = access(k, how, directory, head)
    vol = n[0].e * n[1].e * n[2].e
    if k.split(nb.e / SIZE[dt] == vol):
        r = k.returns(out, "a file of the right size loads")
        decoded(k, "voxel at its coordinates", r, n, "data.bin", dt)
        k.reach("ok")
    else:
        k.raises(out, ValueError, "a file of another size is rejected")
        k.reach("size")


BADRAW = {"no dimension": ["vol_16bit.raw", "vol_731x947_16bit.raw", "16bit.raw", "vol_x_947x_16bit.raw"],
          "no bit depth": ["vol_731x947x853.raw", "vol_731x947x853_bit.raw", "vol_731x947x853_u16.raw"],
          "bit depth": [f"vol_731x947x853_{b}.raw" for b in ("12bit", "64bit", "64ubit", "8fbit", "1bit", "24bit", "48fbit", "33bit")],
          "extension": ["vol_731x947x853_16bit.txt", "vol_731x947x853_16bit", "vol.npy", "vol_731x947x853_16bit.RAWX", "vol.gz", "vol.dat"]}


@S.contract("rejected raw file", [RAW, PARSE, DISK, LOAD], cases=list(BADRAW), reach=("end",))
def badraw(k, what):
    dims(k)
    name = k.choose(BADRAW[what])
    binfile(k, "/data/" + name, k.int("bytes", 0))
    k.raises(access(k, k.choose(["str", "path"]), "/data", name), ValueError, "rejected")
    if what != "extension":
        k.raises(access(k, "direct", "/data", name), ValueError, "rejected directly")
    k.reach("end")


@S.contract("rejected mhd element type", [MHD, LOAD], reach=("end",))
def badmhd(k):
    dims(k)
    met = k.choose(["MET_CHAR", "MET_LONG", "MET_SHORT", "MET_INT", "MET_ULONG", "UCHAR", "met_uchar", "MET_FLOAT_ARRAY", "MET_LONG_LONG"])
    k.ctx.files["/data/v.mhd"] = "\n".join(["DimSize = " + " ".join(D), "ElementType = " + met, "ElementDataFile = data.bin", ""])
    binfile(k, "/data/data.bin", k.int("bytes", 0))
    k.raises(access(k, k.choose(["str", "direct"]), "/data", "v.mhd"), ValueError, "rejected")
    k.reach("end")


@S.contract("bit depth table", [PARSE], reach=("end",))
def table(k):
    for b, dt in DEPTH.items():
        r = k.returns(k.call(PARSE, b), "known bit depth")
        from vc import arr as A

        k.check("element type of the bit depth", A.as_dtype(r).name == dt, f"{b}: {r}")
    k.reach("end")
