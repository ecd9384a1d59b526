"""Assumed contracts of the libraries the code base uses (numpy namespace,
scipy, scikit-image, torch, piq, file system, warnings ...).

Anything not modelled raises Unsupported when it is touched: the verifier then
makes no claim.
"""

import io
import math
import posixpath
import types

import numpy as RN
import z3

from . import arr as A
from . import npmod as N
from .arr import (
    B8, DT, F32, F64, I64, Buf, ScalarMeta, any_arg, array_from, as_dtype, cast_term,
    concrete_eq, dim_val, flat_args, ndarray, new_array, opaque, same_dim, sort_of, tmpl,
)
from .core import (
    CTX, IDX, INT, REAL, Sym, Unsupported, as_real, concrete, div, make_app, modelled,
    scalar_like, simp, to_z3,
)
from .npmod import api, as_array


class StubModule(types.ModuleType):
    def __init__(self, name, attrs=None):
        super().__init__(name)
        self.__dict__.update(attrs or {})
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n}")


# --------------------------------------------------------------------------
# numpy namespace
# --------------------------------------------------------------------------
class _ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make_numpy():
    np = StubModule("numpy")
    d = np.__dict__
    for k, v in vars(N).items():
        if getattr(v, "_vc_api", False):
            d[k.rstrip("_") if k.endswith("_") else k] = v
    d.pop("norm", None)
    d.pop("ma_array", None)
    d.update(N.UFUNCS)
    d.update(abs=N.UFUNCS["absolute"], true_divide=N.UFUNCS["divide"], mod=N.UFUNCS["remainder"])
    d.update(min=N.amin, max=N.amax, amin=N.amin, amax=N.amax, around=N.round_)
    d.update({n: t for n, t in A.TYPES.items() if n not in ("bool", "object")})
    d.update(
        bool_=A.TYPES["bool"], object_=A.TYPES["object"],
        ubyte=A.TYPES["uint8"], ushort=A.TYPES["uint16"], uintc=A.TYPES["uint32"],
        byte=A.TYPES["int8"], short=A.TYPES["int16"], intc=A.TYPES["int32"],
        int_=A.TYPES["int64"], uint=A.TYPES["uint64"], half=A.TYPES["float16"],
        single=A.TYPES["float32"], double=A.TYPES["float64"], float_=A.TYPES["float64"],
        generic=A.generic, number=A.number, integer=A.integer, inexact=A.inexact,
        signedinteger=A.signedinteger, unsignedinteger=A.unsignedinteger, floating=A.floating,
        complexfloating=A.complexfloating,
        ndarray=ndarray, dtype=N.dtype_, iinfo=N.iinfo, finfo=N.finfo,
        pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, newaxis=None, Inf=math.inf,
        ogrid=N._OGrid(False), mgrid=N._OGrid(True), errstate=_ErrState,
    )
    d["typing"] = StubModule("numpy.typing", {"NDArray": ndarray, "ArrayLike": object})
    d["linalg"] = StubModule("numpy.linalg", {"norm": N.norm})
    ma = {"array": N.ma_array, "masked_array": N.ma_array, "MaskedArray": A.MaskedArray, "mean": N.mean,
          "std": N.std}
    d["ma"] = StubModule("numpy.ma", ma)
    d["random"] = StubModule("numpy.random")
    return np


# --------------------------------------------------------------------------
# scipy
# --------------------------------------------------------------------------
def _fa(x):
    """Option values as application arguments."""
    if isinstance(x, (list, tuple)):
        return [_fa(v) for v in x]
    return x


def _real_scalar(x):
    """Numeric options are compared by value, not by int/float type."""
    if isinstance(x, bool) or not scalar_like(x):
        return x
    return Sym(simp(as_real(to_z3(x))))


def _filter(name, x, opts, dt=None):
    x = as_array(x).view(ndarray)
    if x.dtype.kind == "c":
        raise Unsupported("complex filter input")
    args = [x] + [_real_scalar(o) if not isinstance(o, (ndarray, list, tuple)) else o for o in opts]
    return opaque(name, args, x._sh, dt or x.dtype)


@api
def gaussian_filter(input, sigma, order=0, output=None, mode="reflect", cval=0.0, truncate=4.0, *, radius=None, axes=None):
    if output is not None or axes is not None:
        raise Unsupported("gaussian_filter options")
    return _filter("gaussian_filter", input, [sigma, order, mode, cval, truncate, radius])


@api
def uniform_filter(input, size=3, output=None, mode="reflect", cval=0.0, origin=0, *, axes=None):
    if output is not None or axes is not None:
        raise Unsupported("uniform_filter options")
    return _filter("uniform_filter", input, [size, mode, cval, origin])


@api
def correlate(input, weights, output=None, mode="reflect", cval=0.0, origin=0):
    if output is not None:
        raise Unsupported("correlate output")
    return _filter("ndi.correlate", input, [as_array(weights), mode, cval, origin])


@api
def convolve(input, weights, output=None, mode="reflect", cval=0.0, origin=0):
    if output is not None:
        raise Unsupported("convolve output")
    a = as_array(input)
    if mode != "constant" and a.dtype.kind == "f" and _zero(a):
        return new_array(a._sh, a.dtype, z3.RealVal(0))  # linear: zero stays zero
    return _filter("ndi.convolve", input, [as_array(weights), mode, cval, origin])


def _zero(a):
    c = simp(a.content())
    return z3.is_rational_value(c) and c.as_fraction() == 0


@api
def binary_dilation(input, structure=None, iterations=1):
    return _filter("binary_dilation", input, [structure, iterations], B8)


@api
def binary_erosion(input, structure=None, iterations=1):
    return _filter("binary_erosion", input, [structure, iterations], B8)


@api
def distance_transform_edt(input):
    return _filter("distance_transform_edt", input, [], F64)


def _cplx(name):
    @api
    def f(x):
        x = as_array(x).view(ndarray)
        return opaque(name, [x], x._sh, DT["complex128"])

    f.__name__ = name
    return f


def _shift(name):
    @api
    def f(x, axes=None):
        if axes is not None:
            raise Unsupported("fftshift axes")
        x = as_array(x).view(ndarray)
        return opaque(name, [x], x._sh, x.dtype)

    f.__name__ = name
    return f


def _moment(name):
    @api
    def f(a, axis=0, bias=True, nan_policy="propagate", fisher=True):
        if axis is not None or bias is not True or nan_policy != "propagate" or fisher is not True:
            raise Unsupported(f"{name} options")
        return opaque(name, [as_array(a).view(ndarray)])

    f.__name__ = name
    return f


# --------------------------------------------------------------------------
# scikit-image
# --------------------------------------------------------------------------
def _same_shape(a, b):
    if a.ndim != b.ndim:
        raise modelled(ValueError("Input images must have the same dimensions."))
    for p, q in zip(a._sh, b._sh):
        if not same_dim(p, q):
            raise modelled(ValueError("Input images must have the same dimensions."))


@api
def mean_squared_error(image0, image1):
    a, b = as_array(image0).view(ndarray), as_array(image1).view(ndarray)
    _same_shape(a, b)
    d = a.astype(F64) - b.astype(F64)
    return N.mean(d * d)


@api
def peak_signal_noise_ratio(image_true, image_test, *, data_range=None):
    if data_range is None:
        raise Unsupported("peak_signal_noise_ratio without data_range")
    err = mean_squared_error(image_true, image_test)
    r = Sym(as_real(to_z3(data_range)), F64)
    return 10 * N.UFUNCS["log10"](r * r / err)


@api
def normalized_root_mse(image_true, image_test, *, normalization="euclidean"):
    raise Unsupported("normalized_root_mse")


@api
def rgb2gray(rgb, *, channel_axis=-1):
    if channel_axis != -1:
        raise Unsupported("rgb2gray channel_axis")
    x = as_array(rgb)
    if x.ndim < 1 or not same_dim(x._sh[-1], 3):
        raise modelled(ValueError("the input array must have size 3 along `channel_axis`"))
    scale = 1
    if x.dtype.kind == "u":
        scale = A.int_range(x.dtype)[1]
        y = x.astype(F64)
    elif x.dtype.kind == "f":
        y = x
        if x.dtype.itemsize == 2:
            y = x.astype(F32)
    else:
        raise Unsupported("rgb2gray of a signed image")
    c = y.content()
    k = y.ndim - 1
    body = None
    for j, w in enumerate(("0.2125", "0.7154", "0.0721")):
        t = z3.RealVal(w) * tmpl(c, {k: z3.IntVal(j)})
        body = t if body is None else body + t
    if scale != 1:
        body = body / scale
    sh = y._sh[:-1]
    return new_array(sh, y.dtype, body)


@api
def crop(ar, crop_width, copy=False, order="K"):
    a = as_array(ar)
    if isinstance(crop_width, (int, Sym)):
        cw = [(crop_width, crop_width)] * a.ndim
    elif isinstance(crop_width, (tuple, list)) and len(crop_width) == a.ndim and all(
            isinstance(c, (tuple, list)) and len(c) == 2 for c in crop_width):
        cw = crop_width
    else:
        raise Unsupported("crop width")
    r = a[tuple(slice(x, s - y) for (x, y), s in zip(cw, a._sh))]
    return r.copy() if copy else r


@api
def resize(image, output_shape, order=None, mode="reflect", cval=0, clip=True, preserve_range=False,
           anti_aliasing=None, anti_aliasing_sigma=None):
    x = as_array(image).view(ndarray)
    sh = tuple(output_shape)
    dt = x.dtype if x.dtype.kind == "f" else F64
    return opaque("resize", [x, list(sh), order, mode, cval, bool(clip), bool(preserve_range), anti_aliasing,
                             anti_aliasing_sigma], sh, dt)


@api
def imread(fname):
    """Image files: a fixed symbolic array per path (contract precondition)."""
    ctx = CTX()
    f = ctx.files.get(fname)
    if f is None:
        raise modelled(FileNotFoundError(fname))
    if not isinstance(f, ndarray):
        raise Unsupported("imread")
    return f.copy()


# --------------------------------------------------------------------------
# torch / piq
# --------------------------------------------------------------------------
class Tensor:
    _vc_tensor = True
    _vc_symlike = True
    __hash__ = object.__hash__

    def __init__(self, a):
        self.a = a

    def data_arr(self):
        return self.a

    def cpu(self):
        return self

    def detach(self):
        return self

    def contiguous(self):
        return self

    def clone(self):
        return Tensor(self.a.copy())

    def numpy(self):
        if self.a.ndim == 0 and self.a._cells is not None:
            return self.a
        return self.a.view(ndarray)

    def item(self):
        x = self.a.item()
        return Sym(x.e) if isinstance(x, Sym) else x

    @property
    def shape(self):
        return self.a._sh

    @property
    def ndim(self):
        return self.a.ndim

    def dim(self):
        return self.a.ndim

    @property
    def dtype(self):
        return self.a.dtype

    def unsqueeze(self, d):
        return Tensor(N.expand_dims(self.a, d))

    def squeeze(self, d=None):
        return Tensor(self.a.squeeze(d))

    def permute(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = tuple(dims[0])
        if sorted(x % self.a.ndim for x in dims) != list(range(self.a.ndim)):
            raise modelled(RuntimeError("permute(sparse_coo): number of dimensions does not match"))
        return Tensor(self.a.transpose(*dims))

    def transpose(self, a, b):
        return Tensor(self.a.swapaxes(a, b))

    def float(self):
        return Tensor(self.a.astype(F32))

    def double(self):
        return Tensor(self.a.astype(F64))

    def to(self, t):
        return Tensor(self.a.astype(t))

    def mean(self):
        return Tensor(scalar_arr(N.mean(self.a)))

    def __getitem__(self, k):
        r = self.a[k]
        return Tensor(r if isinstance(r, ndarray) else scalar_arr(r))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Tensor.{n}")

    def __eq__(self, o):
        raise Unsupported("tensor comparison")

    def __repr__(self):
        return "tensor"


def scalar_arr(x):
    c = RN.empty((), object)
    c[()] = x
    return A.new_cells(c, A.py_dtype(x))


@api
def tensor(data, dtype=None, device=None, requires_grad=False):
    if isinstance(data, Tensor):
        return data.clone()
    if isinstance(data, (list, tuple)):
        a = array_from(data)
        if a.dtype is F64:
            a = a.astype(F32)
    else:
        a = array_from(data) if not isinstance(data, ndarray) else data.view(ndarray).copy()
    if a.dtype.name in ("uint16", "uint32", "uint64") and False:
        raise modelled(TypeError("can't convert np.ndarray of this type"))
    return Tensor(a if dtype is None else a.astype(dtype))


@api
def from_numpy(data):
    if not isinstance(data, ndarray):
        raise modelled(TypeError("expected np.ndarray"))
    return Tensor(data.view(ndarray))


@api
def stack_t(tensors, dim=0):
    return Tensor(A.stack_arrays([t.a for t in tensors], dim))


def batch_mean(name, x, y, opts):
    """piq contract: mean over the batch of a per-sample score."""
    a, b = x.a, y.a
    if a.ndim != 4 or b.ndim != 4:
        raise modelled(AssertionError("Expected 4D tensors"))
    for p, q in zip(a._sh, b._sh):
        if not same_dim(p, q):
            raise modelled(AssertionError("Expected tensors of equal shape"))
    ctx = CTX()
    n = a._sh[0]

    def one(j):
        return opaque(name, [a[j].copy(), b[j].copy()] + opts, (), F32)

    if isinstance(n, int):
        r = None
        for j in range(n):
            v = one(j)
            r = v if r is None else r + v
        return Tensor(scalar_arr(r / n if n != 1 else r))
    k = ctx.loopvar("b")
    ctx.assume(z3.And(k >= 0, k < to_z3(n)))
    v = one(Sym(k))
    body = z3.substitute(v.e, (k, IDX[0]))
    s = N.sum_term([to_z3(n)], body)
    return Tensor(scalar_arr(Sym(div(s, as_real(to_z3(n))), F32)))


def _opt(x):
    if isinstance(x, Tensor):
        return x
    return _real_scalar(x)


def piq_fn(name, defaults):
    def f(x, y, *args, **kw):
        if not isinstance(x, Tensor) or not isinstance(y, Tensor):
            raise modelled(AssertionError("Expected torch.Tensor"))
        names = list(defaults)
        if len(args) > len(names):
            raise Unsupported("piq positional arguments")
        vals = dict(defaults)
        vals.update(zip(names, args))
        for k, v in kw.items():
            if k not in vals:
                raise modelled(TypeError(f"{name}() got an unexpected keyword argument '{k}'"))
            vals[k] = v
        if vals["reduction"] != "mean":
            raise Unsupported("piq reduction")
        return batch_mean("piq." + name, x, y, [_opt(vals[k]) for k in names])

    f.__name__ = name
    return f


PIQ = {
    "fsim": dict(reduction="mean", data_range=1.0, chromatic=True, scales=4, orientations=4, min_length=6, mult=2,
                 sigma_f=0.55, delta_theta=1.2, k=2.0),
    "multi_scale_ssim": dict(kernel_size=11, kernel_sigma=1.5, data_range=1.0, reduction="mean", scale_weights=None,
                             k1=0.01, k2=0.03),
    "vif_p": dict(sigma_n_sq=2.0, data_range=1.0, reduction="mean"),
    "vsi": dict(reduction="mean", data_range=1.0, c1=1.27, c2=386.0, c3=130.0, alpha=0.4, beta=0.02, omega_0=0.021,
                sigma_f=1.34, sigma_d=145.0, sigma_c=0.001),
}


# --------------------------------------------------------------------------
# file system, warnings, progress bars
# --------------------------------------------------------------------------
class BinFile:
    """An existing binary file with nbytes bytes."""

    def __init__(self, name, nbytes):
        self.name, self.nbytes = name, nbytes

    def values(self, dt):
        n = simp(to_z3(self.nbytes) / dt.itemsize)
        ctx = CTX()
        nm = f"file.{self.name}.{dt.name}"
        key = ("filevals", nm)
        if dt.kind in "ui":
            lo, hi = A.int_range(dt)
            A.INPUT_RANGE[nm] = (lo, hi)
            from .core import REG

            REG.inputs[nm] = lambda args, t, lo=lo, hi=hi: [t >= lo, t <= hi]
        fn = z3.Function(nm, INT, sort_of(dt))
        return new_array([dim_val(n)], dt, fn(IDX[0]))


class BinBytes:
    def __init__(self, f):
        self.file = f


class BinHandle(BinFile):
    def __init__(self, f):
        super().__init__(f.name, f.nbytes)
        self.f = f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self, *a):
        if a:
            raise Unsupported("partial binary read")
        return BinBytes(self)

    def close(self):
        pass


class TextOut(io.StringIO):
    def __init__(self, path, log, pre=""):
        super().__init__()
        self.path, self.log = path, log
        if pre:
            super().write(pre)
        CTX().ghost.setdefault("written", {})[path] = None
        CTX().ghost.setdefault("handles", []).append(self)

    def mark(self):
        self._mark = self.tell()

    def take(self):
        """Text written since mark(); it is removed again."""
        t = self.getvalue()[self._mark:]
        self.seek(self._mark)
        self.truncate()
        return t

    def close(self):
        if not self.closed:
            CTX().ghost["written"][self.path] = self.getvalue()
        super().close()

    def __exit__(self, *a):
        self.close()
        return False


def vc_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    ctx = CTX()
    if isinstance(file, Sym):
        raise Unsupported("open of a symbolic path")
    path = file
    if hasattr(file, "__fspath__"):
        path = file.__fspath__()
    if mode in ("w", "wt", "w+", "x"):
        ctx.log.append(("open-w", path))
        return TextOut(path, ctx.log)
    if mode in ("a", "at"):
        ctx.log.append(("open-a", path))
        return TextOut(path, ctx.log, ctx.ghost.get("written", {}).get(path) or "")
    f = ctx.files.get(path)
    if f is None:
        raise modelled(FileNotFoundError(2, "No such file or directory", path))
    if mode in ("r", "rt"):
        if not isinstance(f, str):
            raise Unsupported("text read of a binary file")
        return io.StringIO(f)
    if mode == "rb":
        if isinstance(f, BinFile):
            return BinHandle(f)
        raise Unsupported("binary read of a text file")
    raise Unsupported(f"open mode {mode}")


def vc_warn(message, category=None, stacklevel=1, source=None, **kw):
    if isinstance(message, Warning):
        category = type(message)
    CTX_log(("warn", (category or UserWarning).__name__, str(message)))


def CTX_log(ev):
    from .core import _CTX

    if _CTX:
        _CTX[-1].log.append(ev)


def vc_print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is not None:
        file.write(sep.join(str(x) for x in a) + end)
        return
    CTX_log(("print", sep.join(str(x) for x in a) + end))


class _Catch:
    def __init__(self, **k):
        if k.get("record"):
            raise Unsupported("recording warnings")

    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


def tqdm(iterable=None, *a, **k):
    if iterable is None:
        raise Unsupported("tqdm without iterable")
    return iterable


class _PathMod(types.ModuleType):
    def __init__(self):
        super().__init__("posixpath")
        for n in ("join", "dirname", "basename", "splitext", "split", "normpath", "isabs", "sep", "extsep"):
            setattr(self, n, getattr(posixpath, n))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"os.path.{n}")


class _Math(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        self.pi, self.e, self.inf, self.nan = math.pi, math.e, math.inf, math.nan

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a):
            if not any(isinstance(x, (Sym, ndarray)) for x in a):
                return real(*a)
            a = [x.item() if isinstance(x, ndarray) else x for x in a]
            from .core import EXP, LOG, SQRT

            if n == "sqrt":
                if not CTX().branch(as_real(to_z3(a[0])) >= 0):
                    raise modelled(ValueError("math domain error"))
                return Sym(SQRT(as_real(to_z3(a[0]))))
            if n == "floor":
                return Sym(z3.ToInt(as_real(to_z3(a[0])))) if not a[0].is_int else a[0]
            if n == "ceil":
                return Sym(-z3.ToInt(-as_real(to_z3(a[0])))) if not a[0].is_int else a[0]
            if n == "exp":
                return Sym(EXP(as_real(to_z3(a[0]))))
            if n == "log" and len(a) == 1:
                return Sym(LOG(as_real(to_z3(a[0]))))
            if n == "log10":
                return Sym(z3.Function("log10", REAL, REAL)(as_real(to_z3(a[0]))))
            if n == "fabs":
                return abs(Sym(as_real(to_z3(a[0]))))
            if n == "prod":
                raise Unsupported("math.prod")
            raise Unsupported(f"math.{n} of a symbolic value")

        if n == "prod":
            def prod(xs, start=1):
                r = start
                for x in xs:
                    r = r * x
                return r

            return prod
        if n == "fsum":
            raise Unsupported("math.fsum")
        return f


def make_stubs():
    import os

    np = make_numpy()
    ndi = StubModule("scipy.ndimage", dict(
        gaussian_filter=gaussian_filter, uniform_filter=uniform_filter, correlate=correlate, convolve=convolve,
        binary_dilation=binary_dilation, binary_erosion=binary_erosion,
        distance_transform_edt=distance_transform_edt))
    fft = StubModule("scipy.fft", dict(
        fftn=_cplx("fftn"), ifftn=_cplx("ifftn"), fft2=_cplx("fftn"), ifft2=_cplx("ifftn"),
        fftshift=_shift("fftshift"), ifftshift=_shift("ifftshift")))
    stats = StubModule("scipy.stats", dict(skew=_moment("skew"), kurtosis=_moment("kurtosis")))
    scipy = StubModule("scipy", dict(ndimage=ndi, fft=fft, stats=stats))
    metrics = StubModule("skimage.metrics", dict(
        mean_squared_error=mean_squared_error, peak_signal_noise_ratio=peak_signal_noise_ratio))
    color = StubModule("skimage.color", dict(rgb2gray=rgb2gray))
    acrop = StubModule("skimage.util.arraycrop", dict(crop=crop))
    util = StubModule("skimage.util", dict(crop=crop, arraycrop=acrop))
    transform = StubModule("skimage.transform", dict(resize=resize))
    skio = StubModule("skimage.io", dict(imread=imread))
    ski = StubModule("skimage", dict(metrics=metrics, color=color, util=util, transform=transform, io=skio))
    torch = StubModule("torch", dict(
        Tensor=Tensor, tensor=tensor, from_numpy=from_numpy, as_tensor=tensor, stack=stack_t,
        float32=F32, float64=F64, float=F32, double=F64))
    piq = StubModule("piq", {n: piq_fn(n, d) for n, d in PIQ.items()})
    plt = StubModule("matplotlib.pyplot")
    patches = StubModule("matplotlib.patches")
    mpl = StubModule("matplotlib", dict(pyplot=plt, patches=patches))
    tq = StubModule("tqdm.autonotebook", dict(tqdm=tqdm))
    tq0 = StubModule("tqdm", dict(autonotebook=tq, tqdm=tqdm))
    warnings = StubModule("warnings", dict(warn=vc_warn, catch_warnings=_Catch, simplefilter=lambda *a, **k: None,
                                           filterwarnings=lambda *a, **k: None))
    path = _PathMod()
    osm = StubModule("os", dict(path=path, PathLike=os.PathLike, fspath=os.fspath, sep="/", linesep="\n"))
    osm.__dict__["getcwd"] = lambda: "."
    imeta = StubModule("importlib.metadata", dict(version=lambda n: "<version>"))

    def import_module(name):
        raise ImportError(name)

    importlib = StubModule("importlib", dict(metadata=imeta, import_module=import_module))
    return {
        "numpy": np, "numpy.ma": np.ma, "numpy.linalg": np.linalg, "numpy.typing": np.typing,
        "scipy": scipy, "scipy.ndimage": ndi, "scipy.fft": fft, "scipy.stats": stats,
        "skimage": ski, "skimage.metrics": metrics, "skimage.color": color, "skimage.util": util,
        "skimage.util.arraycrop": acrop, "skimage.transform": transform, "skimage.io": skio,
        "torch": torch, "piq": piq, "matplotlib": mpl, "matplotlib.pyplot": plt, "matplotlib.patches": patches,
        "tqdm": tq0, "tqdm.autonotebook": tq, "tqdm.auto": tq, "warnings": warnings,
        "os": osm, "os.path": path, "nibabel": StubModule("nibabel"), "glob": StubModule("glob"),
        "importlib": importlib, "importlib.metadata": imeta, "math": _Math(),
    }


REAL_OK = {"csv", "re", "typing", "abc", "datetime", "__future__", "itertools", "functools", "collections",
           "collections.abc", "dataclasses", "enum", "operator", "numbers", "builtins", "io", "string", "contextlib",
           "copy", "types", "fractions", "warnings", "inspect", "pathlib", "textwrap"}
