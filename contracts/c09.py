"""C09: GSM equals its definition for every data type."""

import numpy as RN
import z3

from vc import arr as A
from vc import libs
from vc import npmod as N
from vc.contract import Suite
from vc.core import IDX, as_real, simp, to_z3

S = Suite("C09")
S.assumptions = ["scipy.ndimage.correlate is uninterpreted (equal inputs and kernels give equal responses)",
                 "one kernel has strictly the largest mean response magnitude per image (ties may be broken either way)"]
GSM = "viqa.fr_metrics.gsm:GSM"
GS = "viqa.fr_metrics.gsm:gradient_similarity"

_line = RN.array([1, 3, 8, 3, 1])
K2 = [RN.array([[0, -w, 0, w, 0] for w in _line])]                       # columns
K2.append(K2[0].T)                                                        # rows
_diag = RN.array([[0, 0, -1, 0, 0], [0, -8, -3, 0, 0], [-1, -3, 0, 3, 1], [0, 0, 3, 8, 0], [0, 0, 1, 0, 0]])
K2 += [_diag[:, ::-1] * 1, _diag]                                         # the two diagonals
K2[2] = RN.array([[0, 0, -1, 0, 0], [0, 0, -3, -8, 0], [1, 3, 0, -3, -1], [0, 8, 3, 0, 0], [0, 0, 1, 0, 0]])


def _vol(f):
    out = RN.zeros((5, 5, 5), dtype=int)
    for i in RN.ndindex(5, 5, 5):
        out[i] = f(*(x - 2 for x in i))
    return out


_W = {0: 8, 1: 3, 2: 1}
_z = _vol(lambda x, y, z: z * _W.get(abs(x) + abs(y), 0) if abs(z) == 1 else 0)
_yz = RN.zeros((5, 5, 5), dtype=int)
for _x, _pl in zip(range(5), ("out", "mid", "in", "mid", "out")):
    if _pl == "in":
        _yz[_x] = _diag
    elif _pl == "mid":
        _yz[_x] = [[0, 0, 0, 0, 0], [0, -3, -1, 0, 0], [0, -1, 0, 1, 0], [0, 0, 1, 3, 0], [0, 0, 0, 0, 0]]
    else:
        _yz[_x, 1, 1], _yz[_x, 3, 3] = -1, 1
_q = RN.zeros((5, 5, 5), dtype=int)
for _x in (0, 4):
    for (_a, _b), _v in {(0, 1): -1, (1, 0): 1, (1, 3): -1, (3, 1): 1, (3, 4): -1, (4, 3): 1}.items():
        _q[_x, _a, _b] = _v
for _x in (1, 3):
    for (_a, _b), _v in {(1, 2): -3, (2, 1): 3, (2, 3): -3, (3, 2): 3}.items():
        _q[_x, _a, _b] = _v
for (_a, _b), _v in {(0, 2): -1, (1, 3): -8, (2, 0): 1, (2, 4): -1, (3, 1): 8, (4, 2): 1}.items():
    _q[2, _a, _b] = _v
_r = RN.rot90
K3 = [_r(_z, 1, (2, 0)), _r(_z, 1, (2, 1)), _z, _r(_yz, 1, (2, 0)), _r(_yz, 1, (0, 2)), _yz, _r(_yz, 1, (2, 1)),
      _r(_yz, 1, (1, 0)), _r(_yz, 1, (0, 1)), _q, _r(_q, 1, (1, 2)), _r(_q, 1, (0, 1)), _r(_q, 1, (0, 2))]


def responses(a, kernels):
    x = A.new_array(a._sh, A.as_dtype("float64"), as_real(a.content()))
    return [libs.correlate(x, N.array(w.tolist())) for w in kernels]


def mag(g):
    c = g.content()
    return A.new_array(g._sh, A.as_dtype("float64"), z3.If(c >= 0, c, -c))


def strongest(k, gs, i):
    """Assume that response i has the largest mean magnitude."""
    means = [to_z3(N.mean(mag(g))) for g in gs]
    for j, v in enumerate(means):
        if j != i:
            k.assume(means[i] > v)
    return means[i]


def pair(k, nd, dt):
    sh = tuple(k.int(f"n{d}", 1) for d in range(nd))
    if nd == 3:
        k.assume(sh[2] != 3)
    return k.arr("r", shape=sh, dtype=dt), k.arr("m", shape=sh, dtype=dt)


def definition(k, r, m, kernels, i, j, dr, c, p):
    gr, gm = responses(r, kernels), responses(m, kernels)
    mr, mm = strongest(k, gr, i), strongest(k, gm, j)
    gr, gm = gr[i], gm[j]
    pr, pm = to_z3(N.amax(mag(gr))), to_z3(N.amax(mag(gm)))
    big = z3.If(pm > pr, pm, pr)
    k.assume(big > 0)
    R = lambda v: as_real(to_z3(v))  # noqa: E731
    K = R(c) / big
    first = k.choose([0, 1])
    k.assume(mr >= mm if first else mm > mr)
    st = (gr if first else gm).content()
    d = gr.content() - gm.content()
    q = z3.If(d >= 0, d, -d) / st
    g = (2 * (1 - q) + K) / (1 + (1 - q) * (1 - q) + K)
    e = (as_real(r.content()) - as_real(m.content())) / R(dr)
    lum = 1 - e * e
    W = R(p) * g
    val = (1 - W) * g + W * lum
    sel = st != 0
    tot = N.sum_term(r._sh, z3.If(sel, val, 0))
    cnt = N.sum_term(r._sh, z3.If(sel, z3.IntVal(1), z3.IntVal(0)), True)
    k.assume(cnt > 0)
    return tot / as_real(cnt)


def settings(k, what):
    if what == "default":
        return {}, 200, 0.1
    c, p = k.real("c"), k.real("p", 0)
    k.assume(c > 0)
    return dict(c=c, p=p), c, p


@S.contract("2D definition", [GSM + ".score", GS], reach=("end",), timeout=300,
            cases=[(i, j, dt, s) for i in range(4) for j in range(4) for dt, s in
                   (("uint8", "default"), ("float32", "free"), ("int16", "free")) if dt == "uint8" or (dt == "float32" and (i + j) % 2 == 0) or i == j])
def two_d(k, i, j, dt, what):
    r, m = pair(k, 2, dt)
    dr = k.choose([255, "real"])
    if dr == "real":
        dr = k.real("range")
        k.assume(dr > 0)
    kw, c, p = settings(k, what)
    e = definition(k, r, m, K2, i, j, dr, c, p)
    met = k.call(GSM, data_range=dr).value
    got = k.returns(k.call(met.score, r, m, **kw), "returns")
    k.eq("definition", got, e)
    k.unchanged("frame", r)
    k.unchanged("frame", m)
    k.reach("end")


@S.contract("3D definition", [GSM + ".score", "viqa.fr_metrics.gsm:gradient_similarity_3d", GS], reach=("end",), timeout=300,
            cases=[(i, j, dt) for i in range(13) for j in range(13) for dt in ("uint16", "float64") if j == (i if dt == "uint16" else (i * 5 + 3) % 13) and (dt == "uint16" or i % 4 == 0)])
def three_d(k, i, j, dt):
    r, m = pair(k, 3, dt)
    c, p = k.real("c"), k.real("p", 0)
    k.assume(c > 0)
    e = definition(k, r, m, K3, i, j, 255, c, p)
    met = k.call(GSM, data_range=255).value
    got = k.returns(k.call(met.score, r, m, dim=i % 3, experimental=True, c=c, p=p), "returns")
    k.eq("definition", got, e)
    k.reach("end")


@S.contract("identical images", [GSM + ".score", GS], reach=("end",), timeout=300,
            cases=[(nd, dt, i) for nd in (2, 3) for i in range(4 if nd == 2 else 13) for dt in (("uint8", "float32") if nd == 2 else ("uint16",))])
def identical(k, nd, dt, i):
    r, _ = pair(k, nd, dt)
    kernels = K2 if nd == 2 else K3
    gs = responses(r, kernels)
    strongest(k, gs, i)
    k.assume(to_z3(N.amax(mag(gs[i]))) > 0)  # some gradient is not zero; equivalently:
    k.assume(N.sum_term(r._sh, z3.If(gs[i].content() != 0, z3.IntVal(1), z3.IntVal(0)), True) > 0)
    kw, c, p = settings(k, "free")
    met = k.call(GSM, data_range=255).value
    if nd == 3:
        kw.update(dim=0, experimental=True)
    got = k.returns(k.call(met.score, r, r.copy(), **kw), "returns")
    k.eq("identical images score 1", got, 1)
    k.reach("end")


TYPES = ["uint8", "int8", "uint16", "int16", "int32", "uint32", "int64", "float32", "float64"]


@S.contract("type independence", [GSM + ".score", GS], reach=("end",), timeout=300, cases=[(dt,) for dt in TYPES if dt != "float64"])
def type_indep(k, dt):
    sh = (k.int("n0", 1), k.int("n1", 1))
    r, m = k.arr("r", shape=sh, dtype=dt), k.arr("m", shape=sh, dtype=dt)
    rf, mf = (A.new_array(sh, A.as_dtype("float64"), as_real(x.content())) for x in (r, m))
    for a in (r, m):
        strongest(k, responses(a, K2), k.choose([0, 3]))
    met = k.call(GSM, data_range=255).value
    a = k.returns(k.call(met.score, r, m), "returns")
    b = k.returns(k.call(met.score, rf, mf), "returns")
    k.eq("same score as for float64 storage", a, b)
    k.reach("end")
