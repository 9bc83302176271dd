"""C03 N-dimensional histogram accumulator (Cython)"""
import math
import os
import sys

import numpy as np
import skbeam.core.accumulators

from symx import cbuild, pyx

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = [
    "the Cython file is parsed by Cython's own parser and translated to Python with explicit C conversions, pointers, typed buffers and division; C integers do not overflow within the bounds",
    "floats are exact reals; in the harness `rounding` every division may be off by one rounding error in either direction",
]
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "skbeam", "core", "accumulators", "histogram.pyx")
NAME = "skbeam.core.accumulators.histogram"
_err = None
try:
    SYM = pyx.load(SRC, NAME, "skbeam.core.accumulators")
    sys.modules[NAME + "_translated"] = SYM
except core.Unsupported as e:
    SYM, _err = None, e
FUN = ["histogram.pyx:Histogram.fill", "histogram.pyx:_fill1d", "histogram.pyx:_fill2d", "histogram.pyx:_fillnd", "histogram.pyx:find_indices"]


def PREPARE():
    cbuild.real_pyx(SRC, "histogram", "skbeam.core.accumulators")


def histogram(c, noise=False):
    if not c.symbolic:
        return cbuild.real_pyx(SRC, "histogram", "skbeam.core.accumulators").Histogram
    if SYM is None:
        raise core.Unsupported(str(_err))
    SYM.CSEM.noise = noise
    return SYM.Histogram


def cells(c, v, axes):
    """conditions (v in bin k) per axis"""
    out = []
    for x, (n, lo, hi) in zip(v, axes):
        w = (hi - lo) / n
        out.append([and_(ge(x, lo + k * w), lt(x, lo + (k + 1) * w if k < n - 1 else hi)) for k in range(n)])
    return out


def expected(c, pts, ws, axes):
    shape = tuple(a[0] for a in axes)
    mem = [cells(c, p, axes) for p in pts]
    return [ssum(ite(and_(*[m[d][k[d]] for d in range(len(shape))]), w, 0.0) for m, w in zip(mem, ws)) for k in np.ndindex(*shape)]


def verify(c, h, pts, ws, axes, what):
    v = h.values
    c.check(tuple(v.shape) == tuple(a[0] for a in axes), "one cell per bin")
    c.check_eq(elems(v), expected(c, pts, ws, axes), what)


def coords(c, kind, n, axes):
    """(arguments, points)"""
    cols = []
    for d, (nb, lo, hi) in enumerate(axes):
        k = kind if isinstance(kind, str) else kind[d]
        span = hi - lo
        if k in ("float", "list", "tuple", "strided", "float32"):
            a = [c.real("x%d_%d" % (d, j), lo - span / 2, hi + span / 2) for j in range(n)]
            if k == "float32":
                a = [c.choice("x%d_%d" % (d, j), [lo - 0.5, lo, lo + span / 4, hi - 0.25, hi]) for j in range(n)]
        else:
            lo2 = math.floor(lo - 2) if not k.startswith("uint") else max(0, math.floor(lo - 2))
            a = [c.int("x%d_%d" % (d, j), lo2, math.ceil(hi + 2)) for j in range(n)]
        cols.append((k, a))
    args = []
    for k, a in cols:
        if k == "list":
            args.append(list(a))
        elif k == "tuple":
            args.append(tuple(a))
        elif k == "strided":
            full = [q for x in a for q in (x, 0.25)]
            arr = c.arr(np.array(full, dtype=object if c.symbolic else float))
            args.append(arr[::2])
        elif k == "float32":
            args.append(c.arr(np.array(a, dtype=np.float32)))
        elif k == "float":
            args.append(c.arr(np.array(a, dtype=object if c.symbolic else float)))
        else:
            dt = np.dtype("int64" if k == "int" else k)
            if c.symbolic:
                args.append(c.arr(np.array(a, dtype=object)).astype(dt))
            else:
                args.append(np.array(a, dtype=dt))
    return args, [[col[1][j] for col in cols] for j in range(n)]


def weights(c, kind, n):
    if kind == "none":
        return {}, [1] * n
    if kind == "scalar":
        w = c.real("w", -4, 4)
        return {"weights": w}, [w] * n
    if kind == "int":
        w = c.ints("w", n, -4, 4)
        return {"weights": w}, elems(w)
    if kind == "list":
        w = [c.real("w%d" % j, -4, 4) for j in range(n)]
        return {"weights": w}, w
    w = c.reals("w", n, -4, 4)
    return {"weights": w}, elems(w)


AX = {1: [(3, 0.0, 3.0)], 2: [(2, 0.0, 2.0), (3, -1.5, 1.5)], 3: [(2, 0.0, 2.0), (1, -1.0, 3.0), (3, -1.5, 1.5)]}
CASES = {}
for d, n, k, w in ((1, 3, "float", "none"), (1, 3, "float", "real"), (1, 2, "list", "scalar"), (1, 2, "tuple", "list"), (1, 3, "int", "int"), (1, 2, "strided", "real"),
                   (1, 2, "int32", "real"), (1, 2, "uint8", "none"), (1, 2, "uint16", "real"), (1, 2, "int8", "none"), (1, 2, "float32", "real"),
                   (2, 2, "float", "real"), (2, 2, "int", "none"), (2, 1, "list", "scalar"), (2, 2, "strided", "real"), (2, 2, "uint32", "int"),
                   (3, 1, "float", "real"), (3, 1, "int", "real"), (3, 2, "strided", "real"), (3, 1, "list", "none"), (3, 1, ("int", "float", "float"), "real"),
                   (3, 1, ("float", "int", "float"), "real"), (3, 1, ("float", "float", "int"), "scalar"), (3, 1, ("float", "int", "int"), "real"), (3, 1, ("int", "float", "int"), "none")):
    CASES["%dd.%s.%s" % (d, k if isinstance(k, str) else "_".join(k), w)] = (d, n, k, w)


@HARNESSES.each(CASES, functions=FUN, bounds="1, 2 or 3 dimensions with 1-3 bins each; up to 3 points anywhere in and out of range; kinds of coordinates and weights as named", quick_s=250)
def fill(c, d, n, kind, wk):
    H = histogram(c)
    axes = AX[d]
    args, pts = coords(c, kind, n if d < 3 or kind != "strided" else 1, axes)
    if d == 3 and kind == "strided":
        n = 1
    kw, ws = weights(c, wk, n)
    h = H(*axes)
    h.fill(*args, **kw)
    verify(c, h, pts, ws, axes, "every cell holds the weights of exactly its points")


@HARNESSES.each({"%dd" % d: (d,) for d in (2, 3)}, functions=FUN, bounds="two points per axis pattern: one symbolic along one axis at a time, strided input of length 2 with gaps", quick_s=120)
def strided_pair(c, d):
    H = histogram(c)
    axes = AX[d]
    ax = c.choice("axis", list(range(d)))
    n = 2
    args, cols = [], []
    for k, (nb, lo, hi) in enumerate(axes):
        a = [c.real("x%d" % j, lo - 1, hi + 1) for j in range(n)] if k == ax else [lo + 0.25, hi - 0.25]
        full = [a[0], hi + 5.0, a[1], lo + 0.25]
        args.append(c.arr(np.array(full, dtype=object if c.symbolic else float))[::2])
        cols.append(a)
    h = H(*axes)
    h.fill(*args)
    verify(c, h, [[col[j] for col in cols] for j in range(n)], [1, 1], axes, "strided coordinates are read element by element")


@HARNESSES.each({"%dd" % d: (d,) for d in (1, 2, 3)}, functions=FUN + ["histogram.pyx:reset"], bounds="two fills of one point each, then reset, then a third; any points and weights", quick_s=150)
def history(c, d):
    H = histogram(c)
    axes = AX[d] if d < 3 else [(2, 0.0, 2.0), (1, 0.0, 1.0), (2, 0.0, 4.0)]
    h = H(*axes)
    all_p, all_w = [], []
    for t in range(3):
        p = [c.real("p%d_%d" % (t, k), a[1] - 1, a[2] + 1) if k == t % d else (a[1] + a[2]) / 2 for k, a in enumerate(axes)]
        w = c.real("w%d" % t, -4, 4)
        h.fill(*[c.arr(np.array([x], dtype=object if c.symbolic else float)) for x in p], weights=w)
        all_p.append(p)
        all_w.append(w)
        verify(c, h, all_p, all_w, axes, "fills add up")
        if t == 1:
            h.reset()
            all_p, all_w = [], []
            verify(c, h, [], [], axes, "reset empties the histogram")


ROUND = {"%d.%g.%g" % a: a for a in ((3, 0.0, 1.0), (1, -0.1, 0.1), (5, 0.0, 7.0), (4, 1.0, 3.0))}


@HARNESSES.each({"%s.%dd" % (k, d): (a, d) for k, a in ROUND.items() for d in (1, 2, 3)}, functions=FUN, bounds="one point anywhere in range, down to the last float below the upper limit; the division may round either way", quick_s=150)
def rounding(c, ax, d):
    H = histogram(c, noise=True)
    nb, lo, hi = ax
    pos = c.choice("axis", list(range(d)))
    axes = [ax if k == pos else (2, 0.0, 2.0) for k in range(d)]
    last = c.choice("point", ["any", "just below the limit", "lower limit"])
    x = {"just below the limit": math.nextafter(hi, -math.inf), "lower limit": lo}.get(last)
    if x is None:
        x = c.real("x", lo, hi)
        c.assume(lt(x, hi))
    h = H(*axes)
    try:
        h.fill(*[c.arr(np.array([x if k == pos else 0.5], dtype=object if c.symbolic else float)) for k in range(d)])
    except IndexError:
        c.check(False, "positions in range are accepted")
        return
    w = (hi - lo) / nb
    vals = elems(h.values)
    c.check_eq(ssum(vals), 1, "every position in range is counted exactly once")
    for idx, v in zip(np.ndindex(*[a[0] for a in axes]), vals):
        k = idx[pos]
        near = and_(ge(x, lo + k * w - 1e-9), le(x, lo + (k + 1) * w + 1e-9), all(q == 0 for i, q in enumerate(idx) if i != pos))
        c.check(or_(eq(v, 0), near), "in a cell that contains it")


@HARNESSES.add(functions=["histogram.pyx:Histogram.__init__", "histogram.pyx:edges", "histogram.pyx:centers"], bounds="2 axes with 1-4 bins, any limits in [-8,8]")
def geometry(c):
    H = histogram(c)
    axes = []
    for k in range(2):
        lo, hi = c.real("lo%d" % k, -8, 8), c.real("hi%d" % k, -8, 8)
        c.assume(lt(lo, hi))
        axes.append((c.choice("n%d" % k, [1, 3, 4]), lo, hi))
    h = H(*axes)
    c.check(len(h.edges) == 2 and len(h.centers) == 2, "per dimension")
    for (n, lo, hi), e, m in zip(axes, h.edges, h.centers):
        E = [add(lo, mul(div(sub(hi, lo), float(n)), float(k))) for k in range(n)] + [hi]
        c.check_eq(elems(e), E, "edges divide the range equally")
        c.check_eq(elems(m), [div(add(a, b), 2.0) for a, b in zip(E, E[1:])], "centres are midpoints")
    c.check(tuple(h.values.shape) == tuple(a[0] for a in axes), "one cell per bin")
    c.check_eq(elems(h.values), [0] * (axes[0][0] * axes[1][0]), "starts empty")


@HARNESSES.add(functions=["histogram.pyx:Histogram.fill", "histogram.pyx:Histogram.__init__"], bounds="wrong number of coordinates, coordinates or weights of different lengths, too many dimensions, unsupported types")
def rejected(c):
    H = histogram(c)
    a = lambda *x: c.arr(np.array(x, dtype=float))
    h = H((2, 0.0, 2.0), (2, 0.0, 2.0))
    w = c.real("w", 0, 1)
    for args, kw in (((a(1.0),), {}), ((a(1.0), a(1.0), a(1.0)), {}), ((a(1.0, 2.0), a(1.0)), {}), ((a(1.0, 2.0, 0.0), a(1.0, 0.0, 0.0)), {"weights": [w, w]})):
        c.check(raises(c, ValueError, h.fill, *args, **kw), "inconsistent arguments are rejected")
    c.check_eq(elems(h.values), [0] * 4, "nothing was counted")
    c.check(raises(c, ValueError, H, *[(1, 0.0, 1.0)] * 11), "more dimensions than supported are rejected")
    H(*[(1, 0.0, 1.0)] * 10)
    h3 = H((2, 0.0, 2.0), (2, 0.0, 2.0), (2, 0.0, 2.0))
    c.check(raises(c, TypeError, h3.fill, a(1.0), a(1.0), c.arr(np.array([1.0], dtype=np.float32))), "unsupported types are rejected")


@HARNESSES.add(functions=FUN, bounds="python scalars, int and float, 1-3 dimensions", quick_s=120)
def scalars(c):
    H = histogram(c)
    d = c.choice("d", [1, 2, 3])
    axes = AX[d]
    kind = c.choice("kind", ["int", "float"])
    p = [c.int("x%d" % k, -3, 4) if kind == "int" else c.real("x%d" % k, -3, 4) for k in range(d)]
    h = H(*axes)
    h.fill(*p, weights=2)
    verify(c, h, [p], [2], axes, "scalars are counted")
