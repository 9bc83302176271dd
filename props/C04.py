"""C04 reusable binned statistics"""
import itertools

import numpy as np
from skbeam.core import utils
from skbeam.core.accumulators import binned_statistic as bs

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = [
    "floats are exact reals: a point within 1e-9 of an inner computed bin edge, or less than 1e-4 above the last edge (where the code rounds), is outside the claim",
    "sqrt, arctan2 and hypot of the pixel grids are evaluated on concrete geometries",
]
STATS = ["mean", "sum", "count", "median", "std", "max"]


def bin_of(x, edges):
    n = len(edges) - 1
    return [and_(le(edges[k], x), lt(x, edges[k + 1]) if k < n - 1 else le(x, edges[k + 1])) for k in range(n)]


def clear(c, xs, edges, inner=False):
    """keep points away from where rounding decides"""
    for x in xs:
        c.assume(or_(le(x, edges[-1]), gt(x, add(edges[-1], 1e-4))))
        if inner:
            for e in edges[:-1]:
                c.assume(or_(lt(x, sub(e, 1e-9)), gt(x, add(e, 1e-9))))


def check_stat(c, stat, out, ins, ys, what):
    """out: one bin; ins: list of conditions (point in bin)"""
    if stat == "count":
        c.check_eq(out, ssum(core.to_num(i) for i in ins), "count of %s" % what)
        return
    if stat == "sum":
        c.check_eq(out, ssum(ite(i, y, 0.0) for i, y in zip(ins, ys)), "sum of %s" % what)
        return
    here = [y for i, y in zip(ins, ys) if bool(i)]
    if stat == "std":
        if not here:
            c.check(not isnan(out) and eq(out, 0), "standard deviation of an empty bin is zero")
            return
        c.check(not isnan(out), "standard deviation is a number")
        if isnan(out):
            return
        m = smean(here)
        c.check(ge(out, 0), "standard deviation is not negative")
        c.check_eq(mul(out, out), smean(mul(sub(y, m), sub(y, m)) for y in here), "standard deviation of %s" % what)
        return
    if not here:
        c.check(isnan(out), "an empty bin has no %s" % stat)
        return
    c.check(not isnan(out), "%s is a number" % stat)
    if isnan(out):
        return
    if stat == "mean":
        c.check_eq(out, smean(here), "mean of %s" % what)
    elif stat == "max":
        c.check(and_(*[ge(out, y) for y in here], or_(*[eq(out, y) for y in here])), "user statistic of %s" % what)
    else:
        n = len(here)
        # the median has no more than half of the points on either side and lies between the middle ones
        s = sorted_net(here)
        c.check_eq(out, s[n // 2] if n % 2 else div(add(s[n // 2 - 1], s[n // 2]), 2.0), "median of %s" % what)


def sorted_net(v):
    v = list(v)
    for i in range(len(v)):
        for j in range(len(v) - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = ite(le(a, b), a, b), ite(le(a, b), b, a)
    return v


def stat_arg(s):
    return np.max if s == "max" else s


def mk_mask(c, n, how):
    if how == "none":
        return None, [True] * n
    m = c.ints("m", n, 0, 1) if how == "int" else c.bools("m", n)
    if how == "list":
        l = [c.int("m%d" % k, 0, 1) for k in range(n)]
        return l, [eq(x, 1) for x in l]
    return m, [ne(x, 0) if how == "int" else core.tb(x) for x in elems(m)]


ONE = {"%s.%s.%s" % (s, e, m): (s, e, m) for s in STATS for e, m in (("edges", "none"), ("uneven", "int"), ("range", "none"), ("list", "bool")) if s != "std" or e == "uneven"}


@HARNESSES.each(ONE, functions=["BinnedStatistic1D", "BinnedStatisticDD"], bounds="4 points (3 for the mean, 2 for std, median and user statistics) anywhere in [-1,4], any values, any mask; 3 bins, statistic and kind of bins as named", quick_s=200)
def one_d(c, stat, ek, mk):
    n = {"sum": 4, "count": 4, "mean": 3}.get(stat, 2)
    n = min(n, 3) if mk != "none" else n
    x = c.reals("x", n, -1, 4)
    y = c.reals("y", n, -4, 4)
    E = {"edges": [0.0, 1.0, 2.0, 3.0], "uneven": [-0.5, 0.25, 2.0, 2.5], "range": [0.0, 1.0, 2.0, 3.0], "list": [0.0, 1.5, 2.0, 3.25]}[ek]
    mask, keep = mk_mask(c, n, mk)
    xs, ys = elems(x), elems(y)
    clear(c, xs, E)
    kw = dict(bins=3, range=(0, 3)) if ek == "range" else dict(bins=E if ek == "list" else np.array(E))
    if mask is not None:
        kw["mask"] = mask
    snap = snapshot(x, y)
    when = c.choice("given", ["at construction", "at call"])
    b = bs.BinnedStatistic1D(x, stat_arg(stat) if when == "at construction" else "sum", **kw)
    c.check_eq(elems(b.bin_edges), E, "edges")
    c.check_eq(elems(b.bin_centers), [(p + q) / 2 for p, q in zip(E, E[1:])], "centres")
    out = b(y) if when == "at construction" else b(y, stat_arg(stat))
    c.check(tuple(out.shape) == (3,), "one value per bin")
    mem = [bin_of(v, E) for v in xs]
    for k in range(3):
        check_stat(c, stat, at(out, k), [and_(q, m[k]) for q, m in zip(keep, mem)], ys, "exactly the points of the bin")
    unchanged(c, snap, [x, y], "inputs unchanged")


@HARNESSES.each({"%s.%s" % (m, w): (m, w) for m in ("none", "int") for w in ("1", "3")}, functions=["BinnedStatistic1D"], bounds="3 points (2 with a mask) anywhere in [-2,2], range at least 1/16; default range (minimum to maximum of all points); 1 or 3 bins", quick_s=200)
def default_range(c, mk, nb):
    nb = int(nb)
    n = 3 if mk == "none" else 2
    x, y = c.reals("x", n, -2, 2), c.reals("y", n, -4, 4)
    mask, keep = mk_mask(c, n, mk)
    xs, ys = elems(x), elems(y)
    lo, hi = xs[0], xs[0]
    for v in xs[1:]:
        lo, hi = ite(lt(v, lo), v, lo), ite(lt(hi, v), v, hi)
    c.assume(gt(hi, add(lo, 0.0625)))
    b = bs.BinnedStatistic1D(x, "sum", bins=nb, **({"mask": mask} if mask is not None else {}))
    E = [add(lo, mul(div(sub(hi, lo), float(nb)), float(k))) for k in range(nb)] + [hi]
    c.check_eq(elems(b.bin_edges), E, "equal bins over all points")
    for v in xs:
        for e in E[1:-1]:
            c.assume(or_(lt(v, sub(e, 1e-9)), gt(v, add(e, 1e-9))))
    mem = [bin_of(v, E) for v in xs]
    for st in ("sum", "count"):
        out = b(y, st)
        for k in range(nb):
            check_stat(c, st, at(out, k), [and_(q, m[k]) for q, m in zip(keep, mem)], ys, "exactly the points of the bin (default range)")


@HARNESSES.add(functions=["BinnedStatistic1D"], bounds="3 equal points anywhere: default range is one unit wide")
def equal_points(c):
    v = c.real("v", -8, 8)
    x, y = c.arr(np.array([v, v, v], dtype=object)), c.reals("y", 3, -4, 4)
    b = bs.BinnedStatistic1D(x, "sum", bins=1)
    c.check_eq(elems(b.bin_edges), [sub(v, 0.5), add(v, 0.5)], "a finite range around equal points")
    c.check_eq(at(b(y), 0), ssum(elems(y)), "all points are in it")


@HARNESSES.add(functions=["BinnedStatistic1D"], bounds="3 integer points in [-3,3], integer or float edges starting at -1, 0 or 2, any mask (array or list)", quick_s=120)
def integers(c):
    x = c.ints("x", 3, -3, 3)
    y = c.reals("y", 3, -4, 4)
    m = c.choice("mask", ["int", "list", "bool"])
    mask, keep = mk_mask(c, 3, m)
    s = c.choice("start", [-1, 0, 2])
    E = [s, s + 1, s + 2]
    xs, ys = elems(x), elems(y)
    snap = snapshot(x)
    b = bs.BinnedStatistic1D(x, "sum", bins=E, mask=mask)
    out = b(y)
    mem = [bin_of(v, E) for v in xs]
    for k in range(2):
        check_stat(c, "sum", at(out, k), [and_(q, w[k]) for q, w in zip(keep, mem)], ys, "exactly the unmasked integer points of the bin")
    unchanged(c, snap, [x], "integer sample unchanged")


@HARNESSES.each({st: (st,) for st in ("median", "std", "max", "mean")}, functions=["BinnedStatisticDD.__call__"], bounds="5 points in fixed, unordered positions (3 in one bin, 1 in another, 1 outside), any values", quick_s=100)
def values(c, st):
    pos = [1.5, 0.25, 1.0, 7.0, 1.75]
    y = c.reals("y", 5, -4, 4)
    E = [0.0, 1.0, 2.0, 3.0]
    out = bs.BinnedStatistic1D(c.arr(np.array(pos)), stat_arg(st), bins=E)(y)
    for k in range(3):
        check_stat(c, st, at(out, k), [bin_of(p, E)[k] for p in pos], elems(y), "exactly the points of the bin")


TWO = {"%s.%s.%s" % (s, "x".join(map(str, n)), i): (s, n, i)
       for s, n, i in (("mean", (2, 2), "lists"), ("sum", (3, 2), "lists"), ("sum", (2, 3), "array"), ("count", (1, 3), "array"), ("mean", (3, 1), "array"),
                       ("sum", (2, 1, 3), "array"), ("sum", (3, 1, 2), "array"), ("count", (1, 3, 2), "lists"), ("sum", (2, 3, 1), "array"), ("median", (2, 1), "array"))}


@HARNESSES.each(TWO, functions=["BinnedStatisticDD.__call__", "BinnedStatisticDD.binmap", "BinnedStatistic2D"], bounds="2 or 3 dimensions, numbers of bins as named; one point anywhere (in or out of range) and one fixed point, any values, any mask", quick_s=250, weight=2)
def multi_d(c, stat, nb, how):
    D, n = len(nb), 2
    X = [c.arr(np.array([c.real("x%d" % d, -1, nb[d] + 1), [1.25, 0.5, 0.75][d] % nb[d]], dtype=object if c.symbolic else float)) for d in range(D)]
    y = c.reals("y", n, -4, 4)
    mask, keep = mk_mask(c, n, "int" if how == "array" else "none")
    E = [[float(k) for k in range(nb[d] + 1)] for d in range(D)]
    for d in range(D):
        clear(c, elems(X[d]), E[d])
    if how == "array":
        sample = c.arr(np.array([[elems(X[d])[k] for d in range(D)] for k in range(n)], dtype=object if c.symbolic else float))
    else:
        sample = X
    kw = {} if mask is None else {"mask": mask}
    snap = snapshot(*([sample] if how == "array" else X))
    if D == 2 and how == "lists":
        b = bs.BinnedStatistic2D(X[0], X[1], stat, bins=nb, range=[[0, nb[0]], [0, nb[1]]], **kw)
    else:
        b = bs.BinnedStatisticDD(sample, stat, bins=[np.array(e) for e in E], **kw)
    out = b(y)
    c.check(tuple(out.shape) == tuple(nb), "one value per bin")
    mem = [[bin_of(v, E[d]) for v in elems(X[d])] for d in range(D)]
    for k in np.ndindex(*nb):
        check_stat(c, stat, at(out, *k), [and_(keep[p], *[mem[d][p][k[d]] for d in range(D)]) for p in range(n)], elems(y), "exactly the points of the cell")
    bm = b.binmap
    c.check(tuple(np.shape(bm)) == (D, n), "one bin map per dimension")
    for d in range(D):
        for p in range(n):
            v = elems(X[d])[p]
            want = ite(lt(v, 0.0), 0, nb[d] + 1)
            for k in range(nb[d]):
                want = ite(mem[d][p][k], k + 1, want)
            want = ite(keep[p], want, 0)
            c.check(eq(at(bm, d, p), want), "bin map gives the bin of every point in every dimension")
    unchanged(c, snap, [sample] if how == "array" else X, "sample unchanged")


GEO = {"default": ((2, 3), None), "corner": ((2, 3), (0.0, 0.5)), "tall": ((3, 2), (1.0, 1.25))}


@HARNESSES.each({"%s.%s" % (g, k): (g, k) for g in GEO for k in ("radial", "rmap", "rphi", "rphi_rmap")}, functions=["RadialBinnedStatistic", "RPhiBinnedStatistic"], bounds="6-pixel images of any values, any mask, three geometries, own radius map; 2 radial and 2 angular bins", quick_s=200)
def images(c, geo, kind):
    shape, origin = GEO[geo]
    img = c.reals("I", shape, -4, 4)
    use = c.choice("mask", [False, True])
    m = c.ints("m", shape, 0, 1) if use else None
    o = origin if origin is not None else ((shape[0] - 1) / 2.0, (shape[1] - 1) / 2.0)
    kw = {} if origin is None else {"origin": origin}
    if use:
        kw["mask"] = m
    rmap = None
    if kind in ("rmap", "rphi_rmap"):
        rmap = c.arr(np.array([c.real("r%d" % k, 0, 3) if k % 2 else [0.5, 0, 1.5, 0, 2.75][k] for k in range(6)], dtype=object if c.symbolic else float).reshape(shape))
        kw["r_map"] = rmap
    RE = [0.0, 0.75, 2.5]
    if rmap is not None:
        clear(c, elems(rmap), RE)
        snap = snapshot(rmap)
    PE = [-4.0, 0.25, 3.0]
    if kind in ("radial", "rmap"):
        b = bs.RadialBinnedStatistic(shape, bins=RE, statistic="sum", **kw)
        nb = (2,)
    else:
        b = bs.RPhiBinnedStatistic(shape, bins=[np.array(RE), np.array(PE)], statistic="sum", **kw)
        nb = (2, 2)
    out = b(img)
    cnt = b(img, "count")
    c.check(tuple(out.shape) == nb, "one value per bin")
    for k in np.ndindex(*nb):
        ins = []
        for p in np.ndindex(*shape):
            dy, dx = p[0] - o[0], p[1] - o[1]
            r = np.hypot(dx, dy) if rmap is None else at(rmap, *p)
            ok = bin_of(r, RE)[k[0]]
            if len(nb) == 2:
                ok = and_(ok, bin_of(float(np.arctan2(dy, dx)), PE)[k[1]])
            ins.append(and_(ok, ne(at(m, *p), 0) if use else True))
        check_stat(c, "sum", at(out, *k), ins, elems(img), "exactly the unmasked pixels in this range of radius (and angle)")
        check_stat(c, "count", at(cnt, *k), ins, elems(img), "exactly the unmasked pixels in this range of radius (and angle)")
    if rmap is not None:
        unchanged(c, snap, [rmap], "radius map unchanged")


@HARNESSES.add(functions=["RadialBinnedStatistic", "RPhiBinnedStatistic", "BinnedStatisticDD"], bounds="wrong shapes of mask and values, unknown statistics, wrong number of bins; statistics used repeatedly in any of 6 orders on one object")
def rejected(c):
    img = c.reals("I", (2, 3), -4, 4)
    for cls in (bs.RadialBinnedStatistic, bs.RPhiBinnedStatistic):
        c.check(raises(c, ValueError, cls, (2, 3), mask=np.ones((3, 2))), "mask of another shape is rejected")
        b = cls((2, 3), bins=2)
        c.check(raises(c, ValueError, b, img.reshape(3, 2) if not c.symbolic else c.reals("J", (3, 2), 0, 1)), "image of another shape is rejected")
    x = c.arr(np.array([0.0, 0.5, 1.0]))
    c.check(raises(c, ValueError, bs.BinnedStatistic1D, x, "variance"), "unknown statistic is rejected")
    c.check(raises(c, AttributeError, bs.BinnedStatisticDD, [x, x], "sum", [2, 2, 2]), "wrong number of bin specifications is rejected")


@HARNESSES.each({"%s_%s" % p: p for p in itertools.permutations(["mean", "sum", "count", "median"], 2)}, functions=["BinnedStatisticDD.__call__"], bounds="one object used for two statistics on two different value arrays, then again for the first", quick_s=120)
def reuse(c, s1, s2):
    x, y, z = c.reals("x", 3, 0, 2), c.reals("y", 3, -4, 4), c.reals("z", 3, -4, 4)
    E = [0.0, 1.0, 2.0]
    b = bs.BinnedStatistic1D(x, bins=E)
    mem = [bin_of(v, E) for v in elems(x)]
    for st, v in ((s1, y), (s2, z), (s1, z)):
        out = b(v, st)
        for k in range(2):
            check_stat(c, st, at(out, k), [m[k] for m in mem], elems(v), "exactly the points of the bin (object used before)")


HARNESSES.each({"%s.uneven.int" % s: (s, "uneven", "int") for s in STATS if s != "std"} | {"sum.range": ("sum", "range", "none")}, functions=["BinnedStatistic1D", "BinnedStatisticDD"], bounds="as one_d, the values are any 8-bit counts", quick_s=200)(as_counts(one_d, "y"))
HARNESSES.each({"radial": ("corner", "radial"), "rphi": ("corner", "rphi")}, functions=["RadialBinnedStatistic", "RPhiBinnedStatistic"], bounds="as images, of any 8-bit counts", quick_s=200)(as_counts(images, "I"))


@HARNESSES.add(functions=["BinnedStatisticDD.__call__"], bounds="std of any 8-bit counts at fixed positions, 3 and 1 points in the bins", quick_s=60)
def std_counts(c):
    y = c.ints("y", 4, 0, 255, dtype=np.uint8)
    v = elems(y)
    out = bs.BinnedStatistic1D(np.array([0.25, 0.5, 1.5, 0.75]), "std", [0.0, 1.0, 2.0])(y)
    for k, px in enumerate(((0, 1, 3), (2,))):
        check_stat(c, "std", at(out, k), [i in px for i in range(4)], v, "the standard deviation of the counts of the bin")
