"""C11 one-dimensional profiles are exact bin statistics"""
import numpy as np
from skbeam.core import roi, stats, utils

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["numpy.histogram and scipy.stats.binned_statistic bin as documented (half-open bins, last bin closed; contract stubs)"]


def bin_of(x, edges):
    """list of conditions 'x is in bin k'"""
    n = len(edges) - 1
    return [and_(le(edges[k], x), lt(x, edges[k + 1]) if k < n - 1 else le(x, edges[k + 1])) for k in range(n)]


def uniform(lo, hi, n):
    return [add(lo, mul(div(sub(hi, lo), float(n)), float(k))) for k in range(n)] + [hi]


def extrema(c, xs):
    lo, hi = xs[0], xs[0]
    for x in xs[1:]:
        lo, hi = ite(lt(x, lo), x, lo), ite(lt(hi, x), x, hi)
    return lo, hi


def rng(c, mode, xs):
    """(lo, hi, kwargs)"""
    kw = {}
    lo, hi = extrema(c, xs)
    if mode in ("both", "min"):
        lo = kw["min_x"] = c.real("min_x", -4, 4)
    if mode in ("both", "max"):
        hi = kw["max_x"] = c.real("max_x", -4, 4)
    c.assume(lt(add(lo, 0.0625), hi))
    return lo, hi, kw


NX = {"%d.%s.n%d" % (n, m, k): (n, m, k) for n in (1, 2, 3) for m in ("none", "both", "min", "max") for k in (3,)}
NX["2.none.n4"] = (2, "none", 4)
NX["4.both.n2"] = (4, "both", 2)


@HARNESSES.each(NX, functions=["utils.bin_1D"], bounds="nbins.range-mode.points: any positions and values; explicit or default range", quick_s=200)
def bin_1D(c, nx, mode, n):
    x, y = c.reals("x", n, -4, 4), c.reals("y", n, -4, 4)
    xs, ys = elems(x), elems(y)
    lo, hi, kw = rng(c, mode, xs)
    snap = snapshot(x, y)
    e, val, cnt = utils.bin_1D(x, y, nx=nx, **kw)
    E = uniform(lo, hi, nx)
    c.check_eq(elems(e), E, "equal bins from minimum to maximum")
    # points within rounding distance of an inner edge are not asserted
    for q in xs:
        for t in E[1:-1]:
            c.assume(or_(lt(q, sub(t, 1e-9)), gt(q, add(t, 1e-9))))
    mem = [bin_of(q, E) for q in xs]
    c.check(tuple(val.shape) == (nx,) and tuple(cnt.shape) == (nx,), "one sum and one count per bin")
    for k in range(nx):
        c.check_eq(val[k], ssum([ite(m[k], y_, 0.0) for m, y_ in zip(mem, ys)]), "sum of the values in the bin")
        c.check_eq(cnt[k], ssum([ite(m[k], 1, 0) for m in mem]), "number of points in the bin", exact=True)
    unchanged(c, snap, [x, y], "inputs unchanged")


@HARNESSES.add(functions=["utils.bin_1D"], bounds="3 points, range an integer 1..4 wide, number of bins left out")
def bin_1D_default_bins(c):
    w = c.choice("w", [1, 2, 4])
    lo = c.choice("lo", [0, -1, 1, 3])
    x, y = c.reals("x", 3, -1, 6), c.reals("y", 3, -4, 4)
    e, val, cnt = utils.bin_1D(x, y, min_x=lo, max_x=lo + w)
    c.check_eq(elems(e), [float(k) for k in range(lo, lo + w + 1)], "unit-width bins by default")
    mem = [bin_of(q, list(range(lo, lo + w + 1))) for q in elems(x)]
    for k in range(w):
        c.check_eq(val[k], ssum([ite(m[k], y_, 0.0) for m, y_ in zip(mem, elems(y))]), "sum")
        c.check_eq(cnt[k], ssum([ite(m[k], 1, 0) for m in mem]), "count", exact=True)


def spec_stat(stat, l):
    if stat == "count":
        return float(len(l))
    if stat == "sum":
        return ssum(l) if l else 0.0
    if not l:
        return NAN
    if stat == "mean":
        return smean(l)
    if stat == "max":
        r = l[0]
        for v in l[1:]:
            r = maximum(r, v)
        return r
    if stat == "std":
        m = smean(l)
        return core.sqrt(smean([mul(sub(v, m), sub(v, m)) for v in l]))


def avoid(c, xs, E):
    for q in xs:
        for t in E:
            c.assume(or_(lt(q, sub(t, 1e-9)), gt(q, add(t, 1e-9))))


@HARNESSES.each({"%s.%s" % (s, m): (s, m) for s in ("default", "sum", "count", "max") for m in ("none", "both", "min", "max")},
                functions=["stats.statistics_1D"], bounds="3 points, 2 bins, statistic and range mode as named", quick_s=200)
def statistics_1D(c, stat, mode):
    x, y = c.reals("x", 3, -4, 4), c.reals("y", 3, -4, 4)
    xs, ys = elems(x), elems(y)
    lo, hi, kw = rng(c, mode, xs)
    E = uniform(lo, hi, 2)
    avoid(c, xs, E[1:-1])
    if stat != "default":
        kw["stat"] = stat
    e, val = stats.statistics_1D(x, y, nx=2, **kw)
    c.check_eq(elems(e), E, "equal bins from minimum to maximum")
    for k in range(2):
        l = [y_ for q, y_ in zip(xs, ys) if bool(bin_of(q, E)[k])]
        c.check_eq(val[k], spec_stat("mean" if stat == "default" else stat, l), "statistic of the values in the bin")


@HARNESSES.add(functions=["stats.statistics_1D"], bounds="number of bins left out")
def statistics_1D_default_bins(c):
    x, y = c.arr(np.array([0.0, 1.0, 1.0])), c.reals("y", 3, 0, 1)
    e, val = stats.statistics_1D(x, y)
    c.check(e.shape[0] == utils._defaults["bins"] + 1 and val.shape[0] == utils._defaults["bins"], "default number of bins")
    c.check_eq(val[val.shape[0] - 1], div(add(at(y, 1), at(y, 2)), 2.0), "last bin is closed")


@HARNESSES.each({"%s.%s" % (s, m): (s, m) for s in ("default", "sum", "max") for m in ("all", "mask")}, functions=["utils.bin_grid", "utils.bin_edges_to_centers"],
                bounds="2x2 image, any radii, values, mask; 3 increasing bin edges", quick_s=200)
def bin_grid(c, stat, how):
    img, r = c.reals("I", (2, 2), -4, 4), c.reals("r", (2, 2), 0, 4)
    E = [c.real("b%d" % k, 0, 4) for k in range(3)]
    c.assume(and_(lt(E[0], E[1]), lt(E[1], E[2])))
    kw = {}
    mask = [True] * 4
    if how == "mask":
        m = c.bools("m", (2, 2), fork=True)
        mask = [bool(v) for v in elems(m)]
        c.assume(any(mask))
        kw["mask"] = m
    if stat != "default":
        kw["statistic"] = stat
    snap = snapshot(img, r)
    cen, val = utils.bin_grid(img, r, (1.0, 1.0), bins=E, **kw)
    c.check_eq(elems(cen), [div(add(E[0], E[1]), 2.0), div(add(E[1], E[2]), 2.0)], "bin centres")
    for k in range(2):
        l = [v for v, q, mm in zip(elems(img), elems(r), mask) if mm and bool(bin_of(q, E)[k])]
        c.check_eq(val[k], spec_stat("mean" if stat == "default" else stat, l), "statistic of the unmasked pixels in the bin")
    unchanged(c, snap, [img, r], "inputs unchanged")


@HARNESSES.add(functions=["utils.bin_grid"], bounds="1x3 image, radii in [0,3], pixels 0.6 x 0.8 (resolution 1), default bins", quick_s=200)
def bin_grid_default_bins(c):
    img, r = c.reals("I", (1, 3), -4, 4), c.reals("r", (1, 3), 0, 2)
    rs, vs = elems(r), elems(img)
    lo, hi = extrema(c, rs)
    cen, val = utils.bin_grid(img, r, (0.6, 0.8))
    cs = elems(cen)
    for k in range(len(cs)):
        c.check_eq(cs[k], add(lo, float(k)), "bins one pixel diagonal wide, first centred on the smallest radius", tol=1e-9)
    c.check(and_(le(sub(hi, 0.500001), cs[-1]), le(cs[-1], add(hi, 0.500001))), "the bins end with the one holding the largest radius")
    E = [sub(q, 0.5) for q in cs] + [add(cs[-1], 0.5)]
    avoid(c, rs, E)
    for k in range(len(cs)):
        l = [v for v, q in zip(vs, rs) if bool(bin_of(q, E)[k])]
        c.check_eq(val[k], spec_stat("mean", l), "mean of the pixels in the bin")


GEO = {"centred": ((0.0, 1.0), (1, 1)), "aniso": ((1.0, 0.0), (2.0, 0.5)), "sub": ((0.25, -0.5), (1, 1))}


@HARNESSES.each({"%s.%s.%s" % (g, m, t): (g, m, t) for g in GEO for m in ("all", "mask") for t in ("0", "1", "range")}, functions=["roi.circular_average", "utils.bin_1D", "utils.radial_grid", "utils.bin_edges_to_centers"],
                bounds="2x3 image of any values, three geometries, any mask, occupancy threshold 0 or 1, default or symbolic radius range, 3 bins", quick_s=250)
def circular_average(c, geo, how, thr):
    center, px = GEO[geo]
    img = c.reals("I", (2, 3), -4, 4)
    R = [float(np.sqrt((px[0] * (i - center[0])) ** 2 + (px[1] * (j - center[1])) ** 2)) for i in range(2) for j in range(3)]
    kw = {} if px == (1, 1) else {"pixel_size": px}
    mask = [True] * 6
    if how == "mask":
        if thr == "range":
            m = c.arr(np.array([[1, 0, 1], [1, 1, 0]]))
        else:
            m = c.ints("m", (2, 3), 0, 1)
        mask = [bool(eq(v, 1)) for v in elems(m)]
        kw["mask"] = m
    used = sorted({R[i] for i in range(6) if mask[i]})
    c.assume(len(used) >= 2)
    lo, hi = used[0], used[-1]
    if thr == "range":
        lo = kw["min_x"] = c.real("min_x", 0, 1)
        hi = kw["max_x"] = c.real("max_x", 1.5, 4)
    t = 1 if thr == "1" else 0
    if t:
        kw["threshold"] = t
    E = uniform(lo, hi, 3)
    for q in used:
        for k, b in enumerate(E):
            if thr == "range" or k in (1, 2):
                c.assume(or_(lt(q, sub(b, 1e-9)), gt(q, add(b, 1e-9))))
    cen, avg = roi.circular_average(img, center, nx=3, **kw)
    want_c, want_a = [], []
    for k in range(3):
        l = []
        for i, v in enumerate(elems(img)):
            q = R[i]
            if thr != "range":
                q = min(max(q, lo), hi) if abs(q - lo) < 1e-12 or abs(q - hi) < 1e-12 else q
            if mask[i] and bool(bin_of(q, E)[k]):
                l.append(v)
        if len(l) > t:
            want_a.append(smean(l))
            want_c.append(div(add(E[k], E[k + 1]), 2.0))
    c.check_eq(elems(cen), want_c, "centres of the bins holding more pixels than the threshold")
    c.check_eq(elems(avg), want_a, "mean of the unmasked pixels of each ring")


HARNESSES.each({"3.both": (3, "both", 3)}, functions=["utils.bin_1D"], bounds="as bin_1D, the values are any 8-bit counts", quick_s=200)(as_counts(bin_1D, "y"))
HARNESSES.each({"aniso.mask": ("aniso", "mask", "0"), "sub.range": ("sub", "all", "range")}, functions=["roi.circular_average", "utils.bin_1D"], bounds="as circular_average, of any 8-bit counts", quick_s=250)(as_counts(circular_average, "I"))
HARNESSES.each({"default": ("default", "mask"), "sum": ("sum", "all")}, functions=["utils.bin_grid"], bounds="as bin_grid, of any 8-bit counts", quick_s=200)(as_counts(bin_grid, "I"))
