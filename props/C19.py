"""C19 integration of regions of interest of sampled data and of histograms"""
import numpy as np
from skbeam.core import spectroscopy as sp
from symx.arr import simpson_list

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["scipy.integrate.simpson is the composite Simpson rule (Cartwright's correction for an even number of samples)"]


def samples(c, n, name="x", grid=None):
    """strictly increasing sample locations"""
    if grid is not None:
        return [float(g) for g in grid]
    xs = [c.real("%s%d" % (name, k), -8, 8) for k in range(n)]
    for a, b in zip(xs, xs[1:]):
        c.assume(ge(sub(b, a), 0.125))
    return xs


def off_samples(c, v, xs, on=()):
    """a limit is on the given sample or at least 1e-6 away from every sample"""
    for x in xs:
        c.assume(or_(eq(v, x), gt(v, add(x, 1e-6)), lt(v, sub(x, 1e-6))))


def first_at_least(xs, v):
    for k, x in enumerate(xs):
        if bool(ge(x, v)):
            return k
    return len(xs)


def expected(xs, ys, lo, hi):
    """Simpson integral from the first sample at or above lo to the first sample at or above hi"""
    t = 0.0
    for a, b in zip(lo, hi):
        i, j = first_at_least(xs, a), first_at_least(xs, b)
        t = add(t, simpson_list(xs[i:j + 1], ys[i:j + 1]))
    return t


GR = {"even": (0, 1, 2, 3, 4), "uneven": (-3, -1, 0, 0.5, 4), "six": (0, 1, 2, 4, 5, 7)}


@HARNESSES.each({"%s.%s" % (g, d): (g, d) for g in GR for d in ("up", "down")}, functions=["spectroscopy.integrate_ROI"], bounds="5 or 6 samples on an even or uneven grid, increasing or decreasing, any values, any region inside", quick_s=90)
def one_region(c, g, d):
    xs = [float(v) for v in GR[g]]
    n = len(xs)
    ys = [c.real("y%d" % k, -9, 9) for k in range(n)]
    lo, hi = c.real("lo", -8, 8), c.real("hi", -8, 8)
    c.assume(and_(ge(lo, xs[0]), le(hi, xs[-1]), lt(add(lo, 1e-6), hi)))
    off_samples(c, lo, xs)
    off_samples(c, hi, xs)
    X, Y = (xs, ys) if d == "up" else (xs[::-1], ys[::-1])
    form = c.choice("form", ["scalar", "array", "list"])
    X, Y = (c.array(X), c.array(Y)) if form != "list" else (X, Y)
    s = snapshot(X, Y) if form != "list" else None
    a, b = (lo, hi) if form == "scalar" else ([lo], [hi])
    r = sp.integrate_ROI(X, Y, a, b)
    if s:
        unchanged(c, s, [X, Y], "data are not changed")
    c.check(np.ndim(r) == 0, "a single number")
    c.check_eq(r, expected(xs, ys, [lo], [hi]), "integral of the samples of the region")


@HARNESSES.add(functions=["spectroscopy.integrate_ROI"], bounds="any 4 increasing locations at least 1/8 apart, any values, any region", quick_s=120)
def any_grid(c):
    xs = samples(c, 4)
    ys = [c.real("y%d" % k, -9, 9) for k in range(4)]
    lo, hi = c.real("lo", -8, 8), c.real("hi", -8, 8)
    c.assume(and_(ge(lo, xs[0]), le(hi, xs[-1]), lt(add(lo, 1e-6), hi)))
    off_samples(c, lo, xs)
    off_samples(c, hi, xs)
    r = sp.integrate_ROI(c.array(xs), c.array(ys), lo, hi)
    c.check_eq(r, expected(xs, ys, [lo], [hi]), "integral of the samples of the region", tol=1e-7)


@HARNESSES.add(functions=["spectroscopy.integrate_ROI"], bounds="5 uneven samples, any values, any two regions (disjoint, overlapping, equal, any order)", quick_s=120)
def two_regions(c):
    xs = [float(v) for v in GR["uneven"]]
    ys = [c.real("y%d" % k, -9, 9) for k in range(5)]
    lo = [c.real("lo%d" % k, -3, 4) for k in range(2)]
    hi = [c.real("hi%d" % k, -3, 4) for k in range(2)]
    for a, b in zip(lo, hi):
        c.assume(lt(add(a, 1e-6), b))
        off_samples(c, a, xs)
        off_samples(c, b, xs)
    r = sp.integrate_ROI(c.array(xs), c.array(ys), c.array(lo), c.array(hi))
    c.check_eq(r, expected(xs, ys, lo, hi), "sum of the regions, overlaps counted repeatedly")


@HARNESSES.add(functions=["spectroscopy.integrate_ROI"], bounds="any quadratic integrated between any two samples of 5 uneven ones that enclose an even number of steps: the exact integral")
def exact_quadratic(c):
    xs = [float(v) for v in GR["uneven"]]
    a = [c.real("a%d" % k, -4, 4) for k in range(3)]
    i, j = c.choice("ij", [(0, 2), (1, 3), (2, 4), (0, 4)])
    f = lambda x: add(a[0], add(mul(a[1], x), mul(a[2], x * x)))
    r = sp.integrate_ROI(np.array(xs), c.array([f(x) for x in xs]), xs[i], xs[j])
    F = lambda x: add(mul(a[0], x), add(mul(a[1], x * x / 2), mul(a[2], x**3 / 3)))
    c.check_eq(r, sub(F(xs[j]), F(xs[i])), "exact integral of a quadratic", tol=1e-8)


@HARNESSES.add(functions=["spectroscopy.integrate_ROI"], bounds="4 samples at any locations in any order, any one or two regions", quick_s=120)
def rejects(c):
    xs = [c.real("x%d" % k, -4, 4) for k in range(4)]
    ys = [1.0, 2.0, 4.0, 3.0]
    d = [sub(b, a) for a, b in zip(xs, xs[1:])]
    for q in d:
        c.assume(or_(eq(q, 0), ge(q, 0.125), le(q, -0.125)))
    m = c.choice("m", [1, 2])
    lo = [c.real("lo%d" % k, -4, 4) for k in range(m)]
    hi = [c.real("hi%d" % k, -4, 4) for k in range(m)]
    try:
        sp.integrate_ROI(c.array(xs), np.array(ys), c.array(lo), c.array(hi))
        ok = True
    except ValueError:
        ok = False
    up, dn = and_(*[gt(q, 0) for q in d]), and_(*[lt(q, 0) for q in d])
    eqs = and_(*[eq(q, 0) for q in d])  # all equal: constant, rejected or not
    mono = or_(up, dn)
    first, last = ite(up, xs[0], xs[3]), ite(up, xs[3], xs[0])
    good = and_(mono, *[and_(lt(a, b), ge(a, first), le(b, last)) for a, b in zip(lo, hi)])
    if ok:
        c.check(or_(good, eqs), "only monotonic locations and regions inside them are accepted")
    else:
        c.check(not_(good), "regions inside monotonic locations are accepted")


@HARNESSES.add(functions=["spectroscopy.integrate_ROI"], bounds="shapes that do not match, numbers of limits that do not match")
def mismatched(c):
    y = c.reals("y", 4, -9, 9)
    lo, hi = c.real("lo", 0, 4), c.real("hi", 0, 4)
    c.check(raises(c, ValueError, sp.integrate_ROI, np.arange(5.0), y, lo, hi), "x and y of different length are rejected")
    c.check(raises(c, ValueError, sp.integrate_ROI, np.arange(4.0), y, c.array([lo, 1.0]), c.array([hi])), "numbers of limits that differ are rejected")
    c.check(raises(c, ValueError, sp.integrate_ROI, np.arange(4.0), y, c.array([lo]), c.array([hi, 2.0, 3.0])), "numbers of limits that differ are rejected")


@HARNESSES.each({"even": (0, 1, 2, 3, 4, 5), "uneven": (-3, -1, 0, 1, 4, 5), "down": (5, 4, 2, 1, 0, -2)}, functions=["spectroscopy.integrate_ROI_spectrum"], bounds="5 bins, any counts, any region between the outermost bin centres", quick_s=90)
def spectrum(c, *edges):
    cs = [(a + b) / 2.0 for a, b in zip(edges, edges[1:])]
    ys = [c.real("y%d" % k, 0, 9) for k in range(5)]
    up = cs[0] < cs[-1]
    xs, yy = (cs, ys) if up else (cs[::-1], ys[::-1])
    lo, hi = c.real("lo", -8, 8), c.real("hi", -8, 8)
    c.assume(and_(ge(lo, xs[0]), le(hi, xs[-1]), lt(add(lo, 1e-6), hi)))
    off_samples(c, lo, xs)
    off_samples(c, hi, xs)
    r = sp.integrate_ROI_spectrum(np.array(edges, float), c.array(ys), lo, hi)
    c.check_eq(r, expected(xs, yy, [lo], [hi]), "the spectrum is sampled at the bin centres")


HARNESSES.each({"%s.up" % list(GR)[-1]: (list(GR)[-1], "up")}, functions=["spectroscopy.integrate_ROI"], bounds="as one_region, of any 8-bit counts", quick_s=90)(as_counts(one_region, "y"))
