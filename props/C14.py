"""C14 bin edges, lag and time series"""
import numpy as np
from skbeam.core import utils

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = []


@HARNESSES.each({"%s" % n: (n,) for n in (1, 2, 3, 5)}, functions=["utils.bin_edges"], bounds="number of bins as named; any minimum and maximum in [-8,8]")
def min_max_n(c, n):
    a, b = c.real("a", -8, 8), c.real("b", -8, 8)
    r = raises(c, ValueError, utils.bin_edges, range_min=a, range_max=b, nbins=n)
    if r:
        c.check(le(b, a), "rejected only when the minimum is not below the maximum")
        return
    c.check(lt(a, b), "minimum not below the maximum is rejected")
    e = elems(utils.bin_edges(range_min=a, range_max=b, nbins=n))
    c.check(len(e) == n + 1, "one edge more than bins")
    for k in range(n + 1):
        c.check_eq(e[k], add(a, div(mul(k, sub(b, a)), float(n))), "equally spaced from minimum to maximum")


@HARNESSES.each({"min.%d" % n: ("min", n) for n in (1, 2, 4)} | {"max.%d" % n: ("max", n) for n in (1, 2, 4)}, functions=["utils.bin_edges"], bounds="number of bins as named; any limit in [-8,8] and step in [1/16,8]")
def limit_n_step(c, which, n):
    a, s = c.real("a", -8, 8), c.real("s", 0.0625, 8)
    e = elems(utils.bin_edges(range_min=a, nbins=n, step=s) if which == "min" else utils.bin_edges(range_max=a, nbins=n, step=s))
    c.check(len(e) == n + 1, "one edge more than bins")
    for k in range(n + 1):
        c.check_eq(e[k], add(a, mul(k, s)) if which == "min" else sub(a, mul(n - k, s)), "edges step away from the given limit, in increasing order")


@HARNESSES.add(functions=["utils.bin_edges"], bounds="any minimum in [-4,4], width in (0,4], step in [1/2,8]: up to 8 bins", quick_s=120)
def min_max_step(c):
    a, w, s = c.real("a", -4, 4), c.real("w", 0.0625, 4), c.real("s", 0.5, 8)
    b = add(a, w)
    # steps that divide the range to within rounding are not asserted
    for k in range(1, 9):
        c.assume(or_(lt(mul(k, s), sub(w, 1e-9)), gt(mul(k, s), add(w, 1e-9)), eq(w, mul(k, s)) if c.symbolic and False else False))
    if raises(c, ValueError, utils.bin_edges, range_min=a, range_max=b, step=s):
        c.check(gt(s, w), "rejected only when the step exceeds the range")
        return
    c.check(le(s, w), "a step larger than the range is rejected")
    e = elems(utils.bin_edges(range_min=a, range_max=b, step=s))
    for k in range(len(e)):
        c.check_eq(e[k], add(a, mul(k, s)), "edges are multiples of the step above the minimum")
    c.check_all([le(e[-1], add(b, 1e-9)), gt(add(e[-1], s), sub(b, 1e-9))], "as many whole steps as fit")
    c.check(len(e) >= 2, "at least one bin")


@HARNESSES.add(functions=["utils.bin_edges"], bounds="every subset of the four arguments; number of bins in [-2,3]")
def arguments(c):
    given = [c.choice(n, [False, True]) for n in ("range_min", "range_max", "nbins", "step")]
    n = c.int("n", -2, 3)
    vals = [1.0, 3.0, n, 0.5]
    kw = {k: v for k, v, g in zip(("range_min", "range_max", "nbins", "step"), vals, given) if g}
    r = raises(c, ValueError, utils.bin_edges, **kw)
    if sum(given) != 3:
        c.check(r, "exactly three arguments are needed")
    elif given[2]:
        c.check(le(n, 0) if r else gt(n, 0), "exactly non-positive numbers of bins are rejected")
    else:
        c.check(not r, "consistent arguments are accepted")


@HARNESSES.each({"%d" % n: (n,) for n in (2, 3, 5)}, functions=["utils.bin_edges_to_centers"], bounds="2..5 edges of any values; list and array")
def centers(c, n):
    how = c.choice("as", ["list", "array"])
    e = [c.real("e%d" % k, -8, 8) for k in range(n)]
    o = utils.bin_edges_to_centers(list(e) if how == "list" else c.arr(np.array(e, dtype=object)))
    c.check(tuple(o.shape) == (n - 1,), "one centre per bin")
    for k in range(n - 1):
        c.check_eq(mul(2.0, o[k]), add(e[k], e[k + 1]), "mid point of the bin")


@HARNESSES.add(functions=["utils.pairwise"], bounds="0..4 items of any values; list and generator")
def pairs(c):
    n = c.choice("n", [0, 1, 2, 4])
    v = [c.int("v%d" % k, -5, 5) for k in range(n)]
    how = c.choice("as", ["list", "generator"])
    o = list(utils.pairwise(v if how == "list" else (x for x in v)))
    c.check(len(o) == max(n - 1, 0), "number of pairs")
    for k, (a, b) in enumerate(o):
        c.check_eq([a, b], [v[k], v[k + 1]], "neighbours", exact=True)


@HARNESSES.add(functions=["utils.multi_tau_lags"], bounds="1..5 levels, 0..12 channels (any integer)", quick_s=120)
def lags(c):
    lev = c.int("levels", 1, 5)
    ch = c.int("channels", 1, 12)
    if raises(c, ValueError, utils.multi_tau_lags, lev, ch):
        c.check(eq(core.mod(ch, 2), 1), "rejected only when odd")
        return
    c.check(eq(core.mod(ch, 2), 0), "odd numbers of channels are rejected")
    L, C = int(lev), int(ch)
    tot, steps, d = utils.multi_tau_lags(lev, ch)
    want = list(range(C)) + [m * 2**l for l in range(1, L) for m in range(C // 2, C)]
    c.check_eq(elems(np.asarray(steps)), want, "lag steps: all of the first level, the upper half of each further level, doubling", exact=True)
    c.check_eq(tot, len(want), "total number of channels", exact=True)
    c.check(sorted(d) == list(range(1, L + 1)), "one entry per level")
    for l in range(1, L + 1):
        w = list(range(C)) if l == 1 else [m * 2 ** (l - 1) for m in range(C // 2, C)]
        c.check_eq([norm_num(x) for x in d[l]], w, "lags of a level", exact=True)


@HARNESSES.add(functions=["utils.geometric_series"], bounds="any ratio in [1.5,4], any first term in [1,3], any number of images in [1,40]: up to 10 terms", quick_s=120)
def geometric(c):
    r, a, n = c.real("ratio", 1.5, 4), c.real("first", 1, 3), c.int("n", 1, 40)
    d = c.choice("default", [False, True])
    if d:
        a = 1
    s = utils.geometric_series(r, n) if d else utils.geometric_series(r, n, first_term=a)
    v = a
    for k, x in enumerate(s):
        c.check_eq(x, v, "first term times powers of the ratio")
        if k:
            c.check(le(x, add(n, 1e-9)), "does not exceed the number of images")
        v = mul(v, r)
    c.check(ge(v, sub(n, 1e-9)), "goes on as long as it stays below the number of images")
