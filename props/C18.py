"""C18 peak finding: candidate filters, windows, quadratic refinement"""
import numpy as np
from skbeam.core import feature, spectroscopy
from skbeam.core.fitting import funcs

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["exp and log are uninterpreted functions, inverse to each other and monotone",
               "numpy.linalg.lstsq returns the least-squares solution of a full-rank system (its normal equations)"]
GRIDS = {"even": (0.0, 1.0, 2.0, 3.0), "uneven": (-2.0, -1.5, 0.0, 4.0), "descending": (3.0, 1.0, 0.5, -1.0), "three": (1.0, 2.0, 4.0),
         "five": (0.0, 1.0, 2.0, 3.0, 5.0)}


def normal(c, xs, ys, b, label, tol=1e-7):
    """b0 (x-b1)^2 + b2 is the least-squares parabola: its residuals are orthogonal to 1, x and x^2"""
    b0, b1, b2 = b
    for k in range(3):
        r = []
        for x, y in zip(xs, ys):
            t = sub(x, b1)
            f = add(mul(b0, mul(t, t)), b2)
            r.append(mul(sub(f, y), x**k))
        c.check_eq(add(1.0, ssum(r)), 1.0, label, tol=tol)


def curved(c, xs, ys, lo=1e-3):
    """the least-squares parabola of these data is not (nearly) a line; its curvature"""
    m = np.array([[x * x, x, 1.0] for x in xs])
    row = np.linalg.pinv(m)[0]
    w = ssum(mul(float(a), y) for a, y in zip(row, ys))
    return w


@HARNESSES.each({k: k for k in GRIDS}, functions=["fitting.funcs.fit_quad_to_peak"], bounds="fixed grids (even, uneven, descending, 3 to 5 points), any values in [-8,8] with a curvature of at least 1/8")
def fit_quad(c, g):
    xs = GRIDS[g]
    n = len(xs)
    y = c.reals("y", n, -8, 8)
    w = curved(c, xs, elems(y))
    c.assume(or_(ge(w, 0.125), le(w, -0.125)))
    s = snapshot(y)
    b, r2 = funcs.fit_quad_to_peak(np.array(xs), y)
    unchanged(c, s, [y], "the data are not changed")
    c.check(len(b) == 3, "three coefficients")
    normal(c, xs, elems(y), b, "least squares")
    m = smean(elems(y))
    tot = ssum(mul(sub(v, m), sub(v, m)) for v in elems(y))
    err = []
    for x, v in zip(xs, elems(y)):
        t = sub(x, b[1])
        d = sub(add(mul(b[0], mul(t, t)), b[2]), v)
        err.append(mul(d, d))
    c.check_eq(mul(sub(1.0, r2), tot), ssum(err), "R2 = 1 - SSerr / SStot", tol=1e-6)


@HARNESSES.add(functions=["fitting.funcs.fit_quad_to_peak"], bounds="any parabola with nonzero curvature sampled at 0, 1 and any third location in [5/4,4]", quick_s=90)
def fit_exact(c):
    xs = [0.0, 1.0, c.real("x", 1.25, 4)]
    a0 = c.real("a0", -4, 4)
    c.assume(or_(ge(a0, 0.125), le(a0, -0.125)))
    a1, a2 = c.real("a1", -4, 4), c.real("a2", -4, 4)
    X = c.array(xs)
    Y = c.array([add(mul(a0, mul(sub(x, a1), sub(x, a1))), a2) for x in xs])
    b, r2 = funcs.fit_quad_to_peak(X, Y)
    c.check_eq(b[0], a0, "curvature of an exact parabola", tol=1e-5)
    c.check_eq(b[1], a1, "centre of an exact parabola", tol=1e-5)
    c.check_eq(b[2], a2, "height of an exact parabola", tol=1e-5)


@HARNESSES.add(functions=["fitting.funcs.fit_quad_to_peak"], bounds="0 to 2 points")
def too_few(c):
    n = c.choice("n", [0, 1, 2])
    y = c.reals("y", n, -8, 8)
    c.check(raises(c, Exception, funcs.fit_quad_to_peak, np.arange(n) * 1.0, y), "fewer than three points are rejected")


@HARNESSES.add(functions=["feature.refine_quadratic", "feature.refine_log_quadratic"], bounds="4 points on an uneven grid, any values (logarithms) in [-4,4] with nonzero curvature, no threshold")
def refine(c):
    xs = GRIDS["uneven"]
    kind = c.choice("kind", ["quadratic", "log"])
    t = c.reals("t", 4, -4, 4)
    be = lsq(c, xs, elems(t))
    c.assume(or_(ge(be[0], 0.125), le(be[0], -0.125)))
    fn, arg = (feature.refine_quadratic, t) if kind == "quadratic" else (feature.refine_log_quadratic, c.array([core.exp(v) for v in elems(t)]))
    vertex(c, fn(np.array(xs), arg), be, kind)


def vertex(c, r, be, kind):
    c.check(len(r) == 2, "centre and height")
    cen, h = r
    c.check_eq(mul(cen, mul(2.0, be[0])), sub(0.0, be[1]), "centre is the vertex of the least-squares parabola", tol=1e-6)
    v = h if kind == "quadratic" else core.log(h)
    c.check_eq(mul(4.0, mul(be[0], sub(be[2], v))), mul(be[1], be[1]), "height is the value at the vertex", tol=1e-5)


@HARNESSES.each({"%s.%s" % (k, q): (k, q) for k in ("quadratic", "log") for q in ("up", "down", "flat")}, functions=["feature.refine_quadratic", "feature.refine_log_quadratic"], bounds="4 points at 0..3: a fixed parabola plus any residual in [-4,4], any threshold in [-2,1]: the whole range of R2", quick_s=90)
def threshold(c, kind, q):
    xs = (0.0, 1.0, 2.0, 3.0)
    a0, a1, a2 = {"up": (1.0, 1.0, 0.0), "down": (-0.5, 2.0, 1.0), "flat": (0.125, 1.5, -1.0)}[q]
    e = c.real("e", -4, 4)
    v = (1.0, -3.0, 3.0, -1.0)  # orthogonal to 1, x, x^2
    t = [add(a0 * (x - a1) ** 2 + a2, mul(e, k)) for x, k in zip(xs, v)]
    thr = c.real("thr", -2, 1)
    err = mul(20.0, mul(e, e))
    m = smean(t)
    tot = ssum(mul(sub(x, m), sub(x, m)) for x in t)
    lhs = mul(sub(1.0, thr), tot)
    c.assume(or_(le(err, sub(lhs, 1e-6)), ge(err, add(lhs, 1e-6))))  # not on the threshold
    fn = feature.refine_quadratic if kind == "quadratic" else feature.refine_log_quadratic
    arg = c.array(t if kind == "quadratic" else [core.exp(x) for x in t])
    try:
        r = fn(np.array(xs), arg, Rval_thresh=thr)
    except feature.PeakRejection:
        c.check(ge(err, lhs), "rejected only when R2 is below the threshold")
        return
    c.check(le(err, lhs), "accepted only when R2 reaches the threshold")
    vertex(c, r, (a0, -2 * a0 * a1, a0 * a1 * a1 + a2), kind)


class Spy:
    """records what the refine function receives"""

    def __init__(self, rej):
        self.calls, self.rej = [], rej

    def __call__(self, x, y, **kw):
        self.calls.append((elems(x), elems(y), kw))
        if len(self.calls) - 1 in self.rej:
            raise feature.PeakRejection()
        return (100.0 + len(self.calls), 200.0 + len(self.calls))


@HARNESSES.add(functions=["feature.peak_refinement"], bounds="5 samples of any values, any window in 0..6, any 2 candidate indices (also equal), any subset of them rejected, with and without extra arguments; as arrays and lists", quick_s=120)
def windows(c):
    n = 5
    x, y = c.reals("x", n, -9, 9), c.reals("y", n, -9, 9)
    w = c.int("w", 0, 6)
    cands = [c.int("c%d" % k, 0, n - 1) for k in range(2)]
    rej = {k for k in range(2) if c.choice("rej%d" % k, [False, True])}
    how = c.choice("how", ["array", "list"])
    spy = Spy(rej)
    kw = {} if how == "array" else {"refine_args": {"Rval_thresh": 0.5}}
    s = snapshot(x, y)
    out = feature.peak_refinement(x, y, c.array(cands, int) if how == "array" else cands, w, spy, **kw)
    unchanged(c, s, [x, y], "data are not changed")
    c.check(len(spy.calls) == 2, "every candidate is refined")
    for (xs, ys, k), q in zip(spy.calls, cands):
        c.check(k == kw.get("refine_args", {}), "extra arguments are passed on")
        # the samples within the window, in order
        sel = [i for i in range(n) if bool(and_(ge(i, sub(q, w)), le(i, add(q, w))))]
        c.check(len(xs) == len(sel), "window is truncated at the borders only")
        if len(xs) == len(sel):
            c.check_eq(xs, [at(x, i) for i in sel], "locations in the window", exact=True)
            c.check_eq(ys, [at(y, i) for i in sel], "values in the window", exact=True)
    keep = [k for k in range(2) if k not in rej]
    if keep:
        c.check(len(out) == 2, "locations and heights")
        c.check_eq(out[0], [101.0 + k for k in keep], "one location per accepted candidate, in their order", exact=True)
        c.check_eq(out[1], [201.0 + k for k in keep], "one height per accepted candidate, in their order", exact=True)
    else:
        c.check(all(len(o) == 0 for o in out), "nothing when all are rejected")


@HARNESSES.each({"n%d" % k: k for k in (1, 2, 3, 4)}, functions=["feature.filter_n_largest"], bounds="5 samples of any values, any distinct candidates, any N in -1..5", quick_s=90)
def n_largest(c, m):
    n = 5
    y = c.reals("y", n, -9, 9)
    cands = [c.int("c%d" % k, 0, n - 1) for k in range(m)]
    for i in range(m):
        for j in range(i):
            c.assume(ne(cands[i], cands[j]))
    N = c.choice("N", [-1, 0, 1, 2, 3, 5])
    ca = c.array(cands, int)
    s = snapshot(ca)
    if N <= 0:
        c.check(raises(c, ValueError, feature.filter_n_largest, y, ca, N), "a number that is not positive is rejected")
        return
    out = feature.filter_n_largest(y, ca, N)
    unchanged(c, s, [ca], "candidates are not changed")
    o = elems(out)
    c.check(len(o) == min(N, m), "number of peaks")
    yy = lambda q: pick(y, q, n)
    for k, q in enumerate(o):
        c.check(or_(*[eq(q, z) for z in cands]), "result is one of the candidates")
        for k2 in range(k):
            c.check(ne(q, o[k2]), "no candidate twice")
            c.check(ge(yy(o[k2]), yy(q)), "descending by size")
    for z in cands:
        c.check(or_(*([eq(z, q) for q in o] + [and_(*[le(yy(z), yy(q)) for q in o])])), "every candidate left out is not larger than those returned")


def pick(y, q, n):
    if not is_sym(q):
        return at(y, int(q))
    r = at(y, 0)
    for i in range(1, n):
        r = ite(eq(q, i), at(y, i), r)
    return r


@HARNESSES.add(functions=["feature.filter_peak_height"], bounds="6 samples of any values, any window in 0..7 or the default, any threshold, any 2 candidates", quick_s=120)
def peak_height(c):
    n = 6
    y = c.reals("y", n, -9, 9)
    thr = c.real("thr", -1, 20)
    w = c.choice("w", [0, 1, 2, 5, 7, None])
    cands = [c.int("c%d" % k, 0, n - 1) for k in range(2)]
    out = feature.filter_peak_height(y, c.array(cands, int), thr, **({} if w is None else {"window": w}))
    w = 5 if w is None else w
    o = elems(out)
    want = []
    for q in cands:
        sel = [at(y, i) for i in range(n) if bool(and_(ge(i, sub(q, w)), le(i, add(q, w))))]
        mx, mn = sel[0], sel[0]
        for v in sel[1:]:
            mx, mn = maximum(mx, v), minimum(mn, v)
        want.append((q, gt(sub(mx, mn), thr)))
    exp = [q for q, k in want if bool(k)]
    c.check(len(o) == len(exp), "a candidate is kept exactly when its peak-to-peak size in the window exceeds the threshold")
    if len(o) == len(exp):
        c.check_eq(o, exp, "candidates kept, in their order", exact=True)


@HARNESSES.each({"w%s" % k: k for k in (1, 2, 3)}, functions=["spectroscopy.find_largest_peak"], bounds="6 samples on an uneven grid, any values (logarithms in [-4,4]) with a single maximum anywhere, also at the borders, whose neighbourhood is concave; windows 1 to 3", quick_s=200)
def largest_peak(c, w):
    xs = (0.0, 1.0, 2.0, 3.0, 5.0, 6.0)
    n = 6
    t = c.reals("t", n, -4, 4)
    j = c.choice("j", list(range(n)))
    for i in range(n):
        if i != j:
            c.assume(ge(at(t, j), add(at(t, i), 1e-6)))
    sel = [i for i in range(n) if abs(i - j) <= w]
    if len(sel) < 3:
        c.check(raises(c, Exception, spectroscopy.find_largest_peak, np.array(xs), c.array([core.exp(v) for v in elems(t)]), w), "too few samples are rejected")
        return
    be = lsq(c, [xs[i] for i in sel], [at(t, i) for i in sel])
    c.assume(le(be[0], -0.125))
    x0, y0, sg = spectroscopy.find_largest_peak(np.array(xs), c.array([core.exp(v) for v in elems(t)]), w)
    peak(c, be, x0, y0, sg)


def lsq(c, xs, ts):
    row = np.linalg.pinv(np.array([[x * x, x, 1.0] for x in xs]))
    return [ssum(mul(float(a), y) for a, y in zip(r, ts)) for r in row]


def peak(c, be, x0, y0, sg):
    c.check_eq(mul(x0, mul(2.0, be[0])), sub(0.0, be[1]), "location is the vertex of the parabola fitted in the window around the maximum", tol=1e-6)
    c.check_eq(mul(4.0, mul(be[0], sub(be[2], core.log(y0)))), mul(be[1], be[1]), "magnitude is the value of the fit at the vertex", tol=1e-5)
    c.check(ge(sg, 0), "width is positive")
    c.check_eq(mul(mul(sg, sg), mul(-2.0, be[0])), 1.0, "width is the sigma of the fitted Gaussian", tol=1e-6)


@HARNESSES.each({"all": None, "w3": 3}, functions=["spectroscopy.find_largest_peak"], bounds="5 samples of any Gaussian: any centre, height, width", quick_s=120)
def gaussian_peak(c, w):
    xs = (0.0, 1.0, 2.0, 3.0, 5.0)
    x0 = c.real("x0", -1, 6)
    a = c.real("a", -4, 4)
    iv = c.real("iv", 0.125, 4)  # 1 / (2 sigma^2)
    y = c.array([core.exp(sub(a, mul(iv, mul(sub(x, x0), sub(x, x0))))) for x in xs])
    p, h, s = spectroscopy.find_largest_peak(np.array(xs), y, w) if w else spectroscopy.find_largest_peak(np.array(xs), y)
    if isnan(p) or isnan(s):
        c.check(False, "a Gaussian has a peak")
        return
    c.check_eq(p, x0, "location of a Gaussian", tol=1e-5)
    c.check_eq(core.log(h), a, "height of a Gaussian", tol=1e-5)
    c.check_eq(mul(mul(s, s), mul(2.0, iv)), 1.0, "width of a Gaussian", tol=1e-5)


@HARNESSES.add(functions=["spectroscopy.align_and_scale"], bounds="3 spectra of 3 energies each (any values), any peak parameters returned by the peak finder")
def align(c):
    es = [c.reals("e%d" % k, 3, -9, 9) for k in range(3)]
    cs = [c.reals("c%d" % k, 3, 0, 9) for k in range(3)]
    pk = [(c.real("E%d" % k, -9, 9), c.real("h%d" % k, 0, 9), c.real("s%d" % k, 0.125, 9)) for k in range(3)]
    seen = []

    def find(e, q):
        seen.append((elems(e), elems(q)))
        return pk[len(seen) - 1]

    s = snapshot(*(es + cs))
    oe, oc = spectroscopy.align_and_scale(es, cs, find)
    unchanged(c, s, es + cs, "inputs are not changed")
    c.check(len(seen) == 3 and len(oe) == 3 and len(oc) == 3, "one result per spectrum")
    for k in range(3):
        c.check_eq(seen[k][0], es[k], "finder sees the energies", exact=True)
        c.check_eq(seen[k][1], cs[k], "finder sees the counts of the same spectrum", exact=True)
        c.check_eq(oc[k], cs[k], "counts are returned as they are", exact=True)
        for e, o in zip(elems(es[k]), elems(oe[k])):
            c.check_eq(mul(o, pk[k][2]), mul(sub(e, pk[k][0]), pk[0][2]), "energies are shifted to the peak and scaled to the width of the first spectrum")


HARNESSES.each({"uneven": "uneven"}, functions=["fitting.funcs.fit_quad_to_peak"], bounds="as fit_quad, of any 8-bit counts")(as_counts(fit_quad, "y"))
HARNESSES.add(functions=["feature.peak_refinement"], bounds="as windows, of any 8-bit counts", quick_s=90)(as_counts(windows, "y"))
HARNESSES.each({"n2": 2}, functions=["feature.filter_n_largest"], bounds="as n_largest, of any 8-bit counts", quick_s=90)(as_counts(n_largest, "y"))
HARNESSES.add(functions=["feature.filter_peak_height"], bounds="as peak_height, of any 8-bit counts", quick_s=120)(as_counts(peak_height, "y"))


@HARNESSES.each({"quadratic": "quadratic", "log": "log"}, functions=["feature.refine_quadratic", "feature.refine_log_quadratic"], bounds="3 samples at 0, 1, 2: any 8-bit counts from 1 with a maximum in the middle (default threshold)", quick_s=60)
def refine_counts(c, kind):
    y = c.ints("y", 3, 1, 255, dtype=np.uint8)
    v = elems(y)
    c.assume(and_(gt(v[1], v[0]), gt(v[1], v[2])))
    t = v if kind == "quadratic" else [core.log(x) for x in v]
    be = lsq(c, (0.0, 1.0, 2.0), t)
    cen, h = (feature.refine_quadratic if kind == "quadratic" else feature.refine_log_quadratic)(np.array([0.0, 1.0, 2.0]), y)
    c.check_eq(mul(cen, mul(2.0, be[0])), sub(0.0, be[1]), "centre is the vertex of the parabola through the samples", tol=1e-6)
