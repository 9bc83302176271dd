"""C21 differential phase contrast: reduction, cost, bookkeeping of partial runs, reconstruction"""
import numpy as np
from skbeam.core import dpc

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["numpy.fft is the discrete Fourier transform by its defining sum", "scipy.optimize.minimize is a deterministic function of the objective, the start point and its settings (its convergence is outside)"]


@HARNESSES.add(functions=["dpc.image_reduction"], bounds="3x4 image of any reals, any ROI corner and size (also beyond the image), none to two bad pixels anywhere (negative indices included)", quick_s=120)
def reduction(c):
    im = c.reals("im", (3, 4), -9, 9)
    roi = None
    if c.choice("roi", [False, True]):
        roi = (c.int("r", 0, 2), c.int("c", 0, 3), c.int("h", 1, 4), c.int("w", 1, 5))
    bad = c.choice("bad", [None, [], [(1, 2)], [(0, 0), (2, 3)], [(-1, 1), (1, -1)]])
    roi = None if roi is None else tuple(int(v) for v in roi)
    s = snapshot(im)
    x, y = dpc.image_reduction(im, roi, bad)
    unchanged(c, s, [im], "image is not changed")
    zero = {(a % 3, b % 4) for a, b in (bad or [])}
    v = lambda i, j: 0.0 if (i, j) in zero else at(im, i, j)
    r, q, h, w = roi or (0, 0, 3, 4)
    rows, cols = [i for i in range(3) if r <= i < r + h], [j for j in range(4) if q <= j < q + w]
    c.check(len(x) == len(cols) and len(y) == len(rows), "one entry per column and row of the region")
    c.check_eq(elems(x), [ssum(v(i, j) for i in rows) for j in cols], "sum over the rows of the good pixels of a column")
    c.check_eq(elems(y), [ssum(v(i, j) for j in cols) for i in rows], "sum over the columns of the good pixels of a row")


@HARNESSES.each({str(k): k for k in (1, 2, 3, 4, 5)}, functions=["dpc._rss_factory"], bounds="vectors of 1 to 5 any complex values, any amplitude, any phase gradient")
def cost(c, n):
    f, g = c.complexes("f", n, -3, 3), c.complexes("g", n, -3, 3)
    a, p = c.real("a", -3, 3), c.real("p", -1, 1)
    r = dpc._rss_factory(n)([a, p], f, g)
    t = []
    for k in range(n):
        ph = mul(float(k - n // 2), p)
        co, si = (core.cos(ph), core.sin(ph)) if k != n // 2 else (1.0, 0.0)
        fr, fi = core.re_im(at(f, k))
        gr, gi = core.re_im(at(g, k))
        dr = sub(gr, mul(a, sub(mul(fr, co), mul(fi, si))))
        di = sub(gi, mul(a, add(mul(fr, si), mul(fi, co))))
        t.append(add(mul(dr, dr), mul(di, di)))
    c.check_eq(r, ssum(t), "sum of |g - a f exp(i p (k - n // 2))|^2", tol=1e-7)


def ffts(line):
    """fftshift of the inverse transform of a line of two or four values, as complex pairs"""
    n = len(line)
    U = {0: (1.0, 0.0), 1: (0.0, 1.0), 2: (-1.0, 0.0), 3: (0.0, -1.0)}
    o = []
    for k in range(n):
        e = [U[(4 // n * k * j) % 4] for j in range(n)]
        o.append((div(ssum(mul(v, u[0]) for v, u in zip(line, e)), float(n)), div(ssum(mul(v, u[1]) for v, u in zip(line, e)), float(n))))
    return [o[(k - n // 2) % n] for k in range(n)]


def carr(c, ps):
    if getattr(c, "symbolic", False):
        return c.array([core.mkc(a, b) for a, b in ps], complex)
    return np.array([complex(a, b) for a, b in ps])


def fit(c, a, b, start, solver):
    return dpc.dpc_fit(dpc._rss_factory(len(a)), carr(c, ffts(a)), carr(c, ffts(b)), start, solver)


@HARNESSES.each({"whole": None, "cut1": 1, "cut2": 2, "cut3": 3, "cut0": 0}, functions=["dpc.lazy_dpc", "dpc.dpc_fit"], bounds="2x2 scans of 4x2 images: any last image and any reference row, the others fixed; the run cut at every point and resumed; with and without ROI and bad pixels", quick_s=120)
def partial_runs(c, cut):
    ims = [np.array([[1.0, 2.0], [3.0, 1.0], [2.0, 2.0], [1.0, 1.0]]) + k * np.array([[0.0, 1.0], [0.5, 0.25], [1.0, 0.0], [0.0, 0.125]]) for k in range(3)]
    last = c.reals("im", (4, 2), 0.5, 4)
    ref = np.array([[1.0, 2.0], [3.0, 1.0], [2.0, 1.5], [0.5, 1.0]])
    seq = [ims[0], ims[1], last, ims[2]]
    opt = c.choice("opt", ["plain", "roi", "bad"])
    kw = {"plain": {}, "roi": {"roi": (0, 0, 2, 2)}, "bad": {"bad_pixels": [(1, 1)]}}[opt]
    start = [1, 0]
    solver = c.choice("solver", ["Nelder-Mead", "Powell"])
    if solver != "Nelder-Mead":
        kw["solver"] = solver
    st, n = None, 0
    runs = [seq] if cut is None else [seq[:cut], seq[cut:]]
    if cut == 0:
        runs = [seq[:2], [], seq[2:]]
    for part in runs:
        for q in dpc.lazy_dpc(ref, iter(part), start, 2, 2, dpc_state=st, **kw):
            st = q
            n += 1
    c.check(n == 4 and st.index[0] == 4, "one state per image")
    rd = lambda im: dpc.image_reduction(im, kw.get("roi"), kw.get("bad_pixels"))
    rx, ry = [elems(v) for v in rd(ref)]
    for k, im in enumerate(seq):
        ix, iy = [elems(v) for v in rd(im)]
        ax, gx = fit(c, rx, ix, start, solver)
        ay, gy = fit(c, ry, iy, start, solver)
        p = (k // 2, k % 2)
        c.check_eq([at(st.gx, *p), at(st.gy, *p)], [gx, gy], "phase gradients of image k at scan point k", tol=1e-5)
        c.check_eq([at(st.ax, *p), at(st.ay, *p)], [ax, ay], "amplitudes of image k at scan point k", tol=1e-5)


@HARNESSES.add(functions=["dpc.dpc_fit"], bounds="the objective is minimised from the start point with the given method, tolerance and iterations")
def fit_arguments(c):
    f, g = c.complexes("f", 2, -3, 3), c.complexes("g", 2, -3, 3)
    seen = []

    def fake(fun, x0, args=(), method=None, tol=None, options=None, **k):
        seen.append((fun, x0, args, method, tol, dict(options or {}), k))

        class R:
            x = "result"

        return R

    had = hasattr(dpc, "minimize")
    if not had:
        return  # called in another way: the other harnesses see its effect
    old = dpc.minimize
    dpc.minimize = fake
    try:
        rss = dpc._rss_factory(2)
        r = dpc.dpc_fit(rss, f, g, [1, 0], "Powell", 1e-3, 17)
    finally:
        dpc.minimize = old
    if len(seen) == 1:
        fun, x0, args, method, tol, options, k = seen[0]
        c.check(list(x0) == [1, 0] and method == "Powell" and tol == 1e-3 and options.get("maxiter") == 17 and r == "result", "start, method, tolerance and iterations are passed on")
        c.check_eq(fun([0.5, 0.25], *args), rss([0.5, 0.25], f, g), "objective compares the pattern with the reference")


def kappa(n, step):
    return [div(2 * np.pi * float(k if k < n - n // 2 else k - n), mul(float(n), step)) for k in range(n)]


def tw(k, n):
    if (4 * k) % n == 0:
        return {0: (1.0, 0.0), 1: (0.0, 1.0), 2: (-1.0, 0.0), 3: (0.0, -1.0)}[(4 * k // n) % 4]
    return (float(np.cos(2 * np.pi * k / n)), float(np.sin(2 * np.pi * k / n)))


def reference(gx, gy, xs, ys, pad, w):
    """phase by the defining sums; gx, gy lists of rows"""
    R, C = len(gx), len(gx[0])
    P, Q = R * (2 * pad + 1), C * (2 * pad + 1)
    kx, ky = kappa(Q, xs), kappa(P, ys)
    F = {}
    for u in range(P):
        for v in range(Q):
            tx = [0.0, 0.0]
            ty = [0.0, 0.0]
            for i in range(R):
                for j in range(C):
                    a, b = tw((u * (i + pad * R)) % P, P), tw((v * (j + pad * C)) % Q, Q)
                    e = (a[0] * b[0] - a[1] * b[1], -(a[0] * b[1] + a[1] * b[0]))
                    for q in (0, 1):
                        tx[q] = add(tx[q], mul(e[q], gx[i][j]))
                        ty[q] = add(ty[q], mul(e[q], gy[i][j]))
            den = add(mul(mul(kx[v], kx[v]), sub(1.0, w)), mul(mul(ky[u], ky[u]), w))
            if not is_sym(den) and den == 0 or is_sym(den) and bool(eq(den, 0)):
                F[u, v] = (0.0, 0.0)
                continue
            num = [add(mul(mul(kx[v], tx[q]), sub(1.0, w)), mul(mul(ky[u], ty[q]), w)) for q in (0, 1)]
            F[u, v] = (div(num[1], den), sub(0.0, div(num[0], den)))  # times -i
    out = []
    for i in range(R):
        for j in range(C):
            t = 0.0
            for u in range(P):
                for v in range(Q):
                    a, b = tw((u * (i + pad * R)) % P, P), tw((v * (j + pad * C)) % Q, Q)
                    e = (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
                    t = add(t, sub(mul(e[0], F[u, v][0]), mul(e[1], F[u, v][1])))
            out.append(div(t, float(P * Q)))
    return out


CASES = {"2x2": (2, 2, 0), "2x4": (2, 4, 0), "3x2": (3, 2, 0), "1x1.pad1": (1, 1, 1), "1x2.pad1": (1, 2, 1), "4x1": (4, 1, 0)}


@HARNESSES.each({"%s.%s" % (k, m): CASES[k] + (m,) for k in CASES for m in ("steps", "weight") if (k, m) != ("1x2.pad1", "steps")}, functions=["dpc.recon"], bounds="any gradients in [-4,4]; any step sizes in [1/8,8] with weight 1/2, 0.3, 0 and 1, or any weight in [0,1] with fixed steps", quick_s=120)
def reconstruct(c, R, C, pad, mode):
    gx, gy = c.reals("gx", (R, C), -4, 4), c.reals("gy", (R, C), -4, 4)
    if mode == "steps":
        xs, ys = c.real("xs", 0.125, 8), c.real("ys", 0.125, 8)
        w = c.choice("w", [0.5, 0.3, 0.0, 1.0])
    else:
        xs, ys = 0.5, 0.25
        w = c.real("w", 0, 1)
        c.assume(or_(eq(w, 0), eq(w, 1), and_(ge(w, 1e-3), le(w, 1 - 1e-3))))
    form = c.choice("form", ["array"] if pad else ["array", "list"])
    s = snapshot(gx, gy)
    a, b = (gx, gy) if form == "array" else ([[at(gx, i, j) for j in range(C)] for i in range(R)], [[at(gy, i, j) for j in range(C)] for i in range(R)])
    p = dpc.recon(a, b, xs, ys, *([] if pad == 0 and mode == "steps" and w == 0.5 else [pad, w]))
    unchanged(c, s, [gx, gy], "gradients are not changed")
    c.check(tuple(p.shape) == (R, C), "shape")
    want = reference([[at(gx, i, j) for j in range(C)] for i in range(R)], [[at(gy, i, j) for j in range(C)] for i in range(R)], xs, ys, pad, w)
    c.check_eq(elems(p), want, "weighted Fourier integration of the gradients", tol=1e-6)


@HARNESSES.add(functions=["dpc.recon", "dpc.reconstruct_phase_from_partial_info"], bounds="any weight outside [0,1]")
def weights(c):
    w = c.real("w", -4, 4)
    c.assume(or_(lt(w, 0), gt(w, 1)))
    g = c.reals("g", (2, 2), -4, 4)
    st = dpc.dpc_internal_state(g, g, g, g, np.ones(3), np.ones(2), [4])
    c.check(raises(c, ValueError, dpc.recon, g, g, 1.0, 1.0, 0, w), "rejected")
    c.check(raises(c, ValueError, dpc.reconstruct_phase_from_partial_info, st, 10.0, 1.0, 1.0, weighting=w), "rejected")


@HARNESSES.add(functions=["dpc.reconstruct_phase_from_partial_info"], bounds="2x2 scans of any gradients and amplitudes, any energy, pixel size and distance; scaled or not, negated or not, with and without geometry", quick_s=120)
def phase_from_state(c):
    gx, gy, ax, ay = [c.reals(k, (2, 2), -4, 4) for k in ("gx", "gy", "ax", "ay")]
    en = c.real("energy", 1, 32)
    ps, fd = c.real("pixel", 1, 128), c.real("distance", 1, 4096)
    st = dpc.dpc_internal_state(ax, ay, gx, gy, np.ones(3), np.ones(5), [4])
    geo = c.choice("geometry", [True, False])
    kw = {}
    neg = c.choice("negate", [None, True, False])
    sc = c.choice("scale", [None, True, False])
    if geo:
        kw.update(pixel_size=ps, focus_to_det=fd)
    if neg is not None:
        kw["negate"] = neg
    if sc is not None:
        kw["scale"] = sc
    s = snapshot(gx, gy, ax, ay)
    ph, amp = dpc.reconstruct_phase_from_partial_info(st, en, 0.5, 0.25, padding=0, weighting=0.5, **kw)
    unchanged(c, s, [gx, gy, ax, ay], "the state is not changed (the run can be resumed)")
    f = div(mul(ps, en), mul(12.4e-4, fd)) if geo and sc is not False else None
    fx = f if f is None else mul(3.0, f)
    fy = f if f is None else mul(5.0, f)
    X = [v if fx is None else mul(v, fx) for v in elems(gx)]
    Y = [v if fy is None else mul(v, fy) for v in elems(gy)]
    if neg is not False:
        X = [sub(0.0, v) for v in X]
    want = reference([X[:2], X[2:]], [Y[:2], Y[2:]], 0.5, 0.25, 0, 0.5)
    c.check_eq(elems(ph), want, "phase of the scaled and negated gradients", tol=1e-6)
    c.check_eq(elems(amp), [div(add(a, b), 2.0) for a, b in zip(elems(ax), elems(ay))], "amplitude is the mean of both directions")


@HARNESSES.add(functions=["dpc.dpc_runner"], bounds="1x2 scans: any last image; pixel sizes equal or not", quick_s=90)
def runner(c):
    last = c.reals("im", (2, 2), 0.5, 4)
    ref = np.array([[1.0, 2.0], [3.0, 1.0]])
    seq = [np.array([[1.0, 1.5], [2.0, 1.0]]), last]
    sq = c.choice("square", [True, False])
    args = (ref, seq, [1, 0], (55.0, 55.0) if sq else (55.0, 54.0), 1.4e3, 1, 2, 0.5, 0.25, 10.0)
    if not sq:
        c.check(raises(c, ValueError, dpc.dpc_runner, *args), "pixels that are not square are rejected")
        return
    w = c.choice("w", [0.5, 0.25])
    neg, sc = c.choice("negate", [True, False]), c.choice("scale", [True, False])
    ph, am = dpc.dpc_runner(*args, weighting=w, negate=neg, scale=sc)
    for st in dpc.lazy_dpc(ref, seq, [1, 0], 1, 2):
        pass
    p2, a2 = dpc.reconstruct_phase_from_partial_info(st, 10.0, 0.5, 0.25, 55.0, 1.4e3, neg, sc, 0, w)
    c.check_eq(ph, p2, "same phase as the step-by-step run", tol=1e-6)
    c.check_eq(am, a2, "same amplitude as the step-by-step run", tol=1e-6)


HARNESSES.add(functions=["dpc.image_reduction"], bounds="as reduction, of any 8-bit counts", quick_s=120)(as_counts(reduction, "im"))
