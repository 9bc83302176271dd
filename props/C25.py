"""C25 ring centres, images built from radial and polar averages, detector calibration"""
import math

import numpy as np
from skbeam.core import calibration, image
from skbeam.core.constants import calibration_standards

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["scipy.interpolate.RegularGridInterpolator is multilinear interpolation, scipy.signal.argrelmax finds strict maxima of the window (borders excluded)",
               "log and tan are uninterpreted functions (equal arguments give equal values)"]


# ------------------------------------------------------------------ radial images
def lin(xs, ys, x, left, right):
    if x < xs[0]:
        return left
    if x > xs[-1]:
        return right
    for k in range(len(xs) - 1):
        if xs[k] <= x <= xs[k + 1]:
            t = (x - xs[k]) / (xs[k + 1] - xs[k])
            return add(mul(1 - t, ys[k]), mul(t, ys[k + 1]))


RAD = {"default": ([0.5, 1.0, 2.25], None, None, None), "dims": ([0.0, 1.5, 2.0], (4, 5), None, None), "center": ([0.75, 1.0, 3.0], (3, 4), (0.5, 2.25), None),
       "pixels": ([0.5, 1.0, 2.0, 4.0], None, None, (2.0, 0.5)), "pixels.dims": ([1.0, 2.0, 4.0], (3, 5), (1.0, 1.5), (0.5, 1.5)), "outside": ([1.0, 2.0], (3, 3), (-1.0, 5.0), None)}


@HARNESSES.each(RAD, functions=["image.construct_circ_avg_image"], bounds="2 to 4 radii of any intensities; stated radii, shapes, centres and pixel sizes; left and right defaults, given values and None")
def circular(c, radii, dims, center, px):
    f = c.reals("f", len(radii), -8, 8)
    kw = {}
    if dims is not None:
        kw["dims"] = dims
    if center is not None:
        kw["center"] = center
    if px is not None:
        kw["pixel_size"] = px
    mode = c.choice("mode", ["default", "values", "none"])
    ys = elems(f)
    left, right = ys[0], 0.0
    if mode == "values":
        left, right = c.real("left", -4, 4), c.real("right", -4, 4)
        kw.update(left=left, right=right)
    elif mode == "none":
        right = ys[-1]
        kw.update(left=None, right=None)
    sn = snapshot(f)
    im = image.construct_circ_avg_image(np.array(radii), f, **kw)
    unchanged(c, sn, [f], "the intensities are not changed")
    p = px or (1.0, 1.0)
    sh = dims or tuple(2 * int(max(radii) / q + 0.5) + 1 for q in p)
    ce = center or tuple((n - 1) / 2 for n in sh)
    c.check(tuple(im.shape) == tuple(sh), "shape")
    want = [lin(radii, ys, math.hypot(p[0] * (i - ce[0]), p[1] * (j - ce[1])), left, right) for i in range(sh[0]) for j in range(sh[1])]
    c.check_eq(elems(im), want, "linear interpolation at the radius of each pixel", tol=1e-7)


@HARNESSES.add(functions=["image.construct_circ_avg_image", "image.construct_rphi_avg_image"], bounds="centre without shape; masks of other shapes; angles over more than a turn")
def refused(c):
    k = c.choice("case", ["circ", "rphi", "mask", "mask1", "angles"])
    f = c.reals("f", (2, 3), -8, 8)
    r, a = np.array([1.0, 2.0]), np.array([0.0, 2.0, 4.0])
    if k == "circ":
        t = lambda: image.construct_circ_avg_image(r, f[:, 0], center=(1, 1))
    elif k == "rphi":
        t = lambda: image.construct_rphi_avg_image(r, a, f, center=(1, 1))
    elif k == "mask":
        t = lambda: image.construct_rphi_avg_image(r, a, f, mask=np.ones((3, 3)))
    elif k == "mask1":
        t = lambda: image.construct_rphi_avg_image(r, a, f, mask=np.ones(3))
    else:
        t = lambda: image.construct_rphi_avg_image(r, np.array([0.0, 4.0, 7.0]), f)
    c.check(raises(c, ValueError, t), "rejected with ValueError")


# ------------------------------------------------------------------ polar images
def polar(radii, angles, f, sh, ce, p, masked):
    """bilinear in radius and (periodic) angle"""
    out = []
    nr, na = len(radii), len(angles)
    two = 2 * math.pi
    for i in range(sh[0]):
        for j in range(sh[1]):
            y, x = p[0] * (i - ce[0]), p[1] * (j - ce[1])
            r = math.hypot(y, x)
            if r < radii[0] or r > radii[-1]:
                out.append(NAN)
                continue
            k = max(q for q in range(nr - 1) if radii[q] <= r)
            t = (r - radii[k]) / (radii[k + 1] - radii[k])
            a = (math.atan2(y, x) - angles[0]) % two
            rel = [(v - angles[0]) % two for v in angles] + [two]
            m = max(q for q in range(na) if rel[q] <= a)
            u = (a - rel[m]) / (rel[m + 1] - rel[m])
            v = 0.0
            for dk, wk in ((0, 1 - t), (1, t)):
                for dm, wm in ((0, 1 - u), (1, u)):
                    q = (k + dk, (m + dm) % na)
                    v = NAN if q in masked or isnan(v) else add(v, mul(wk * wm, f[q]))
            out.append(v)
    return out


PI = math.pi
POL = {"full": ([0.4, 1.1, 2.7], [-3.0, -1.2, 0.7, 2.1], None, None, None, False), "positive": ([0.4, 1.6, 3.1], [0.1, 1.3, 2.9, 5.0], (4, 5), None, None, False),
       "center": ([0.3, 2.3], [0.3, 1.9, 4.2], (3, 4), (0.6, 1.7), None, False), "pixels": ([0.45, 1.9, 3.3], [-1.0, 1.2, 3.3], (3, 4), (1.1, 1.3), (1.2, 0.7), False),
       "integers": ([0.4, 1.6, 3.1], [1, 3, 5], (4, 4), None, None, False), "pixels.default": ([0.3, 2.2], [-2.0, 0.5, 2.5], None, None, (1.0, 2.0), False),
       "mask": ([0.4, 1.6, 3.1], [0.1, 1.3, 2.9, 5.0], (4, 4), (1.2, 1.7), None, True), "mask.two": ([0.4, 1.6], [-2.1, 0.3, 1.9], (3, 4), (0.9, 1.6), None, True)}


@HARNESSES.each(POL, functions=["image.construct_rphi_avg_image"], bounds="2 or 3 radii by 3 or 4 angles of any intensities, stated grids, shapes, centres and pixel sizes; any mask", quick_s=120)
def polar_image(c, radii, angles, sh, ce, px, masked):
    f = c.reals("f", (len(radii), len(angles)), -8, 8)
    R, A = np.array(radii), np.array(angles)
    kw = {}
    ms, mask = set(), None
    if masked:
        mask = np.ones(f.shape, dtype=int)
        k1 = c.choice("masked", list(np.ndindex(*f.shape)))
        k2 = c.choice("masked2", [None, (0, 0), (len(radii) - 1, len(angles) - 1)])
        for q in (k1, k2):
            if q is not None:
                mask[q] = 0
                ms.add(q)
        kw["mask"] = mask
    for n, v in (("shape", sh), ("center", ce), ("pixel_size", px)):
        if v is not None:
            kw[n] = v
    sn = snapshot(f)
    r0, a0 = R.copy(), A.copy()
    im = image.construct_rphi_avg_image(R, A, f, **kw)
    unchanged(c, sn, [f], "the image is not changed")
    c.check(bool(np.array_equal(R, r0) and np.array_equal(A, a0)), "the coordinates are not changed")
    p = px or (1.0, 1.0)
    sh = sh or tuple(2 * int(max(radii) / q + 0.5) + 1 for q in p)
    ce = ce or tuple((n - 1) / 2 for n in sh)
    c.check(tuple(im.shape) == tuple(sh), "shape")
    F = {q: at(f, *q) for q in np.ndindex(*f.shape)}
    c.check_eq(elems(im), polar(radii, [float(v) for v in angles], F, sh, ce, p, ms), "interpolated in radius and angle; NaN outside and next to masked points", tol=1e-7)


# ------------------------------------------------------------------ ring centre
@HARNESSES.each({"row%d" % k: k for k in range(3)}, functions=["image.find_ring_center_acorr_1D", "image._corr_ax1"], bounds="3x3 images: one row of any values in [0,8], the others fixed", quick_s=150)
def mirror_center(c, k):
    row = c.ints("v", 3, 0, 4)
    fixed = np.array([[1.0, 3.0, 2.0], [2.0, 5.0, 1.0], [0.0, 1.0, 3.0]])
    im = [[float(v) for v in r] for r in fixed]
    im[k] = elems(row)
    A = c.array([v for r in im for v in r]).reshape((3, 3))
    sn = snapshot(A)
    got = image.find_ring_center_acorr_1D(A)
    unchanged(c, sn, [A], "the image is not changed")

    def best(lines):
        n = len(lines[0])
        votes = [0] * n
        for v in lines:
            s = [div(ssum(mul(v[i], v[q - i]) for i in range(n) if 0 <= q - i < n), float(min(q + 1, 2 * n - 1 - q))) for q in range(2 * n - 1)]
            b = 0
            for q in range(1, 2 * n - 1):
                if bool(gt(s[q], s[b])):
                    b = q
            votes[b // 2] += 1
        return votes.index(max(votes))

    c.check(len(got) == 2, "row and column")
    c.check_eq(got[0], best([[im[i][j] for i in range(3)] for j in range(3)]), "row: most frequent mirror centre of the columns")
    c.check_eq(got[1], best(im), "column: most frequent mirror centre of the rows")


# ------------------------------------------------------------------ sample-detector distance
def vertex(x0, h, la, lb, lc):
    return add(x0, div(mul(h / 2, sub(la, lc)), add(sub(la, mul(2.0, lb)), lc)))


@HARNESSES.each({"one": (3, 1), "two": (5, 2), "limit": (5, 1), "shape": (4, 5)}, functions=["calibration.estimate_d_blind"], bounds="profiles of 3 to 5 any positive intensities, window 1, any threshold, at most 1, 2 or 5 peaks; Si, LaB6 and CeO2 standards at three wavelengths", quick_s=150)
def distance(c, n, most):
    y = c.reals("y", n, 0.5, 64)
    th = c.choice("thresh", [0.0, 0.25])
    name, w = c.choice("standard", [("Si", 0.018)] if n == 5 else [("Si", 0.018), ("LaB6", 0.0125), ("CeO2", 0.05)])
    xs = [2.0 + 0.5 * k for k in range(n)]
    ys = elems(y)
    pk = [k for k in range(1, n - 1) if bool(and_(gt(ys[k], ys[k - 1]), gt(ys[k], ys[k + 1])))]
    top = ys[0]
    for v in ys[1:]:
        top = maximum(top, v)
    keep = []
    for k in pk:
        low = minimum(ys[k - 1], ys[k + 1])
        if bool(gt(sub(ys[k], low), mul(th, top))):
            keep.append(k)
    c.assume(len(keep) > 0)
    for k in keep:
        c.assume(and_(gt(ys[k], add(ys[k - 1], 0.125)), gt(ys[k], add(ys[k + 1], 0.125))))
    sn = snapshot(y)
    d, sd = calibration.estimate_d_blind(name, w, np.array(xs), y, 1, most, th)
    unchanged(c, sn, [y], "the profile is not changed")
    lg = [core.log(v) for v in ys]
    tt = [math.tan(float(v)) for v in elems(calibration_standards[name].convert_2theta(w))]
    est = [div(vertex(xs[k], 0.5, lg[k - 1], lg[k], lg[k + 1]), tt[q]) for q, k in enumerate(keep)][:min(most, len(tt))]
    m = smean(est)
    c.check_eq(d, m, "mean of radius over tan(2 theta) of the peaks in order", tol=1e-5)
    c.check_eq(mul(sd, sd), smean(mul(sub(e, m), sub(e, m)) for e in est), "their variance", tol=1e-5)


# ------------------------------------------------------------------ beam centre
CEN = {"unit": ((1.0, 1.0), (4.0, 4.0), dict(phi_steps=5, max_peaks=1, thresh=0.0, window_size=1, nx=5, min_x=0.5, max_x=5.5)),
       "shifted": ((1.0, 1.0), (4.5, 3.75), dict(phi_steps=5, max_peaks=2, thresh=0.1, window_size=1, nx=5, min_x=0.5, max_x=5.5)),
       "pixels": ((2.0, 1.0), (4.25, 4.0), dict(phi_steps=4, max_peaks=1, thresh=0.0, window_size=1, nx=6, min_x=0.5, max_x=8.5)),
       "default_bins": ((1.0, 0.5), (4.0, 4.0), dict(phi_steps=4, max_peaks=1, thresh=0.0, window_size=2))}


@HARNESSES.each(CEN, functions=["calibration.refine_center"], bounds="9x9 images of a ring: any intensities of eight pixels of the ring, the others fixed; stated centres, pixel sizes and numbers of sectors, bins and peaks", quick_s=150)
def center(c, px, ce, kw):
    n = 9
    sym = {(4, 7), (4, 6), (7, 4), (6, 4), (1, 4), (2, 4), (4, 1), (6, 6)}
    im = []
    for i in range(n):
        for j in range(n):
            if (i, j) in sym:
                im.append(c.real("p%d_%d" % (i, j), 20, 120))
            else:
                im.append(12.0 + round(60 * math.exp(-((math.hypot(i - 4, j - 4) - 2.7) ** 2))))
    A = c.array(im).reshape((n, n))
    sn = snapshot(A)
    want = centre_ref(n, im, px, ce, **kw)
    c.assume(want is not None)
    got = calibration.refine_center(A, ce, px, **kw)
    unchanged(c, sn, [A], "the image is not changed")
    c.check(len(got) == 2, "row and column")
    c.check_eq([norm_num(v) for v in got], list(want), "centre moved by the first Fourier coefficients of the ring radius over the angle (sine: rows, cosine: columns)", tol=1e-6)


def centre_ref(n, im, px, ce, phi_steps, max_peaks, thresh, window_size, nx=None, min_x=None, max_x=None):
    nx = nx or 2 * n
    edges = [-PI + 2 * PI * k / (phi_steps - 1) for k in range(phi_steps)]
    rings = []
    for a, b in zip(edges, edges[1:]):
        pts = []
        for i in range(n):
            for j in range(n):
                y, x = px[0] * (i - ce[0]), px[1] * (j - ce[1])
                p = math.atan2(y, x)
                if a < p <= b or (b == edges[-1] and a < p <= PI):
                    pts.append((math.hypot(y, x), im[i * n + j]))
        lo = min_x if min_x is not None else min(r for r, _ in pts)
        hi = max_x if max_x is not None else max(r for r, _ in pts)
        e = list(np.linspace(lo, hi, nx + 1))
        avg, cen = [], []
        for k in range(nx):
            g = [v for r, v in pts if e[k] <= r < e[k + 1] or (k == nx - 1 and r == e[-1])]
            if g and bool(gt(ssum(g), 10)):
                avg.append(smean(g))
                cen.append((e[k] + e[k + 1]) / 2)
        if not avg:
            return None
        top = avg[0]
        for v in avg[1:]:
            top = maximum(top, v)
        found = []
        m = len(avg)
        for k in range(m):
            ok = True
            for d in range(1, window_size + 1):
                ok = and_(ok, and_(gt(avg[k], avg[min(k + d, m - 1)]), gt(avg[k], avg[max(k - d, 0)])))
            if bool(ok):
                win = avg[max(0, k - window_size):k + window_size + 1]
                low = win[0]
                for v in win[1:]:
                    low = minimum(low, v)
                if bool(gt(sub(avg[k], low), mul(thresh, top))):
                    found.append(cen[k])
        rings.append(found[:max_peaks])
    mm = min(len(r) for r in rings)
    if mm == 0:
        return None
    S = len(rings)
    dr = [sum(rings[s][q] - sum(rings[t][q] for t in range(S)) / S for q in range(mm)) / mm for s in range(S)]
    mid = [(a + b) / 2 for a, b in zip(edges, edges[1:])]
    delta = 2 * PI / S
    return (ce[0] + sum(math.sin(p) * d for p, d in zip(mid, dr)) * delta / (PI * px[0]), ce[1] + sum(math.cos(p) * d for p, d in zip(mid, dr)) * delta / (PI * px[1]))


HARNESSES.each({k: RAD[k] for k in list(RAD)[:2]}, functions=["image.construct_circ_avg_image"], bounds="as circular, of any 8-bit counts")(as_counts(circular, "f"))
HARNESSES.each({k: POL[k] for k in list(POL)[:1]}, functions=["image.construct_rphi_avg_image"], bounds="as polar_image, of any 8-bit counts", quick_s=100)(as_counts(polar_image, "f"))
