"""C23 SNIP background and Savitzky-Golay smoothing"""
import math

import numpy as np
from skbeam.core import smoothing
from skbeam.core.fitting import background as bg

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["log and exp are uninterpreted functions (equal arguments give equal values), monotone; the energy calibration, widths and iteration numbers are the stated concrete settings, the counts are symbolic",
               "scipy.signal.convolve and fftconvolve are the discrete convolution; the pseudo-inverse of the concrete design matrix is computed by numpy"]
FW = 2 * math.sqrt(2 * math.log(2))


def smaller(a, b):
    return ite(gt(a, b), b, a)


def snip(y, off, lin, quad, xmin=0, xmax=4096, epsilon=2.96, width=0.5, decrease_factor=math.sqrt(2), binning=None, con_val=None, iter_num=None, width_threshold=0.5):
    """the SNIP recurrence in the log-log domain with a window in proportion to the peak width at each channel"""
    n = len(y)
    con_val = con_val if con_val is not None else (3 if binning is None else 5)
    iter_num = iter_num if iter_num is not None else (3 if binning is None else 5)
    # "same" convolution with a box: window centred on each channel, zero outside
    h = (con_val - 1) // 2
    sm = [div(ssum(y[j] for j in range(i - con_val + 1 + h, i + h + 1) if 0 <= j < n), float(con_val)) for i in range(n)]
    win = []
    for i in range(n):
        p = i * (binning if binning is not None else 1.0)
        e = off + p * lin + p ** 2 * quad
        t = max((off / FW) ** 2 + e * epsilon * lin, 0.0)
        w = width * FW * math.sqrt(t) / lin
        win.append(w / 2 if binning is not None and binning > 0 else w)
    b = [core.log(add(core.log(add(v, 1.0)), 1.0)) for v in sm]
    lo, hi = max(xmin, 0), min(xmax, n - 1)

    def clip(v):
        return int(min(max(v, lo), hi))

    def one(b, w):
        return [smaller(b[i], div(add(b[clip(i - w[i])], b[clip(i + w[i])]), 2.0)) for i in range(n)]

    for _ in range(iter_num):
        b = one(b, win)
    while max(win) >= width_threshold:
        b = one(b, win)
        win = [w / decrease_factor for w in win]
    return [sub(core.exp(sub(core.exp(v), 1.0)), 1.0) for v in b]


SNIP = {
    "default": (5, (0.0, 0.25, 0.0), {}),
    "wide": (6, (1.0, 0.5, 0.03125), dict(width=0.75, iter_num=2)),
    "narrow": (5, (0.5, 1.0, 0.0), dict(width=0.1, iter_num=1)),
    "negative": (5, (-1.0, 0.375, 0.0), dict(iter_num=1)),
    "range": (6, (0.25, 0.5, 0.0), dict(xmin=1, xmax=4, iter_num=1)),
    "range_out": (4, (0.25, 0.5, 0.0), dict(xmin=-2, xmax=9, iter_num=1)),
    "binned": (6, (0.25, 0.5, 0.0), dict(spectral_binning=2, iter_num=2)),
    "binned_default": (5, (0.0, 0.25, 0.0), dict(spectral_binning=4)),
    "box1": (4, (0.0, 0.25, 0.0), dict(con_val=1, iter_num=1)),
    "box5": (6, (0.0, 0.5, 0.0), dict(con_val=5, iter_num=0)),
    "noiter": (5, (0.0, 0.25, 0.0), dict(iter_num=0, width_threshold=3.0)),
    "slow": (4, (0.0, 0.5, 0.0), dict(iter_num=1, decrease_factor=1.2, epsilon=3.61)),
    "threshold": (5, (1.0, 0.5, 0.0), dict(iter_num=1, width_threshold=0.25)),
}


@HARNESSES.each({k: k for k in SNIP}, functions=["background.snip_method"], bounds="4 to 6 channels of any counts in [0,1000] (reals, integers or a list); stated calibrations, ranges, widths, binning, box sizes and iteration numbers", quick_s=120)
def snip_background(c, k):
    n, cal, kw = SNIP[k]
    c.lazy_masks = True
    form = c.choice("form", ["array", "ints", "list"]) if k in ("default", "narrow") else "array"
    y = c.ints("y", n, 0, 1000) if form == "ints" else c.reals("y", n, 0, 1000)
    sn = snapshot(y)
    r = bg.snip_method(list(elems(y)) if form == "list" else y, *cal, **kw)
    unchanged(c, sn, [y], "the spectrum is not changed")
    c.check(tuple(r.shape) == (n,), "one value per channel")
    o = dict(kw)
    o["binning"] = o.pop("spectral_binning", None)
    c.check_eq(elems(r), snip(elems(y), *cal, **o), "the SNIP background", tol=1e-6)


def lsq_row(w, order, which):
    """weights of the least-squares polynomial coefficient over a w x w window, exact"""
    from fractions import Fraction as F
    h = w // 2
    ex = [(k - n, n) for k in range(order + 1) for n in range(k + 1)]
    pts = [(i, j) for i in range(-h, h + 1) for j in range(-h, h + 1)]
    A = [[F(i) ** a * F(j) ** b for a, b in ex] for i, j in pts]
    m = len(ex)
    N = [[sum(r[p] * r[q] for r in A) for q in range(m)] + [F(int(p == q)) for q in range(m)] for p in range(m)]
    for p in range(m):
        piv = next(q for q in range(p, m) if N[q][p] != 0)
        N[p], N[piv] = N[piv], N[p]
        N[p] = [v / N[p][p] for v in N[p]]
        for q in range(m):
            if q != p:
                N[q] = [x - N[q][p] * y for x, y in zip(N[q], N[p])]
    row = N[ex.index(which)][m:]
    return {pt: float(sum(row[q] * A[t][q] for q in range(m))) for t, pt in enumerate(pts)}


def absd(a, b):
    d = sub(a, b)
    return core.absolute(d) if hasattr(core, "absolute") else maximum(d, sub(0.0, d))


def extended(img, h):
    """image extended by folding at the borders: low sides downwards, high sides upwards"""
    R, C = img.shape
    g = lambda i, j: at(img, i, j)
    P = {}
    for i in range(-h, R + h):
        for j in range(-h, C + h):
            ri = -i if i < 0 else (2 * (R - 1) - i if i >= R else i)
            rj = -j if j < 0 else (2 * (C - 1) - j if j >= C else j)
            si = -1 if i < 0 else (1 if i >= R else 0)
            sj = -1 if j < 0 else (1 if j >= C else 0)
            ei, ej = min(max(i, 0), R - 1), min(max(j, 0), C - 1)
            if si * sj < 0:
                continue
            if si == 0 and sj == 0:
                P[i, j] = g(i, j)
                continue
            s = si or sj
            e = g(ei, ej)
            d = absd(g(ri, rj), e)
            P[i, j] = add(e, d) if s > 0 else sub(e, d)
    for i in range(-h, 0):
        for j in range(C, C + h):
            P[i, j] = sub(P[0, j], absd(P[-i, j], P[0, j]))
    for i in range(R, R + h):
        for j in range(-h, 0):
            P[i, j] = sub(P[i, 0], absd(P[i, -j], P[i, 0]))
    return P


SG = {"3.1": (3, 1, 3, 4), "3.0": (3, 0, 2, 2), "3.2": (3, 2, 3, 3), "5.2": (5, 2, 3, 4), "5.3": (5, 3, 5, 6), "5.1": (5, 1, 4, 3), "7.2": (7, 2, 4, 4)}


@HARNESSES.each(SG, functions=["smoothing.sgolay2d"], bounds="any image of 2x2 to 5x6 pixels, windows 3, 5 and 7, orders 0 to 3; smoothing and both derivatives", quick_s=120)
def savitzky_golay(c, w, order, R, C):
    img = c.reals("im", (R, C), -16, 16)
    sn = snapshot(img)
    h = w // 2
    which = {None: [(0, 0)]}
    if order:
        which.update({"col": [(1, 0)], "row": [(0, 1)], "both": [(0, 1), (1, 0)]})
    d = c.choice("derivative", list(which))
    r = smoothing.sgolay2d(img, w, order) if d is None else smoothing.sgolay2d(img, w, order, derivative=d)
    unchanged(c, sn, [img], "the image is not changed")
    P = extended(img, h)
    rs = list(r) if d == "both" else [r]
    c.check(len(rs) == len(which[d]), "one result per derivative")
    for a, q in zip(rs, which[d]):
        c.check(tuple(a.shape) == (R, C), "shape of the image")
        W = lsq_row(w, order, q)
        want = [ssum(mul(W[di, dj], P[i + di, j + dj]) for di, dj in W) for i in range(R) for j in range(C)]
        c.check_eq(elems(a), want, "value or slope of the least-squares polynomial of the window around each pixel", tol=1e-7)


@HARNESSES.add(functions=["smoothing.sgolay2d"], bounds="window 1 to 6, order 0 to 6: even windows and underdetermined polynomials are rejected")
def rejected(c):
    w, o = c.choice("w", [2, 3, 4, 5, 6]), c.choice("o", list(range(0, 7)))
    img = c.reals("im", (5, 5), -16, 16)
    bad = w % 2 == 0 or w * w < (o + 1) * (o + 2) // 2
    try:
        smoothing.sgolay2d(img, w, o)
    except ValueError:
        c.check(bad, "only even windows and too high orders are rejected")
        return
    c.check(not bad, "even windows and too high orders are rejected")


HARNESSES.each({k: SG[k] for k in list(SG)[:3]}, functions=["smoothing.sgolay2d"], bounds="as the smoothing of images, of any 8-bit counts", quick_s=120)(as_counts(savitzky_golay, "im"))
