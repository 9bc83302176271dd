"""C07 two-time correlation equals its definition; one-time from two-time is the diagonal mean"""
import numpy as np
from skbeam.core import correlation as corr

from .common import *
from .C05 import LAB, level_frames, make_frames, rois_of

HARNESSES = Registry()
ASSUMPTIONS = ["pixel values are finite positive reals, or whole NaN frames"]
FN = ["correlation.two_time_corr", "correlation.lazy_two_time", "correlation._two_time_process",
      "correlation._init_state_two_time", "correlation.two_time_state_to_results", "utils.multi_tau_lags"]


def spec_two_time(frames, labels, nf, nb, nlev):
    rois = rois_of(labels)
    lv = level_frames([elems(f) for f in frames], nlev)
    out = np.zeros((len(rois), nf, nf), dtype=object)
    for q, pix in enumerate(rois):
        for l in range(nlev):
            F = lv[l]
            B = 2 ** l
            for t in range(len(F)):
                for i in range(nb // 2 if l else 0, min(nb, t + 1)):
                    a, b = [F[t][p] for p in pix], [F[t - i][p] for p in pix]
                    if any(isnan(x) for x in a + b):
                        v = NAN
                    else:
                        v = div(mul(ssum([mul(x, y) for x, y in zip(a, b)]), float(len(pix))), mul(ssum(a), ssum(b)))
                    for s in range(B):
                        out[q, t * B + s, (t - i) * B + s] = v
                        out[q, (t - i) * B + s, t * B + s] = v
    return out


def compare_two(c, res, frames, labels, nf, nb, nlev, what):
    sp = spec_two_time(frames, labels, nf, nb, nlev)
    c.check(tuple(res.g2.shape) == sp.shape, what + ": shape")
    for i in np.ndindex(*sp.shape):
        c.check_eq(res.g2[i], sp[i], what + ": value at %s" % (i[1:],))
    lags = [i for i in range(nb)]
    for l in range(1, nlev):
        lags += [2 ** l * i for i in range(nb // 2, nb)]
    c.check_eq(np.asarray(res.lag_steps), np.asarray(lags), what + ": lag steps", exact=True)


@HARNESSES.each({"L1B4N4": (1, 4, 4, 0, "two"), "L1B4N6": (1, 4, 6, 0, "two"), "L1B2N4": (1, 2, 4, 2, "two"), "L2B2N6": (2, 2, 6, 0, "swap"),
                 "L2B4N9": (2, 4, 9, 0, "two"), "L3B2N9": (3, 2, 9, 0, "one"), "L3B4N16": (3, 4, 16, 0, "one"), "L1B8N8": (1, 8, 8, 1, "one")},
                functions=FN, bounds="levels/buffers/frames as named; pixels any real in [1/8,8]", quick_s=250, weight=2)
def two_time_definition(c, nlev, nb, n, spare, lab):
    labels = LAB[lab]
    frames = make_frames(c, n, labels)
    la = c.arr(labels)
    snap = snapshot(*frames, la)
    args = () if nlev == 1 else (nlev,)
    res = corr.two_time_corr(la, list(frames), n + spare, nb, *args)
    compare_two(c, res, frames, labels, n + spare, nb, nlev, "two-time")
    unchanged(c, snap, list(frames) + [la], "inputs unchanged")


@HARNESSES.each({"L1B4N4": (1, 4, 4), "L2B2N4": (2, 2, 4)}, functions=FN, bounds="any subset of frames is NaN", quick_s=250)
def two_time_bad_frames(c, nlev, nb, n):
    labels = LAB["one"]
    frames = make_frames(c, n, labels, range(n))
    res = corr.two_time_corr(c.arr(labels), list(frames), n, nb, nlev)
    compare_two(c, res, frames, labels, n, nb, nlev, "two-time with bad frames")


@HARNESSES.each({"1x3": (1, 3, False), "2x3": (2, 3, False), "2x4": (2, 4, False), "1x2e": (1, 2, True), "1x3e": (1, 3, True), "2x2e": (2, 2, True)},
                functions=["correlation.one_time_from_two_time"], bounds="matrix entries any real in [-8,8]", quick_s=200)
def diagonal_mean(c, nq, n, err):
    g = c.reals("g", (nq, n, n), -8, 8)
    snap = snapshot(g)
    if err:
        o, e = corr.one_time_from_two_time(g, calc_errors=True)
    else:
        o = corr.one_time_from_two_time(g)
    c.check(tuple(o.shape) == (nq, n) and (not err or tuple(e.shape) == (nq, n)), "shape")
    for q in range(nq):
        for j in range(n):
            d = [at(g, q, i, i + j) for i in range(n - j)]
            m = smean(d)
            c.check_eq(o[q, j], m, "mean of the %d-th diagonal" % j)
            if err:
                var = smean([mul(sub(x, m), sub(x, m)) for x in d])
                c.check_eq(mul(norm_num(e[q, j]), norm_num(e[q, j])), div(var, float(len(d))), "squared standard error")
                c.check(ge(norm_num(e[q, j]), 0), "error is not negative")
    unchanged(c, snap, [g], "input unchanged")


@HARNESSES.each({"1x3": (1, 3)}, functions=["correlation.one_time_from_two_time"], bounds="any entries NaN", quick_s=200)
def diagonal_mean_nan(c, nq, n):
    g = c.reals_or_nan("g", (nq, n, n), -8, 8)
    o = corr.one_time_from_two_time(g)
    for q in range(nq):
        for j in range(n):
            d = [at(g, q, i, i + j) for i in range(n - j)]
            d = [x for x in d if not isnan(x)]
            c.check_eq(o[q, j], smean(d) if d else NAN, "nan-mean of the %d-th diagonal" % j)


HARNESSES.each({"L1B4N4": (1, 4, 4, 0, "two"), "L2B2N6": (2, 2, 6, 0, "swap")}, functions=FN, bounds="as two_time_definition, the pixels are any 8-bit counts from 1", quick_s=200)(as_counts(two_time_definition, "I", lo=1))
