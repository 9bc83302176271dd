"""C05 one-time multi-tau correlation equals its definition"""
import numpy as np
from skbeam.core import correlation as corr

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["pixel values are finite (a bad frame is a frame of NaN, as bad_to_nan_gen produces)"]
FN = ["correlation.lazy_one_time", "correlation.multi_tau_auto_corr", "correlation._one_time_process",
      "correlation._init_state_one_time", "correlation._validate_and_transform_inputs", "utils.multi_tau_lags",
      "roi.extract_label_indices"]

LAB = {
    "two": [[2, 0, 5], [5, 0, 0]],
    "one": [[0, 1]],
    "swap": [[7, 3, 0]],
}


def rois_of(labels):
    lab = np.asarray(labels).ravel()
    ids = sorted(set(int(x) for x in lab if x > 0))
    return [[i for i, v in enumerate(lab) if v == q] for q in ids]


def level_frames(frames, nlev):
    """frames: list of lists of pixel values; level l is the pairwise mean of level l-1"""
    lv = [frames]
    for _ in range(1, nlev):
        p = lv[-1]
        lv.append([[div(add(a, b), 2.0) for a, b in zip(p[2 * k], p[2 * k + 1])] for k in range(len(p) // 2)])
    return lv


def lag_table(nlev, nb):
    """(level, delay) for every row of the result"""
    t = [(0, i) for i in range(nb)]
    for l in range(1, nlev):
        t += [(l, i) for i in range(nb // 2, nb)]
    return t


def spec_one_time(frames, labels, nlev, nb):
    """(g2 rows, lag_steps): pair averages over time of ROI means, by definition"""
    rois = rois_of(labels)
    lv = level_frames(frames, nlev)
    rows, lags = [], []
    for l, i in lag_table(nlev, nb):
        F = lv[l]
        row = []
        zero = False
        for pix in rois:
            ps = []
            for t in range(i, len(F)):
                past, fut = [F[t - i][p] for p in pix], [F[t][p] for p in pix]
                allp = [F[t - i][p] for q in rois for p in q] + [F[t][p] for q in rois for p in q]
                if any(isnan(x) for x in allp):
                    continue
                ps.append((smean([mul(a, b) for a, b in zip(past, fut)]), smean(past), smean(fut)))
            if not ps:
                zero = True
                continue
            G, P, Fu = smean([p[0] for p in ps]), smean([p[1] for p in ps]), smean([p[2] for p in ps])
            row.append((G, P, Fu))
        if zero:
            break
        if any(bool(eq(P, 0)) for _, P, _ in row):
            break
        rows.append([div(G, mul(P, Fu)) for G, P, Fu in row])
        lags.append(2 ** l * i)
    return rows, lags


def make_frames(c, n, labels, bad=(), lo=0.125, hi=8):
    shp = np.asarray(labels).shape
    imgs = []
    for t in range(n):
        if t in bad and bool(c.bool("bad_%d" % t)):
            imgs.append(c.arr(np.full(shp, np.nan)))
        else:
            imgs.append(c.reals("I%d" % t, shp, lo, hi))
    return imgs


def compare(c, res, frames, labels, nlev, nb, what):
    g2, lag = res
    rows, lags = spec_one_time([elems(f) for f in frames], labels, nlev, nb)
    c.check(g2.shape[0] == len(rows), what + ": number of lags reported")
    c.check_eq(np.asarray(lag), np.asarray(lags, dtype=int).reshape(len(lags)), what + ": lag steps", exact=True)
    for k, row in enumerate(rows):
        for q, v in enumerate(row):
            c.check_eq(g2[k, q], v, what + ": g2 value")


CONF = {
    "L1B2N4": (1, 2, 4, "two", ()),
    "L1B4N6": (1, 4, 6, "two", ()),
    "L2B2N6": (2, 2, 6, "two", ()),
    "L2B4N9": (2, 4, 9, "one", ()),
    "L3B2N9": (3, 2, 9, "two", ()),
    "L3B4N17": (3, 4, 17, "one", ()),
    "L4B2N17": (4, 2, 17, "one", ()),
    "L1B8N11": (1, 8, 11, "one", ()),
    "L2B4N9swap": (2, 4, 9, "swap", ()),
    "bad.L1B4N6": (1, 4, 6, "two", range(6)),
    "bad.L2B2N7": (2, 2, 7, "swap", range(7)),
    "bad.L2B4N8": (2, 4, 8, "one", range(8)),
    "bad.L3B2N9": (3, 2, 9, "one", (0, 1, 3, 4, 6, 7, 8)),
}


@HARNESSES.each(CONF, functions=FN, bounds="levels/buffers/frames as named; pixel values any real in [1/8,8]; any subset of the listed frames bad", quick_s=200, weight=3)
def g2_definition(c, nlev, nb, n, lab, bad):
    labels = LAB[lab]
    frames = make_frames(c, n, labels, bad)
    la = c.arr(labels)
    snap = snapshot(*frames, la)
    g2, lags = corr.multi_tau_auto_corr(nlev, nb, la, list(frames))
    compare(c, (g2, lags), frames, labels, nlev, nb, "multi_tau")
    unchanged(c, snap, list(frames) + [la], "inputs unchanged")


@HARNESSES.each({"L2B4N7": (2, 4, 7, "two"), "L3B2N6": (3, 2, 6, "one")}, functions=FN,
                bounds="every intermediate result of the generator", quick_s=200)
def every_prefix(c, nlev, nb, n, lab):
    labels = LAB[lab]
    frames = make_frames(c, n, labels)
    k = 0
    for r in corr.lazy_one_time(iter(frames), nlev, nb, c.arr(labels)):
        k += 1
        compare(c, (r.g2, r.lag_steps), frames[:k], labels, nlev, nb, "after frame %d" % k)
    c.check(k == n, "one result per frame")


@HARNESSES.each({"L1B2N3": (1, 2, 3), "L2B2N4": (2, 2, 4)}, functions=FN, bounds="intensities may be zero: pixel values any real in [0,8]", quick_s=200)
def dark_frames(c, nlev, nb, n):
    labels = [[1, 2]]
    frames = make_frames(c, n, labels, (), lo=0)
    rows, lags = spec_one_time([elems(f) for f in frames], labels, nlev, nb)
    g2, lag = corr.multi_tau_auto_corr(nlev, nb, c.arr(labels), list(frames))
    c.check(g2.shape[0] == len(rows), "rows up to the first vanishing past intensity")
    for k, row in enumerate(rows):
        for q, v in enumerate(row):
            c.check_eq(g2[k, q], v, "g2 value")


@HARNESSES.add(functions=["correlation.auto_corr_scat_factor"], bounds="3 lags, all parameters symbolic; exp uninterpreted")
def scat_factor(c):
    lags = c.reals("lag", 3, 0, 10)
    b, r, base = c.real("beta", 0, 2), c.real("rate", 0, 4), c.real("base", 0, 2)
    out = corr.auto_corr_scat_factor(lags, b, r, base)
    for k in range(3):
        c.check_eq(out[k], add(mul(b, core.exp(mul(mul(-2, r), at(lags, k)))), base), "beta*exp(-2*rate*lag)+baseline")
    d = corr.auto_corr_scat_factor(lags, b, r)
    for k in range(3):
        c.check_eq(d[k], add(mul(b, core.exp(mul(mul(-2, r), at(lags, k)))), 1), "default baseline 1")


@HARNESSES.add(functions=FN, bounds="odd number of buffers 1,3,5")
def odd_buffers_rejected(c):
    nb = c.choice("nb", [1, 3, 5])
    c.check(raises(c, ValueError, corr.multi_tau_auto_corr, 2, nb, c.arr([[1, 1]]), [c.reals("I", (1, 2), 1, 2)]), "odd num_bufs is rejected")


HARNESSES.each({k: CONF[k] for k in ("L2B2N6", "bad.L1B4N6")}, functions=FN, bounds="as g2_definition, the pixels are any 8-bit counts from 1", quick_s=200)(as_counts(g2_definition, "I", lo=1))
