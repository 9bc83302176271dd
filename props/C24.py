"""C24 speckle visibility: photon count probabilities per integration time"""
import numpy as np
from skbeam.core import speckle

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["histograms count a value in [edge, next edge), the last bin closed (numpy.histogram)"]


def density(vals, edges):
    """histogram of vals over the edges divided by the number of values inside the edges (unit bins); zeros when none is"""
    nb = len(edges) - 1
    cnt = []
    for k in range(nb):
        up = le if k == nb - 1 else lt
        cnt.append(ssum(ite(and_(ge(v, edges[k]), up(v, edges[k + 1])), 1.0, 0.0) for v in vals))
    tot = ssum(cnt)
    if bool(eq(tot, 0.0)):
        return [0.0] * nb
    return [div(x, tot) for x in cnt]


def reference(sets, pix, levels, max_cts):
    """sets: list of sets of frames (list of values, or None for a bad frame); pix: pixel positions of each label in order"""
    out = []
    for lv in range(levels):
        w = 2 ** lv
        edges = list(range(max_cts * w))
        row = []
        for p in pix:
            m = [0.0] * (len(edges) - 1)
            m2 = list(m)
            for s in sets:
                h = []
                for k in range(len(s) // w):
                    g = s[k * w:(k + 1) * w]
                    if any(f is None for f in g):
                        continue
                    h.append(density([ssum(f[q] for f in g) for q in p], edges))
                for b in range(len(m)):
                    if h:
                        m[b] = add(m[b], div(smean(x[b] for x in h), float(len(sets))))
                        m2[b] = add(m2[b], div(smean(mul(x[b], x[b]) for x in h), float(len(sets))))
            row.append((m, m2))
        out.append(row)
    return out


def frames(c, name, n, npx, sym, hi, bad=None):
    """n frames of npx pixels, the frames listed in sym symbolic, the others fixed counts"""
    r = []
    for k in range(n):
        if k == bad:
            r.append(None)
        elif k in sym:
            r.append([c.int("%s%d_%d" % (name, k, q), 0, hi) for q in range(npx)])
        else:
            r.append([(k * 2 + q) % 3 for q in range(npx)])
    return r


def images(c, s, shape, form):
    r = []
    for f in s:
        r.append(np.full(shape, np.nan) if f is None else c.array(f, float).reshape(shape))
    if form == "generator":
        return (x for x in r)
    return r


LAB = {"two": np.array([[1, 0, 2], [2, 1, 0]]), "gaps": np.array([[5, 2, 0], [0, 2, 9]]), "one": np.array([[1, 1, 0], [0, 0, 0]])}


def pixels(lab):
    f = lab.ravel()
    return [[k for k in range(f.size) if f[k] == v] for v in sorted(set(f.tolist()) - {0})]


@HARNESSES.each({
    "two.first": ("two", [4], [0], None, 3), "two.mid": ("two", [5], [1], None, 3), "two.last": ("two", [4], [3], None, 3), "one.all": ("one", [4], [0, 1], None, 4),
    "one.long": ("one", [8], [6], None, 5), "gaps.bad0": ("gaps", [5], [2], 0, 5), "gaps.bad3": ("gaps", [6], [1, ], 3, 5), "one.bad1": ("one", [5], [4], 1, 4),
    "sets2": ("two", [3, 4], [2], None, 3), "sets2.bad": ("one", [4, 2], [0], 1, 3), "sets3": ("one", [2, 1, 4], [0], None, 5), "sets2.number": ("one", [4, 4], [1], None, 9)},
    functions=["speckle.xsvs", "speckle._process"], bounds="1 to 3 sets of 1 to 8 frames, any counts in one or two frames (the others fixed), with and without a bad frame, one to three regions, one to three integration times", quick_s=150)
def visibility(c, lab, ns, sym, bad, number):
    la = LAB[lab]
    hi, max_cts = 3, 3
    form = c.choice("form", ["lists", "generator"])
    sets = [frames(c, "s%d_" % i, n, la.size, sym if i == len(ns) - 1 else [], hi, bad if i == 0 else None) for i, n in enumerate(ns)]
    levels, t = 1, 1
    while t * 2 < number:
        t, levels = t * 2, levels + 1
    p, sd = speckle.xsvs([images(c, s, la.shape, form) for s in sets], la.copy(), number_of_img=number, max_cts=max_cts)
    want = reference(sets, pixels(la), levels, max_cts)
    c.check(tuple(p.shape) == (levels, len(want[0])) and tuple(sd.shape) == tuple(p.shape), "one entry per integration time and region")
    for lv in range(levels):
        for j, (m, m2) in enumerate(want[lv]):
            got = np.asarray(p[lv, j]) if not isinstance(p[lv, j], np.ndarray) else p[lv, j]
            g = elems(got) if got.ndim else [elems(got)[0]] * len(m)
            c.check_eq(g, m, "mean over the complete windows of the integration time", tol=1e-7)
            gs = sd[lv, j]
            v = elems(gs) if isinstance(gs, np.ndarray) and gs.ndim else [norm_num(gs)] * len(m)
            for a, b, q in zip(v, m, m2):
                if isnan(a):
                    a = 0.0  # variance of zero, rounded below zero
                c.check_eq(mul(a, a), sub(q, mul(b, b)), "variance over the windows", tol=1e-6)


@HARNESSES.add(functions=["speckle.xsvs", "roi.roi_max_counts"], bounds="one set of two frames, default maximum count from the images")
def default_max(c):
    a = c.ints("a", (1, 2), 2, 4)
    la = np.array([[1, 1]])
    b = np.array([[1, 2]])
    p, sd = speckle.xsvs([[a, b]], la, number_of_img=2)
    v = elems(a)
    mx = int(maximum(maximum(v[0], v[1]), 2))
    want = reference([[v, [1, 2]]], [[0, 1]], 1, mx)
    c.check(len(p[0, 0]) == mx - 1, "bins up to the brightest pixel")
    c.check_eq(elems(p[0, 0]), want[0][0][0], "probabilities", tol=1e-7)


@HARNESSES.add(functions=["speckle.normalize_bin_edges"], bounds="any mean intensities, maximum count 2 to 5, up to 3 integration times and 2 regions")
def normalized(c):
    nt, mx = c.choice("times", [1, 2, 3]), c.choice("max", [2, 3, 5])
    mean = c.reals("mean", 2, 0.0625, 16)
    e, m = speckle.normalize_bin_edges(nt, 2, mean, mx)
    c.check(e.shape == (nt, 2) and m.shape == (nt, 2), "one entry per integration time and region")
    for i in range(nt):
        for j in range(2):
            k = mul(at(mean, j), float(2 ** i))
            w = [div(float(x), k) for x in range(mx * 2 ** i)]
            c.check_eq(elems(e[i, j]), w, "edges in units of the mean count", tol=1e-7)
            c.check_eq(elems(m[i, j]), [div(add(a, b), 2.0) for a, b in zip(w, w[1:])], "centres", tol=1e-7)
