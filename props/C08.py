"""C08 the cross correlator equals direct masked correlation"""
import numpy as np
from skbeam.core import correlation as corr

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["scipy.signal.fftconvolve is linear convolution (contract stub for symbolic operands)",
               "pixel values are positive, so that no normalisation vanishes"]
FN = ["correlation.CrossCorrelator.__init__", "correlation.CrossCorrelator.__call__", "correlation._cross_corr"]


def spec(img1, img2, mask, norm):
    """{id: (h, w, {(dy,dx): value})}"""
    out = []
    ids = sorted(set(int(v) for v in mask.ravel() if v != 0))
    for m in ids:
        pts = [p for p in np.ndindex(*mask.shape) if mask[p] == m]
        r0, r1 = min(p[0] for p in pts), max(p[0] for p in pts)
        c0, c1 = min(p[1] for p in pts), max(p[1] for p in pts)
        h, w = r1 - r0 + 1, c1 - c0 + 1
        S = set(pts)
        m1, m2 = smean([img1[p] for p in pts]), smean([img2[p] for p in pts])
        res = {}
        for dy in range(-(h - 1), h):
            for dx in range(-(w - 1), w):
                pr = [(p, (p[0] - dy, p[1] - dx)) for p in pts if (p[0] - dy, p[1] - dx) in S]
                if not pr:
                    res[dy, dx] = NAN
                    continue
                n = float(len(pr))
                cc = ssum([mul(img1[a], img2[b]) for a, b in pr])
                if "symavg" in norm:
                    cc = div(mul(cc, n), mul(ssum([img1[a] for a, b in pr]), ssum([img2[b] for a, b in pr])))
                if "regular" in norm:
                    cc = div(cc, mul(n, mul(m1, m2)))
                res[dy, dx] = cc
        out.append((m, h, w, res))
    return out


NORMS = {"default": None, "regular": "regular", "symavg": "symavg", "both": ["regular", "symavg"]}


def body(c, mask, i1, i2, norm, oned, atcall):
    sh = mask.shape
    shape = (sh[1],) if oned else sh
    a1 = i1.reshape(shape)
    a2 = None if i2 is None else i2.reshape(shape)
    snap = snapshot(a1) + (snapshot(a2) if a2 is not None else [])
    mk = c.arr(mask.reshape(shape))
    if atcall:
        cc = corr.CrossCorrelator(shape, mask=mk)
        args = dict(normalization=norm)
    else:
        cc = corr.CrossCorrelator(shape, mask=mk, normalization=norm)
        args = {}
    res = cc(a1, **args) if a2 is None else cc(a1, a2, **args)
    v1 = {p: at(i1, *p) for p in np.ndindex(*sh)}
    v2 = v1 if i2 is None else {p: at(i2, *p) for p in np.ndindex(*sh)}
    n = ["regular"] if norm is None else ([norm] if isinstance(norm, str) else norm)
    sp = spec(v1, v2, mask, n)
    if len(sp) == 1:
        res, pos, cen = [res], [cc.positions], [cc.centers]
    else:
        pos, cen = cc.positions, cc.centers
    c.check(len(res) == len(sp), "one correlation per region")
    for r, ps, ce, (m, h, w, d) in zip(res, pos, cen, sp):
        r2 = r.reshape((1, -1)) if oned else r
        c.check(tuple(r2.shape) == (2 * h - 1, 2 * w - 1), "shape of the correlation")
        c.check_eq(np.asarray(ce), np.array([h - 1, w - 1]), "centre is the zero shift", exact=True)
        if oned:
            c.check_eq(np.asarray(ps), np.arange(-(w - 1), w), "positions", exact=True)
        else:
            c.check_eq(np.asarray(ps[0]), np.arange(-(h - 1), h), "row positions", exact=True)
            c.check_eq(np.asarray(ps[1]), np.arange(-(w - 1), w), "column positions", exact=True)
        for (dy, dx), v in d.items():
            c.check_eq(r2[dy + h - 1, dx + w - 1], v, "correlation value")
    unchanged(c, snap, [a1] + ([a2] if a2 is not None else []), "images unchanged")


def choose_mask(c, sh, maxid):
    m = np.zeros(sh, dtype=int)
    for p in np.ndindex(*sh):
        m[p] = c.choice("m_%d_%d" % p, range(maxid + 1))
    c.assume(bool((m != 0).any()))
    return m


P = {}
for _s in ("self", "cross"):
    for _n in NORMS:
        P["2x2.%s.%s" % (_s, _n)] = ((2, 2), 2, _s, _n, False)
        P["1d4.%s.%s" % (_s, _n)] = ((1, 4), 2, _s, _n, True)


@HARNESSES.each(P, functions=FN, bounds="every labelled mask of the named shape with ids 0..2; pixels any real in [1/8,8]", quick_s=250, weight=2)
def all_masks(c, sh, maxid, kind, norm, oned):
    mask = choose_mask(c, sh, maxid)
    i1 = c.reals("a", sh, 0.125, 8)
    i2 = c.reals("b", sh, 0.125, 8) if kind == "cross" else None
    body(c, mask, i1, i2, NORMS[norm], oned, norm in ("symavg",) and kind == "self")


MASKS = {
    "hole": [[1, 1, 1], [1, 0, 1], [1, 1, 1]],
    "ids31": [[3, 3, 0], [1, 3, 1], [0, 1, 1]],
    "gap": [[7, 0, 0, 7], [0, 2, 2, 0]],
}


@HARNESSES.each({"%s.%s.%s" % (m, k, n): (m, k, n) for m in MASKS for k in ("self", "cross") for n in NORMS}, functions=FN,
                bounds="fixed masks with holes / ids out of order; pixels any real in [1/8,8]", quick_s=250)
def odd_masks(c, m, kind, norm):
    mask = np.array(MASKS[m])
    i1 = c.reals("a", mask.shape, 0.125, 8)
    i2 = c.reals("b", mask.shape, 0.125, 8) if kind == "cross" else None
    body(c, mask, i1, i2, NORMS[norm], False, norm == "both")


@HARNESSES.add(functions=FN, bounds="no mask, 2x3", quick_s=100)
def no_mask(c):
    i1 = c.reals("a", (2, 3), 0.125, 8)
    cc = corr.CrossCorrelator((2, 3))
    r = cc(i1)
    sp = spec({p: at(i1, *p) for p in np.ndindex(2, 3)}, {p: at(i1, *p) for p in np.ndindex(2, 3)}, np.ones((2, 3), int), ["regular"])[0]
    for (dy, dx), v in sp[3].items():
        c.check_eq(r[dy + 1, dx + 2], v, "whole image when no mask is given")
    c.check(raises(c, ValueError, cc, c.reals("b", (3, 2), 1, 2)), "image of the wrong shape is rejected")
    c.check(raises(c, ValueError, cc, i1, c.reals("b", (3, 2), 1, 2)), "second image of the wrong shape is rejected")


@HARNESSES.add(functions=FN, bounds="two calls on one correlator", quick_s=100)
def reuse(c):
    """a correlator carries no state from one image to the next"""
    mask = np.array([[1, 1, 0], [1, 2, 2]])
    cc = corr.CrossCorrelator(mask.shape, mask=c.arr(mask))
    for nm in ("a", "b"):
        i1 = c.reals(nm, mask.shape, 0.125, 8)
        norm = ["symavg"] if nm == "a" else None
        res = cc(i1, normalization=norm) if norm else cc(i1)
        v = {p: at(i1, *p) for p in np.ndindex(*mask.shape)}
        for r, (m, h, w, d) in zip(res, spec(v, v, mask, norm or ["regular"])):
            for (dy, dx), val in d.items():
                c.check_eq(r[dy + h - 1, dx + w - 1], val, "second call unaffected by the first")


HARNESSES.each({"%s.%s.%s" % p: p for p in (("hole", "self", "default"), ("hole", "cross", "regular"), ("ids31", "self", "symavg"), ("gap", "cross", "symavg"))}, functions=FN, bounds="as odd_masks, the pixels are any 8-bit counts from 1", quick_s=250)(as_counts(odd_masks, "a", "b", lo=1))
