"""C15 masks"""
import numpy as np
from skbeam.core import mask

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["scipy.stats.binned_statistic bins as documented (half-open bins, last bin closed; contract stub)"]


@HARNESSES.each({"list": ("list",), "generator": ("generator",)}, functions=["mask.bad_to_nan_gen"], bounds="4 images of 1x2 pixels of any values; any subset marked bad")
def bad_frames(c, how):
    imgs = [c.reals("I%d" % t, (1, 2), -8, 8) for t in range(4)]
    flags = [bool(c.bool("bad%d" % t)) for t in range(4)]
    bad = [t for t in range(4) if flags[t]]
    if c.choice("order", ["up", "down"]) == "down":
        bad = bad[::-1]
    snap = snapshot(*imgs)
    k = 0
    for t, o in enumerate(mask.bad_to_nan_gen(imgs if how == "list" else iter(imgs), bad)):
        c.check(tuple(o.shape) == (1, 2), "shape")
        for i in np.ndindex(1, 2):
            if flags[t]:
                c.check(isnan(at(o, *i)), "bad frames are all NaN")
            else:
                c.check(not isnan(at(o, *i)) and eq(at(o, *i), at(imgs[t], *i)), "good frames pass unchanged")
        k += 1
    c.check(k == 4, "one frame out per frame in")
    unchanged(c, snap, imgs, "the images given are not changed")


@HARNESSES.each({"none": ("none",), "given": ("given",)}, functions=["mask.threshold"], bounds="3 images of 1x2 pixels, any values and threshold in [-8,8], any starting mask")
def threshold(c, how):
    imgs = [c.reals("I%d" % t, (1, 2), -8, 8) for t in range(3)]
    th = c.real("th", -8, 8)
    start = [[1, 1]]
    kw = {}
    if how == "given":
        m = c.ints("m", (1, 2), 0, 1)
        start = [[at(m, 0, j) for j in range(2)]]
        kw["mask"] = m
        msnap = snapshot(m)
    snap = snapshot(*imgs)
    n = 0
    outs = []
    for o in mask.threshold(imgs, th, **kw):
        outs.append(o)
        n += 1
    if how == "given":
        unchanged(c, msnap, [m], "the mask given is not changed")
    for t, o in enumerate(outs):  # once all images are seen: the masks of earlier images still tell their own state
        c.check(tuple(o.shape) == (1, 2), "shape")
        for j in range(2):
            over = or_(*[ge(at(imgs[q], 0, j), th) for q in range(t + 1)])
            c.check(eq(at(o, 0, j), ite(over, 0, start[0][j])), "masked exactly when this or an earlier image reached the threshold (or masked before)")
    c.check(n == 3, "one mask per image")
    unchanged(c, snap, imgs, "the images given are not changed")


@HARNESSES.each({"%dx%d" % s: (s,) for s in ((4, 5), (3, 3), (2, 6), (1, 4))}, functions=["mask.margin"], bounds="image shape as named, any edge size in [0,4]")
def margin(c, shape):
    e = c.int("edge", 0, 4)
    m = mask.margin(shape, e)
    c.check(tuple(m.shape) == tuple(shape), "shape")
    for i, j in np.ndindex(*shape):
        inside = and_(ge(i, e), lt(i, sub(shape[0], e)), ge(j, e), lt(j, sub(shape[1], e)))
        v = core.tb(at(m, i, j))
        c.check(or_(and_(v, inside), and_(not_(v), not_(inside))), "good exactly when at least edge_size away from every border")


AL = {"scalar": "scalar", "tuple": "tuple", "array": "array"}


@HARNESSES.each({"%s.%s" % (a, m): (a, m) for a in AL for m in ("none", "mask")}, functions=["mask.binned_outlier"], bounds="1x4 image of any values, radii on and off the edges of two bins; any alpha in [1/8,4] (scalar, linear range, per bin); any starting mask (two pixels per bin at least one kept)", quick_s=250, weight=3)
def outlier(c, akind, mk):
    shape = (2, 3)
    img = c.reals("I", shape, -4, 4)
    r = np.array([[0.0, 0.5, 1.0], [1.5, 1.0, 2.0]])
    bins = [0.0, 1.0, 2.0]
    which = np.array([[0, 0, 1], [1, 1, 1]])
    a0, a1 = c.real("a0", 0.125, 4), c.real("a1", 0.125, 4)
    alpha = {"scalar": a0, "tuple": (a0, a1), "array": c.arr(np.array([a0, a1], dtype=object))}[akind]
    al = [a0, a0] if akind == "scalar" else [a0, a1]
    keep = np.ones(shape, dtype=bool)
    kw = {}
    if mk == "mask":
        keep = np.array([[bool(c.bool("m%d%d" % (i, j))) if (i, j) in ((0, 1), (0, 2), (1, 0)) else True for j in range(3)] for i in range(2)])
        kw["mask"] = c.arr(keep.ravel() if c.choice("flat", [True, False]) else keep)
        snapm = snapshot(kw["mask"])
    snap = snapshot(img)
    out = mask.binned_outlier(img, c.arr(r), alpha, bins, **kw)
    c.check(tuple(out.shape) == shape, "shape")
    for b in (0, 1):
        px = [p for p in np.ndindex(*shape) if which[p] == b and keep[p]]
        n = float(len(px))
        mean = div(ssum(at(img, *p) for p in px), n)
        std = core.sqrt(div(ssum(mul(sub(at(img, *p), mean), sub(at(img, *p), mean)) for p in px), n))
        for p in np.ndindex(*shape):
            if which[p] != b:
                continue
            v = core.tb(at(out, *p))
            if not keep[p]:
                c.check(not_(v), "pixels masked before stay masked")
                continue
            x, lim = at(img, *p), mul(al[b], std)
            # at the limit itself (within rounding) either answer is accepted
            inner = and_(gt(x, add(sub(mean, lim), 1e-9)), lt(x, sub(add(mean, lim), 1e-9)))
            outer = and_(gt(x, sub(sub(mean, lim), 1e-9)), lt(x, add(add(mean, lim), 1e-9)))
            c.check_all([or_(not_(v), outer), or_(v, not_(inner))], "kept exactly when within alpha standard deviations of the mean of its bin")
    unchanged(c, snap, [img], "the image given is not changed")
    if mk == "mask":
        unchanged(c, snapm, [kw["mask"]], "the mask given is not changed")


HARNESSES.each({"list": ("list",)}, functions=["mask.bad_to_nan_gen"], bounds="as bad_frames, of any 8-bit counts")(as_counts(bad_frames, "I"))
HARNESSES.each({"none": ("none",)}, functions=["mask.threshold"], bounds="as threshold, of any 8-bit counts")(as_counts(threshold, "I"))
HARNESSES.each({"scalar.none": ("scalar", "none")}, functions=["mask.binned_outlier"], bounds="as outlier, of any 8-bit counts", quick_s=200)(as_counts(outlier, "I"))
