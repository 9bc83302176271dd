"""C10 per-ROI reductions report exactly the ROI's pixels"""
import numpy as np
from skbeam.core import roi

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["scipy.ndimage.mean and maximum compute the mean and maximum over the pixels of a label (contract stubs)"]


def labels(c, shape, hi=2, lo=0):
    return c.ints("L", shape, lo, hi)


def pix(lab, q):
    """flat positions carrying label q (case split)"""
    return [i for i, v in enumerate(elems(lab)) if bool(eq(v, q))]


@HARNESSES.each({"2x2": ((2, 2), 2), "2x3": ((2, 3), 2), "1x4": ((1, 4), 3)}, functions=["roi.roi_pixel_values"], bounds="any labels 0..k on the named shape, any image; default index, and any requested labels", quick_s=200)
def pixel_values(c, shape, k):
    lab = labels(c, shape, k)
    img = c.reals("I", shape, -8, 8)
    how = c.choice("index", ["default", "given"])
    if how == "given":
        idx = [k, 1]
        r, used = roi.roi_pixel_values(img, lab, index=idx)
    else:
        idx = list(range(1, max(int(v) for v in elems(lab)) + 1))
        r, used = roi.roi_pixel_values(img, lab)
    c.check_eq(np.asarray(used), np.asarray(idx, dtype=int), "labels reported", exact=True)
    c.check(len(r) == len(idx), "one entry per label")
    f = elems(img)
    for j, q in enumerate(idx):
        want = [f[i] for i in pix(lab, q)]
        c.check_eq(elems(r[j]), want, "pixels of label, in image order", exact=True)


@HARNESSES.add(functions=["roi.roi_pixel_values", "roi.mean_intensity"], bounds="mismatching shapes")
def shape_mismatch(c):
    img = c.reals("I", (2, 2), 0, 1)
    c.check(raises(c, ValueError, roi.roi_pixel_values, img, c.arr(np.ones((2, 3), int))), "pixel values: shapes must agree")
    ims = c.reals("S", (1, 2, 2), 0, 1)
    c.check(raises(c, ValueError, roi.mean_intensity, ims, c.arr(np.ones((2, 3), int))), "mean intensity: shapes must agree")


@HARNESSES.each({"default": (None, 0), "nobackground": (None, 1), "list": ([2, 1], 0), "single": (2, 0), "gap": ([4], 0)},
                functions=["roi.mean_intensity"], bounds="2 images 2x2, any labels 0..2 (1..2 without background), any intensities; requested labels as named", quick_s=200)
def mean_intensity(c, index, lo):
    lab = labels(c, (2, 2), 2, lo)
    ims = c.reals("I", (2, 2, 2), -8, 8)
    if index == [4]:
        lab = mul_lab(c, lab)
        idx = [4]
    elif index is None:
        idx = sorted({int(v) for v in elems(lab)} - {0})
    else:
        idx = index if isinstance(index, list) else [index]
    snap = snapshot(ims, lab)
    r, used = roi.mean_intensity(ims, lab) if index is None else roi.mean_intensity(ims, lab, index=index)
    c.check([int(v) for v in used] == idx, "labels reported")
    c.check(tuple(r.shape) == (2, len(idx)), "one row per image, one column per label")
    for n in range(2):
        for j, q in enumerate(idx):
            p = pix(lab, q)
            want = smean([at(ims, n, i // 2, i % 2) for i in p]) if p else NAN
            c.check_eq(r[n, j], want, "mean of the label's pixels")
    unchanged(c, snap, [ims, lab], "inputs unchanged")


def mul_lab(c, lab):
    return lab * 2


@HARNESSES.each({"1img": (1, 1), "2sets": (2, 1), "2imgs": (1, 2)}, functions=["roi.roi_max_counts"], bounds="sets x images of 2x2 pixels, any non-negative values, any labels 0..2 with at least one ROI pixel", quick_s=200)
def max_counts(c, nset, nimg):
    lab = labels(c, (2, 2), 2)
    c.assume(or_(*[gt(v, 0) for v in elems(lab)]))
    sets = [c.reals("S%d" % s, (nimg, 2, 2), 0, 8) for s in range(nset)]
    r = roi.roi_max_counts(sets, lab)
    roi_px = [i for i, v in enumerate(elems(lab)) if bool(gt(v, 0))]
    vals = [elems(s[k])[i] for s in sets for k in range(nimg) for i in roi_px]
    c.check_all([le(v, r) for v in vals], "no ROI pixel is brighter")
    c.check(or_(*[eq(v, r) for v in vals]), "attained by a ROI pixel")


@HARNESSES.each({"2x2": ((2, 2), 3), "2x3": ((2, 3), 2)}, functions=["roi.kymograph", "roi.roi_pixel_values"], bounds="2-3 images, any labels 0..2, chosen ROI non-empty", quick_s=200)
def kymograph(c, shape, n):
    lab = labels(c, shape, 2)
    q = c.choice("num", [1, 2])
    p = pix(lab, q)
    c.assume(len(p) > 0)
    ims = [c.reals("I%d" % k, shape, -8, 8) for k in range(n)]
    r = roi.kymograph(ims, lab, q)
    c.check(tuple(r.shape) == (n, len(p)), "rows are images, columns the ROI's pixels")
    for k in range(n):
        f = elems(ims[k])
        c.check_eq(elems(r[k]), [f[i] for i in p], "pixel values over time", exact=True)


@HARNESSES.each({"2x3": ((2, 3), -1, 2), "3x2": ((3, 2), 0, 2), "1x5": ((1, 5), 0, 3), "4x1": ((4, 1), 0, 3)}, functions=["roi.extract_label_indices"], bounds="any labels in the named range and shape", quick_s=200)
def label_indices(c, shape, lo, hi):
    lab = labels(c, shape, hi, lo)
    mask, ind = roi.extract_label_indices(lab)
    v = elems(lab)
    want = [i for i, x in enumerate(v) if bool(gt(x, 0))]
    c.check_eq(elems(ind), want, "flat positions of the labelled pixels in order", exact=True)
    c.check_eq(elems(mask), [v[i] for i in want], "labels at these positions", exact=True)


HARNESSES.each({"2x2": ((2, 2), 2)}, functions=["roi.roi_pixel_values"], bounds="as pixel_values, of any 8-bit counts", quick_s=100)(as_counts(pixel_values, "I"))
HARNESSES.each({"default": (None, 0), "list": ([2, 1], 0)}, functions=["roi.mean_intensity"], bounds="as mean_intensity, of any 8-bit counts", quick_s=100)(as_counts(mean_intensity, "I"))
HARNESSES.each({"2sets": (2, 1)}, functions=["roi.roi_max_counts"], bounds="as max_counts, of any 8-bit counts", quick_s=100)(as_counts(max_counts, "S"))
HARNESSES.each({"2x2": ((2, 2), 3)}, functions=["roi.kymograph"], bounds="as kymograph, of any 8-bit counts", quick_s=100)(as_counts(kymograph, "I"))
