"""C09 ROI generators label exactly the requested regions"""
import numpy as np
from skbeam.core import roi

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["skimage.draw.line returns the pixels of the segment including both end points (modelled by its end points)"]


def radius2(ci, cj, i, j):
    return add(mul(sub(i, ci), sub(i, ci)), mul(sub(j, cj), sub(j, cj)))


def in_ring(r2, lo, hi):
    """lo <= sqrt(r2) < hi, without square roots (lo may be negative)"""
    return and_(or_(lt(lo, 0), ge(r2, mul(lo, lo))), gt(hi, 0), lt(r2, mul(hi, hi)))


def inc(c, edges):
    for a, b in zip(edges, edges[1:]):
        c.assume(le(a, b))


def label_is(c, lab, p, regions, what, extra=True):
    """label at p is the number of the (unique) region holding p, else 0; regions: [(number, condition)]"""
    v = at(lab, *p)
    cs = [or_(not_(cond), eq(v, k)) for k, cond in regions]
    cs.append(or_(eq(v, 0), *[and_(eq(v, k), cond) for k, cond in regions]))
    c.check_all(cs, what)


def inside(i, lo, n):
    return and_(le(lo, i), lt(i, add(lo, n)))


@HARNESSES.add(functions=["roi.rectangles"], bounds="3x4 image, one rectangle, start in [-4,5], size in [0,6] on each axis (may lie partly or wholly outside)", quick_s=300, weight=4)
def one_rectangle(c):
    x, y = c.int("x", -4, 5), c.int("y", -4, 5)
    w, h = c.int("w", 0, 6), c.int("h", 0, 6)
    lab = roi.rectangles([(x, y, w, h)], (3, 4))
    c.check(tuple(lab.shape) == (3, 4), "shape")
    for p in np.ndindex(3, 4):
        label_is(c, lab, p, [(1, and_(inside(p[0], x, w), inside(p[1], y, h)))], "rectangle covers exactly its in-image pixels")


def _two(c, axis, shape, a, wa, b, wb, fixed):
    co = []
    for s, n in ((a, wa), (b, wb)):
        r = [fixed[0], fixed[0], fixed[1], fixed[1]]
        r[axis] = s
        r[2 + axis] = n
        co.append(tuple(r))
    return co


@HARNESSES.each({"axis0": (0,), "axis1": (1,)}, functions=["roi.rectangles"], bounds="two rectangles moving along one axis: start in [-2,4], size in [0,3], image side 4", quick_s=300, weight=4)
def two_rectangles(c, axis):
    shape = (4, 2) if axis == 0 else (2, 4)
    a, b = c.int("a", -2, 4), c.int("b", -2, 4)
    wa, wb = c.int("wa", 0, 3), c.int("wb", 0, 3)
    co = _two(c, axis, shape, a, wa, b, wb, (0, 2))
    ov = or_(*[and_(inside(i, a, wa), inside(i, b, wb)) for i in range(4)])
    try:
        lab = roi.rectangles(co, shape)
    except ValueError:
        c.check(ov, "rectangles are rejected only when they overlap")
        return
    c.check(not_(ov), "overlapping rectangles are rejected")
    for p in np.ndindex(*shape):
        i = p[axis]
        label_is(c, lab, p, [(1, inside(i, a, wa)), (2, inside(i, b, wb))], "rectangles labelled in order")


@HARNESSES.each({"1ring": (1,), "2rings": (2,)}, functions=["roi.rings", "roi._make_roi", "utils.radial_grid"],
                bounds="2x3 image, any centre in [-2,4]^2, any non-decreasing radii in [0,6]; flat and paired edge lists", quick_s=250, weight=3)
def rings(c, n):
    ci, cj = c.real("ci", -2, 4), c.real("cj", -2, 4)
    e = [c.real("e%d" % k, 0, 6) for k in range(2 * n)]
    inc(c, e)
    form = c.choice("form", ["pairs", "flat"])
    lab = roi.rings([(e[2 * k], e[2 * k + 1]) for k in range(n)] if form == "pairs" else e, (ci, cj), (2, 3))
    c.check(tuple(lab.shape) == (2, 3), "shape")
    for p in np.ndindex(2, 3):
        r2 = radius2(ci, cj, *p)
        label_is(c, lab, p, [(k + 1, in_ring(r2, e[2 * k], e[2 * k + 1])) for k in range(n)], "ring k holds exactly inner<=r<outer")


@HARNESSES.add(functions=["roi.rings", "roi.bar", "roi.segmented_rings"], bounds="any 4 edges in [0,6]; 3 edges")
def edges_validated(c):
    e = [c.real("e%d" % k, 0, 6) for k in range(4)]
    mono = and_(*[le(a, b) for a, b in zip(e, e[1:])])
    fn = c.choice("fn", ["rings", "bar", "seg"])
    f = {
        "rings": lambda ed: roi.rings(ed, (1.0, 1.0), (2, 2)),
        "bar": lambda ed: roi.bar(ed, (2, 2)),
        "seg": lambda ed: roi.segmented_rings(ed, 2, (0.5, 0.25), (2, 2)),
    }[fn]
    c.check(raises(c, ValueError, f, e[:3]), "odd number of edges rejected")
    try:
        f(e)
        ok = True
    except ValueError:
        ok = False
    c.check(mono if ok else not_(mono), "edges rejected exactly when not non-decreasing")


@HARNESSES.each({"%s.%s.%d" % (w, s, n): (w, s, n) for w in ("num", "list") for s in ("none", "num", "list") for n in (1, 2, 3) if not (s == "list" and n == 1)},
                functions=["roi.ring_edges"], bounds="1..3 rings, any radius, widths, spacings in [0,8]; scalar and list forms; with and without num_rings")
def ring_edges(c, wf, sf, n):
    r0 = c.real("r0", 0, 8)
    W = [c.real("w%d" % k, 0, 8) for k in range(n if wf == "list" else 1)]
    Sp = [c.real("s%d" % k, 0, 8) for k in range(n - 1 if sf == "list" else 1)]
    give = c.bool("give_num")
    kw = {}
    if bool(give) or (wf == "num" and sf != "list"):
        kw["num_rings"] = n
    if sf == "num":
        kw["spacing"] = Sp[0]
    elif sf == "list":
        kw["spacing"] = list(Sp)
    out = roi.ring_edges(r0, list(W) if wf == "list" else W[0], **kw)
    c.check(tuple(out.shape) == (n, 2), "one (inner, outer) pair per ring")
    pos = r0
    for k in range(n):
        if k:
            pos = add(pos, 0 if sf == "none" else Sp[k - 1 if sf == "list" else 0])
        c.check_eq(out[k, 0], pos, "inner radius")
        pos = add(pos, W[k if wf == "list" else 0])
        c.check_eq(out[k, 1], pos, "outer radius")


@HARNESSES.add(functions=["roi.ring_edges"], bounds="list lengths 1..4, num_rings 1..4 or omitted")
def ring_edges_consistency(c):
    nw, ns = c.choice("nw", [0, 1, 2, 3, 4]), c.choice("ns", [0, 1, 2, 3])
    num = c.choice("num", [None, 1, 2, 3, 4])
    w = 1.5 if nw == 0 else [1.5] * nw
    s = 0.5 if ns == 0 else [0.5] * ns
    known = {x for x in (nw or None, ns + 1 if ns else None, num) if x is not None}
    r = raises(c, ValueError, roi.ring_edges, 1.0, w, s, num)
    c.check(r == (len(known) != 1), "inconsistent or missing ring counts rejected, consistent ones accepted")


GEO = {"centre_in": ((1.0, 1.0), (3, 3)), "subpixel": ((0.5, 1.25), (3, 3)), "outside": ((-1.0, 5.0), (2, 3))}


@HARNESSES.each({"%s.%s" % (g, k): (g, k) for g in GEO for k in ("list", "num2", "num3")}, functions=["roi.segmented_rings", "utils.angle_grid", "utils.radial_grid"],
                bounds="three centres on <=3x3 images (equal segments: 2x2); 2 rings with any non-decreasing radii; 3 increasing segment angles in [0,2pi] or 2..3 equal segments; offset in [-pi,pi] (list form: 0)", quick_s=300, weight=4)
def segmented(c, geo, kind):
    center, shape = GEO[geo]
    if kind != "list":
        shape = (2, 2)
    e = [c.real("e%d" % k, 0, 6) for k in range(4)]
    inc(c, e)
    tp = 2 * np.pi
    if kind == "list":
        seg = [c.real("a%d" % k, 0, tp) for k in range(3)]
        c.assume(and_(lt(seg[0], seg[1]), lt(seg[1], seg[2])))
        arg, off = seg, 0
        nseg = 2
    else:
        nseg = int(kind[-1])
        off = c.real("off", -np.pi, np.pi)
        seg = [add(off, float(v)) for v in np.linspace(0, tp, nseg + 1)]
        arg = nseg
    lab = roi.segmented_rings([(e[0], e[1]), (e[2], e[3])], arg, center, shape, offset_angle=off)
    for p in np.ndindex(*shape):
        th = float(np.arctan2(p[0] - center[0], p[1] - center[1])) % tp
        r2 = radius2(center[0], center[1], *p)
        regs = []
        near = False
        for i in range(2):
            ring = in_ring(r2, e[2 * i], e[2 * i + 1])
            for s in range(nseg):
                lo, hi = seg[s], seg[s + 1]
                alts = [and_(le(lo, th + tp * m), lt(th + tp * m, hi)) for m in ((0,) if kind == "list" else (-1, 0, 1))]
                regs.append((i * nseg + s + 1, and_(ring, or_(*alts))))
        # exclude radii and angles within rounding distance of a segment border
        m = 1e-6
        far = True
        if th != 0 or kind != "list":
            far = and_(*[or_(lt(sub(th + tp * k, s), -m), gt(sub(th + tp * k, s), m)) for s in seg for k in ((0,) if kind == "list" else (-1, 0, 1))])
        r = float(np.sqrt(r2))
        if r not in (0.0, 1.0, 0.5, 0.75, 0.25, 2.0):  # r is exact only when rational
            far = and_(far, *[or_(lt(x, r - m), gt(x, r + m)) for x in e])
        v = at(lab, *p)
        c.check_all([or_(not_(far), not_(cond), eq(v, k)) for k, cond in regs]
                    + [or_(not_(far), eq(v, 0), *[and_(eq(v, k), cond) for k, cond in regs])], "segment label")


@HARNESSES.each({k: (k,) for k in ("rings", "bar", "segments", "rectangles")}, functions=["roi.rings", "roi.bar", "roi.segmented_rings", "roi.rectangles"],
                bounds="300 narrow regions, the image lies at any position among them (labels beyond one byte)", quick_s=300, weight=3)
def many_regions(c, kind):
    n = 300
    x = c.real("x", 0, 300)
    if kind == "rings":
        c.assume(and_(*[or_(lt(x, k - 1e-6), gt(x, k + 1e-6)) for k in range(1, 301)]))
        lab = roi.rings([(k, k + 1) for k in range(n)], (sub(0.0, x), 0.0), (1, 1))
        k = at(lab, 0, 0)
        c.check_all([le(sub(k, 1), x), lt(x, k)], "label of the ring that holds the pixel, among 300")
    elif kind == "bar":
        v = c.arr(np.zeros(2))
        v[0] = x
        lab = roi.bar([(k, k + 1) for k in range(n)], (1, 2), values=v)
        k = at(lab, 0, 0)
        c.check_all([le(sub(k, 1), x), or_(lt(x, k), and_(eq(x, n), eq(k, 0)))] if not bool(eq(x, n)) else [eq(k, 0)], "label of the bar that holds the pixel, among 300")
        c.check(eq(at(lab, 0, 1), 1), "label of the second pixel")
    elif kind == "segments":
        s = c.int("s", 0, n - 1)
        w = 2 * np.pi / n
        # the pixel has angle 0: turn the first segment so that the pixel lies in the middle of segment s
        lab = roi.segmented_rings([(0.5, 1.5)], n, (0.0, -1.0), (1, 1), offset_angle=mul(add(s, 0.5), -w))
        c.check_eq(at(lab, 0, 0), add(s, 1), "label of the segment that holds the pixel, among 300", exact=True)
    else:
        r = c.int("r", 0, 3)
        lab = roi.rectangles([(5, 5, 1, 1)] * (n - 1) + [(r, 0, 1, 1)], (4, 1))
        c.check_all([eq(at(lab, i, 0), ite(eq(r, i), n, 0)) for i in range(4)], "label of the 300th rectangle")


@HARNESSES.each({"h": (True, False), "v": (False, False), "h.values": (True, True), "v.values": (False, True)},
                functions=["roi.bar", "roi._make_roi"], bounds="3x4 image, 2 bars with any non-decreasing edges in [-1,5], optional symbolic pixel coordinates")
def bar(c, horizontal, values):
    e = [c.real("e%d" % k, -1, 5) for k in range(4)]
    inc(c, e)
    shape = (3, 4)
    kw = {}
    if values:
        vals = c.reals("v", 12, -1, 5)
        kw["values"] = vals
    if not horizontal or values:
        kw["horizontal"] = horizontal
    lab = roi.bar([(e[0], e[1]), (e[2], e[3])], shape, **kw)
    for p in np.ndindex(*shape):
        x = at(vals, p[0] * 4 + p[1]) if values else (p[0] if horizontal else p[1])
        label_is(c, lab, p, [(k + 1, and_(le(e[2 * k], x), lt(x, e[2 * k + 1]))) for k in (0, 1)], "bar k holds exactly inner<=coordinate<outer")


@HARNESSES.each({"both": (True,), "v_only": (False,)}, functions=["roi.box", "roi.rectangles"], bounds="3x4 image, integer edges in [0,4]: 1 or 2 first-axis intervals x 2 second-axis intervals", quick_s=300, weight=3)
def box(c, both):
    v = [c.int("v%d" % k, 0, 4) for k in range(4)]
    inc(c, v)
    if both:
        h = [c.int("h%d" % k, 0, 4) for k in range(2)]
        inc(c, h)
        lab = roi.box((3, 4), [(v[0], v[1]), (v[2], v[3])], [(h[0], h[1])])
    else:
        h = v
        lab = roi.box((3, 4), [(v[0], v[1]), (v[2], v[3])])
    c.check(tuple(lab.shape) == (3, 4), "shape")
    for p in np.ndindex(3, 4):
        regs = []
        k = 0
        for a in range(0, len(h), 2):
            for b in range(0, 4, 2):
                k += 1
                regs.append((k, and_(le(h[a], p[0]), lt(p[0], h[a + 1]), le(v[b], p[1]), lt(p[1], v[b + 1]))))
        label_is(c, lab, p, regs, "box = product of intervals, numbered in order")


def _line(r0, c0, r1, c1):
    from symx import arr

    return arr.as_sarr([r0, r1]), arr.as_sarr([c0, c1])


@HARNESSES.each({"%d%d" % k: k for k in ((0, 0), (2, 3), (1, 2))}, functions=["roi.lines"], bounds="3x4 image, two segments: the first from a fixed point to any point, the second from any point to any point of its row or column", overrides=lambda: {("skbeam.core.roi", "line"): _line}, quick_s=200)
def lines(c, r0, c0):
    P = [(r0, c0), (c.int("r1", 0, 2), c.int("c1", 0, 3)), (c.int("r2", 0, 2), c.int("c2", 0, 3)), (c.int("r3", 0, 2), 3 - c0)]
    lab = roi.lines([(P[0][0], P[0][1], P[1][0], P[1][1]), (P[2][0], P[2][1], P[3][0], P[3][1])], (3, 4))
    c.check(tuple(lab.shape) == (3, 4), "shape")
    cs = []
    for p in np.ndindex(3, 4):
        on2 = or_(*[and_(eq(P[k][0], p[0]), eq(P[k][1], p[1])) for k in (2, 3)])
        v = at(lab, *p)
        cs += [or_(not_(on2), eq(v, 2)), or_(eq(v, 0), eq(v, 1), eq(v, 2))]
        for nb, (s, t) in ((1, (P[0], P[1])), (2, (P[2], P[3]))):
            box = and_(*[and_(le(minimum(s[a], t[a]), p[a]), le(p[a], maximum(s[a], t[a]))) for a in (0, 1)])
            cs.append(or_(ne(v, nb), box))
        for k in (0, 1):
            cs.append(or_(not_(and_(eq(P[k][0], p[0]), eq(P[k][1], p[1]))), ne(v, 0)))
    c.check_all(cs, "end points carry the number of their line (later lines on top), a line stays in the box of its end points")
    over = roi.lines([(sub(0, P[1][0]), sub(0, P[1][1]), add(2, P[2][0]), add(3, P[2][1]))], (3, 4))
    c.check_all([eq(at(over, 0, 0), 1), eq(at(over, 2, 3), 1)], "points beyond the image are clipped to its border")
    c.check(raises(c, ValueError, roi.lines, [(1, 2, 3)], (3, 4)), "a line needs four coordinates")
