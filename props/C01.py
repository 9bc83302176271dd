"""C01 3-D gridder (C extension): sums, counts, standard errors, threads, memory"""
import numpy as np
from skbeam.core import utils

from symx import cexec

from .ccommon import ctrans
from .common import *

HARNESSES = Registry()
ASSUMPTIONS = [
    "C doubles are exact reals (or NaN); integers are bounded by their C types",
    "the C source is parsed with stand-in Python/numpy headers; PyArg_ParseTupleAndKeywords and the numpy C API follow their documentation",
    "OpenMP threads are interleaved at barriers only, which is exact for the data-race-free executions the race check establishes",
]
FUN = ["src/ctrans.c:gridder_3D", "src/ctrans.c:c_grid3d"]
GRIDS = {
    "2x1x1": ((0.0, 0.0, 0.0), (4.0, 1.0, 2.0), (2, 1, 1)),
    "1x3x1": ((-1.0, -3.0, 1.0), (1.0, 3.0, 2.0), (1, 3, 1)),
    "2x1x2": ((-2.0, 5.0, 0.0), (2.0, 6.0, 8.0), (2, 1, 2)),
    "2x2x2": ((0.0, 0.0, 0.0), (2.0, 2.0, 2.0), (2, 2, 2)),
    "1x1x4": ((0.0, 0.0, -4.0), (2.0, 2.0, 4.0), (1, 1, 4)),
}


def points(c, n, nanpos=False, nanval=True):
    d = np.empty((n, 4), dtype=object)
    for k in range(n):
        if nanpos:
            d[k, :3] = elems(c.reals_or_nan("x%d" % k, 3, -8, 8))
        else:
            d[k, :3] = elems(c.reals("x%d" % k, 3, -8, 8))
        d[k, 3] = elems(c.reals_or_nan("I%d" % k, 1, -4, 4))[0] if nanval else c.real("I%d" % k, -4, 4)
    return c.arr(d)


def in_cell(p, cell, start, stop, n):
    cond = []
    for ax in range(3):
        if isnan(p[ax]):
            return False
        w = (stop[ax] - start[ax]) / n[ax]
        cond += [ge(p[ax], start[ax] + cell[ax] * w), lt(p[ax], start[ax] + (cell[ax] + 1) * w)]
    return and_(*cond)


def verify(c, data, out, start, stop, n, base=None):
    tot, tot2, cnt, se = out
    np_ = data.shape[0]
    rows = [[at(data, k, q) for q in range(4)] for k in range(np_)]
    for a in out:
        c.check(tuple(a.shape) == tuple(n), "outputs have the shape of the grid")
    for cell in np.ndindex(*n):
        s = s2 = 0
        m = 0
        for r in rows:
            if isnan(r[3]):
                continue
            if bool(in_cell(r, cell, start, stop, n)):
                s, s2, m = add(s, r[3]), add(s2, mul(r[3], r[3])), m + 1
        if base is not None:
            s, s2, m = add(s, at(base[0], *cell)), add(s2, at(base[1], *cell)), add(m, at(base[2], *cell))
        c.check_eq(cnt[cell], m, "count of a cell")
        c.check_eq(tot[cell], s, "sum of a cell")
        c.check_eq(tot2[cell], s2, "sum of squares of a cell")
        e = se[cell]
        if base is not None:
            continue
        c.check(ge(e, 0), "standard error is a number >= 0")
        # e^2 = (s2 - s^2/m)/m/m
        mm = mul(m, 1.0)
        c.check_eq(mul(mul(e, e), mul(mm, mul(mm, mm))), sub(mul(s2, mm), mul(s, s)) if m else 0.0, "standard error of a cell")


@HARNESSES.each({"%s.%dpt.%dthr" % (g, n, t): (g, n, t) for g, n, t in [("2x1x1", 3, 1), ("2x1x1", 2, 2), ("1x3x1", 2, 1), ("1x3x1", 2, 2), ("2x1x2", 2, 2), ("2x2x2", 1, 3), ("1x1x4", 2, 2)]},
                functions=FUN, bounds="named grid, number of points and threads; any positions in [-8,8]^3, any values in [-4,4] or NaN, any assignment of points to threads", quick_s=150, weight=4)
def cells(c, g, npts, threads):
    start, stop, n = GRIDS[g]
    data = points(c, npts)
    h = ctrans(c, threads, schedule=lambda it, t: c.choice("thread_of_point_%d" % it, range(t)) if t > 1 else 0)
    out = h.m.grid3d(data, start, stop, n)
    verify(c, data, out, start, stop, n)
    c.check(h.memory_errors() == 0, "no access outside an allocation")
    c.check(h.leaked() == 0, "all memory is released")


@HARNESSES.each({"%dthr" % t: t for t in (1, 2)}, functions=FUN, bounds="1 point with any of its coordinates NaN; 2x1x2 grid", quick_s=60)
def nan_positions(c, threads):
    start, stop, n = GRIDS["2x1x2"]
    data = points(c, 1, nanpos=True)
    h = ctrans(c, threads)
    verify(c, data, h.m.grid3d(data, start, stop, n), start, stop, n)


@HARNESSES.add(functions=FUN, bounds="2 points, 2x1x1 grid with any previous sums and counts", quick_s=60)
def accumulate(c):
    start, stop, n = GRIDS["2x1x1"]
    data = points(c, 2)
    b = [c.reals("s", n, -4, 4), c.reals("q", n, 0, 16), c.ints("m", n, 0, 5, dtype=np.uint64)]
    h = ctrans(c, 2)
    out = h.m.grid3d(data, start, stop, n, gridout=b[0].copy(), grid2out=b[1].copy(), nout=b[2].copy())
    verify(c, data, out, start, stop, n, base=b)


@HARNESSES.add(functions=FUN, bounds="1 point on a 2x1x1 grid, any range per axis of width in [0.5,8]", quick_s=60)
def any_range(c):
    start = [c.real("a%d" % k, -4, 4) for k in range(3)]
    w = [c.real("w%d" % k, 0.5, 8) for k in range(3)]
    stop = [add(a, b) for a, b in zip(start, w)]
    data = points(c, 1, nanval=False)
    p = [at(data, 0, k) for k in range(4)]
    # keep away from the edges, where the rounding of doubles decides
    for k in range(3):
        for e in ([start[k], stop[k], add(start[k], mul(w[k], 0.5))]):
            c.assume(or_(gt(sub(p[k], e), 1e-6), lt(sub(p[k], e), -1e-6)))
    out = ctrans(c, 1).m.grid3d(data, tuple(start), tuple(stop), (2, 1, 1))
    ins = and_(*[and_(ge(p[k], start[k]), lt(p[k], stop[k])) for k in range(3)])
    low = lt(mul(2.0, sub(p[0], start[0])), w[0])
    c.check_eq(out[2][0, 0, 0], ite(and_(ins, low), 1, 0), "lower cell")
    c.check_eq(out[2][1, 0, 0], ite(and_(ins, not_(low)), 1, 0), "upper cell")
    c.check_eq(out[0][0, 0, 0], ite(and_(ins, low), p[3], 0.0), "lower sum")
    c.check_eq(out[0][1, 0, 0], ite(and_(ins, not_(low)), p[3], 0.0), "upper sum")


@HARNESSES.add(functions=FUN, bounds="the extension built without OpenMP: 2 points, 2x1x1 grid", quick_s=60)
def without_openmp(c):
    start, stop, n = GRIDS["2x1x1"]
    data = points(c, 2)
    h = ctrans(c, 1, openmp=False)
    out = h.m.grid3d(data, start, stop, n)
    verify(c, data, out, start, stop, n)
    c.check(h.memory_errors() == 0, "no access outside an allocation")
    c.check(h.leaked() == 0, "all memory is released")


@HARNESSES.each({"%dthr" % t: t for t in (1, 2, 3)}, functions=FUN, bounds="any one of the allocations fails; 2 points", quick_s=60)
def allocation_failure(c, threads):
    start, stop, n = GRIDS["2x1x1"]
    data = points(c, 2, nanval=False)
    k = c.choice("failing allocation", range(1, 1 + 1 + 3 * threads))
    h = ctrans(c, threads, fail_at=k)
    r = False
    try:
        h.m.grid3d(data, start, stop, n)
    except MemoryError:
        r = True
    c.check(r == h.failed(k), "an allocation failure is reported as MemoryError")
    c.check(h.leaked() == 0, "memory is released after an allocation failure")
    c.check(h.memory_errors() == 0, "no access outside an allocation")


@HARNESSES.each({"2thr": 2, "3thr": 3}, functions=FUN, bounds="2 points, any assignment to the threads; conflicting unsynchronised accesses", quick_s=60)
def race_free(c, threads):
    start, stop, n = GRIDS["2x1x1"]
    if c.symbolic:
        data = points(c, 2, nanval=False)
        h = ctrans(c, threads, races=True, schedule=lambda it, t: c.choice("thread_of_point_%d" % it, range(t)))
        try:
            h.m.grid3d(data, start, stop, n)
            ok = True
        except cexec.CRace:
            ok = False
        c.check(ok, "threads share no data without synchronisation")
        return
    # replay: many threads on a large grid, against a serial reference
    rng = np.random.RandomState(0)
    ok = True
    for rep in range(40):
        m = 60
        data = np.column_stack([rng.rand(3000, 3), rng.randint(1, 9, 3000)]).astype(float)
        h = ctrans(c, 8)
        tot, tot2, cnt, se = h.m.grid3d(data, (0.0,) * 3, (1.0,) * 3, (m, m, m))
        idx = tuple((data[:, :3] * m).astype(int).T)
        ref = np.zeros((m, m, m))
        np.add.at(ref, idx, data[:, 3])
        refc = np.zeros((m, m, m))
        np.add.at(refc, idx, 1)
        ok = ok and np.array_equal(ref, tot) and np.array_equal(refc, cnt) and h.memory_errors() == 0
        if not ok:
            break
    c.check(ok, "threads share no data without synchronisation")


@HARNESSES.add(functions=FUN, bounds="arrays of 1, 3 or 5 columns, 0-d and 1-d arrays")
def shapes(c):
    sh = c.choice("shape", [(2, 3), (2, 5), (4,), (2, 1), (1, 2, 4)])
    h = ctrans(c, 1)
    c.check(raises(c, ValueError, h.m.grid3d, c.arr(np.zeros(sh)), (0.0,) * 3, (1.0,) * 3, (1, 1, 1)), "only N x 4 data is accepted")


@HARNESSES.add(functions=FUN, bounds="1 point; the NaN flag given explicitly")
def nan_flag(c):
    start, stop, n = GRIDS["2x1x1"]
    data = points(c, 1)
    f = c.choice("flag", [0, 1])
    out = ctrans(c, 1).m.grid3d(data, start, stop, n, f)
    if f == 0:
        verify(c, data, out, start, stop, n)
    elif not isnan(at(data, 0, 3)):
        verify(c, data, out, start, stop, n)


# ---------------------------------------------------------------- wrapper
WF = FUN + ["utils.grid3d"]


def wrapper_spec(c, pts, val, keep, start, stop, n, out, inside=None):
    mean, occ, se, bounds = out
    for cell in np.ndindex(*n):
        s, s2, m = 0, 0, 0
        for p, v, k in zip(pts, val, keep):
            if k and not isnan(v) and bool(in_cell(p, cell, start, stop, n)):
                s, s2, m = add(s, v), add(s2, mul(v, v)), m + 1
        c.check_eq(occ[cell], m, "occupancy of a cell")
        if m:
            c.check_eq(mul(mean[cell], m), s, "mean of a cell")
            c.check_eq(mul(mul(se[cell], se[cell]), m * m * m), sub(mul(s2, m), mul(s, s)), "standard error of the mean")
        else:
            c.check(isnan(mean[cell]), "mean of an empty cell is NaN")


@HARNESSES.each({"none": "none", "2d": "2d", "3d": "3d", "2d-int": "2d-int", "3d-int": "3d-int"}, functions=WF, bounds="2 images of 1x1 or 1x2 pixels, any q in one axis, any values, any mask (boolean or 0/1), 2x1x1 grid", quick_s=120, weight=3)
def wrapper_mask(c, how):
    nim, npx = (2, 1) if how == "none" else (2, 2)
    N = nim * npx
    h = ctrans(c, 2, install=True)
    qx = c.reals("q", N, -1, 5)
    q = c.arr(np.array([[at(qx, k), 0.5, 1.5] for k in range(N)], dtype=object))
    img = c.reals("I", (nim, 1, npx), 0, 8)
    kw = dict(nx=2, ny=1, nz=1, xmin=0.0, xmax=4.0, ymin=0.0, ymax=1.0, zmin=1.0, zmax=2.0)
    keep = [True] * N
    if how != "none":
        shape = (1, npx) if how.startswith("2d") else (nim, 1, npx)
        bits = [c.choice("mask%d" % k, [True, False]) for k in range(int(np.prod(shape)))]
        mask = np.array(bits).reshape(shape)
        keep = (bits * nim)[:N] if how.startswith("2d") else bits
        if how.endswith("int"):
            mask = mask.astype(int)
        kw["binary_mask"] = mask
    snap = snapshot(q, img)
    out = utils.grid3d(q, img, **kw)
    unchanged(c, snap, [q, img], "inputs are left alone")
    pts = [(at(qx, k), 0.5, 1.5) for k in range(N)]
    wrapper_spec(c, pts, elems(img), keep, (0.0, 0.0, 1.0), (4.0, 1.0, 2.0), (2, 1, 1), out)
    b = out[3]
    for ax, (lo, hi, m) in enumerate([(0, 4, 2), (0, 1, 1), (1, 2, 1)]):
        c.check_eq(b[ax][0], lo, "lower bound reported")
        c.check_eq(b[ax][1], hi, "upper bound reported")
        c.check_eq(b[ax][2], m, "number of voxels reported")


@HARNESSES.each({"x": 0, "y": 1, "z": 2}, functions=WF, bounds="3 points, any q along one axis in [-8,8], default bounds", quick_s=120, weight=3)
def wrapper_default_bounds(c, ax):
    h = ctrans(c, 1, install=True)
    v = c.reals("q", 3, -8, 8)
    rows = []
    for k in range(3):
        r = [0.5, 0.5, 0.5]
        r[ax] = at(v, k)
        rows.append(r)
    q = c.arr(np.array(rows, dtype=object))
    img = c.reals("I", (3, 1, 1), 0, 8)
    n = [1, 1, 1]
    n[ax] = 2
    mean, occ, se, b = utils.grid3d(q, img, nx=n[0], ny=n[1], nz=n[2])
    c.check_eq(ssum(elems(occ)), 3, "with default bounds every point is counted")
    lo, hi = ssum([0, minimum(minimum(at(v, 0), at(v, 1)), at(v, 2))]), maximum(maximum(at(v, 0), at(v, 1)), at(v, 2))
    c.check_eq(b[ax][0], lo, "lower bound defaults to the smallest value")
    c.check(ge(b[ax][1], hi), "upper bound is not below the largest value")
    c.check(le(b[ax][1], add(hi, 1e-9)), "upper bound defaults to the largest value")


@HARNESSES.add(functions=WF, bounds="1 point, any subset of the six limits given", quick_s=120)
def wrapper_given_bounds(c):
    h = ctrans(c, 1, install=True)
    v = [c.real("q%d" % k, -4, 4) for k in range(3)]
    q = c.arr(np.array([v, [0.0, 0.0, 0.0]], dtype=object))
    img = c.reals("I", (2, 1, 1), 0, 8)
    ax = c.choice("axis", range(3))
    g = c.choice("given", ["min", "max", "both"])
    kw = {}
    nm = "xyz"[ax]
    if g in ("min", "both"):
        kw[nm + "min"] = c.real("lo", -16, -8)
    if g in ("max", "both"):
        kw[nm + "max"] = c.real("hi", 8, 16)
    mean, occ, se, b = utils.grid3d(q, img, nx=2, ny=2, nz=1, **kw)
    for k in range(3):
        c.check_eq(b[k][0], kw.get("xyz"[k] + "min", minimum(v[k], 0.0)), "lower bound")
        c.check_all([ge(b[k][1], kw.get("xyz"[k] + "max", maximum(v[k], 0.0))), le(b[k][1], add(kw.get("xyz"[k] + "max", maximum(v[k], 0.0)), 1e-9))], "upper bound")
        c.check_eq(b[k][2], [2, 2, 1][k], "number of voxels")
    c.check_eq(ssum(elems(occ)), 2, "every point is counted")


@HARNESSES.add(functions=WF, bounds="masks and q arrays of wrong shapes")
def wrapper_rejects(c):
    h = ctrans(c, 1, install=True)
    img = c.reals("I", (2, 1, 2), 0, 8)
    q = c.reals("q", (4, 3), 0, 1)
    m = c.choice("mask shape", [(2, 1), (2, 2), (1, 1, 2), (3,)])
    c.check(raises(c, ValueError, utils.grid3d, q, img, 1, 1, 1, binary_mask=np.ones(m, dtype=bool)), "a mask of another shape is rejected")
    c.check(raises(c, ValueError, utils.grid3d, c.reals("p", (4, 2), 0, 1), img, 1, 1, 1), "q must have three columns")
    c.check(raises(c, ValueError, utils.grid3d, c.reals("r", (1, 4, 3), 0, 1), img, 1, 1, 1), "q must be two-dimensional")
