"""C20 coherent diffraction imaging: projections, supports, the difference map"""
import numpy as np
from skbeam.core import cdi

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["numpy.fft is the discrete Fourier transform by its defining sum (sizes 1, 2 and 4, where the factors are exact)",
               "exp is an uninterpreted monotone function", "scipy.ndimage.gaussian_filter is the linear map it computes on unit images (fixed sigma)"]


def shaped(c, xs, shape, dtype=float):
    return c.array(xs, dtype).reshape(shape)


def cadd(a, b):
    return (add(a[0], b[0]), add(a[1], b[1]))


def cmul(a, b):
    return (sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0])))


UNIT = {0: (1.0, 0.0), 1: (0.0, -1.0), 2: (-1.0, 0.0), 3: (0.0, 1.0)}


def dft(z, shape, inverse=False):
    """defining sum; z is a list of (re, im) in row-major order; sides 1, 2 or 4"""
    idx = list(np.ndindex(*shape))
    out = []
    for k in idx:
        t = (0.0, 0.0)
        for p, v in zip(idx, z):
            e = sum(4 // s * a * b for a, b, s in zip(k, p, shape)) % 4
            f = UNIT[(-e) % 4 if inverse else e]
            t = cadd(t, cmul(f, v))
        if inverse:
            t = (div(t[0], float(len(idx))), div(t[1], float(len(idx))))
        out.append(t)
    return out


def pair(x):
    return core.re_im(norm_num(x))


def cabs(z):
    return core.sqrt(add(mul(z[0], z[0]), mul(z[1], z[1])))


def pim(z, d, shape, off=1e-12):
    """reference: replace the modulus of the transform by the measured one where that is positive"""
    n = float(np.sqrt(len(z)))
    f = [(div(v[0], n), div(v[1], n)) for v in dft(z, shape)]
    g = []
    for v, q in zip(f, d):
        if bool(gt(q, 0)):
            m = add(cabs(v), off)
            v = (div(mul(q, v[0]), m), div(mul(q, v[1]), m))
        g.append(v)
    return [(mul(v[0], n), mul(v[1], n)) for v in dft(g, shape, True)]


SHAPES = {"1": (1,), "2": (2,), "4": (4,), "2x2": (2, 2), "1x2x2": (1, 2, 2)}


@HARNESSES.each(SHAPES, functions=["cdi.pi_modulus"], bounds="any complex object in [-4,4], any pattern in [0,4] (zero pixels included), default and given offset", quick_s=120)
def modulus_projection(c, *shape):
    n = int(np.prod(shape))
    z = c.complexes("z", shape, -4, 4)
    d = c.reals("d", shape, 0, 4)
    off = c.choice("off", [None, 0.0625])
    s = snapshot(d)
    zs = [pair(v) for v in elems(z)]
    f = dft(zs, shape)
    for v in f:  # a transform that vanishes has no phase
        c.assume(ge(add(mul(v[0], v[0]), mul(v[1], v[1])), 1e-3))
    r = cdi.pi_modulus(z, d, *([] if off is None else [off]))
    unchanged(c, s, [d], "the pattern is not changed")
    c.check_eq([v for q in elems(z) for v in pair(q)], [v for q in zs for v in q], "the object is not changed", exact=True)
    c.check(tuple(r.shape) == tuple(shape), "shape")
    want = pim(zs, elems(d), shape, 1e-12 if off is None else off)
    c.check_eq([v for q in elems(r) for v in pair(q)], [v for q in want for v in q], "modulus replaced where the pattern is positive, all phases and all other components kept", tol=1e-8)


@HARNESSES.each({"2": (2,), "2x2": (2, 2)}, functions=["cdi.pi_modulus"], bounds="any complex object whose transform is at least 1/16 in modulus, any positive pattern: modulus of the result", quick_s=120)
def projected_modulus(c, *shape):
    n = int(np.prod(shape))
    z = c.complexes("z", shape, -4, 4)
    d = c.reals("d", shape, 0.0625, 4)
    for v in dft([pair(v) for v in elems(z)], shape):
        c.assume(ge(add(mul(v[0], v[0]), mul(v[1], v[1])), 0.0625))
    r = cdi.pi_modulus(z, d, 0.0)
    f = dft([pair(v) for v in elems(r)], shape)
    for v, q in zip(f, elems(d)):
        c.check_eq(add(mul(v[0], v[0]), mul(v[1], v[1])), mul(float(n), mul(q, q)), "the modulus of the transform of the result is the measured one", tol=1e-7)


@HARNESSES.each(SHAPES, functions=["cdi.cal_diff_error"], bounds="any complex object, any pattern that is not zero", quick_s=90)
def diff_error(c, *shape):
    z = c.complexes("z", shape, -4, 4)
    d = c.reals("d", shape, 0, 4)
    tot = ssum(mul(v, v) for v in elems(d))
    c.assume(ge(tot, 0.0625))
    r = cdi.cal_diff_error(z, d)
    n = float(np.prod(shape))
    t = []
    for v, q in zip(dft([pair(v) for v in elems(z)], shape), elems(d)):
        e = sub(div(cabs(v), float(np.sqrt(n))), q)
        t.append(mul(e, e))
    c.check(ge(r, 0), "not negative")
    c.check_eq(mul(mul(r, r), tot), ssum(t), "relative distance of the moduli", tol=1e-7)


@HARNESSES.each({"2d": ((3, 4),), "1d": ((5,),), "3d": ((2, 3, 2),), "list": ([4, 3],)}, functions=["cdi._dist", "cdi.gauss"], bounds="fixed shapes, any sigma in [1/4,8]")
def gauss_kernel(c, dims):
    s = c.real("sigma", 0.25, 8)
    g = cdi.gauss(dims, s)
    c.check(tuple(g.shape) == tuple(dims), "shape")
    d2 = [float(sum((i - n // 2) ** 2 for i, n in zip(ix, dims))) for ix in np.ndindex(*dims)]
    w = [core.exp(div(mul(-0.5, q), mul(s, s))) if q else 1.0 for q in d2]
    tot = ssum(w)
    c.check_eq([mul(v, tot) for v in elems(g)], w, "normalised Gaussian of the distance from the centre", tol=1e-8)
    dd = cdi._dist(dims)
    c.check_eq(elems(dd), [float(np.sqrt(q)) for q in d2], "distance from the centre")


@HARNESSES.each({"2d": ((5, 4),), "3d": ((3, 4, 2),), "list": ([4, 5],), "odd": ((1, 7),)}, functions=["cdi.generate_box_support", "cdi.generate_disk_support"], bounds="fixed shapes, any box radius in 0..9 (also larger than the array), any disk radius in [0,9]", quick_s=90)
def supports(c, shape):
    kind = c.choice("kind", ["box", "disk"])
    if kind == "box":
        r = c.int("r", 0, 9)
        s = cdi.generate_box_support(r, shape)
        inside = lambda ix: and_(*[and_(ge(i, sub(n // 2, r)), lt(i, add(n // 2, r))) for i, n in zip(ix, shape)])
    else:
        r = c.real("r", 0, 9)
        for q in {sum((i - n // 2) ** 2 for i, n in zip(ix, shape)) for ix in np.ndindex(*shape)}:
            c.assume(or_(gt(r, q**0.5 + 1e-9), lt(r, q**0.5 - 1e-9), *([eq(r, int(q**0.5))] if int(q**0.5) ** 2 == q else [])))
        s = cdi.generate_disk_support(r, shape)
        inside = lambda ix: lt(float(sum((i - n // 2) ** 2 for i, n in zip(ix, shape))) ** 0.5, r)
    c.check(tuple(s.shape) == tuple(shape), "shape")
    for ix in np.ndindex(*shape):
        v = at(s, *ix)
        ins = inside(ix)
        c.check(or_(and_(ins, eq(v, 1)), and_(not_(ins), eq(v, 0))), "a pixel is in the support exactly when it lies within the radius of the centre")


@HARNESSES.add(functions=["cdi.generate_random_phase_field"], bounds="2x2, any pattern in [0,4], any random phases (numpy.random is a symbolic source)")
def random_phase(c):
    d = c.reals("d", (2, 2), 0, 4)
    ph = c.reals("ph", (2, 2), 0, 6.25)
    calls = []

    class R:
        @staticmethod
        def uniform(lo=0.0, hi=1.0, size=None):
            calls.append((lo, hi, size))
            return ph

    old = np.random.uniform
    np.random.uniform = R.uniform
    try:
        r = cdi.generate_random_phase_field(d)
    finally:
        np.random.uniform = old
    if len(calls) != 1 or calls[0][0] != 0 or abs(calls[0][1] - 2 * np.pi) > 1e-12:
        return  # another source of randomness: nothing to compare with
    f = dft([pair(v) for v in elems(r)], (2, 2))
    for v, q, p in zip(f, elems(d), elems(ph)):
        c.check_eq(v[0], mul(2.0, mul(q, core.cos(p))), "transform has the measured modulus and the random phase", tol=1e-7)
        c.check_eq(v[1], mul(2.0, mul(q, core.sin(p))), "transform has the measured modulus and the random phase", tol=1e-7)


@HARNESSES.each({"%s.%s" % (s, k): ((4,) if s == "1d" else (2, 3), k) for s in ("1d", "2d") for k in (0.5, 1.0)}, functions=["cdi.find_support"], bounds="any real or complex object of 4 or 2x3 pixels, any threshold in [0,1], smoothing 1/2 and 1", quick_s=120)
def support_update(c, shape, sg):
    from scipy.ndimage import gaussian_filter

    z = c.reals("z", shape, -4, 4)
    t = c.real("t", 0, 1)
    n = int(np.prod(shape))
    K = [gaussian_filter(np.eye(n)[i].reshape(shape), sg).ravel() for i in range(n)]
    a = [core.absolute(v) for v in elems(z)]
    sm = [ssum(mul(float(K[i][j]), a[i]) for i in range(n)) for j in range(n)]
    mx = sm[0]
    for v in sm[1:]:
        mx = maximum(mx, v)
    for v in sm:
        c.assume(or_(gt(v, add(mul(t, mx), 1e-6)), lt(v, sub(mul(t, mx), 1e-6))))
    s = snapshot(z)
    r = cdi.find_support(z, sg, t)
    unchanged(c, s, [z], "object is not changed")
    c.check(tuple(r.shape) == tuple(shape), "shape")
    for v, q in zip(sm, elems(r)):
        c.check(or_(and_(q, gt(v, mul(t, mx))), and_(not_(q), lt(v, mul(t, mx)))), "support is where the smoothed modulus reaches the threshold times its maximum")


OBJ = {"a": [1.0 + 0.5j, -0.25 + 1j], "b": [2.0, 1.0], "c": [1.0, 0.5j, -2.0 + 0.25j, 1.0 + 1j]}


@HARNESSES.each({"%s.%d.%s" % (k, n, o): (k, n, o) for k in ("complex", "real") for n, o in ((1, "a"), (1, "b"), (1, "c"), (2, "a"))}, functions=["cdi.cdi_recon", "cdi.pi_modulus", "cdi.cal_diff_error"], bounds="fixed complex objects of 2 or 4 pixels, any pattern, several supports, any feedback in [1/2,2] (1 iteration), 1 or 2 iterations, no shrinkwrap; all iterations averaged or only the last", quick_s=200, thorough_s=900)
def difference_map(c, kind, n_it, o):
    n = len(OBJ[o])
    shape = (n,)
    z = np.array(OBJ[o], complex)
    d = c.reals("d", shape, 0 if n_it == 1 and n == 2 else 0.125, 4)
    if n == 2:
        sup = c.array([1.0 if c.choice("sup%d" % k, [True, False]) else 0.0 for k in range(2)])
    else:
        sup = np.array(c.choice("sup", [[1.0, 1.0, 0.0, 0.0], [0.0, 1.0, 0.0, 1.0]]))
    beta = 1.25 if n_it == 2 or n == 4 else c.real("beta", 0.5, 2) if o == "b" else c.choice("beta", [0.5, 1.5])
    start = c.choice("start_avg", [-0.5] + ([0.25] if n_it == 2 else []))
    c.assume(ge(ssum(elems(d)), 0.125))
    zs = [pair(v) for v in elems(z)]
    dd = [at(d, (k - n // 2) % n) for k in range(n)]  # fftshift
    nice = lambda w: c.assume(and_(*[ge(add(mul(v[0], v[0]), mul(v[1], v[1])), 1e-2) for v in dft(w, shape)]))
    before = list(zs)
    cur_, seq = list(zs), []
    ob, di = [], []
    for it in range(n_it):
        a = pim(cur_, dd, shape)
        if kind == "real":
            a = [(cabs(v), 0.0) for v in a]
        g2 = div(1.0, beta)
        a = [(sub(mul(add(1.0, g2), v[0]), mul(g2, w[0])), sub(mul(add(1.0, g2), v[1]), mul(g2, w[1]))) for v, w in zip(a, cur_)]
        a = [v if at(sup, k) == 1 else (0.0, 0.0) for k, v in enumerate(a)]
        b = [v if at(sup, k) == 1 else (0.0, 0.0) for k, v in enumerate(cur_)]
        b = [(add(mul(sub(1.0, g2), v[0]), mul(g2, w[0])), add(mul(sub(1.0, g2), v[1]), mul(g2, w[1]))) for v, w in zip(b, cur_)]
        nice(b)
        b = pim(b, dd, shape)
        if kind == "real":
            b = [(cabs(v), 0.0) for v in b]
        new = [(add(w[0], mul(beta, sub(p[0], q[0]))), add(w[1], mul(beta, sub(p[1], q[1])))) for w, p, q in zip(cur_, a, b)]
        ob.append((ssum(mul(sub(x, y), sub(x, y)) for p, q in zip(new, cur_) for x, y in zip(p, q)), ssum(mul(x, x) for p in cur_ for x in p)))
        e = [sub(div(cabs(v), float(np.sqrt(n))), q) for v, q in zip(dft(new, shape), dd)]
        di.append((ssum(mul(x, x) for x in e), ssum(mul(x, x) for x in dd)))
        cur_ = new
        seq.append(new)
        if it + 1 < n_it:
            nice(new)
    seen = []
    s = snapshot(d, sup)
    r, err = cdi.cdi_recon(d, z, sup, beta=beta, start_avg=start, pi_modulus_flag={"complex": "Complex", "real": "real"}[kind], sw_flag=False, n_iterations=n_it,
                           cb_function=lambda *q: seen.append(q), cb_step=1)
    unchanged(c, s, [d, sup], "inputs are not changed")
    c.check_eq([v for q in elems(z) for v in pair(q)], [v for q in before for v in q], "the initial object is not changed", exact=True)
    use = [v for k, v in enumerate(seq) if k > start * n_it]
    want = [ssum(u[i][j] for u in use) for i in range(n) for j in range(2)]
    c.check_eq([mul(float(len(use)), v) for q in elems(r) for v in pair(q)], want, "mean of the iterates of the difference map", tol=1e-6)
    oe, de = elems(err["obj_error"]), elems(err["diff_error"])
    c.check(len(oe) == n_it and len(de) == n_it and len(elems(err["sup_error"])) == n_it, "one error per iteration")
    if n_it == 1:
        for k in range(n_it):
            c.check_eq(oe[k], div(core.sqrt(ob[k][0]), core.sqrt(ob[k][1])), "relative change of the object", tol=1e-6)
            c.check_eq(de[k], div(core.sqrt(di[k][0]), core.sqrt(di[k][1])), "error of the pattern", tol=1e-6)
    c.check(len(seen) == n_it, "the callback is called after every cb_step iterations")


@HARNESSES.add(functions=["cdi.cdi_recon"], bounds="1 to 7 iterations, callback every 1 to 4")
def callback(c):
    n, st = c.int("n", 1, 7), c.int("step", 1, 4)
    n, st = int(n), int(st)
    seen = []
    z = np.array([1.0 + 0.5j, 2.0, 0.25j, 1.0])
    d = np.array([1.0, 2.0, 1.0, 0.5])
    r, err = cdi.cdi_recon(d, z.copy(), np.ones(4), start_avg=-1, sw_flag=False, n_iterations=n, cb_function=lambda *q: seen.append([np.array(v) for v in q]), cb_step=st)
    c.check(len(seen) == n // st, "the callback is called after every cb_step iterations")


@HARNESSES.add(functions=["cdi.cdi_recon"], bounds="flags that are not known")
def bad_flag(c):
    f = c.choice("f", ["imaginary", "", "Complexx"])
    z = np.array([1.0 + 0.5j, 2.0])
    c.check(raises(c, ValueError, cdi.cdi_recon, np.ones(2), z, np.ones(2), pi_modulus_flag=f, n_iterations=1), "unknown flags are rejected")
