"""C02 conversion of detector pixels to reciprocal space (C extension and its wrapper)"""
import numpy as np
from skbeam.core import recip

from .ccommon import ctrans
from .common import *

HARNESSES = Registry()
ASSUMPTIONS = [
    "C doubles are exact reals; sin, cos and atan are uninterpreted functions with sin^2+cos^2=1, parity and range facts",
    "the C source is parsed with stand-in Python/numpy headers; PyArg_ParseTupleAndKeywords and the numpy C API follow their documentation",
    "OpenMP threads are interleaved at barriers only, which is exact for the data-race-free executions the race check establishes",
]
FUN = ["recip.process_to_q"] + ["src/ctrans.c:" + f for f in ("ccdToQ", "processImages", "calcDeltaGamma", "calcQTheta", "calcQPhiFromQTheta", "calcHKLFromQPhi", "matmulti")]
MODES = {"theta": "theta", "phi": "phi", "cart": "cart", "hkl": "hkl", "default": None}
SIN, COS = core.sin, core.cos
RAD = np.pi / 180.0


def pixel_angles(c, size, px, cen, dist, del0, gam0):
    """(delta, gamma) in image order: columns fastest"""
    out = []
    for row in range(size[1]):
        for col in range(size[0]):
            d = sub(del0, core.arctan(div(mul(sub(row, cen[1]), px[1]), dist)))
            g = sub(gam0, core.arctan(div(mul(sub(col, cen[0]), px[0]), dist)))
            out.append((d, g))
    return out


def q_theta(d, g, th, mu, lam):
    k = div(2 * np.pi, lam)
    dt = sub(d, th)
    return [mul(k, sub(mul(-1, SIN(g)), SIN(mu))),
            mul(k, sub(mul(COS(dt), COS(g)), mul(COS(th), COS(mu)))),
            mul(k, add(mul(SIN(dt), COS(g)), mul(SIN(th), COS(mu))))]


def to_phi(q, chi, phi):
    """rotate about the second axis by chi, then about the first by phi"""
    cx, sx, cp, sp = COS(chi), SIN(chi), COS(phi), SIN(phi)
    a = [sub(mul(cx, q[0]), mul(sx, q[2])), q[1], add(mul(sx, q[0]), mul(cx, q[2]))]
    return [a[0], add(mul(cp, a[1]), mul(sp, a[2])), sub(mul(cp, a[2]), mul(sp, a[1]))]


def to_hkl(q, ubi):
    """crystal frame (q3, q2, -q1) times the inverse UB matrix"""
    v = [q[2], q[1], mul(-1, q[0])]
    return [ssum(mul(ubi[r][k], v[k]) for k in range(3)) for r in range(3)]


def expected(c, mode, angles, size, px, cen, dist, lam, ubi):
    rows = []
    for a in angles:
        de, th, chi, phi, mu, ga = [mul(x, RAD) for x in a]
        for d, g in pixel_angles(c, size, px, cen, dist, de, ga):
            q = q_theta(d, g, th, mu, lam)
            if mode != "theta":
                q = to_phi(q, chi, phi)
            if mode in ("hkl", None):
                q = to_hkl(q, ubi)
            rows.append(q)
    return rows


def geometry(c, sym):
    if not sym:
        return (0.25, 0.5), (0.5, 1.25), 8.0, 1.5
    return ((c.real("pw", 0.0625, 1), c.real("ph", 0.0625, 1)), (c.real("cx", -2, 4), c.real("cy", -2, 4)), c.real("dist", 1, 16), c.real("lam", 0.5, 4))


def inverse(m):
    (a, b, d), (e, f, g), (h, i, j) = m
    det = a * (f * j - g * i) - b * (e * j - g * h) + d * (e * i - f * h)
    adj = [[f * j - g * i, d * i - b * j, b * g - d * f], [g * h - e * j, a * j - d * h, d * e - a * g], [e * i - f * h, b * h - a * i, a * f - b * e]]
    return [[float(x) / det for x in r] for r in adj]


UB = [[2.0, 0.5, 0.0], [0.25, -4.0, 1.0], [0.5, 1.0, 1.0]]


def same(c, out, rows, what):
    c.check(tuple(out.shape) == (len(rows), 3), "one (x, y, z) per pixel and image")
    for k, r in enumerate(rows):
        for j in range(3):
            c.check_eq(out[k, j], r[j], what)


@HARNESSES.each({"%s.%dx%d.%dimg.%dthr" % (m, s[0], s[1], n, t): (MODES[m], s, n, t) for m, s, n, t in
                 [("theta", (2, 1), 1, 1), ("theta", (1, 2), 2, 2), ("theta", (3, 2), 1, 1), ("phi", (2, 1), 1, 2), ("phi", (1, 2), 2, 1), ("cart", (2, 1), 1, 1), ("cart", (1, 2), 2, 2), ("hkl", (2, 1), 1, 1), ("hkl", (1, 2), 2, 2), ("default", (2, 1), 1, 1), ("hkl", (1, 1), 3, 2)]},
                functions=FUN, bounds="frame, detector size (columns x rows), images and threads as named; any six angles per image in [-180,180], any centre, pixel sizes, distance and wavelength; one non-symmetric UB matrix; any assignment of images to threads", quick_s=200, weight=3)
def pixels_to_q(c, mode, size, nimg, threads):
    ctrans(c, threads, schedule=(lambda it, t: c.choice("thread_of_image_%d" % it, range(t)) if t > 1 else 0), install=True)
    ang = c.reals("a", (nimg, 6), -180, 180)
    px, cen, dist, lam = geometry(c, True)
    kw = {} if mode is None else {"frame_mode": mode}
    snap = snapshot(ang)
    out = recip.process_to_q(ang, size, px, cen, dist, lam, UB, **kw)
    rows = expected(c, mode, [[at(ang, k, j) for j in range(6)] for k in range(nimg)], size, px, cen, dist, lam, inverse(UB))
    same(c, out, rows, "Q of a pixel in the %s frame" % (mode or "hkl"))
    unchanged(c, snap, [ang], "angles unchanged")


@HARNESSES.add(functions=FUN, bounds="any UB matrix with entries in [-4,4] and |det| >= 1/2; 1 pixel, fixed geometry and angles", quick_s=200, weight=2)
def any_ub(c):
    ctrans(c, 1, install=True)
    ub = c.reals("ub", (3, 3), -4, 4)
    m = [[at(ub, i, j) for j in range(3)] for i in range(3)]
    det = ssum([mul(m[0][i], sub(mul(m[1][(i + 1) % 3], m[2][(i + 2) % 3]), mul(m[1][(i + 2) % 3], m[2][(i + 1) % 3]))) for i in range(3)])
    c.assume(or_(ge(det, 0.5), le(det, -0.5)))
    a = [[10.0, 20.0, 30.0, 40.0, 5.0, 15.0]]
    px, cen, dist, lam = geometry(c, False)
    out = recip.process_to_q(a, (1, 1), px, cen, dist, lam, ub)
    q = recip.process_to_q(a, (1, 1), px, cen, dist, lam, ub, frame_mode="cart")
    v = [at(q, 0, 2), at(q, 0, 1), mul(-1, at(q, 0, 0))]
    for r in range(3):
        c.check_eq(ssum(mul(m[r][k], at(out, 0, k)) for k in range(3)), v[r], "UB times hkl is Q in the crystal frame", tol=1e-7)


@HARNESSES.add(functions=FUN, bounds="2 images, 2x1 detector, 2 threads: happens-before race detection over the clang AST; any angles", quick_s=200)
def no_races(c):
    h = ctrans(c, 2, races=True)
    ang = c.reals("a", (2, 6), -3, 3)
    px, cen, dist, lam = geometry(c, False)
    mode = c.choice("mode", [1, 2, 3, 4])
    out = h.m.ccdToQ(angles=ang, mode=mode, ccd_size=(2, 1), ccd_pixsize=px, ccd_cen=cen, dist=dist, wavelength=lam, UBinv=np.eye(3))
    c.check(tuple(out.shape) == (4, 3), "shape")
    c.check(h.leaked() == 0, "all memory is released")
    c.check(h.memory_errors() == 0, "no access outside an allocation")


@HARNESSES.add(functions=FUN, bounds="the single allocation fails; 1 image, 2x1 detector; with and without OpenMP")
def allocation_failure(c):
    h = ctrans(c, 1, openmp=c.choice("openmp", [True, False]), fail_at=1)
    px, cen, dist, lam = geometry(c, False)
    try:
        h.m.ccdToQ(angles=c.reals("a", (1, 6), -3, 3), mode=4, ccd_size=(2, 1), ccd_pixsize=px, ccd_cen=cen, dist=dist, wavelength=lam, UBinv=np.eye(3))
        ok = not h.failed(1)
    except MemoryError:
        ok = True
    except SystemError:
        ok = False
    c.check(ok, "a failing allocation is a MemoryError")
    c.check(h.leaked() == 0, "all memory is released")


@HARNESSES.add(functions=["recip.process_to_q"], bounds="0..8 angles per image; UB of shape 2x2, 3x3, 4x4; known and unknown frame names")
def rejected(c):
    ctrans(c, 1, install=True)
    px, cen, dist, lam = geometry(c, False)
    n = c.choice("n", [1, 5, 6, 7])
    dims = c.choice("dims", [1, 2, 3])
    a = c.reals("a", (1,) * (dims - 1) + (n,), -90, 90)
    r = raises(c, ValueError, recip.process_to_q, a, (1, 1), px, cen, dist, lam, UB)
    c.check(r == (n != 6 or dims == 3), "exactly six angles per image are accepted")
    good = c.reals("g", (1, 6), -90, 90)
    c.check(raises(c, KeyError, recip.process_to_q, good, (1, 1), px, cen, dist, lam, UB, frame_mode="none"), "unknown frame is rejected")
    k = c.choice("ub", [2, 4])
    c.check(raises(c, ValueError, recip.process_to_q, good, (1, 1), px, cen, dist, lam, np.eye(k)), "a UB matrix that is not 3x3 is rejected")


@HARNESSES.add(functions=["recip.hkl_to_q"], bounds="2 rows of any values in [-8,8]")
def hkl_norm(c):
    a = c.reals("h", (2, 3), -8, 8)
    q = recip.hkl_to_q(a)
    c.check(tuple(q.shape) == (2,), "one length per row")
    for k in range(2):
        c.check(ge(q[k], 0), "length is not negative")
        c.check_eq(mul(q[k], q[k]), ssum(mul(at(a, k, j), at(a, k, j)) for j in range(3)), "Euclidean length")


def _plain(x):
    return x


@HARNESSES.each({"2x3": (2, 3), "3x2": (3, 2), "1x4": (1, 4)}, functions=["recip.gisaxs"], bounds="detector shape as named; any beam positions, pixel sizes, distance, wavelength and out-of-plane incidence angle", quick_s=200)
def gisaxs(c, ny, nx):
    ix, iy, rx, ry = [c.real(n, -4, 8) for n in ("ix", "iy", "rx", "ry")]
    px, py = c.real("px", 10, 200), c.real("py", 10, 200)
    dist, lam, ti = c.real("dist", 0.5, 8), c.real("lam", 0.5, 4), c.real("ti", -1, 1)
    g = recip.gisaxs((ix, iy), (rx, ry), (px, py), (ny, nx), dist, lam, theta_i=ti)
    pmx, pmy = mul(px, 1e-6), mul(py, 1e-6)
    ai = div(core.arctan2(mul(sub(ry, iy), pmy), dist), 2.0)
    c.check_eq(g.alpha_i, ai, "incident angle is half the angle to the reflected beam")
    c.check_eq(g.tilt_angle, core.arctan2(mul(sub(rx, ix), pmx), mul(sub(ry, iy), pmy)), "tilt angle")
    k = div(2 * np.pi, lam)
    for i, j in np.ndindex(ny, nx):
        af = sub(core.arctan2(mul(sub(i, iy), pmy), dist), ai)
        tf = sub(div(core.arctan2(mul(sub(j, ix), pmx), dist), 2.0), ti)
        c.check_eq(g.alpha_f[i, j], af, "exit angle of a row")
        c.check_eq(g.theta_f[i, j], tf, "out-of-plane angle of a column")
        qx = mul(k, sub(mul(COS(af), COS(mul(2.0, tf))), mul(COS(ai), COS(mul(2.0, ti)))))
        y0 = sub(mul(COS(af), SIN(mul(2.0, tf))), mul(COS(ai), SIN(mul(2.0, ti))))
        z0 = add(SIN(af), SIN(ai))
        # turned by the tilt of the sample
        qy = mul(k, add(mul(z0, SIN(g.tilt_angle)), mul(y0, COS(g.tilt_angle))))
        qz = mul(k, sub(mul(z0, COS(g.tilt_angle)), mul(y0, SIN(g.tilt_angle))))
        c.check_eq(g.qx[i, j], qx, "qx")
        c.check_eq(g.qy[i, j], qy, "qy")
        c.check_eq(g.qz[i, j], qz, "qz")
        c.check_eq(mul(g.qr[i, j], g.qr[i, j]), add(mul(qx, qx), mul(qy, qy)), "q parallel is the in-plane length")
        c.check(ge(g.qr[i, j], 0), "q parallel is not negative")
