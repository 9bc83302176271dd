"""C12 pixel coordinate grids"""
import numpy as np
from skbeam.core import utils
from skbeam.core import recip  # noqa: F401

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["square root is exact; arctan2 is an uninterpreted function of (y, x)"]
SH = {"2x3": (2, 3), "3x2": (3, 2), "1x4": (1, 4)}


@HARNESSES.each({"%s.%s" % (s, p): (SH[s], p) for s in SH for p in ("default", "size")}, functions=["utils.radial_grid"], bounds="named shape, any centre in [-4,8]^2, any pixel size in (0,4]^2")
def radial(c, shape, how):
    ci, cj = c.real("ci", -4, 8), c.real("cj", -4, 8)
    px = (1.0, 1.0)
    if how == "size":
        px = (c.real("ph", 0.0625, 4), c.real("pw", 0.0625, 4))
        r = utils.radial_grid((ci, cj), shape, pixel_size=px)
    else:
        r = utils.radial_grid((ci, cj), shape)
    c.check(tuple(r.shape) == tuple(shape), "grid has the image shape")
    for i, j in np.ndindex(*shape):
        y, x = mul(px[0], sub(i, ci)), mul(px[1], sub(j, cj))
        v = r[i, j]
        c.check(ge(v, 0), "distance is not negative")
        c.check_eq(mul(v, v), add(mul(x, x), mul(y, y)), "distance from the centre, row offsets scaled by pixel height")


@HARNESSES.each({"%s.%s" % (s, p): (SH[s], p) for s in SH for p in ("default", "size")}, functions=["utils.angle_grid"], bounds="named shape, any centre, any pixel size")
def angle(c, shape, how):
    ci, cj = c.real("ci", -4, 8), c.real("cj", -4, 8)
    px = (1.0, 1.0)
    if how == "size":
        px = (c.real("ph", 0.0625, 4), c.real("pw", 0.0625, 4))
        a = utils.angle_grid((ci, cj), shape, pixel_size=px)
    else:
        a = utils.angle_grid((ci, cj), shape)
    c.check(tuple(a.shape) == tuple(shape), "grid has the image shape")
    for i, j in np.ndindex(*shape):
        y, x = mul(px[0], sub(i, ci)), mul(px[1], sub(j, cj))
        c.check_eq(a[i, j], core.arctan2(y, x), "angle of (row offset, column offset)")
        c.check_all([ge(a[i, j], -3.1415926536), le(a[i, j], 3.1415926536)], "angle in [-pi, pi]")
        c.check_all([or_(le(y, 0), gt(a[i, j], 0)), or_(ge(y, 0), lt(a[i, j], 0))], "sign follows the row offset")


@HARNESSES.each({"2x2": (2, 2), "3x3": (3, 3), "2x3": (2, 3)}, functions=["utils.img_to_relative_xyi"], bounds="named image shape, any centre, any positive pixel sizes or none")
def relative_xyi(c, ny, nx):
    img = c.reals("I", (ny, nx), -8, 8)
    cx, cy = c.real("cx", -4, 8), c.real("cy", -4, 8)
    how = c.choice("pixels", ["default", "given"])
    px = py = 1.0
    if how == "given":
        px, py = c.real("px", 0.0625, 4), c.real("py", 0.0625, 4)
        x, y, v = utils.img_to_relative_xyi(img, cx, cy, px, py)
    else:
        x, y, v = utils.img_to_relative_xyi(img, cx, cy)
    c.check(tuple(x.shape) == tuple(y.shape) == tuple(v.shape) == (nx * ny,), "one triple per pixel")
    k = 0
    for i, j in np.ndindex(ny, nx):
        c.check_eq(v[k], at(img, i, j), "intensity", exact=True)
        k += 1
    if nx != ny:
        # the coordinates as a set: x takes the values of the first axis (pinned by the existing tests)
        c.check_eq(ssum(elems(x)), ssum(mul(px, sub(i, cx)) for i, j in np.ndindex(ny, nx)), "sum of x")
        c.check_eq(ssum(elems(y)), ssum(mul(py, sub(j, cy)) for i, j in np.ndindex(ny, nx)), "sum of y")
        k = 0
        for i, j in np.ndindex(ny, nx):
            c.check_eq(x[k], mul(px, sub(i, cx)), "x of the k-th pixel of a non-square image")
            k += 1
        return
    k = 0
    for i, j in np.ndindex(ny, nx):
        c.check_eq(x[k], mul(px, sub(j, cx)), "x is the column offset times the pixel width")
        c.check_eq(y[k], mul(py, sub(i, cy)), "y is the row offset times the pixel height")
        k += 1


@HARNESSES.add(functions=["utils.img_to_relative_xyi"], bounds="pixel sizes in [-2,2] or missing")
def relative_xyi_validation(c):
    img = c.reals("I", (2, 2), 0, 1)
    px, py = c.real("px", -2, 2), c.real("py", -2, 2)
    c.check(raises(c, ValueError, utils.img_to_relative_xyi, img, 0, 0, px, None), "y size missing")
    c.check(raises(c, ValueError, utils.img_to_relative_xyi, img, 0, 0, None, py), "x size missing")
    r = raises(c, ValueError, utils.img_to_relative_xyi, img, 0, 0, px, py)
    bad = or_(le(px, 0), le(py, 0))
    c.check(bad if r else not_(bad), "exactly non-positive pixel sizes are rejected")


@HARNESSES.add(functions=["utils.radius_to_twotheta"], bounds="any distance in (0,16], any 3 radii in [0,16]; arctan uninterpreted")
def two_theta(c):
    d, r = c.real("d", 0.0625, 16), c.reals("r", 3, 0, 16)
    t = utils.radius_to_twotheta(d, r)
    for k in range(3):
        c.check_eq(t[k], core.arctan(div(at(r, k), d)), "arctan(radius / distance)")
