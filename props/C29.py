"""C29 files: powder patterns, GSAS round trips, raw binaries and masks"""
import contextlib
import os
import shutil
import tempfile

import numpy as np
from skbeam.io import binary, gsas_file_reader, save_powder_output
from skbeam.io.fit2d import fit2d_save, read_fit2d_msk

from .common import *

HARNESSES = Registry()
ASSUMPTIONS = ["a formatted symbolic number is parsed back as that number rounded to the digits written (half to even for whole numbers, within half a unit of the last of 5 digits, exact from 9 digits on); numbers fit their fields, the harnesses bound them so",
               "files are real files in a scratch directory"]


@contextlib.contextmanager
def folder(c):
    """scratch directory as working directory"""
    d = tempfile.mkdtemp(prefix="vp_io_", dir=os.environ.get("VERIF_SCRATCH"))
    old = os.getcwd()
    os.chdir(d)
    if core.CUR is not None:
        c.text = {}
    try:
        yield d
    finally:
        if core.CUR is not None:
            c.text = None
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def num(w):
    v = core.text_value(w) if core.CUR is not None else None
    return float(w) if v is None else v


def rounded(x):
    return core.rint(x) if is_sym(x) else float(round(x))


def near(c, a, b, tol, label):
    for x, y in zip(a, b):
        c.check(le(core.absolute(sub(x, y)), tol), label)


EXT = {".chi": ".chi", ".dat": ".dat", ".xye": ".xye", "default": None}


@HARNESSES.each({"%s.%s" % (k, n): (e, n) for k, e in EXT.items() for n in (1, 3)}, functions=["save_powder_output.save_output"], bounds="1 or 3 points of any angles, intensities and errors; with and without errors and directory; a file of that name may exist; names and wrong arguments")
def columns(c, ext, n):
    x, y = c.reals("x", n, -180, 180), c.reals("y", n, -9, 9)
    e = c.reals("e", n, 0, 9) if ext == ".xye" or c.choice("err", [False, True]) else None
    kind = c.choice("kind", ["Q", "2theta"])
    with folder(c) as d:
        where = c.choice("dir", [None, "."])
        name = "pattern"
        path = os.path.join(d, name + (ext or ".chi"))
        if c.choice("exists", [False, True]):
            with open(path, "w") as f:
                f.write("old contents\n" * 50)
        kw = {} if ext is None else {"ext": ext}
        if e is not None:
            kw["err"] = e
        if where is not None:
            kw["dir_path"] = d
        sn = snapshot(x, y)
        save_powder_output.save_output(x, y, name, kind, **kw)
        unchanged(c, sn, [x, y], "inputs are not changed")
        c.check(sorted(os.listdir(d)) == [os.path.basename(path)], "one file of that name and extension")
        L = open(path).read().split("\n")
        c.check(L[0] == name, "starts with the name")
        k = [i for i, t in enumerate(L) if t.strip().startswith("#####")]
        c.check(len(k) == 1, "one header")
        head = " ".join(L[:k[0]])
        c.check("Number of data points in the file : %d" % n in head, "number of points")
        c.check(("Q values" in head) is (kind == "Q") and ("two theta" in head) is (kind == "2theta"), "kind of the first column")
        rows = [t.split() for t in L[k[0] + 1:] if t.strip()]
        c.check(len(rows) == n and all(len(r) == (2 if e is None else 3) for r in rows), "one row per point")
        for i, r in enumerate(rows):
            c.check_eq([num(w) for w in r], [at(x, i), at(y, i)] + ([] if e is None else [at(e, i)]), "the values of each point", tol=1e-12)


@HARNESSES.add(functions=["save_powder_output.save_output", "save_powder_output.gsas_writer"], bounds="inconsistent lengths, missing errors, unknown kinds, modes and directories")
def refused(c):
    x = c.reals("x", 3, 0, 9)
    y = c.reals("y", 3, 1, 9)
    case = c.choice("case", ["kind", "length", "errlength", "xye", "dir", "glength", "gerr", "gmode", "gdir", "gnomode"])
    with folder(c) as d:
        so, gw = save_powder_output.save_output, save_powder_output.gsas_writer
        call = {"kind": lambda: so(x, y, "a", "q"), "length": lambda: so(x[:2], y, "a", "Q"), "errlength": lambda: so(x, y, "a", "Q", err=x[:2]),
                "xye": lambda: so(x, y, "a", "Q", ext=".xye"), "dir": lambda: so(x, y, "a", "Q", dir_path=os.path.join(d, "no")),
                "glength": lambda: gw(x[:2], y, "a"), "gerr": lambda: gw(x, y, "a", mode="ESD", err=y[:2]), "gmode": lambda: gw(x, y, "a", mode="XYZ", err=y),
                "gdir": lambda: gw(x, y, "a", dir_path=os.path.join(d, "no")), "gnomode": lambda: gw(x, y, "a", err=y)}[case]
        c.check(raises(c, ValueError, call), "inconsistent arguments are rejected")
        c.check(os.listdir(d) == [], "and nothing is written")


def pattern(c, mode, n, top):
    """n points; intensities up to top, the first one anything from zero, the others at least one"""
    t0, dt = c.real("t0", 0, 90), c.real("dt", 0.0078125, 4)
    x = c.array([add(t0, mul(float(k), dt)) for k in range(n)]) if mode != "FXYE" else c.reals("t", n, 0, 180)
    y = c.array([c.real("i%d" % k, 0 if k == 0 else top / 4, top) for k in range(n)])
    e = None if mode == "STD" else c.array([c.real("e%d" % k, 0 if k == 0 else top / 64, top / 16) for k in range(n)])
    return x, y, e


def power_of_ten(m):
    """10^k, k <= 0, the largest scale with m * 10^k <= 999999"""
    s = 1.0
    while bool(gt(mul(m, s), 999999.0)):
        s = s / 10
    return s


GS = {}
for _m in ("STD", "ESD", "FXYE"):
    for _n in {"STD": (2, 3, 10, 11, 21), "ESD": (2, 4, 5, 6, 11), "FXYE": (2, 3)}[_m]:
        GS["%s.%d" % (_m, _n)] = (_m, _n, 600000.0)
    GS["%s.large" % _m] = (_m, 3, 9.0e6)
    GS["%s.huge" % _m] = (_m, 2, 3.0e8)
    GS["%s.small" % _m] = (_m, 3, 64.0)


@HARNESSES.each(GS, functions=["save_powder_output.gsas_writer", "gsas_file_reader.gsas_reader"], bounds="2 to 21 points: any start and step of the angles (any angles for FXYE), any intensities up to 6e5 and, scaled, up to 3e8; errors; directory given or not", quick_s=120)
def gsas(c, mode, n, top):
    x, y, e = pattern(c, mode, n, top)
    with folder(c) as d:
        kw = {}
        if mode != "STD":
            kw.update(mode=mode, err=e)
        elif c.choice("mode", [False, True]):
            kw["mode"] = "STD"
        if c.choice("dir", [False, True]):
            kw["dir_path"] = d
        sn = snapshot(x, y)
        save_powder_output.gsas_writer(x, y, "pat", **kw)
        unchanged(c, sn, [x, y], "inputs are not changed")
        c.check(os.listdir(d) == ["pat.gsas"], "one file")
        L = open("pat.gsas", newline="").read().split("\r\n")
        c.check(L[-1] == "" and all(len(t) <= 80 for t in L[2:]) and len(L[0]) == 80 and len(L[-2]) == 80, "records of 80 columns")
        rec = {"STD": -(-n // 10), "ESD": -(-n // 5), "FXYE": n}[mode]
        w = L[1].split()
        c.check(w[0] == "BANK" and int(w[2]) == n and int(w[3]) == rec and w[4] == "CONST" and w[9] == mode and len(L) == rec + 3, "number of channels and records")
        near(c, [num(w[5]), num(w[6])], [mul(at(x, 0), 100.0), div(mul(sub(at(x, n - 1), at(x, 0)), 100.0), float(n - 1))], 1e-5, "start and step in centidegrees")
        big = elems(y)[0]
        for v in elems(y)[1:]:
            big = maximum(big, v)
        for k in range(4):
            c.assume(gt(core.absolute(sub(big, 999999.0 * 10**k)), 1e-3 * 10**k))
        s = power_of_ten(big)
        c.check("scale=%g" % s in L[0] and "pat" in L[0], "name and scale in the title")
        a, b, q = gsas_file_reader.gsas_reader("pat.gsas")
    c.check(all(len(v) == n for v in (a, b, q)), "all points are read back")
    if mode == "FXYE":
        c.check_eq(elems(a), elems(x), "angles", tol=1e-9)
    else:
        near(c, elems(a), elems(x), 1e-6 * (n + 1), "angles")
    for k in range(n):
        v = mul(at(y, k), s)
        v = v if mode == "FXYE" else rounded(v)
        c.check_eq(at(b, k), v, "intensities times the scale", tol=1e-6)
        if mode == "STD":
            want = ite(gt(v, 0), div(1.0, ite(gt(v, 0), v, 1.0)), 0.0)
        else:
            r = mul(at(e, k), s)
            r = r if mode == "FXYE" else rounded(r)
            want = ite(gt(r, 0), div(1.0, mul(ite(gt(r, 0), r, 1.0), ite(gt(r, 0), r, 1.0))), 0.0)
        c.check_eq(at(q, k), want, "weights", tol=1e-6)


@HARNESSES.add(functions=["gsas_file_reader.gsas_reader"], bounds="STD and ESD files of 3 channels written by other programs: blank fields, several counters per channel, any intensities and errors")
def gsas_foreign(c):
    mode = c.choice("mode", ["STD", "ESD"])
    ni = c.choice("counters", ["  ", " 0", " 1", " 2", "12"])
    v = [c.int("v%d" % k, 0, 600000) for k in range(3)]
    e = [c.int("e%d" % k, 0, 600000) for k in range(3)]
    blank = c.choice("blank", [None, 0, 1, 2])
    with folder(c):
        if mode == "STD":
            rec = "".join(ni + ("      " if blank == k else "%6.0f" % v[k]) for k in range(3))
        else:
            rec = "".join(("        " if blank == k else "%8.0f" % v[k]) + "%8.0f" % e[k] for k in range(3))
        with open("f.gsas", "w") as f:
            f.write("title\nBANK 1 3 1 CONST 1000.0 50.0 0 0 %s\n%s\n" % (mode, rec))
        a, b, q = gsas_file_reader.gsas_reader("f.gsas")
    c.check(all(len(t) == 3 for t in (a, b, q)), "as many points as channels")
    c.check_eq(elems(a), [10.0, 10.5, 11.0], "angles in degrees", tol=1e-9)
    n = max(int(ni.strip() or 0), 1)
    for k in range(3):
        y = 0.0 if blank == k else rounded(v[k])
        c.check_eq(at(b, k), y, "intensities, blanks are zero", tol=1e-9)
        if mode == "STD":
            want = ite(gt(y, 0), div(float(n), ite(gt(y, 0), y, 1.0)), 0.0)
        else:
            r = rounded(e[k])
            r1 = ite(gt(r, 0), r, 1.0)
            want = ite(gt(r, 0), div(1.0, mul(r1, r1)), 0.0)
        c.check_eq(at(q, k), want, "weights", tol=1e-9)


@HARNESSES.add(functions=["gsas_file_reader.gsas_reader"], bounds="wrong extensions and modes")
def gsas_refused(c):
    case = c.choice("case", ["ext", "noext", "mode"])
    with folder(c):
        name = {"ext": "a.chi", "noext": "gsas", "mode": "a.gsas"}[case]
        with open(name, "w") as f:
            f.write("title\nBANK 1 1 1 CONST 10.0 1.0 0 0 XYZ\n 1   100\n")
        c.check(raises(c, ValueError if case == "mode" else IOError, gsas_file_reader.gsas_reader, name), "files of other formats are rejected")


@HARNESSES.add(functions=["binary.read_binary"], bounds="headers of 0, 1 and 7 bytes, sizes up to 3x2x2, five data types")
def raw(c):
    h = c.choice("header", [b"", b"\x07", b"header\n"])
    t = c.choice("dtype", ["uint8", "int16", ">i4", "float32", "float64"])
    nx, ny, nz = c.choice("nx", [1, 2, 3]), c.choice("ny", [1, 2]), c.choice("nz", [1, 2])
    d = (np.arange(nx * ny * nz) * 3 + 1).astype(t)
    with folder(c):
        with open("d.bin", "wb") as f:
            f.write(h + d.tobytes())
        c.text = None
        r, g = binary.read_binary("d.bin", nx, ny, nz, t, len(h))
    c.check(g == h, "the header")
    shape = (nx, ny, nz) if nz != 1 else (nx, ny) if ny != 1 else (nx,)
    c.check(tuple(r.shape) == shape, "shape")
    c.check_eq(elems(r), [float(v) for v in d], "elements in file order", exact=True)


@HARNESSES.each({"%dx%d" % s: s for s in ((1, 1), (2, 3), (3, 2), (1, 8), (8, 1), (2, 33), (3, 32))}, functions=["fit2d.fit2d_save", "fit2d.read_fit2d_msk"], bounds="any mask of up to 8 pixels; larger masks with any one or two pixels set or cleared")
def masks(c, R, C):
    n = R * C
    if n <= 8:
        m = np.array([c.choice("m%d" % i, [False, True]) for i in range(n)]).reshape(R, C)
    else:
        base = c.choice("base", [False, True])
        m = np.full((R, C), base)
        i, j = c.choice("i", list(range(0, n, 5))), c.choice("j", [0, 31, 32, n - 1])
        m.flat[i] = not base
        m.flat[min(j, n - 1)] = not base
    keep = m.copy()
    with folder(c) as d:
        c.text = None
        if c.choice("dir", [False, True]):
            fit2d_save(m, "mask", dir_path=d)
        else:
            fit2d_save(m, "mask")
        c.check(os.listdir(d) == ["mask.msk"], "one file")
        r = read_fit2d_msk("mask.msk")
    c.check(tuple(r.shape) == (R, C), "shape")
    c.check(bool(np.array_equal(np.asarray(r), keep)), "the mask that was saved")
    c.check(bool(np.array_equal(m, keep)), "the given mask is not changed")
