"""symx.core - path-exploring symbolic execution of ordinary Python code with z3.

The real functions of /repo run on the value classes below.  A branch on a
symbolic condition asks the solver which sides are feasible under the path
condition; every feasible side is explored by re-executing the harness with a
recorded decision prefix.
"""
import math
import numbers
import time
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


class Infeasible(BaseException):
    """the current path is infeasible / abandoned"""


class Unsupported(Exception):
    """an operation the engine does not encode"""


class PathLimit(BaseException):
    pass


CUR = None  # the active SymCtx (None in concrete mode)


def cur():
    if CUR is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return CUR


# ----------------------------------------------------------------- helpers
def is_sym(x):
    return isinstance(x, (S, SB, SC))


def _frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(x)  # exact binary value of the float


def zreal(x):
    """z3 real term of a finite number / S / SB"""
    if isinstance(x, S):
        return z3.ToReal(x.e) if x.isint else x.e
    if isinstance(x, SB):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    f = _frac(x if isinstance(x, (bool, int, Fraction)) else float(x))
    return z3.Q(f.numerator, f.denominator)


def zint(x):
    if isinstance(x, S):
        if not x.isint:
            raise Unsupported("real used as int")
        return x.e
    if isinstance(x, SB):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def zbool(x):
    if isinstance(x, SB):
        return x.e
    if isinstance(x, S):
        return x.e != 0
    return z3.BoolVal(bool(x))


def is_intlike(x):
    import numpy as np

    if isinstance(x, S):
        return x.isint
    if isinstance(x, SB):
        return True
    return isinstance(x, (bool, int, np.integer, np.bool_))


def norm_num(x):
    """bring numpy scalars / 0-d arrays to python numbers; leave symbols"""
    import numpy as np

    if isinstance(x, (S, SB, SC, bool, int, float, complex)):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm_num(x[()]) if type(x) is not np.ndarray else norm_num(x.item())
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.complexfloating):
        return complex(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, numbers.Number):
        return x
    return NotImplemented


def mk(e):
    """wrap a z3 arithmetic term, folding constants to python numbers"""
    e = z3.simplify(e) if e.num_args() <= 3 and _smallconst(e) else e
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        n, d = e.numerator_as_long(), e.denominator_as_long()
        f = Fraction(n, d)
        x = float(f)
        if Fraction(x) == f:
            return x
        return S(e)
    return S(e)


def _smallconst(e):
    for c in e.children():
        if c.num_args() > 0 and not z3.is_rational_value(c):
            return False
    return True


def mkb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SB(e)


_UF = {}
_FRESH = [0]


def uf(name, *args):
    """uninterpreted real function (abstraction, recorded on the context)"""
    k = (name, len(args))
    if k not in _UF:
        _UF[k] = z3.Function("uf_" + name, *([z3.RealSort()] * (len(args) + 1)))
    c = cur()
    c.note_abstract(name)
    es = [zreal(a) for a in args]
    if c.symbolic:
        tab = c.uf_table.setdefault(k, {})
        key = ("id",) + tuple(e.get_id() for e in es)
        if key in tab:
            return S(tab[key][0])
        cks = [_canon_key(e)[0] for e in es]
        ck = tuple(cks) if all(x is not None for x in cks) else None
        r = None
        if ck is not None:
            r = tab.get(ck)
        if r is None and ck is not None and len(tab) <= 120:
            from .engine import identical

            for o in list(tab.values()):
                if all(identical(S(x), S(y), (), 1e-12) for x, y in zip(o[1], es)):
                    r = o
                    break
        if r is None:
            r = (_UF[k](*es), es)
        tab[key] = (r[0], es)
        if ck is not None:
            tab[ck] = (r[0], es)
        return S(r[0])
    return S(_UF[k](*es))


def _canon_key(e):
    """(key of the rational function e up to rounding noise, sign of its leading coefficient is negative)"""
    from .engine import Poly

    P = Poly()
    try:
        n, d = P.rat(e)
    except (Unsupported, OverflowError, RecursionError):
        return None, False
    if not n or not d or len(n) + len(d) > 400:
        return None, False
    ms = sorted(d)
    lead = d[ms[0]]
    ns = sorted(n)
    kn = tuple((m, float("%.11e" % float(n[m] / lead))) for m in ns)
    kd = tuple((m, float("%.11e" % float(d[m] / lead))) for m in ms)
    return (kn, kd), (n[ns[-1]] / lead) < 0


def _negative(a):
    """leading coefficient of the polynomial form is negative (to normalise odd and even functions)"""
    return _canon_key(zreal(a))[1]


class _Num:
    __array_priority__ = 1e9
    __slots__ = ()

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kwargs)

    # numpy-scalar look-alikes
    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dtype, *a, **k):
        from . import arr

        return arr.cast_elem(self, arr.to_dtype(dtype))

    def sum(self, *a, **k):
        return self

    def reshape(self, *shape, **k):
        from . import arr

        return arr.scalar_arr(self).reshape(*shape)

    def ravel(self):
        return self.reshape(1)

    flatten = ravel

    def __getitem__(self, key):
        if key == () or key is Ellipsis:
            return self
        if key is None:
            return self.reshape(1)
        raise IndexError("invalid index to scalar variable.")

    def tolist(self):
        return self


class S(_Num):
    """symbolic number: integer (Int sort) or real (Real sort)"""

    __slots__ = ("e", "isint")

    def __init__(self, e):
        self.e = e
        self.isint = z3.is_int(e)

    @property
    def dtype(self):
        import numpy as np

        return np.dtype(np.int64) if self.isint else np.dtype(np.float64)

    # -- conversions
    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return cur().concretize_int(self)

    def __int__(self):
        return cur().concretize_int(trunc(self))

    def __float__(self):
        if getattr(CUR, "text", None) is not None:
            return text_marker(self)
        if _formatting():
            return 0.0
        if self.isint:
            return float(cur().concretize_int(self))
        return cur().realize(self)

    def __hash__(self):
        if self.isint:
            return hash(cur().concretize_int(self))
        return hash(cur().realize(self))

    def __repr__(self):
        return "<S>"

    def __format__(self, spec):
        if getattr(CUR, "text", None) is not None:
            return format(text_marker(self), spec)
        return "<S>"

    __str__ = __repr__

    def __round__(self, n=None):
        if n is None:
            return rint(self, True)
        raise Unsupported("round with digits")

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return neg(floor_int(neg(self)))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    conj = conjugate

    def is_integer(self):
        if self.isint:
            return True
        return mkb(z3.IsInt(self.e))


class SB(_Num):
    """symbolic boolean"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def dtype(self):
        import numpy as np

        return np.dtype(bool)

    def __bool__(self):
        return cur().branch(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "<SB>"

    def any(self, *a, **k):
        return self

    all = any

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return xor_(self, o)

    __rxor__ = __xor__

    def __invert__(self):
        return not_(self)


class SC(_Num):
    """symbolic complex number"""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def dtype(self):
        import numpy as np

        return np.dtype(complex)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SC(self.re, neg(self.im))

    conj = conjugate

    def __bool__(self):
        return bool(or_(ne(self.re, 0), ne(self.im, 0)))

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __hash__(self):
        return hash(complex(self))

    def __repr__(self):
        return "<SC>"


numbers.Number.register(S)
numbers.Number.register(SC)
numbers.Real.register(S)


def mkc(re, im):
    if not is_sym(re) and not is_sym(im):
        return complex(re, im)
    return SC(re, im)


def re_im(x):
    if isinstance(x, SC):
        return x.re, x.im
    if isinstance(x, complex):
        return x.real, x.imag
    return x, 0.0


def is_cplx(x):
    return isinstance(x, (SC, complex))


# ------------------------------------------------------------- arithmetic
def _bad(x):
    return isinstance(x, float) and not math.isfinite(x)


def _np2(name, a, b):
    """numpy semantics for two concrete numbers"""
    import numpy as np

    with np.errstate(all="ignore"):
        f = getattr(np, name)
        r = f(a if not isinstance(a, Fraction) else float(a), b if not isinstance(b, Fraction) else float(b))
    return r.item() if isinstance(r, np.generic) else r


def add(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        if isinstance(a, bool) and isinstance(b, bool):
            return int(a) + int(b)
        return a + b
    if is_cplx(a) or is_cplx(b):
        (ar, ai), (br, bi) = re_im(a), re_im(b)
        return mkc(add(ar, br), add(ai, bi))
    if _bad(a):
        return a
    if _bad(b):
        return b
    if not sa and a == 0:
        return to_num(b) if is_intlike(a) or not is_intlike(b) else S(zreal(b))
    if not sb and b == 0:
        return to_num(a) if is_intlike(b) or not is_intlike(a) else S(zreal(a))
    if is_intlike(a) and is_intlike(b):
        return mk(zint(a) + zint(b))
    return mk(zreal(a) + zreal(b))


def to_num(x):
    if isinstance(x, SB):
        return S(zint(x))
    if isinstance(x, bool):
        return int(x)
    return x


def neg(a):
    if not is_sym(a):
        return -a
    if isinstance(a, SC):
        return mkc(neg(a.re), neg(a.im))
    if isinstance(a, SB):
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    return mk(-a.e)


def sub(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        return a - b
    if is_cplx(a) or is_cplx(b):
        (ar, ai), (br, bi) = re_im(a), re_im(b)
        return mkc(sub(ar, br), sub(ai, bi))
    if _bad(a):
        return a
    if _bad(b):
        return -b
    if not sb and b == 0:
        return to_num(a) if is_intlike(b) or not is_intlike(a) else S(zreal(a))
    if sa and sb and isinstance(a, S) and isinstance(b, S) and a.e.eq(b.e):
        return 0 if a.isint else 0.0
    if is_intlike(a) and is_intlike(b):
        return mk(zint(a) - zint(b))
    return mk(zreal(a) - zreal(b))


def mul(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        return a * b
    if is_cplx(a) or is_cplx(b):
        if not is_cplx(a):
            return mkc(mul(a, re_im(b)[0]), mul(a, re_im(b)[1]))
        if not is_cplx(b):
            return mkc(mul(re_im(a)[0], b), mul(re_im(a)[1], b))
        (ar, ai), (br, bi) = re_im(a), re_im(b)
        return mkc(sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br)))
    for p, q in ((a, b), (b, a)):
        if _bad(p):
            if math.isnan(p):
                return p
            if bool(eq(q, 0)):
                return math.nan
            return p if bool(lt(0, q)) else -p
    for p, q in ((a, b), (b, a)):
        if not is_sym(p):
            if p == 0:
                return 0 if is_intlike(p) and is_intlike(q) else 0.0
            if p == 1:
                return to_num(q) if is_intlike(p) or not is_intlike(q) else S(zreal(q))
    for p, q in ((a, b), (b, a)):
        if isinstance(p, SB):  # mask * value keeps the term an if-then-else
            return ite(p, to_num(q) if not isinstance(q, SB) else S(zint(q)), 0)
    if is_intlike(a) and is_intlike(b):
        return mk(zint(a) * zint(b))
    return mk(zreal(a) * zreal(b))


def div(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        return _np2("true_divide", a, b)
    if is_cplx(b):
        (br, bi) = re_im(b)
        den = add(mul(br, br), mul(bi, bi))
        return div(mul(a, mkc(br, neg(bi))), den)
    if is_cplx(a):
        ar, ai = re_im(a)
        return mkc(div(ar, b), div(ai, b))
    if _bad(a):
        if math.isnan(a):
            return a
        if _bad(b):
            return math.nan
        return a if bool(le(0, b)) else -a
    if _bad(b):
        return math.nan if math.isnan(b) else 0.0
    if not sb:
        if b == 0:
            if bool(eq(a, 0)):
                return math.nan
            s = math.copysign(1.0, b)
            return math.inf * s if bool(lt(0, a)) else -math.inf * s
        if b == 1:
            return S(zreal(a))
        return mk(zreal(a) * (1 / zconst(b))) if False else mk(zreal(a) / zreal(b))
    if not sa and a == 0:
        if bool(eq(b, 0)):
            return math.nan
        return 0.0
    # symbolic divisor: numpy semantics of division by zero, by branching
    if not _syn_pos(zreal(b)) and cur().branch(_zero(zreal(b))):
        if not sa:
            return math.inf if a > 0 else -math.inf
        if bool(eq(a, 0)):
            return math.nan
        return math.inf if bool(lt(0, a)) else -math.inf
    return mk(zreal(a) / zreal(b))


def _zero(e):
    """e == 0; a product is zero when a factor is, which spares the solver nonlinear terms"""
    if z3.is_mul(e):
        seen = {}
        for f in e.children():
            seen.setdefault(f.get_id(), f)
        if len(seen) == 1:
            return _zero(next(iter(seen.values())))
    if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() > 0:
        return _zero(e.arg(0))
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return _zero(e.arg(0))
    return e == 0


def zconst(b):
    return zreal(b)


def floor_int(a):
    """floor as an integer term"""
    if not is_sym(a):
        return math.floor(a)
    if isinstance(a, SB):
        return to_num(a)
    if a.isint:
        return a
    return mk(z3.ToInt(a.e))


def floor(a):
    if not is_sym(a):
        return float(math.floor(a)) if math.isfinite(a) else a
    if is_intlike(a):
        return to_num(a)
    return S(z3.ToReal(z3.ToInt(a.e)))


def ceil(a):
    if not is_sym(a):
        return float(math.ceil(a)) if math.isfinite(a) else a
    if is_intlike(a):
        return to_num(a)
    return S(z3.ToReal(-z3.ToInt(-a.e)))


def trunc(a):
    """truncation toward zero as an integer term"""
    if not is_sym(a):
        return int(a)
    if isinstance(a, SB):
        return to_num(a)
    if a.isint:
        return a
    return S(z3.If(a.e >= 0, z3.ToInt(a.e), -z3.ToInt(-a.e)))


def trunc_f(a):
    if not is_sym(a):
        return float(math.trunc(a)) if math.isfinite(a) else a
    t = trunc(a)
    return S(zreal(t)) if is_sym(t) else float(t)


def rint(a, as_int=False):
    if not is_sym(a):
        return round(a) if as_int else float(round(a))
    if is_intlike(a):
        return to_num(a)
    f = z3.ToInt(a.e)
    d = a.e - z3.ToReal(f)
    half = z3.Q(1, 2)
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return S(r) if as_int else S(z3.ToReal(r))


def round_to_single(x):
    """conversion to a float of less than 64 bits: any value within the rounding error"""
    c = cur()
    e = zreal(x)
    y = c.fresh_real("single")
    c.note_abstract("single precision rounding")
    d = z3.If(e >= 0, e, -e) * z3.Q(1, 2 ** 23)
    c.assume_z3(z3.And(y - e <= d, e - y <= d))
    return S(y)


def floordiv(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        return _np2("floor_divide", a, b)
    if is_intlike(a) and is_intlike(b):
        if not sb:
            if b == 0:
                return 0
            if b > 0:
                return mk(zint(a) / z3.IntVal(b))
            return mk((-zint(a)) / z3.IntVal(-b))
        if cur().branch(zint(b) == 0):
            return 0
        zb, za = zint(b), zint(a)
        return S(z3.If(zb > 0, za / zb, (-za) / (-zb)))
    q = div(a, b)
    return floor(q)


def mod(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        return _np2("mod", a, b)
    if is_intlike(a) and is_intlike(b) and not sb and b > 0:
        return mk(zint(a) % z3.IntVal(b))
    q = floordiv(a, b)
    if _bad(q):
        return math.nan
    return sub(a, mul(b, q))


def fmod(a, b):
    if not is_sym(a) and not is_sym(b):
        return _np2("fmod", a, b)
    q = div(a, b)
    if _bad(q):
        return math.nan
    t = trunc_f(q)
    return sub(a, mul(b, t))


def power(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        return _np2("power", a, b)
    if not sb:
        if _bad(a):
            return _np2("power", a, b)
        if float(b).is_integer():
            n = int(b)
            if n == 0:
                return 1 if is_intlike(a) and is_intlike(b) else 1.0
            r = a if is_intlike(b) or not is_intlike(a) else S(zreal(a))
            base = r
            for _ in range(abs(n) - 1):
                r = mul(r, base)
            if n < 0:
                r = div(1.0, r)
            return r
        if b == 0.5:
            return sqrt(a)
        if b == -0.5:
            return div(1.0, sqrt(a))
        if b == 1.5:
            return mul(a, sqrt(a))
    if sb and is_intlike(b):
        k = cur().concretize_int(b)
        if k < 0 and type(a) is int:
            a = float(a)
        return power(a, k)
    return uf("pow", a, b)


def absolute(a):
    if not is_sym(a):
        return abs(a)
    if isinstance(a, SC):
        return sqrt(add(mul(a.re, a.re), mul(a.im, a.im)))
    if isinstance(a, SB):
        return a
    return S(z3.If(a.e >= 0, a.e, -a.e))


def sign(a):
    if not is_sym(a):
        return _np1("sign", a)
    if a.isint:
        return S(z3.If(a.e > 0, z3.IntVal(1), z3.If(a.e < 0, z3.IntVal(-1), z3.IntVal(0))))
    return S(z3.If(a.e > 0, z3.RealVal(1), z3.If(a.e < 0, z3.RealVal(-1), z3.RealVal(0))))


def _np1(name, a):
    import numpy as np

    with np.errstate(all="ignore"):
        r = getattr(np, name)(a)
    return r.item() if isinstance(r, np.generic) else r


def sqrt(a):
    if not is_sym(a):
        return _np1("sqrt", a)
    if isinstance(a, SC):
        raise Unsupported("complex sqrt")
    c = cur()
    t = zreal(a)
    ts = z3.simplify(t)
    key = ("sqrt", ts.get_id())
    if key in c.memo:
        return c.memo[key][0]
    ck = ("sqrtc", _canon_key(t)[0])
    if ck[1] is not None and ck in c.memo:
        return c.memo[ck][0]
    if not _syn_nonneg(t) and not _syn_nonneg(ts) and c.branch(t < 0):
        return math.nan
    r = c.fresh_real("sqrt")
    c.assume_def(r, z3.And(r >= 0, r * r == t))
    res = S(r)
    c.memo[key] = (res, ts)
    if ck[1] is not None:
        c.memo[ck] = (res, t)
    c.defs.append((r, t))
    return res


def _mono_uf(name, a, facts):
    """uninterpreted function with sound facts about its value added to the path"""
    r = uf(name, a)
    c = cur()
    if _seen(r):
        return r
    xa = r.e.arg(0)  # the argument of the canonical term
    for f in facts(xa, r.e):
        c.assume_z3(f)
    lst = c.memo.setdefault(("uf", name), [])
    for (x, y) in lst:
        f = _REL.get(name)
        if f is not None:
            for q in f(x, y, xa, r.e):
                c.assume_z3(q)
    if len(lst) < 12:
        lst.append((xa, r.e))
    return r


def _seen(r):
    """facts about this term are already on the path"""
    c = cur()
    k = ("seen", r.e.get_id())
    if k in c.memo:
        return True
    c.memo[k] = r
    return False


def _syn_nonneg(e):
    """e is a square, a sum of squares, a product of such, or a non-negative number"""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return e.as_fraction() >= 0 if z3.is_rational_value(e) else e.as_long() >= 0
    if not z3.is_app(e):
        return False
    k, ch = e.decl().kind(), e.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        return (not ch and e.decl().name().startswith("sqrt!")) or e.decl().name() == "uf_exp"
    if k == z3.Z3_OP_ADD:
        return all(_syn_nonneg(x) for x in ch)
    if k == z3.Z3_OP_DIV:
        return _syn_nonneg(ch[0]) and _syn_pos(ch[1])
    if k == z3.Z3_OP_MUL:
        rest = list(ch)
        while rest:
            x = rest.pop()
            for i, y in enumerate(rest):
                if x.eq(y):
                    rest.pop(i)
                    break
            else:
                if not _syn_nonneg(x):
                    return False
        return True
    if k == z3.Z3_OP_POWER:
        n = ch[1]
        return (z3.is_int_value(n) and n.as_long() % 2 == 0) or (z3.is_rational_value(n) and n.denominator_as_long() == 1 and n.numerator_as_long() % 2 == 0) or _syn_nonneg(ch[0])
    if k == z3.Z3_OP_TO_REAL:
        return _syn_nonneg(ch[0])
    if k == z3.Z3_OP_ITE:
        return _syn_nonneg(ch[1]) and _syn_nonneg(ch[2])
    return False


# ------------------------------------------------------ numbers written to and read from text (opt-in: ctx.text = {})
# A symbolic number that is formatted is written as a number of its own (six digits, as wide as the fields hold); the
# text is parsed back to the formatted value: the number rounded to the digits written. Numbers are taken to fit their
# fields: harnesses bound them so.
TEXT_BASE = 700001


def text_marker(x):
    t = cur().text
    for m, v in t.items():
        if isinstance(m, float) and v is x:
            return m
    m = float(TEXT_BASE + len(t))
    t[m] = x
    return m


def text_value(txt):
    """value of a numeral that may stand for a symbolic number; None when it does not"""
    c = CUR
    t = getattr(c, "text", None)
    if not t:
        return None
    w = txt.decode() if isinstance(txt, bytes) else txt
    w = w.strip()
    try:
        v = float(w)
    except ValueError:
        return None
    if v not in t:
        return None
    x = S(zreal(t[v]))
    if "e" in w.lower():
        d = len(w.lower().split("e")[0].partition(".")[2])
        if d >= 15:
            return x
        raise Unsupported("text with %d digits" % d)
    d = len(w.partition(".")[2])
    if d >= 9:
        return x
    if d == 0:
        return rint(x)
    key = ("text", w)
    if key not in c.memo:
        y = c.fresh_real("text")
        h = z3.Q(1, 2 * 10**d)
        c.assume_z3(z3.And(y - x.e <= h, x.e - y <= h))
        c.memo[key] = S(y)
    return c.memo[key]


def _formatting():
    """the interpreted code is in a "..." % (...) expression: the text is not modelled"""
    import sys

    try:
        f = sys._getframe(2)
        co = f.f_code.co_code
        return co[f.f_lasti] == _BINARY_OP and co[f.f_lasti + 1] == 6
    except (ValueError, IndexError):
        return False


import opcode as _opcode

_BINARY_OP = _opcode.opmap.get("BINARY_OP", -1)


def _syn_pos(e):
    """e is a positive number, an exponential, or a sum of non-negative terms one of which is positive"""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return e.as_fraction() > 0 if z3.is_rational_value(e) else e.as_long() > 0
    if not z3.is_app(e):
        return False
    k, ch = e.decl().kind(), e.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        return e.decl().name() == "uf_exp"
    if k == z3.Z3_OP_ADD:
        return all(_syn_nonneg(x) for x in ch) and any(_syn_pos(x) for x in ch)
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        return all(_syn_pos(x) for x in ch)
    return False


_REL = {
    "exp": lambda x, y, x2, y2: [z3.And((x < x2) == (y < y2), (x == x2) == (y == y2))],
    "log": lambda x, y, x2, y2: [z3.And((x < x2) == (y < y2), (x == x2) == (y == y2))],
    "arctan": lambda x, y, x2, y2: [z3.And((x < x2) == (y < y2), (x == x2) == (y == y2))],
}


def exp(a):
    if not is_sym(a):
        return _np1("exp", a)
    if isinstance(a, SC):
        r = exp(a.re) if is_sym(a.re) or a.re != 0 else 1.0
        return mkc(mul(r, cos(a.im)), mul(r, sin(a.im)))
    y = _inner(a, "log")
    if y is not None:
        return mk(y)
    return _mono_uf("exp", a, lambda x, y: [y > 0, (x == 0) == (y == 1), (x > 0) == (y > 1), y >= 1 + x])


def log(a):
    if not is_sym(a):
        return _np1("log", a)
    c = cur()
    if c.branch(zreal(a) <= 0):
        return -math.inf if bool(eq(a, 0)) else math.nan
    y = _inner(a, "exp")
    if y is not None:
        return mk(y)
    return _mono_uf("log", a, lambda x, y: [(x == 1) == (y == 0), (x > 1) == (y > 0), y <= x - 1])


def log10(a):
    if not is_sym(a):
        return _np1("log10", a)
    r = log(a)
    if _bad(r):
        return r
    r = div(r, math.log(10))
    c = cur()
    x, y = zreal(a), zreal(r)
    key = ("log10", x.get_id())
    if key not in c.memo:
        c.memo[key] = x
        for k in range(-8, 9):
            c.assume_z3((x >= zreal(10.0**k)) == (y >= k))
    return r


def log2(a):
    if not is_sym(a):
        return _np1("log2", a)
    r = log(a)
    return r if _bad(r) else div(r, math.log(2))


def sin(a):
    if not is_sym(a):
        return _np1("sin", a)
    if _negative(a):
        return neg(sin(neg(a)))
    r = uf("sin", a)
    c = cur()
    co = uf("cos", a)
    if ("sc", r.e.get_id()) in c.memo:
        return r
    c.memo[("sc", r.e.get_id())] = r
    c.defs.append((co.e, 1 - r.e * r.e))
    c.assume_z3(z3.And(r.e >= -1, r.e <= 1, co.e >= -1, co.e <= 1, r.e * r.e + co.e * co.e == 1))
    return r


def cos(a):
    if not is_sym(a):
        return _np1("cos", a)
    if _negative(a):
        return cos(neg(a))
    sin(a)
    return uf("cos", a)


def tan(a):
    if not is_sym(a):
        return _np1("tan", a)
    return div(sin(a), cos(a))


def arctan2(y, x):
    if not is_sym(x) and not is_sym(y):
        return _np2("arctan2", y, x)
    r = uf("arctan2", y, x)
    pi = Fraction(math.pi)
    P = z3.Q(pi.numerator, pi.denominator)
    if _seen(r):
        return r
    zy, zx = r.e.arg(0), r.e.arg(1)
    cur().assume_z3(
        z3.And(
            r.e >= -P,
            r.e <= P,
            z3.Implies(zy > 0, r.e > 0),
            z3.Implies(zy < 0, r.e < 0),
            z3.Implies(z3.And(zy == 0, zx >= 0), r.e == 0),
            z3.Implies(z3.And(zy == 0, zx < 0), r.e == P),
        )
    )
    return r


def generic_uf(name):
    def f(*args):
        if not any(is_sym(a) for a in args):
            return _np1(name, *args) if len(args) == 1 else _np2(name, *args)
        return uf(name, *args)

    return f


def _q(x):
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


_HP = Fraction(math.pi) / 2
_PI_LO, _PI_HI = Fraction(math.pi) - Fraction(1, 10**15), Fraction(math.pi) + Fraction(1, 10**15)


def _inner(a, name):
    """x when a is syntactically name(x)"""
    e = zreal(a)
    if z3.is_app(e) and e.decl().name() == "uf_" + name and e.num_args() == 1:
        return e.arg(0)
    from .engine import identical

    seen = set()
    for r, _ in list(cur().uf_table.get((name, 1), {}).values()):
        if r.get_id() not in seen and len(seen) < 20:
            seen.add(r.get_id())
            if identical(S(e), S(r), (), 1e-12):
                return r.arg(0)
    return None


def arcsin(a):
    if not is_sym(a):
        return _np1("arcsin", a)
    c = cur()
    if c.branch(z3.Or(zreal(a) > 1, zreal(a) < -1)):
        return math.nan
    r = uf("arcsin", a)
    if _seen(r):
        return r
    x = r.e.arg(0)
    s_, c_ = uf("sin", r).e, uf("cos", r).e
    c.assume_z3(z3.And(s_ == x, c_ >= 0, s_ * s_ + c_ * c_ == 1, r.e >= -_q(_PI_HI / 2), r.e <= _q(_PI_HI / 2),
                       (x > 0) == (r.e > 0), (x == 0) == (r.e == 0)))
    y = _inner(a, "sin")
    if y is not None:
        c.assume_z3(z3.Implies(z3.And(y >= -_q(_PI_LO / 2), y <= _q(_PI_LO / 2)), r.e == y))
    _mono_pairs("arcsin", x, r.e)
    return r


def arccos(a):
    if not is_sym(a):
        return _np1("arccos", a)
    c = cur()
    if c.branch(z3.Or(zreal(a) > 1, zreal(a) < -1)):
        return math.nan
    r = uf("arccos", a)
    if _seen(r):
        return r
    x = r.e.arg(0)
    s_, c_ = uf("sin", r).e, uf("cos", r).e
    c.assume_z3(z3.And(c_ == x, s_ >= 0, s_ * s_ + c_ * c_ == 1, r.e >= 0, r.e <= _q(_PI_HI)))
    y = _inner(a, "cos")
    if y is not None:
        c.assume_z3(z3.Implies(z3.And(y >= 0, y <= _q(_PI_LO)), r.e == y))
    return r


def arctan(a):
    if not is_sym(a):
        return _np1("arctan", a)
    c = cur()
    r = uf("arctan", a)
    if _seen(r):
        return r
    x = r.e.arg(0)
    s_, c_ = uf("sin", r).e, uf("cos", r).e
    c.assume_z3(z3.And(c_ > 0, s_ == x * c_, s_ * s_ + c_ * c_ == 1, r.e >= -_q(_PI_HI / 2), r.e <= _q(_PI_HI / 2),
                       (x > 0) == (r.e > 0), (x == 0) == (r.e == 0)))
    _mono_pairs("arctan", x, r.e)
    return r


def spacing(a):
    if not is_sym(a):
        return _np1("spacing", a)
    c = cur()
    r = uf("spacing", a)
    if _seen(r):
        return r
    x = r.e.arg(0)
    ax = z3.If(x >= 0, x, -x)
    c.assume_z3(z3.And(r.e != 0, (r.e > 0) == (x >= 0), z3.If(r.e > 0, r.e, -r.e) <= ax * _q(Fraction(1, 2**40)) + _q(Fraction(1, 2**60))))
    return r


def _mono_pairs(name, x, y):
    c = cur()
    lst = c.memo.setdefault(("uf", name), [])
    for (x2, y2) in lst:
        if not x.eq(x2):
            c.assume_z3((x < x2) == (y < y2))
    lst.append((x, y))


# ------------------------------------------------------------ comparisons
def _nan(x):
    return isinstance(x, float) and math.isnan(x)


def _cmp(op, a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            a, b = _frac(a), _frac(b)
        return bool({"lt": a < b, "le": a <= b}[op])
    for x in (a, b):
        if _nan(x):
            return False
    if is_cplx(a) or is_cplx(b):
        raise Unsupported("complex ordering")
    if _bad(a):
        return a < 0
    if _bad(b):
        return b > 0
    if is_intlike(a) and is_intlike(b):
        za, zb = zint(a), zint(b)
    else:
        za, zb = zreal(a), zreal(b)
    return mkb(z3.simplify(za < zb if op == "lt" else za <= zb))


def lt(a, b):
    return _cmp("lt", a, b)


def le(a, b):
    return _cmp("le", a, b)


def gt(a, b):
    return _cmp("lt", b, a)


def ge(a, b):
    return _cmp("le", b, a)


def eq(a, b):
    sa, sb = is_sym(a), is_sym(b)
    if not sa and not sb:
        return bool(a == b)
    for x in (a, b):
        if _bad(x):
            return False
    if is_cplx(a) or is_cplx(b):
        (ar, ai), (br, bi) = re_im(a), re_im(b)
        return and_(eq(ar, br), eq(ai, bi))
    if isinstance(a, SB) and isinstance(b, (SB, bool)) or isinstance(b, SB) and isinstance(a, (SB, bool)):
        return mkb(z3.simplify(zbool(a) == zbool(b)))
    if is_intlike(a) and is_intlike(b):
        return mkb(z3.simplify(zint(a) == zint(b)))
    return mkb(z3.simplify(zreal(a) == zreal(b)))


def ne(a, b):
    return not_(eq(a, b))


def tb(x):
    """truth of a value as bool/SB"""
    if isinstance(x, SB):
        return x
    if isinstance(x, (S, SC)):
        return ne(x, 0)
    return bool(x)


def not_(a):
    a = tb(a)
    if isinstance(a, SB):
        return mkb(z3.simplify(z3.Not(a.e)))
    return not a


def and_(*xs):
    ys = []
    for x in xs:
        x = tb(x)
        if isinstance(x, SB):
            ys.append(x.e)
        elif not x:
            return False
    if not ys:
        return True
    return SB(ys[0]) if len(ys) == 1 else mkb(z3.And(*ys))


def or_(*xs):
    ys = []
    for x in xs:
        x = tb(x)
        if isinstance(x, SB):
            ys.append(x.e)
        elif x:
            return True
    if not ys:
        return False
    return SB(ys[0]) if len(ys) == 1 else mkb(z3.Or(*ys))


def xor_(a, b):
    a, b = tb(a), tb(b)
    if not is_sym(a) and not is_sym(b):
        return a != b
    return mkb(z3.simplify(z3.Xor(zbool(a), zbool(b))))


def ite(c, a, b):
    c = tb(c)
    if not isinstance(c, SB):
        return a if c else b
    if a is b:
        return a
    if not is_sym(a) and not is_sym(b):
        if type(a) == type(b) and (a == b or (_nan(a) and _nan(b))):
            return a
    if is_cplx(a) or is_cplx(b):
        (ar, ai), (br, bi) = re_im(a), re_im(b)
        return mkc(ite(c, ar, br), ite(c, ai, bi))
    if _bad(a) or _bad(b):  # nan / inf: branch instead of merging
        return a if bool(c) else b
    try:
        if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
            return mkb(z3.simplify(z3.If(c.e, zbool(a), zbool(b))))
        if is_intlike(a) and is_intlike(b):
            return S(z3.If(c.e, zint(a), zint(b)))
        return S(z3.If(c.e, zreal(a), zreal(b)))
    except (TypeError, ValueError, z3.Z3Exception):
        return a if bool(c) else b


def maximum(a, b):
    for x in (a, b):
        if _nan(x):
            return x
    if a is b:
        return a
    return ite(le(b, a), a, b)


def minimum(a, b):
    for x in (a, b):
        if _nan(x):
            return x
    if a is b:
        return a
    return ite(le(a, b), a, b)


def fmax(a, b):
    if _nan(a):
        return b
    if _nan(b):
        return a
    return maximum(a, b)


def fmin(a, b):
    if _nan(a):
        return b
    if _nan(b):
        return a
    return minimum(a, b)


def _binop(fn, swap=False):
    def op(self, o):
        import numpy as np

        if isinstance(o, np.ndarray) and o.ndim > 0:
            from . import arr

            x = arr.scalar_arr(self)
            return arr.elementwise2(fn, o, x) if swap else arr.elementwise2(fn, x, o)
        o = norm_num(o)
        if o is NotImplemented:
            return NotImplemented
        return fn(o, self) if swap else fn(self, o)

    return op


for _cls in (S, SB, SC):
    for _n, _f in (
        ("add", add),
        ("sub", sub),
        ("mul", mul),
        ("truediv", div),
        ("floordiv", floordiv),
        ("mod", mod),
        ("pow", power),
    ):
        setattr(_cls, "__%s__" % _n, _binop(_f))
        setattr(_cls, "__r%s__" % _n, _binop(_f, True))
    for _n, _f in (("lt", lt), ("le", le), ("gt", gt), ("ge", ge)):
        setattr(_cls, "__%s__" % _n, _binop(_f))

    def _eq(self, o):
        import numpy as np

        if isinstance(o, np.ndarray) and o.ndim > 0:
            from . import arr

            return arr.elementwise2(eq, arr.scalar_arr(self), o)
        o = norm_num(o)
        if o is NotImplemented:
            return False
        return eq(self, o)

    def _ne(self, o):
        import numpy as np

        if isinstance(o, np.ndarray) and o.ndim > 0:
            from . import arr

            return arr.elementwise2(ne, arr.scalar_arr(self), o)
        o = norm_num(o)
        if o is NotImplemented:
            return True
        return ne(self, o)

    _cls.__eq__ = _eq
    _cls.__ne__ = _ne
    _cls.__neg__ = lambda self: neg(self)
    _cls.__pos__ = lambda self: self
    _cls.__abs__ = lambda self: absolute(self)
    _cls.__divmod__ = lambda self, o: (floordiv(self, o), mod(self, o))
    # numpy's object loops look these up
    for _n, _f in (
        ("sqrt", sqrt), ("exp", exp), ("log", log), ("log10", log10), ("sin", sin), ("cos", cos), ("tan", tan),
    ):
        setattr(_cls, _n, (lambda f: lambda self: f(self))(_f))
S.__hash__ = S.__dict__["__hash__"]


def _int_bitop(name, pyop, zop):
    def f(self, o):
        o = norm_num(o)
        if isinstance(o, (SB, bool)) and isinstance(self, SB):
            return zop(self, o)
        raise Unsupported("bit operation on symbolic integers")

    return f
