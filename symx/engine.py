"""symx.engine - exploration, obligations, counterexample replay."""
import math
import os
import pickle
import select
import signal
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import S, SB, SC, Infeasible, Unsupported, and_, eq, is_sym, le, lt, not_, or_, zbool, zint, zreal


class CheckFailed(Exception):
    """raised in concrete mode when an assertion of the harness fails"""


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.by_norm = 0
        self.inconclusive = []
        self.abstractions = set()
        self.realised = 0
        self.max_depth = 0
        self.unsupported = []

    def as_dict(self):
        d = dict(self.__dict__)
        d["abstractions"] = sorted(self.abstractions)
        d["solver_s"] = round(self.solver_s, 3)
        d["inconclusive"] = self.inconclusive[:20]
        d["n_inconclusive"] = len(self.inconclusive)
        d["unsupported"] = self.unsupported[:10]
        return d


class Budget(BaseException):
    pass


# ------------------------------------------------------ polynomial normaliser
class Poly:
    """sparse multivariate polynomials with Fraction coefficients; atoms are z3 terms"""

    LIMIT = 20000

    def __init__(self):
        self.atoms = {}

    def atom(self, e):
        self.atoms.setdefault(e.get_id(), e)
        return {((e.get_id(), 1),): Fraction(1)}

    @staticmethod
    def padd(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        r = {}
        if len(a) * len(b) > self.LIMIT:
            raise Unsupported("polynomial too large")
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = dict(m1)
                for k, p in m2:
                    d[k] = d.get(k, 0) + p
                m = tuple(sorted(d.items()))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def rat(self, e, memo=None):
        """(numerator, denominator) polynomials of a z3 arithmetic term"""
        memo = {} if memo is None else memo
        k = e.get_id()
        if k in memo:
            return memo[k][:2]
        one = {(): Fraction(1)}
        if z3.is_int_value(e):
            r = ({(): Fraction(e.as_long())} if e.as_long() else {}, one)
        elif z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            r = ({(): f} if f else {}, one)
        elif z3.is_app(e):
            kind = e.decl().kind()
            ch = e.children()
            if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                n, d = self.rat(ch[0], memo)
                for c in ch[1:]:
                    n2, d2 = self.rat(c, memo)
                    s = 1 if kind == z3.Z3_OP_ADD else -1
                    if d == d2:
                        n = self.padd(n, n2, s)
                    else:
                        n = self.padd(self.pmul(n, d2), self.pmul(n2, d), s)
                        d = self.pmul(d, d2)
                r = (n, d)
            elif kind == z3.Z3_OP_MUL:
                n, d = self.rat(ch[0], memo)
                for c in ch[1:]:
                    n2, d2 = self.rat(c, memo)
                    n, d = self.pmul(n, n2), self.pmul(d, d2)
                r = (n, d)
            elif kind == z3.Z3_OP_UMINUS:
                n, d = self.rat(ch[0], memo)
                r = ({m: -c for m, c in n.items()}, d)
            elif kind == z3.Z3_OP_DIV:
                n, d = self.rat(ch[0], memo)
                n2, d2 = self.rat(ch[1], memo)
                if not n2:
                    r = (self.atom(e), one)
                else:
                    r = (self.pmul(n, d2), self.pmul(d, n2))
            elif kind == z3.Z3_OP_TO_REAL and z3.is_app(ch[0]) and ch[0].decl().kind() != z3.Z3_OP_ITE:
                r = self.rat(ch[0], memo)
            elif kind == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 8:
                n, d = self.rat(ch[0], memo)
                rn, rd = one, one
                for _ in range(ch[1].numerator_as_long()):
                    rn, rd = self.pmul(rn, n), self.pmul(rd, d)
                r = (rn, rd)
            else:
                r = (self.atom(e), one)
        else:
            r = (self.atom(e), one)
        memo[k] = (r[0], r[1], e)
        return r

    def reduce_sqrt(self, p, defs):
        """replace r**2 by its radicand for sqrt atoms"""
        for _ in range(6):
            changed = False
            out = {}
            for m, c in p.items():
                hit = None
                for (a, pw) in m:
                    if pw >= 2 and a in defs:
                        hit = a
                        break
                if hit is None:
                    out = self.padd(out, {m: c})
                    continue
                changed = True
                d = dict(m)
                d[hit] -= 2
                if d[hit] == 0:
                    del d[hit]
                rest = {tuple(sorted(d.items())): c}
                n, den = self.rat(defs[hit])
                if den != {(): Fraction(1)}:
                    return p
                out = self.padd(out, self.pmul(rest, n))
            p = out
            if not changed:
                break
        return p


def identical(a, b, defs=(), tol=None, bound=None):
    """decide a == b as rational functions by normalisation; True or None"""
    P = Poly()
    try:
        memo = {}
        n1, d1 = P.rat(zreal(a), memo)
        n2, d2 = P.rat(zreal(b), memo)
        if d1 == d2:
            diff = P.padd(n1, n2, -1)
            den = d1
        else:
            diff = P.padd(P.pmul(n1, d2), P.pmul(n2, d1), -1)
            den = P.pmul(d1, d2)
        if diff and defs:
            dd = {r.get_id(): t for r, t in defs}
            diff = P.reduce_sqrt(diff, dd)
        if not diff:
            return True
        if tol:
            # rounding noise of concrete coefficients: every coefficient of the
            # difference is negligible next to the coefficients compared
            big = 0.0
            for p, q in ((n1, d2), (n2, d1)):
                pq = P.pmul(p, q) if d1 != d2 else p
                big = max([big] + [abs(float(c)) for c in pq.values()])
            if big and max(abs(float(c)) for c in diff.values()) <= 1e-10 * big:
                return True
    except Unsupported:
        return None
    except (OverflowError, RecursionError):
        return None
    return None


# --------------------------------------------------------------- contexts
class BaseCtx:
    symbolic = False

    def And(self, *a):
        return and_(*a)

    def Or(self, *a):
        return or_(*a)

    def Not(self, a):
        return not_(a)

    def ite(self, c, a, b):
        return core.ite(c, a, b)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.stats = ex.stats
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.inputs = {}
        self.input_meta = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.branch_timeout)
        self.memo = {}
        self.uf_table = {}
        self.defs = []
        self.nfresh = 0
        self.path_abstract = set()
        self.path_realised = False
        self.pc = []
        self.bounds = {}
        self.exact_hint = ex.opts
        self.decided = {}
        self.defcons = {}  # id of a definitional constraint -> name of the variable it defines

    # ---- solver plumbing
    def _check(self, *extra):
        t = time.time()
        rel = self.relevant(extra) if self.defcons else None
        if rel is not None:
            s = z3.Solver()
            s.set("timeout", self.ex.branch_timeout)
            s.add(*rel)
            r = s.check(*extra)
            self.last = s
        else:
            r = self.solver.check(*extra)
            self.last = self.solver
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if time.time() > self.ex.deadline:
            raise Budget()
        return r

    def entails(self, f):
        """the path condition implies f (decided with a short time limit; False when unknown)"""
        self.solver.push()
        try:
            return self._check(z3.Not(f)) == z3.unsat
        finally:
            self.solver.pop()

    def assume_z3(self, f):
        self.solver.add(f)
        self.pc.append(f)

    def assume_def(self, r, f):
        """f defines the fresh variable r by earlier ones (for all their values there is such an r)"""
        self.assume_z3(f)
        self.defcons[f.get_id()] = r.decl().name()

    def relevant(self, extra):
        """the path condition without definitions of variables that occur nowhere else (equisatisfiable); None when
        nothing can be left out"""
        need, defs = set(), []
        for f in list(extra) + self.pc:
            n = self.defcons.get(f.get_id())
            if n is None:
                need |= self.names(f)
            else:
                defs.append((n, f))
        drop = set()
        for n, f in reversed(defs):
            if n in need:
                need |= self.names(f)
            else:
                drop.add(f.get_id())
        if not drop:
            return None
        return [f for f in self.pc if f.get_id() not in drop]

    def names(self, f):
        k = ("names", f.get_id())
        v = self.memo.get(k)
        if v is None:
            out, seen, st = set(), set(), [f]
            while st:
                e = st.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_app(e):
                    if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(e.decl().name())
                    st.extend(e.children())
            v = (out, f)
            self.memo[k] = v
        return v[0]

    def assume(self, c):
        """precondition"""
        c = core.tb(c)
        if isinstance(c, SB):
            self.assume_z3(c.e)
            if self.pos >= len(self.prefix) and self._check() == z3.unsat:
                raise Infeasible()
        elif not c:
            raise Infeasible()

    def note_abstract(self, name):
        self.stats.abstractions.add(name)
        self.path_abstract.add(name)

    def fresh_real(self, base):
        self.nfresh += 1
        return z3.Real("%s!%d" % (base, self.nfresh))

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = z3.is_not(cond)
        lit = cond.arg(0) if neg else cond
        known = self.decided.get(lit.get_id())
        if known is not None:
            # recorded all the same: whether two conditions simplify to one term can depend on z3's numbering, and
            # a re-execution has to take its decisions in the same places
            if self.pos < len(self.prefix):
                kind, val = self.prefix[self.pos]
                assert kind == "b", "nondeterministic re-execution"
            else:
                val = known[0] != neg
            self.pos += 1
            self.trace.append(("b", val))
            if val != (known[0] != neg):
                raise Infeasible()
            return val
        val = self._branch(cond)
        self.decided[lit.get_id()] = (val != neg, lit)
        return val

    def _branch(self, cond):
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            assert kind == "b", "nondeterministic re-execution"
            self.pos += 1
            self.trace.append(("b", val))
            self.assume_z3(cond if val else z3.Not(cond))
            return val
        self.stats.branches += 1
        rt = self._check(cond)
        if rt == z3.unsat:
            self.trace.append(("b", False))
            self.pos += 1
            self.prefix = self.trace[:]
            self.assume_z3(z3.Not(cond))
            return False
        rf = self._check(z3.Not(cond))
        if rf == z3.unsat:
            self.trace.append(("b", True))
            self.pos += 1
            self.prefix = self.trace[:]
            self.assume_z3(cond)
            return True
        self.stats.forks += 1
        self.ex.push(self.trace + [("b", False)])
        self.trace.append(("b", True))
        self.pos += 1
        self.prefix = self.trace[:]
        self.assume_z3(cond)
        return True

    def concretize_int(self, x):
        """case split on the value of an integer term"""
        if not isinstance(x, (S, SB)):
            return int(x)
        e = zint(x)
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            if self.pos < len(self.prefix):
                kind, val = self.prefix[self.pos]
                assert kind == "v", "nondeterministic re-execution"
                v, taken = val
                self.pos += 1
                self.trace.append((kind, val))
                if taken:
                    self.assume_z3(e == v)
                    return v
                self.assume_z3(e != v)
                continue
            r = self._check()
            if r != z3.sat:
                if r == z3.unsat:
                    raise Infeasible()
                raise Unsupported("solver unknown while case-splitting an integer")
            v = self.last.model().eval(e, model_completion=True).as_long()
            self.stats.branches += 1
            if self._check(e != v) != z3.unsat:
                self.stats.forks += 1
                self.ex.push(self.trace + [("v", (v, False))])
            self.trace.append(("v", (v, True)))
            self.pos += 1
            self.prefix = self.trace[:]
            self.assume_z3(e == v)
            return v

    def realize(self, x):
        """pin a real term to one feasible value: coverage of this path becomes partial"""
        e = zreal(x)
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            assert kind == "r"
            self.pos += 1
            self.trace.append((kind, val))
        else:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Unsupported("solver unknown while pinning a value")
            m = self.last.model().eval(e, model_completion=True)
            val = model_frac(m)
            self.trace.append(("r", val))
            self.pos += 1
            self.prefix = self.trace[:]
        self.assume_z3(e == z3.Q(val.numerator, val.denominator))
        if not self.path_realised:
            fr = [f for f in traceback.extract_stack()[:-1] if "symx" not in f.filename][-3:]
            self.realised_at = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in fr[::-1])
        self.path_realised = True
        self.stats.realised += 1
        if os.environ.get("SYMX_TRACE_REALISE"):
            traceback.print_stack(limit=8)
        return float(val)

    # ---- inputs
    def real(self, name, lo=None, hi=None, strict_lo=False):
        e = z3.Real(name)
        self.inputs[name] = e
        self.bounds[name] = (lo, hi)
        cs = []
        if lo is not None:
            cs.append(e > zreal(lo) if strict_lo else e >= zreal(lo))
        if hi is not None:
            cs.append(e <= zreal(hi))
        if cs:
            self.assume_z3(z3.And(*cs))
        return S(e)

    def int(self, name, lo, hi):
        e = z3.Int(name)
        self.inputs[name] = e
        self.assume_z3(z3.And(e >= lo, e <= hi))
        return S(e)

    def bool(self, name):
        e = z3.Bool(name)
        self.inputs[name] = e
        return SB(e)

    def choice(self, name, options):
        """one of a finite list of concrete options; explored exhaustively"""
        options = list(options)
        if len(options) == 1:
            self.inputs.setdefault(name, z3.IntVal(0))
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.concretize_int(i)]

    def reals(self, name, shape, lo=None, hi=None):
        from . import arr

        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            o[idx] = self.real("%s_%s" % (name, "_".join(map(str, idx))), lo, hi)
        return arr.wrap(o, np.float64)

    def ints(self, name, shape, lo, hi, dtype=np.int64):
        from . import arr

        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            v = self.int("%s_%s" % (name, "_".join(map(str, idx))), lo, hi)
            o[idx] = S(zreal(v)) if np.dtype(dtype).kind == "f" else v
        return arr.wrap(o, dtype)

    def bools(self, name, shape, fork=False):
        from . import arr

        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            b = self.bool("%s_%s" % (name, "_".join(map(str, idx))))
            o[idx] = bool(b) if fork else b
        return arr.wrap(o, bool)

    def reals_or_nan(self, name, shape, lo=None, hi=None):
        """every element is a finite real or NaN (case split)"""
        from . import arr

        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            nm = "%s_%s" % (name, "_".join(map(str, idx)))
            o[idx] = float("nan") if bool(self.bool("isnan_" + nm)) else self.real(nm, lo, hi)
        return arr.wrap(o, np.float64)

    def array(self, xs, dtype=float):
        """one-dimensional array of the given (symbolic) scalars"""
        from . import arr

        o = np.empty(len(xs), dtype=object)
        for k, x in enumerate(xs):
            o[k] = core.norm_num(x)
        return arr.wrap(o, np.dtype(dtype))

    def arr(self, native):
        from . import arr

        return arr.from_native(np.asarray(native))

    def complexes(self, name, shape, lo=None, hi=None):
        from . import arr

        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            nm = "%s_%s" % (name, "_".join(map(str, idx)))
            o[idx] = SC(self.real(nm + "r", lo, hi), self.real(nm + "i", lo, hi))
        return arr.wrap(o, complex)

    # ---- obligations
    def check(self, cond, label):
        cond = core.tb(core.norm_num(cond) if not isinstance(cond, (bool, SB)) else cond)
        self.stats.obligations += 1
        self.labels_add(label)
        if not isinstance(cond, SB):
            if cond:
                self.stats.discharged += 1
                return
            self._fail(label, [])
            return
        self._prove(z3.Not(cond.e), label)

    def labels_add(self, label):
        self.ex.labels[label] = self.ex.labels.get(label, 0) + 1

    def check_all(self, conds, label):
        """a conjunction, decided in one query"""
        conds = [core.tb(c) for c in conds]
        self.stats.obligations += 1
        self.labels_add(label)
        sy = []
        for c in conds:
            if isinstance(c, SB):
                sy.append(c.e)
            elif not c:
                self._fail(label, [])
                return
        if not sy:
            self.stats.discharged += 1
            return
        self._prove(z3.Or(*[z3.Not(c) for c in sy]), label)

    def check_eq(self, a, b, label, tol=1e-9, exact=False):
        """a == b, elementwise; NaN equals NaN"""
        fa, fb = flat(a), flat(b)
        sa, sb = shape_of(a), shape_of(b)
        self.labels_add(label)
        if sa != sb:
            self.stats.obligations += 1
            self._fail(label + " (shape %s != %s)" % (sa, sb), [])
            return
        pend = []
        for x, y in zip(fa, fb):
            x, y = core.norm_num(x), core.norm_num(y)
            for p, q in split_c(x, y):
                self.stats.obligations += 1
                bp, bq = core._bad(p), core._bad(q)
                if bp or bq:
                    same = not is_sym(p) and not is_sym(q) and (
                        (math.isnan(p) and math.isnan(q)) or p == q)
                    if same:
                        self.stats.discharged += 1
                        continue
                    self._fail(label + " (%r vs %r)" % (p, q), [])
                    return
                if not is_sym(p) and not is_sym(q):
                    if close(p, q, 0 if exact else tol):
                        self.stats.discharged += 1
                        continue
                    self._fail(label + " (%r vs %r)" % (p, q), [])
                    return
                pend.append((p, q))
        lin = []
        for p, q in pend:
            if identical(p, q, self.defs, None if exact else tol):
                self.stats.discharged += 1
                self.stats.by_norm += 1
            else:
                lin.append((p, q))
        if not lin:
            return
        negs = []
        for p, q in lin:
            zp, zq = zreal(p), zreal(q)
            if exact:
                negs.append(zp != zq)
            else:
                t = Fraction(tol)
                T = z3.Q(t.numerator, t.denominator)
                negs.append(z3.Or(zp - zq > T, zq - zp > T))
        if len(negs) > 1 and self.ex.batch:
            self._prove(z3.Or(*negs), label, weight=len(negs), parts=negs)
        else:
            for n in negs:
                self._prove(n, label)

    def _prove(self, negated, label, weight=1, parts=None):
        """decide PC & negated"""
        t = time.time()
        if time.time() > self.ex.deadline:
            raise Budget()
        s = self.solver
        s.set("timeout", self.ex.prove_timeout)
        pc = (self.relevant([negated]) if self.defcons else None) or self.pc
        if pc is not self.pc:
            s = z3.Solver()
            s.set("timeout", self.ex.prove_timeout)
            s.add(*pc)
        r = s.check(negated)
        self.solver.set("timeout", self.ex.branch_timeout)
        self.stats.queries += 1
        if r == z3.unknown:
            self._probe(label)
            for tac in ("qfnra-nlsat",):
                try:
                    s2 = z3.Tactic(tac).solver()
                    s2.set("timeout", self.ex.prove_timeout)
                    s2.add(*pc)
                    s2.add(negated)
                    r = s2.check()
                    self.stats.queries += 1
                    s = s2 if r == z3.sat else s
                except z3.Z3Exception:
                    r = z3.unknown
                if r != z3.unknown:
                    break
        if r == z3.unknown and parts and len(parts) > 1:
            self.stats.solver_s += time.time() - t
            for p in parts:
                self._prove(p, label)
            return
        if r == z3.unknown:
            r = self._guess(negated)
            if r is not None:
                self.stats.solver_s += time.time() - t
                self._fail(label, [negated], model=r)
                return
            r = z3.unknown
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.discharged += weight
            return
        if r == z3.unknown:
            self.stats.inconclusive.append({"label": label, "why": "solver unknown"})
            return
        self._fail(label, [negated], model=s.model())

    def _probe(self, label):
        """an assertion the solver leaves open: inputs of this path, solved from the path condition, are replayed on
        the real code; only a failing replay is reported"""
        n = self.ex.probes.get(label, 0)
        if n >= 3:
            return
        self.ex.probes[label] = n + 1
        names = set(self.inputs)
        easy = [f for f in self.pc if self.names(f) <= names]
        reals = [(k, e) for k, e in self.inputs.items() if z3.is_real(e)]
        rng = np.random.RandomState(11 + n)
        cands = []
        for attempt in range(6):
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(*easy)
            if s.check() != z3.sat:
                break
            for k, e in reals:
                lo, hi = self.bounds.get(k, (None, None))
                lo = -4 if lo is None else lo
                hi = 4 if hi is None else hi
                v = Fraction(int(rng.randint(1, 32)), 32) * (Fraction(hi) - Fraction(lo)) + Fraction(lo)
                s.push()
                s.add(e == z3.Q(v.numerator, v.denominator))
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                cands.append(self.values_from(s.model()))
        self.stats.queries += len(cands)
        if cands:
            self.ex.try_inputs(cands, label)

    def _guess(self, negated):
        """under-approximate: fix all but a few inputs and ask again"""
        names = [n for n, e in self.inputs.items() if z3.is_real(e)]
        rng = np.random.RandomState(1)
        for attempt in range(6):
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*self.pc)
            s.add(negated)
            keep = set(rng.choice(len(names), size=min(len(names), attempt % 3), replace=False)) if names else set()
            for i, n in enumerate(names):
                if i in keep:
                    continue
                lo, hi = self.bounds.get(n, (None, None))
                lo = -4 if lo is None else lo
                hi = 4 if hi is None else hi
                v = Fraction(int(rng.randint(0, 9)), 8) * (Fraction(hi) - Fraction(lo)) + Fraction(lo)
                s.add(self.inputs[n] == z3.Q(v.numerator, v.denominator))
            self.stats.queries += 1
            if s.check() == z3.sat:
                return s.model()
        return None

    def _fail(self, label, extra, model=None):
        self.ex.counterexample(self, label, extra, model)

    # ---- models
    def values_from(self, model):
        out = {}
        for n, e in self.inputs.items():
            v = model.eval(e, model_completion=True)
            if z3.is_bool(e):
                out[n] = bool(z3.is_true(v))
            elif z3.is_int(e):
                out[n] = v.as_long()
            else:
                f = model_frac(v)
                out[n] = float(f)
        return out

    def nice_models(self, extra, first=None):
        """models of PC & extra, preferring dyadic inputs that floats represent exactly"""
        reals = [(n, e) for n, e in self.inputs.items() if z3.is_real(e)]
        for den in (1, 4, 64):
            if not reals:
                break
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*self.pc)
            s.add(*extra)
            for n, e in reals:
                k = z3.Int("k!" + n)
                s.add(e == z3.ToReal(k) / den, k >= -den * 4096, k <= den * 4096)
            self.stats.queries += 1
            if s.check() == z3.sat:
                yield self.values_from(s.model())
        if first is not None:
            yield self.values_from(first)
        s = z3.Solver()
        s.set("timeout", 6000)
        s.add(*self.pc)
        s.add(*extra)
        if s.check() == z3.sat:
            yield self.values_from(s.model())
        # spread the values
        rng = np.random.RandomState(7)
        for _ in range(4):
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*self.pc)
            s.add(*extra)
            for n, e in reals:
                lo, hi = self.bounds.get(n, (None, None))
                lo = -4 if lo is None else lo
                hi = 4 if hi is None else hi
                v = Fraction(int(rng.randint(0, 17)), 16) * (Fraction(hi) - Fraction(lo)) + Fraction(lo)
                s.push()
                s.add(e == z3.Q(v.numerator, v.denominator))
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                yield self.values_from(s.model())


def model_frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value %s" % v)


def close(p, q, tol):
    if p == q:
        return True
    if isinstance(p, bool) != isinstance(q, bool) and not tol:
        pass
    if not tol:
        return False
    return abs(p - q) <= tol * max(1.0, abs(p), abs(q))


def split_c(x, y):
    if core.is_cplx(x) or core.is_cplx(y):
        (a, b), (c, d) = core.re_im(x), core.re_im(y)
        return [(a, c), (b, d)]
    return [(x, y)]


def flat(a):
    if isinstance(a, np.ndarray):
        return [a.flat[i] for i in range(a.size)] if type(a) is np.ndarray else list(np.asarray(a).view(np.ndarray).flat)
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            out.extend(flat(x))
        return out
    return [a]


def shape_of(a):
    if isinstance(a, np.ndarray):
        return a.shape
    if isinstance(a, (list, tuple)):
        if not a:
            return (0,)
        s = [shape_of(x) for x in a]
        return (len(a),) + s[0] if all(q == s[0] for q in s) else (len(a), tuple(s))
    return ()


class ConcreteCtx(BaseCtx):
    """replays a harness on the unpatched code with concrete values"""

    def __init__(self, values, tol=None):
        self.values = values
        self.fails = []
        self.vac = False
        self.used = {}

    def _get(self, name, default):
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def assume(self, c):
        if not c:
            raise Infeasible()

    def real(self, name, lo=None, hi=None, strict_lo=False):
        d = lo if lo is not None else (min(0.0, hi) if hi is not None else 0.0)
        return float(self._get(name, d))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0))]

    def _mk(self, shape, dtype, fn):
        shape = (shape,) if np.isscalar(shape) else tuple(shape)
        o = np.empty(shape, dtype=dtype)
        for idx in np.ndindex(*shape):
            o[idx] = fn("_".join(map(str, idx)))
        return o

    def reals(self, name, shape, lo=None, hi=None):
        return self._mk(shape, float, lambda s: self.real("%s_%s" % (name, s), lo, hi))

    def ints(self, name, shape, lo, hi, dtype=np.int64):
        return self._mk(shape, dtype, lambda s: self.int("%s_%s" % (name, s), lo, hi))

    def bools(self, name, shape, fork=False):
        return self._mk(shape, bool, lambda s: self.bool("%s_%s" % (name, s)))

    def reals_or_nan(self, name, shape, lo=None, hi=None):
        def f(s):
            nm = "%s_%s" % (name, s)
            return float("nan") if self.bool("isnan_" + nm) else self.real(nm, lo, hi)

        return self._mk(shape, float, f)

    def complexes(self, name, shape, lo=None, hi=None):
        def f(s):
            nm = "%s_%s" % (name, s)
            return complex(self.real(nm + "r", lo, hi), self.real(nm + "i", lo, hi))

        return self._mk(shape, complex, f)

    def array(self, xs, dtype=float):
        return np.array([dtype(x) for x in xs], dtype=dtype)

    def arr(self, native):
        a = np.array(native)
        if a.dtype == object:
            a = a.astype(complex if any(isinstance(x, complex) for x in a.flat) else float)
        return a

    # assertions
    def check(self, cond, label):
        if not bool(cond):
            self.fails.append((label, "condition is false"))

    def check_all(self, conds, label):
        for i, c in enumerate(conds):
            if not bool(c):
                self.fails.append((label, "condition %d is false" % i))
                return

    def check_eq(self, a, b, label, tol=1e-9, exact=False):
        sa, sb = shape_of(a), shape_of(b)
        if sa != sb:
            self.fails.append((label, "shape %s, expected %s" % (sa, sb)))
            return
        tol = 0 if exact else max(tol, 2e-8)
        for i, (x, y) in enumerate(zip(flat(a), flat(b))):
            for p, q in split_c(core.norm_num(x), core.norm_num(y)):
                p_, q_ = float(p), float(q)
                if math.isnan(p_) and math.isnan(q_):
                    continue
                if p_ == q_:
                    continue
                if math.isfinite(p_) and math.isfinite(q_) and close(p_, q_, tol):
                    continue
                self.fails.append((label, "element %d: got %r, expected %r" % (i, p, q)))
                return


class Explorer:
    def __init__(self, harness, patcher, name="", budget_s=60.0, max_paths=5000, prove_timeout=10000,
                 branch_timeout=4000, batch=True, allow_exc=(), opts=None, keep_going=False):
        self.h = harness
        self.patcher = patcher
        self.name = name
        self.stats = Stats()
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.prove_timeout = prove_timeout
        self.branch_timeout = branch_timeout
        self.batch = batch
        self.work = [[]]
        self.labels = {}
        self.violation = None
        self.unreproduced = []
        self.probes = {}
        self.errors = []
        self.complete = False
        self.opts = opts or {}
        self.reached_end = 0
        self.witness = None

    def push(self, prefix):
        self.work.append(prefix)

    def run(self):
        t0 = time.time()
        try:
            while self.work:
                if self.stats.paths >= self.max_paths or time.time() > self.deadline:
                    self.stats.inconclusive.append(
                        {"label": "exploration", "why": "budget reached with %d open prefixes" % len(self.work)})
                    break
                self.one(self.work.pop())
                if self.violation:
                    break
            else:
                self.complete = True
        except Budget:
            self.stats.inconclusive.append({"label": "exploration", "why": "time budget"})
        self.wall = time.time() - t0
        return self

    def alarm(self, *a):
        if time.time() > self.deadline + 30:
            raise Budget()
        raise PathTimeout("path takes more than %d s" % PATH_TIMEOUT)

    def one(self, prefix):
        ctx = SymCtx(self, prefix)
        self.stats.paths += 1
        core.CUR = ctx
        core._FRESH[0] = 0
        try:
            signal.signal(signal.SIGALRM, self.alarm)
            signal.setitimer(signal.ITIMER_REAL, PATH_TIMEOUT)
            try:
                with self.patcher():
                    self.h(ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            self.reached_end += 1
            if self.witness is None:
                # reachability twin: 'assert False' at the end of the path must be refutable
                ctx.solver.set("timeout", 20000)
                r = ctx._check()
                self.witness = str(r)
                if r == z3.unsat:
                    self.stats.inconclusive.append({"label": "vacuity", "why": "path condition unsatisfiable at the end"})
            if ctx.path_realised:
                self.stats.inconclusive.append({"label": "path", "why": "an input was pinned to one value (engine limit) at " + ctx.realised_at})
                core.CUR = None
                self.probe(ctx, "pinned path")
        except Infeasible:
            self.stats.paths -= 1
            self.stats.infeasible += 1
        except _Stop:
            pass
        except Budget:
            raise
        except RecursionError as e:
            self.on_exc(ctx, e)
        except Exception as e:
            self.on_exc(ctx, e)
        finally:
            core.CUR = None
            self.stats.max_depth = max(self.stats.max_depth, len(ctx.trace))

    # -- an exception escaped the harness in symbolic mode
    def on_exc(self, ctx, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in list(tb)[-4:][::-1])
        msg = "%s: %s @ %s" % (type(e).__name__, str(e)[:160], where)
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exception(e)
        core.CUR = None
        if not self.probe(ctx, "exception " + msg):
            self.stats.unsupported.append(msg)
            self.stats.inconclusive.append({"label": "path", "why": "engine could not follow the code: " + msg})

    def probe(self, ctx, why):
        """run the harness concretely on models of the path condition"""
        n = 0
        for vals in ctx.nice_models([]):
            n += 1
            f = self.concrete(vals)
            if f:
                self.violation = {"label": f[0], "detail": f[1], "values": vals, "why": why}
                return True
            if n >= 4:
                break
        return False

    prepare = None  # builds what replays need, outside their time limit

    def concrete(self, vals):
        core.CUR = None
        if self.prepare:
            self.prepare()
            self.prepare = None
        return run_concrete(self.h, vals)

    def try_inputs(self, cands, label):
        saved = core.CUR
        core.CUR = None
        try:
            with self.patcher.suspended():
                for vals in cands:
                    f = self.concrete(vals)
                    if f:
                        self.violation = {"label": f[0], "detail": f[1], "values": vals,
                                          "why": "input of a path whose assertion the solver left open: " + label}
                        raise _Stop()
        finally:
            core.CUR = saved

    def counterexample(self, ctx, label, extra, model):
        saved = core.CUR
        core.CUR = None
        try:
            with self.patcher.suspended():
                tried = []
                for vals in ctx.nice_models(extra, model):
                    f = self.concrete(vals)
                    if f:
                        self.violation = {"label": f[0], "detail": f[1], "values": vals,
                                          "why": "solver counterexample for: " + label}
                        raise _Stop()
                    tried.append(vals)
                    if len(tried) > 6:
                        break
                # the same inputs a little off the round values: shows the rounding that the path abstracts
                rng = np.random.RandomState(3)
                for vals in (tried[:3] if "single precision rounding" in ctx.path_abstract else []):
                    v2 = dict(vals)
                    for n, v in vals.items():
                        if isinstance(v, float):
                            lo, hi = ctx.bounds.get(n, (None, None))
                            lo, hi = (-4.0 if lo is None else float(lo)), (4.0 if hi is None else float(hi))
                            v2[n] = min(max(v + (hi - lo) * 1e-2 * (rng.rand() - 0.5), lo), hi)
                    if v2 == vals:
                        break
                    f = self.concrete(v2)
                    if f:
                        self.violation = {"label": f[0], "detail": f[1], "values": v2,
                                          "why": "solver counterexample (nudged) for: " + label}
                        raise _Stop()
        finally:
            core.CUR = saved
        rec = {"label": label, "why": "counterexample does not reproduce on the real code",
               "values": tried[0] if tried else None}
        if ctx.path_abstract or ctx.path_realised or not tried:
            ctx._probe(label)
            rec["why"] += " (path uses abstracted functions: %s)" % sorted(ctx.path_abstract)
            self.stats.inconclusive.append(rec)
        else:
            self.unreproduced.append(rec)
            if len(self.unreproduced) >= 4:
                raise Budget()
        raise _Stop()


class _Stop(BaseException):
    """ends the path after a decided counterexample"""


CONCRETE_TIMEOUT = 60
PATH_TIMEOUT = 150


class PathTimeout(Exception):
    pass


def run_concrete(h, vals):
    """run the harness on the real code in a child process: crashes and hangs are answers too"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            res = pickle.dumps(run_concrete_here(h, vals))
            os.write(w, res[:60000])
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.time() + CONCRETE_TIMEOUT
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("no answer", "the call did not return within %d s" % CONCRETE_TIMEOUT)
            b = os.read(r, 65536)
            if not b:
                break
            data += b
    finally:
        os.close(r)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        return ("crash", "the process died with signal %d" % os.WTERMSIG(st))
    if not data:
        return None
    return pickle.loads(data)


def run_concrete_here(h, vals):
    """returns (label, detail) of the first failed assertion, or None"""
    ctx = ConcreteCtx(vals)
    try:
        with np.errstate(all="ignore"):
            h(ctx)
    except Infeasible:
        pass  # what failed before the assumption counts
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in list(tb)[-4:][::-1])
        return ("unexpected exception", "%s: %s @ %s" % (type(e).__name__, e, where))
    return (ctx.fails[0][0], str(ctx.fails[0][1])[:20000]) if ctx.fails else None
