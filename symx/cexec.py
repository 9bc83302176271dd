"""symx.cexec - symbolic execution of C source.

The source is parsed by clang (-ast-dump=json, Python/numpy/omp headers
replaced by the declarations in /verif/cinc) and the AST is interpreted over
the same symbolic values the Python side uses: doubles are exact reals (or a
concrete NaN), integers are mathematical integers with range checks.

Memory is a set of blocks of cells, so that an access outside a block, through
a null or freed pointer, or of a cell never written is an error.  OpenMP
parallel regions run once per thread; iterations of a work-shared loop are
given to threads by a case split; accesses to memory shared between threads
are logged and two conflicting accesses between two barriers are a race.
"""
import json
import math
import os
import re
import subprocess
import threading

import numpy as np

from . import arr, core
from .core import S, SB, Unsupported, is_sym

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
threading.stack_size(256 * 1024 * 1024)


class CUndefined(Exception):
    """the C program has undefined behaviour on this path"""


class CRace(CUndefined):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Goto(Exception):
    def __init__(self, label):
        self.label = label


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Uninit:
    def __repr__(self):
        return "<uninitialised>"


UNINIT = Uninit()


class Block:
    __slots__ = ("cells", "nbytes", "name", "live", "owner", "zero")

    def __init__(self, cells=None, name="", nbytes=None, owner=None):
        self.cells = cells
        self.nbytes = nbytes
        self.name = name
        self.live = True
        self.owner = owner
        self.zero = False


class Ptr:
    __slots__ = ("b", "o")

    def __init__(self, b, o=0):
        self.b = b
        self.o = o

    def __repr__(self):
        return "&%s[%s]" % (self.b.name, self.o)


class Struct:
    def __init__(self, fields):
        self.f = fields


class FuncRef:
    def __init__(self, name):
        self.name = name


class NpArr:
    """a PyArrayObject"""

    def __init__(self, block, shape, dtype):
        self.block = block
        self.shape = tuple(shape)
        self.dtype = np.dtype(dtype)


PTR_LIKE = (Ptr, NpArr, str, type(None), tuple, dict, list, np.ndarray)
_INT = {
    "int": (-(2**31), 2**31 - 1), "unsigned int": (0, 2**32 - 1), "long": (-(2**63), 2**63 - 1),
    "unsigned long": (0, 2**64 - 1), "short": (-(2**15), 2**15 - 1), "unsigned short": (0, 2**16 - 1),
    "char": (-128, 127), "unsigned char": (0, 255), "long long": (-(2**63), 2**63 - 1),
    "unsigned long long": (0, 2**64 - 1), "_Bool": (0, 1), "signed char": (-128, 127),
    "npy_intp": (-(2**63), 2**63 - 1), "size_t": (0, 2**64 - 1), "Py_ssize_t": (-(2**63), 2**63 - 1),
}
_SIZE = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": 1, "npy_intp": 8,
         "size_t": 8, "short": 2, "long long": 8, "unsigned long long": 8, "_Bool": 1, "unsigned char": 1, "Py_ssize_t": 8}
NPY = {12: np.float64, 8: np.uint64, 7: np.int64, 5: np.int32, 11: np.float32}


class CProgram:
    """the AST of one C file"""

    def __init__(self, path, openmp=True, include=()):
        self.path = path
        self.src = open(path, "rb").read()
        cmd = ["clang", "-I" + os.path.join(HERE, "cinc"), "-I" + os.path.dirname(path)]
        cmd += ["-I" + i for i in include]
        if openmp:
            cmd.append("-fopenmp")
        cmd += ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", path]
        p = subprocess.run(cmd, capture_output=True)
        if p.returncode:
            raise Unsupported("clang: " + p.stderr.decode()[:400])
        ast = json.loads(p.stdout)
        self.fn = {}
        self.globals = {}
        self.records = {}
        self.rec_by_id = {}
        self.typedefs = {}
        self.enums = {}
        for n in ast["inner"]:
            k = n["kind"]
            if k == "FunctionDecl" and any(x.get("kind") == "CompoundStmt" for x in n.get("inner", [])):
                self.fn[n["name"]] = n
            elif k == "VarDecl":
                self.globals[n["id"]] = n
            elif k == "RecordDecl":
                self.rec_by_id[n["id"]] = n
                if n.get("name"):
                    self.records["struct " + n["name"]] = n
            elif k == "TypedefDecl":
                rid = self._find_tag(n)
                if rid in self.rec_by_id:
                    self.records[n["name"]] = self.rec_by_id[rid]
                else:
                    self.typedefs[n["name"]] = n["type"].get("desugaredQualType") or n["type"]["qualType"]
            elif k == "EnumDecl":
                v = 0
                for x in n.get("inner", []):
                    if x["kind"] != "EnumConstantDecl":
                        continue
                    for y in x.get("inner", []):
                        if "value" in y:
                            v = int(y["value"])
                    self.enums[x["id"]] = v
                    self.enums[x["name"]] = v
                    v += 1

    def _find_tag(self, n):
        for x in n.get("inner", []):
            t = x.get("ownedTagDecl") or x.get("decl")
            if t and t.get("kind") == "RecordDecl":
                return t["id"]
            r = self._find_tag(x)
            if r:
                return r
        return None

    def text(self, node):
        r = node["range"]
        b, e = r["begin"].get("offset"), r["end"].get("offset")
        if b is None or e is None:
            return ""
        return self.src[b:e + r["end"].get("tokLen", 0)].decode(errors="replace")


def norm_type(t):
    t = re.sub(r"\b(const|volatile|restrict|static|register)\b", "", t)
    t = re.sub(r"\s+", " ", t).strip()
    return t.replace(" *", "*").replace("* *", "**")


class _Abort(BaseException):
    pass


class Thread:
    """one thread of a team; runs only while the team's scheduler lets it"""

    def __init__(self, num, n):
        self.num, self.n = num, n
        self.epoch = 0
        self.loop_no = 0
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.state = "new"
        self.exc = None
        self.abort = False

    def start(self, fn):
        def run():
            self.go.acquire()
            try:
                if not self.abort:
                    fn()
            except BaseException as e:  # noqa
                self.exc = e
            self.state = "done"
            self.back.release()

        self.py = threading.Thread(target=run, daemon=True)
        self.py.start()

    def step(self):
        self.state = "running"
        self.go.release()
        self.back.acquire()

    def park(self):
        self.state = "parked"
        self.back.release()
        self.go.acquire()
        if self.abort:
            raise _Abort()


class Interp:
    def __init__(self, prog, threads=1, max_threads=None, malloc_fails=None, schedule=None, step_limit=2000000, races=True):
        self.check_races = races
        self.p = prog
        self.nthreads = threads
        self.max_threads = threads if max_threads is None else max_threads
        self.malloc_fails = malloc_fails  # callable(k) -> bool, or None
        self.schedule = schedule          # callable(iteration, threads) -> thread number
        self.thread = None
        self.log = None
        self.genv = {}
        self.err = None
        self.nmalloc = 0
        self.steps = 0
        self.live_mallocs = []
        self.step_limit = step_limit
        self.atomic = False

    # ------------------------------------------------------------- types
    def resolve(self, t):
        t = norm_type(t)
        while t in self.p.typedefs and t not in _INT:
            t = norm_type(self.p.typedefs[t])
        return t

    def ty(self, node):
        t = node.get("type", {})
        q = t.get("qualType", "int")
        return self.resolve(q)

    def sizeof(self, t):
        t = self.resolve(t)
        m = re.match(r"^(.*?)\s*\[(\d+)\]((?:\[\d+\])*)$", t)
        if m:
            return int(m.group(2)) * self.sizeof(m.group(1) + m.group(3))
        if t.endswith("*"):
            return 8
        if t in self.p.records:
            return self.rec_layout(t)
        if t in _SIZE:
            return _SIZE[t]
        if t.startswith("enum"):
            return 4
        raise Unsupported("sizeof " + t)

    def rec_layout(self, t):
        off, al = 0, 1
        for f in self.p.records[t].get("inner", []):
            if f["kind"] == "FieldDecl":
                s = self.sizeof(f["type"]["qualType"])
                a = min(s, 8) or 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
        return (off + al - 1) // al * al

    def default_cell(self, t, zero=False):
        """initial content of an object of type t"""
        t = self.resolve(t)
        m = re.match(r"^(.*?)\s*\[(\d+)\]((?:\[\d+\])*)$", t)
        if m:
            inner = m.group(1) + m.group(3)
            return self.new_block([self.default_cell(inner, zero) for _ in range(int(m.group(2)))], "array")
        if t in self.p.records and not t.endswith("*"):
            return Struct({f["name"]: self.new_block([self.default_cell(f["type"]["qualType"], zero)], f["name"])
                           for f in self.p.records[t].get("inner", []) if f["kind"] == "FieldDecl"})
        if zero:
            return 0.0 if t in ("double", "float") else 0
        return UNINIT

    def new_block(self, cells, name):
        return Block(cells, name, owner=self.thread.num if self.thread else None)

    # ------------------------------------------------------------ memory
    def touch(self, b, i, kind, v=None):
        if self.thread is not None and b.owner != self.thread.num and self.log is not None:
            self.log.setdefault((id(b), i), {"name": b.name, "acc": []})["acc"].append(
                (self.thread.num, self.thread.epoch, kind, v, self.atomic))
            self.keep.append(b)

    def index(self, b, i):
        if b is None:
            raise CUndefined("null pointer dereference")
        if not b.live:
            raise CUndefined("use after free of %s" % b.name)
        if b.cells is None:
            raise CUndefined("access to untyped memory")
        n = len(b.cells)
        if is_sym(i):
            i = core.norm_num(i)
            if bool(core.or_(core.lt(i, 0), core.ge(i, n))):
                raise CUndefined("access outside %s (size %d)" % (b.name, n))
            i = core.cur().concretize_int(i)
        if not 0 <= i < n:
            raise CUndefined("access outside %s: index %d, size %d" % (b.name, i, n))
        return i

    def load(self, lv):
        b, i = lv
        i = self.index(b, i)
        self.touch(b, i, "r")
        v = b.cells[i]
        if v is UNINIT:
            raise CUndefined("read of uninitialised memory (%s)" % b.name)
        return v

    def store(self, lv, v):
        b, i = lv
        i = self.index(b, i)
        self.touch(b, i, "w", v)
        b.cells[i] = v

    # ------------------------------------------------------- conversions
    def to_int(self, v, t):
        lo, hi = _INT.get(t, (-(2**63), 2**63 - 1))
        if is_sym(v):
            if isinstance(v, SB):
                return core.ite(v, 1, 0)
            ok = core.and_(core.ge(v, lo), core.le(v, hi))
            if ok is True or ok == True:  # noqa
                return v
            if not bool(ok):
                raise Unsupported("integer conversion out of range of " + t)
            return v
        if isinstance(v, (Ptr, NpArr)):
            return v
        v = int(v)
        if lo <= v <= hi:
            return v
        if lo == 0:
            return v % (hi + 1)
        w = hi - lo + 1
        return (v - lo) % w + lo

    def f_to_int(self, v, t):
        v = core.norm_num(v)
        lo, hi = _INT.get(t, (-(2**63), 2**63 - 1))
        if not is_sym(v):
            if math.isnan(v) or math.isinf(v):
                raise CUndefined("conversion of %r to an integer" % v)
            r = int(v)
            if not lo <= r <= hi:
                raise CUndefined("conversion of %r to %s" % (v, t))
            return r
        r = core.trunc(v)
        if not bool(core.and_(core.ge(r, lo), core.le(r, hi))):
            raise CUndefined("conversion of a double out of range to " + t)
        return r

    def truth(self, v):
        if v is not None and isinstance(v, PTR_LIKE + (FuncRef,)):
            return True
        if v is None:
            return False
        if isinstance(v, (S, SB)):
            return bool(core.ne(v, 0)) if isinstance(v, S) else bool(v)
        return bool(v)

    # ------------------------------------------------------ expressions
    def lval(self, n, env):
        k = n["kind"]
        if k == "ParenExpr":
            return self.lval(n["inner"][0], env)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]["id"]
            if d in env:
                return (env[d], 0)
            if d in self.genv:
                return (self.genv[d], 0)
            nm = n["referencedDecl"].get("name", "")
            if nm.startswith("PyExc_"):
                b = self.new_block([nm], nm)
                return (b, 0)
            if d in self.p.globals:
                g = self.p.globals[d]
                b = self.new_block([self.init_value(g, {})], g["name"])
                self.genv[d] = b
                return (b, 0)
            raise Unsupported("unknown variable %s" % nm)
        if k == "ArraySubscriptExpr":
            p = self.ev(n["inner"][0], env)
            i = self.ev(n["inner"][1], env)
            if not isinstance(p, Ptr):
                p, i = i, p
            if not isinstance(p, Ptr):
                raise CUndefined("null pointer subscript")
            return (p.b, core.add(p.o, i) if is_sym(i) or is_sym(p.o) else p.o + int(i))
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(n["inner"][0], env)
            if not isinstance(p, Ptr):
                raise CUndefined("null pointer dereference")
            return (p.b, p.o)
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            self.ev(n, env)
            return self.lval(n["inner"][0], env)
        if k == "MemberExpr":
            nm = n["name"]
            if n.get("isArrow"):
                p = self.ev(n["inner"][0], env)
                if not isinstance(p, Ptr):
                    raise CUndefined("null pointer member access")
                lv = (p.b, p.o)
            else:
                lv = self.lval(n["inner"][0], env)
            i = self.index(lv[0], lv[1])
            st = lv[0].cells[i]
            if not isinstance(st, Struct):
                raise Unsupported("member of non-struct")
            if st.f[nm].owner is None and lv[0].owner is not None:
                st.f[nm].owner = lv[0].owner
            return (st.f[nm], 0)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.lval(n["inner"][0], env)
        if k == "BinaryOperator" and n["opcode"] == "=":
            self.ev(n, env)
            return self.lval(n["inner"][0], env)
        raise Unsupported("lvalue " + k)

    def retype(self, v, t):
        """cast of a pointer to type t (element size of fresh memory)"""
        if isinstance(v, Ptr) and v.b.cells is None and t.endswith("*") and t != "void*":
            el = t[:-1].strip()
            n = self.concrete_size(v.b.nbytes, self.sizeof(el))
            v.b.cells = [self.default_cell(el, v.b.zero) for _ in range(n)]
        return v

    def concrete_size(self, nbytes, es):
        if is_sym(nbytes):
            nbytes = core.cur().concretize_int(nbytes)
        return int(nbytes) // es

    def cast(self, n, env):
        ck = n["castKind"]
        sub = n["inner"][0]
        t = self.ty(n)
        if ck == "LValueToRValue":
            return self.load(self.lval(sub, env))
        if ck == "ArrayToPointerDecay":
            if sub["kind"] == "StringLiteral":
                return json.loads(sub["value"])
            lv = self.lval(sub, env)
            i = self.index(lv[0], lv[1])
            inner = lv[0].cells[i]
            if not isinstance(inner, Block):
                raise Unsupported("array decay")
            if inner.owner is None and lv[0].owner is not None:
                inner.owner = lv[0].owner
            return Ptr(inner, 0)
        if ck == "FunctionToPointerDecay":
            return FuncRef(sub["referencedDecl"]["name"]) if sub["kind"] == "DeclRefExpr" else self.ev(sub, env)
        if ck == "BuiltinFnToFnPtr":
            return FuncRef(sub["referencedDecl"]["name"])
        v = self.ev(sub, env)
        if ck in ("NoOp", "UserDefinedConversion"):
            return v
        if ck == "NullToPointer":
            return None
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            return self.to_int(v, t)
        if ck == "IntegralToFloating":
            return core.cast_float(v) if hasattr(core, "cast_float") else (S(core.zreal(v)) if is_sym(v) else float(v))
        if ck == "FloatingCast":
            return v
        if ck == "FloatingToIntegral":
            return self.f_to_int(v, t)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return 1 if self.truth(v) else 0
        if ck in ("BitCast",):
            return self.retype(v, t)
        if ck == "ToVoid":
            return None
        if ck == "IntegralToPointer" and v == 0:
            return None
        raise Unsupported("cast " + ck)

    def ev(self, n, env):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unsupported("C step limit")
        k = n["kind"]
        if k in ("ParenExpr", "ConstantExpr", "ExprWithCleanups"):
            return self.ev(n["inner"][0], env)
        if k == "IntegerLiteral":
            return int(n["value"])
        if k == "CharacterLiteral":
            return int(n["value"])
        if k == "FloatingLiteral":
            return float(n["value"])
        if k == "StringLiteral":
            return json.loads(n["value"])
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.cast(n, env)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] == "EnumConstantDecl":
                return self.p.enums.get(d["id"], self.p.enums.get(d["name"]))
            if d["kind"] == "FunctionDecl":
                return FuncRef(d["name"])
            return self.load(self.lval(n, env))
        if k in ("ArraySubscriptExpr", "MemberExpr"):
            return self.load(self.lval(n, env))
        if k == "UnaryExprOrTypeTraitExpr":
            t = n.get("argType", {}).get("qualType") or n["inner"][0]["type"]["qualType"]
            return self.sizeof(t)
        if k == "UnaryOperator":
            return self.unary(n, env)
        if k == "BinaryOperator":
            return self.binary(n, env)
        if k == "CompoundAssignOperator":
            lv = self.lval(n["inner"][0], env)
            old = self.load(lv)
            r = self.ev(n["inner"][1], env)
            ct = norm_type(n.get("computeResultType", {}).get("qualType", self.ty(n)))
            lt = norm_type(n.get("computeLHSType", {}).get("qualType", self.ty(n)))
            if lt in ("double", "float") and not isinstance(old, Ptr):
                old = S(core.zreal(old)) if is_sym(old) else float(old)
            v = self.arith(n["opcode"][:-1], old, r, ct)
            ft = self.ty(n)
            if ct in ("double", "float") and ft in _INT:
                v = self.f_to_int(v, ft)
            elif ft in _INT:
                v = self.to_int(v, ft)
            self.store(lv, v)
            return v
        if k == "ConditionalOperator":
            return self.ev(n["inner"][1 if self.truth(self.ev(n["inner"][0], env)) else 2], env)
        if k == "CallExpr":
            return self.call_expr(n, env)
        if k == "InitListExpr":
            return [self.ev(x, env) for x in n.get("inner", [])]
        if k == "ImplicitValueInitExpr":
            return self.default_cell(n["type"]["qualType"], True)
        if k == "CompoundLiteralExpr":
            return self.ev(n["inner"][0], env)
        raise Unsupported("expression " + str(k))

    def unary(self, n, env):
        op = n["opcode"]
        sub = n["inner"][0]
        if op == "&":
            if sub["kind"] == "DeclRefExpr" and sub["referencedDecl"]["kind"] == "FunctionDecl":
                return FuncRef(sub["referencedDecl"]["name"])
            lv = self.lval(sub, env)
            return Ptr(lv[0], lv[1])
        if op == "*":
            return self.load(self.lval(n, env))
        if op in ("++", "--"):
            lv = self.lval(sub, env)
            old = self.load(lv)
            d = 1 if op == "++" else -1
            if isinstance(old, Ptr):
                new = Ptr(old.b, core.add(old.o, d))
            else:
                t = self.ty(sub)
                new = core.add(old, d)
                if t in _INT:
                    new = self.to_int(new, t)
            self.store(lv, new)
            return old if n.get("isPostfix") else new
        v = self.ev(sub, env)
        if op == "!":
            return 0 if self.truth(v) else 1
        if op == "-":
            r = core.neg(v)
            t = self.ty(n)
            return self.to_int(r, t) if t in _INT else r
        if op == "+":
            return v
        if op == "~" and not is_sym(v):
            return self.to_int(~v, self.ty(n))
        if op == "__extension__":
            return v
        raise Unsupported("operator " + op)

    def binary(self, n, env):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.ev(b, env)
            lv = self.lval(a, env)
            if isinstance(v, Struct):
                v = Struct({k: Block(list(x.cells), x.name, owner=x.owner) for k, x in v.f.items()})
            self.store(lv, v)
            return v
        if op == ",":
            self.ev(a, env)
            return self.ev(b, env)
        if op == "&&":
            return 1 if self.truth(self.ev(a, env)) and self.truth(self.ev(b, env)) else 0
        if op == "||":
            return 1 if self.truth(self.ev(a, env)) or self.truth(self.ev(b, env)) else 0
        x, y = self.ev(a, env), self.ev(b, env)
        return self.arith(op, x, y, self.ty(n))

    def arith(self, op, x, y, t):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(x, PTR_LIKE) or isinstance(y, PTR_LIKE):
                x, y = (None if isinstance(q, int) and q == 0 else q for q in (x, y))
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if x.b is not y.b:
                        if op in ("==", "!="):
                            return int((op == "!="))
                        raise CUndefined("comparison of unrelated pointers")
                    x, y = x.o, y.o
                elif op in ("==", "!="):
                    same = x is y
                    return int(same == (op == "=="))
                else:
                    raise CUndefined("comparison with null pointer")
            f = {"==": core.eq, "!=": core.ne, "<": core.lt, "<=": core.le, ">": core.gt, ">=": core.ge}[op]
            r = f(x, y)
            return r if isinstance(r, SB) else int(bool(r))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "+":
                if isinstance(y, Ptr):
                    x, y = y, x
                return Ptr(x.b, core.add(x.o, y))
            if op == "-":
                if isinstance(y, Ptr):
                    return core.sub(x.o, y.o)
                return Ptr(x.b, core.sub(x.o, y))
            raise Unsupported("pointer arithmetic " + op)
        if x is None or y is None:
            raise CUndefined("arithmetic on a null pointer")
        if isinstance(x, SB):
            x = core.ite(x, 1, 0)
        if isinstance(y, SB):
            y = core.ite(y, 1, 0)
        isint = t in _INT
        if op == "+":
            r = core.add(x, y)
        elif op == "-":
            r = core.sub(x, y)
        elif op == "*":
            r = core.mul(x, y)
        elif op == "/":
            if isint:
                if bool(core.eq(y, 0)):
                    raise CUndefined("integer division by zero")
                if is_sym(x) or is_sym(y):
                    q = core.floordiv(core.absolute(x), core.absolute(y))
                    r = core.ite(core.eq(core.lt(x, 0), core.lt(y, 0)), q, core.neg(q))
                else:
                    r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            else:
                r = core.div(S(core.zreal(x)) if is_sym(x) else float(x), S(core.zreal(y)) if is_sym(y) else float(y))
        elif op == "%":
            if bool(core.eq(y, 0)):
                raise CUndefined("integer division by zero")
            q = self.arith("/", x, y, t)
            r = core.sub(x, core.mul(q, y))
        elif op in ("&", "|", "^", "<<", ">>") and not is_sym(x) and not is_sym(y):
            r = {"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op]
        else:
            raise Unsupported("operator " + op)
        if isint and not is_sym(r):
            lo, hi = _INT[t]
            if not lo <= r <= hi:
                if lo < 0:
                    raise CUndefined("signed integer overflow")
                r %= hi + 1
        elif isint and is_sym(r) and _INT[t][0] == 0 and op == "-":
            if bool(core.lt(r, 0)):
                raise Unsupported("unsigned wrap-around")
        return r

    # -------------------------------------------------------------- calls
    def call_expr(self, n, env):
        f = self.ev(n["inner"][0], env)
        if not isinstance(f, FuncRef):
            raise Unsupported("call through pointer")
        args = [self.ev(x, env) for x in n["inner"][1:]]
        if f.name in ("memset", "memcpy", "memmove", "__builtin_memset", "__builtin_memcpy", "__builtin_memmove"):
            return self.block_op(f.name.replace("__builtin_", ""), args, [self.pointee(x) for x in n["inner"][1:3]])
        return self.call(f.name, args)

    def pointee(self, n):
        """element type of a pointer expression before its conversion to void*"""
        while n["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr") and self.ty(n).replace("const ", "").strip() in ("void*", "void *"):
            n = n["inner"][0]
        t = self.ty(n)
        m = re.match(r"^(.*?)\s*\[\d+\]((?:\[\d+\])*)$", t)
        if m:
            return (m.group(1) + m.group(2)).replace("const ", "").strip()
        return t[:-1].replace("const ", "").strip() if t.endswith("*") else None

    def block_op(self, name, args, el):
        dst, src, nb = args
        if is_sym(nb):
            nb = core.cur().concretize_int(nb)
        if nb == 0:
            return dst
        ptrs = [(dst, el[0])] + ([(src, el[1])] if name != "memset" else [])
        for p, e in ptrs:
            if not isinstance(p, Ptr):
                raise CUndefined("%s of a null pointer" % name)
            if e is None or e == "void":
                raise Unsupported(name + " of untyped memory")
            self.retype(p, e + "*")
        es = self.sizeof(el[0])
        if name == "memset":
            if is_sym(src) or src != 0:
                raise Unsupported("memset to %s" % (src,))
            full, part = divmod(nb, es)
            for i in range(full):
                j = self.index(dst.b, core.add(dst.o, i))
                old = dst.b.cells[j]
                if isinstance(old, (Block, Struct)):
                    dst.b.cells[j] = self.default_cell(el[0], True)
                else:
                    self.store((dst.b, j), self.default_cell(el[0], True))
            if part:
                j = self.index(dst.b, core.add(dst.o, full))
                if dst.b.cells[j] is not UNINIT:
                    raise Unsupported("memset of part of an object")
            return dst
        if self.sizeof(el[1]) != es or nb % es:
            raise Unsupported(name + " of parts of objects")
        vals = []
        for i in range(nb // es):
            j = self.index(src.b, core.add(src.o, i))
            self.touch(src.b, j, "r")
            vals.append(src.b.cells[j])
            if isinstance(vals[-1], (Block, Struct)):
                raise Unsupported(name + " of aggregates")
        for i, v in enumerate(vals):
            self.store((dst.b, core.add(dst.o, i)), v)
        return dst

    def call(self, name, args):
        if name in self.p.fn:
            d = self.p.fn[name]
            env = {}
            ps = [x for x in d["inner"] if x["kind"] == "ParmVarDecl"]
            for q, a in zip(ps, args):
                env[q["id"]] = self.new_block([a], q.get("name", "arg"))
            body = next(x for x in d["inner"] if x["kind"] == "CompoundStmt")
            try:
                self.stmt(body, env)
            except _Return as r:
                return r.v
            return None
        h = getattr(self, "c_" + name, None)
        if h is None:
            h = MATH.get(name)
            if h is None:
                raise Unsupported("C function " + name)
        return h(*args)

    # memory
    def c_malloc(self, n):
        self.nmalloc += 1
        if self.malloc_fails is not None and self.malloc_fails(self.nmalloc):
            return None
        b = Block(None, "malloc#%d" % self.nmalloc, nbytes=n, owner=self.thread.num if self.thread else None)
        self.live_mallocs.append(b)
        return Ptr(b, 0)

    def c_calloc(self, n, s):
        p = self.c_malloc(core.mul(n, s))
        if p is not None:
            p.b.zero = True
        return p

    def c_free(self, p):
        if p is None or (not isinstance(p, Ptr) and p == 0):
            return None
        if not p.b.live or p.o != 0 or p.b not in self.live_mallocs:
            raise CUndefined("free of memory that is not allocated")
        p.b.live = False
        return None

    # OpenMP
    def c_omp_get_thread_num(self):
        return self.thread.num if self.thread else 0

    def c_omp_get_num_threads(self):
        return self.thread.n if self.thread else 1

    def c_omp_get_max_threads(self):
        return self.max_threads

    def c_omp_get_num_procs(self):
        return self.max_threads

    def c_omp_set_num_threads(self, n):
        return None

    # Python C API
    def c_PyErr_SetString(self, exc, msg):
        self.err = (exc, msg)

    def c_PyErr_Format(self, exc, msg, *a):
        self.err = (exc, msg)
        return None

    def c_PyErr_NoMemory(self):
        self.err = ("PyExc_MemoryError", "")
        return None

    def c_Py_XDECREF(self, o):
        return None

    c_Py_DECREF = c_Py_XINCREF = c_Py_INCREF = c_Py_XDECREF

    def c_PyArg_ParseTupleAndKeywords(self, args, kwargs, fmt, kwlist, *ptrs):
        kwargs = kwargs or {}
        names = []
        i = 0
        while kwlist.b.cells[kwlist.o + i] is not None:
            names.append(kwlist.b.cells[kwlist.o + i])
            i += 1
        for k in kwargs:
            if k not in names:
                self.err = ("PyExc_TypeError", "unexpected keyword " + k)
                return 0
        vals = list(args) + [None] * (len(names) - len(args))
        for j, nm in enumerate(names):
            if nm in kwargs:
                vals[j] = kwargs[nm]
        given = [j < len(args) or names[j] in kwargs for j in range(len(names))]
        ptrs = list(ptrs)
        fmt, _, _ = fmt.partition(":")
        opt = False
        pos = 0
        idx = 0

        def conv(ch, v):
            p = ptrs.pop(0)
            if ch == "d":
                self.store((p.b, p.o), S(core.zreal(core.norm_num(v))) if is_sym(core.norm_num(v)) else float(v))
            elif ch in "ilkLKnh":
                v = core.norm_num(v)
                if isinstance(v, float) or is_sym(v) and not v.isint:
                    raise TypeError("integer argument expected, got float")
                self.store((p.b, p.o), v)
            elif ch == "O":
                self.store((p.b, p.o), v)
            elif ch == "p":
                self.store((p.b, p.o), int(bool(v)))
            else:
                raise Unsupported("format " + ch)

        while pos < len(fmt):
            ch = fmt[pos]
            if ch == "|":
                opt = True
                pos += 1
                continue
            if ch == "$":
                pos += 1
                continue
            if ch == "(":
                end = fmt.index(")", pos)
                unit = fmt[pos + 1:end]
                pos = end + 1
            else:
                unit = None
                pos += 1
            if not given[idx]:
                if not opt:
                    self.err = ("PyExc_TypeError", "missing argument " + names[idx])
                    return 0
                for _ in range(len(unit) if unit is not None else 1):
                    ptrs.pop(0)
                idx += 1
                continue
            v = vals[idx]
            idx += 1
            if unit is None:
                conv(ch, v)
            else:
                seq = list(v) if not isinstance(v, np.ndarray) else [v[q] for q in range(len(v))]
                if len(seq) != len(unit):
                    self.err = ("PyExc_TypeError", "wrong sequence length")
                    return 0
                for u, q in zip(unit, seq):
                    conv(u, q)
        return 1

    def _dims(self, p, nd):
        r = []
        for i in range(nd):
            v = p.b.cells[p.o + i]
            r.append(core.cur().concretize_int(v) if is_sym(v) else int(v))
        return r

    def c_PyArray_FROMANY(self, o, typ, mn, mx, flags):
        if isinstance(o, NpArr):
            return o
        a = arr.as_sarr(o)
        if (mn and a.ndim < mn) or (mx and a.ndim > mx):
            self.err = ("PyExc_ValueError", "object of too small or too large depth")
            return None
        dt = NPY[typ]
        a = a.astype(dt)
        b = self.new_block([core.norm_num(v) for v in a.view(np.ndarray).ravel()], "array data")
        return NpArr(b, a.shape, dt)

    def c_PyArray_SimpleNew(self, nd, dims, typ):
        sh = self._dims(dims, nd)
        n = int(np.prod(sh))
        return NpArr(self.new_block([UNINIT] * n, "new array"), sh, NPY[typ])

    c_PyArray_EMPTY = lambda self, nd, dims, typ, f=0: self.c_PyArray_SimpleNew(nd, dims, typ)  # noqa

    def c_PyArray_ZEROS(self, nd, dims, typ, fortran=0):
        a = self.c_PyArray_SimpleNew(nd, dims, typ)
        z = 0.0 if a.dtype.kind == "f" else 0
        a.block.cells = [z] * len(a.block.cells)
        return a

    def c_PyArray_DATA(self, a):
        return Ptr(a.block, 0)

    def c_PyArray_DIM(self, a, i):
        if i >= len(a.shape):
            raise CUndefined("dimension %d of a %d-dimensional array" % (i, len(a.shape)))
        return int(a.shape[i])

    def c_PyArray_NDIM(self, a):
        return len(a.shape)

    def c_PyArray_SIZE(self, a):
        return int(np.prod(a.shape))

    def c_Py_BuildValue(self, fmt, *a):
        r = []
        for x in a:
            r.append(self.export(x) if isinstance(x, NpArr) else x)
        return tuple(r) if len(fmt) > 1 else r[0]

    def export(self, x):
        o = np.empty(len(x.block.cells), dtype=object)
        for i, v in enumerate(x.block.cells):
            if v is UNINIT:
                raise CUndefined("uninitialised memory is returned to Python")
            o[i] = v
        return arr.wrap(o.reshape(x.shape), x.dtype)

    # --------------------------------------------------------- statements
    def init_value(self, d, env):
        t = d["type"]["qualType"]
        inner = [x for x in d.get("inner", []) if x.get("kind") and not x["kind"].endswith("Attr")]
        if not inner:
            return self.default_cell(t, d.get("storageClass") == "static" or d["id"] in self.p.globals)
        return self.fill(t, inner[-1], env)

    def fill(self, t, node, env):
        if node["kind"] == "InitListExpr":
            t2 = self.resolve(node["type"]["qualType"])
            cell = self.default_cell(t2, True)
            items = node.get("inner") or [x for x in node.get("array_filler", [])]
            if isinstance(cell, Block):
                inner_t = re.sub(r"\[\d+\]", "", t2, count=1)
                for i, x in enumerate(node.get("inner", [])):
                    cell.cells[i] = self.fill(inner_t, x, env)
                return cell
            if isinstance(cell, Struct):
                for (k, b), x in zip(cell.f.items(), items):
                    b.cells[0] = self.fill("", x, env)
                return cell
            return self.ev(items[0], env) if items else cell
        return self.ev(node, env)

    def stmt(self, n, env):
        k = n.get("kind")
        if k is None or k == "NullStmt":
            return
        self.steps += 1
        if k == "CompoundStmt":
            self.block_stmts(n.get("inner", []), env)
        elif k == "DeclStmt":
            for d in n["inner"]:
                if d["kind"] == "VarDecl":
                    if d.get("storageClass") == "static":
                        if d["id"] not in self.genv:
                            self.genv[d["id"]] = self.new_block([self.init_value(d, env)], d["name"])
                        env[d["id"]] = self.genv[d["id"]]
                    else:
                        env[d["id"]] = self.new_block([self.init_value(d, env)], d["name"])
        elif k == "IfStmt":
            i = [x for x in n["inner"]]
            if self.truth(self.ev(i[0], env)):
                self.stmt(i[1], env)
            elif len(i) > 2:
                self.stmt(i[2], env)
        elif k == "ForStmt":
            init, _, cond, step, body = n["inner"]
            if init.get("kind"):
                self.expr_or_decl(init, env)
            while True:
                if cond.get("kind") and not self.truth(self.ev(cond, env)):
                    break
                try:
                    self.stmt(body, env)
                except _Break:
                    break
                except _Continue:
                    pass
                if step.get("kind"):
                    self.ev(step, env)
        elif k == "WhileStmt":
            cond, body = n["inner"][-2:]
            while self.truth(self.ev(cond, env)):
                try:
                    self.stmt(body, env)
                except _Break:
                    break
                except _Continue:
                    pass
        elif k == "DoStmt":
            body, cond = n["inner"]
            while True:
                try:
                    self.stmt(body, env)
                except _Break:
                    break
                except _Continue:
                    pass
                if not self.truth(self.ev(cond, env)):
                    break
        elif k == "ReturnStmt":
            raise _Return(self.ev(n["inner"][0], env) if n.get("inner") else None)
        elif k == "GotoStmt":
            raise _Goto(n["targetLabelDeclId"])
        elif k == "LabelStmt":
            self.stmt(n["inner"][0], env)
        elif k == "BreakStmt":
            raise _Break()
        elif k == "ContinueStmt":
            raise _Continue()
        elif k == "SwitchStmt":
            self.switch(n, env)
        elif k in ("CaseStmt", "DefaultStmt"):
            self.stmt(n["inner"][-1], env)
        elif k.startswith("OMP"):
            self.omp(n, env)
        elif k == "CapturedStmt":
            self.stmt(self.captured(n), env)
        else:
            self.ev(n, env)

    def switch(self, n, env):
        v = self.ev(n["inner"][0], env)
        body = n["inner"][1].get("inner", [])
        start = dflt = None
        for i, s in enumerate(body):
            q = s
            while q.get("kind") in ("CaseStmt", "DefaultStmt"):
                if q["kind"] == "DefaultStmt":
                    dflt = i if dflt is None else dflt
                elif start is None and bool(core.eq(v, self.ev(q["inner"][0], env))):
                    start = i
                q = q["inner"][-1]
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            self.block_stmts(body[start:], env)
        except _Break:
            pass

    def expr_or_decl(self, n, env):
        if n["kind"] == "DeclStmt":
            self.stmt(n, env)
        else:
            self.ev(n, env)

    def block_stmts(self, ss, env):
        i = 0
        while i < len(ss):
            try:
                self.stmt(ss[i], env)
                i += 1
            except _Goto as g:
                for j, s in enumerate(ss):
                    if s.get("kind") == "LabelStmt" and s.get("declId") == g.label:
                        i = j
                        break
                else:
                    raise

    # ------------------------------------------------------------- OpenMP
    def captured(self, n):
        cd = next(x for x in n["inner"] if x.get("kind") == "CapturedDecl")
        return cd["inner"][0]

    def clauses(self, n):
        # the pragma text up to the end of line (with continuations)
        b = n["range"]["begin"].get("offset")
        ls = self.p.src.rfind(b"\n", 0, b) + 1
        e = ls
        while True:
            e = self.p.src.find(b"\n", e)
            if e > 0 and self.p.src[e - 1:e] == b"\\":
                e += 1
                continue
            break
        txt = self.p.src[ls:e].decode(errors="replace").replace("\\\n", " ")
        out = {}
        for m in re.finditer(r"(\w+)\s*\(([^()]*)\)", txt):
            out.setdefault(m.group(1), []).append(m.group(2))
        out["_words"] = re.findall(r"\w+", re.sub(r"\([^()]*\)", " ", txt))
        return out

    def privatise(self, cl, node, env, red):
        ids = {}

        def names(x):
            r = x.get("referencedDecl")
            if r and r.get("kind") in ("VarDecl", "ParmVarDecl"):
                ids[r["name"]] = r["id"]
            for y in x.get("inner", []):
                names(y)

        names(node)
        for c in ("private", "firstprivate", "lastprivate", "linear"):
            for lst in cl.get(c, []):
                for nm in lst.split(":")[0].split(","):
                    nm = nm.strip()
                    if nm in ids and ids[nm] in env:
                        old = env[ids[nm]]
                        env[ids[nm]] = self.new_block([old.cells[0] if c == "firstprivate" else UNINIT], nm)
        for lst in cl.get("reduction", []):
            op, _, vs = lst.partition(":")
            for nm in vs.split(","):
                nm = nm.strip()
                if nm in ids and ids[nm] in env:
                    old = env[ids[nm]]
                    z = {"+": 0, "-": 0, "*": 1, "|": 0, "||": 0, "&&": 1}.get(op.strip())
                    if z is None:
                        raise Unsupported("reduction " + op)
                    if isinstance(old.cells[0], float):
                        z = float(z)
                    env[ids[nm]] = self.new_block([z], nm)
                    red.append((old, env[ids[nm]], op.strip()))

    def loop_var(self, f):
        """id of the loop variable of a canonical for loop"""
        init = f["inner"][0]
        if init.get("kind") == "DeclStmt":
            return None
        if init.get("kind") == "BinaryOperator":
            return init["inner"][0]["referencedDecl"]["id"]
        raise Unsupported("OpenMP loop form")

    def omp(self, n, env):
        k = n["kind"]
        cap = next((x for x in n.get("inner", []) if x.get("kind") == "CapturedStmt"), None)
        cl = self.clauses(n)
        if k in ("OMPParallelDirective", "OMPParallelForDirective"):
            body = self.captured(cap)
            if self.thread is not None:
                raise Unsupported("nested parallel region")
            nt = self.nthreads
            for x in cl.get("num_threads", []):
                if x.strip().isdigit():
                    nt = min(nt, int(x))
            self.log = {}
            self.keep = []
            self.asg = {}
            reds = []

            def job():
                e2 = dict(env)
                red = []
                reds.append(red)
                self.privatise(cl, n, e2, red)
                if k == "OMPParallelForDirective":
                    self.workshare(body, e2, cl)
                else:
                    self.stmt(body, e2)

            self.team([Thread(t, nt) for t in range(nt)], job)
            log, self.log = self.log, None
            if self.check_races:
                self.races(log)
            for red in reds:
                for old, priv, op in red:
                    f = {"+": core.add, "-": core.add, "*": core.mul}.get(op)
                    if f is None:
                        f = (lambda a, b: int(self.truth(a) or self.truth(b))) if op in ("|", "||") else (lambda a, b: int(self.truth(a) and self.truth(b)))
                    old.cells[0] = f(old.cells[0], priv.cells[0])
            return
        if k == "OMPForDirective":
            if self.thread is None:
                self.thread = None
                self.stmt(self.captured(cap) if cap else n["inner"][-1], env)
                return
            e2 = dict(env)
            red = []
            self.privatise(cl, n, e2, red)
            if red:
                raise Unsupported("reduction in a work-shared loop of a region")
            self.workshare(self.captured(cap), e2, cl)
            if "nowait" not in cl["_words"]:
                self.barrier()
            return
        if k == "OMPBarrierDirective":
            self.barrier()
            return
        if k in ("OMPCriticalDirective", "OMPAtomicDirective"):
            self.atomic, saved = True, self.atomic
            try:
                self.stmt(self.captured(cap) if cap else n["inner"][-1], env)
            finally:
                self.atomic = saved
            return
        if k in ("OMPMasterDirective", "OMPSingleDirective"):
            if self.thread is None or self.thread.num == 0:
                self.stmt(self.captured(cap) if cap else n["inner"][-1], env)
            if k == "OMPSingleDirective" and "nowait" not in cl["_words"]:
                self.barrier()
            return
        if k == "OMPSimdDirective":
            self.stmt(self.captured(cap), env)
            return
        raise Unsupported(k)

    def barrier(self):
        t = self.thread
        if t is not None and t.n > 1:
            t.park()
        if t is not None:
            t.epoch += 1

    def team(self, ths, job):
        if len(ths) == 1:
            self.thread = ths[0]
            try:
                job()
            finally:
                self.thread = None
            return
        for t in ths:
            t.start(job)
        try:
            while True:
                for t in ths:
                    if t.state != "done":
                        self.thread = t
                        t.step()
                        if t.exc is not None:
                            raise t.exc
                st = {t.state for t in ths}
                if st == {"done"}:
                    return
                if "done" in st:
                    raise CUndefined("some threads of a team wait at a barrier the others never reach")
        finally:
            self.thread = None
            for t in ths:
                if t.state != "done":
                    t.abort = True
                    t.step()

    def workshare(self, f, env, cl):
        """runs the iterations of loop f owned by the current thread"""
        if f["kind"] == "CompoundStmt" and len(f["inner"]) == 1:
            f = f["inner"][0]
        init, _, cond, step, body = f["inner"]
        v = self.loop_var(f)
        th = self.thread
        th.loop_no += 1
        if v is not None:
            env[v] = self.new_block([UNINIT], "loop variable")
        e = env
        self.expr_or_decl(init, e)
        it = 0
        while self.truth(self.ev(cond, e)):
            key = (th.loop_no, it)
            if key not in self.asg:
                self.asg[key] = self.schedule(it, self.thread.n) if self.schedule else it % self.thread.n
            if self.asg[key] == self.thread.num:
                try:
                    self.stmt(body, e)
                except _Continue:
                    pass
            self.ev(step, e)
            it += 1

    def races(self, log):
        for loc, d in log.items():
            acc = d["acc"]
            if len({a[0] for a in acc}) < 2 or not any(a[2] == "w" for a in acc):
                continue
            for ep in {a[1] for a in acc}:
                q = [a for a in acc if a[1] == ep]
                for a in q:
                    if a[2] != "w":
                        continue
                    for b in q:
                        if a[0] == b[0] or (a[4] and b[4]):
                            continue
                        if b[2] == "w" and not is_sym(a[3]) and not is_sym(b[3]) and a[3] is not UNINIT and a[3] == b[3] \
                                and not any(x[2] == "r" and x[0] != y[0] for x in q for y in q if y[2] == "w"):
                            continue  # both store the same value and nobody else reads it
                        raise CRace("data race on '%s' between threads %d and %d" % (d["name"], a[0], b[0]))


def _pow(x, y):
    if not is_sym(y):
        if y == 2:
            return core.mul(x, x)
        if y == 0.5:
            return core.sqrt(x)
        if y == 1:
            return x
        if float(y) == int(y) and 0 <= y <= 8:
            r = 1.0
            for _ in range(int(y)):
                r = core.mul(r, x)
            return r
    if is_sym(x) or is_sym(y):
        return core.power(x, y)
    return math.pow(x, y)


def _isnan(x):
    x = core.norm_num(x)
    return 0 if is_sym(x) else int(math.isnan(x))


def _isfinite(x):
    x = core.norm_num(x)
    return 1 if is_sym(x) else int(math.isfinite(x))


MATH = {
    "sin": core.sin, "cos": core.cos, "tan": core.tan, "sqrt": core.sqrt, "pow": _pow, "fabs": core.absolute,
    "atan": core.arctan, "atan2": core.arctan2, "asin": core.arcsin, "exp": core.exp, "log": core.log,
    "floor": core.floor, "ceil": core.ceil, "isnan": _isnan, "__builtin_isnan": _isnan, "__isnan": _isnan,
    "isfinite": _isfinite, "__builtin_isfinite": _isfinite, "abs": core.absolute, "labs": core.absolute,
    "trunc": core.trunc_f, "hypot": lambda x, y: core.sqrt(core.add(core.mul(x, x), core.mul(y, y))),
    "fmin": core.fmin, "fmax": core.fmax, "__builtin_fabs": core.absolute,
    "acos": core.generic_uf("arccos"),
}

PYEXC = {"PyExc_RuntimeError": RuntimeError, "PyExc_ValueError": ValueError, "PyExc_MemoryError": MemoryError,
         "PyExc_TypeError": TypeError, "PyExc_IndexError": IndexError}


class SymModule:
    """a C extension module executed symbolically: m.function(*args, **kwargs)"""

    def __init__(self, prog, table, mk):
        self._prog, self._table, self._mk = prog, table, mk
        self._names = None

    def _functions(self):
        if self._names is None:
            it = Interp(self._prog)
            g = next(x for x in self._prog.globals.values() if x["name"] == self._table)
            blk = it.init_value(g, {})
            self._names = {}
            for s in blk.cells:
                if isinstance(s, Struct):
                    vals = [b.cells[0] for b in s.f.values()]
                    if isinstance(vals[0], str):
                        self._names[vals[0]] = vals[1].name
        return self._names

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        fns = self._functions()
        if name not in fns:
            raise AttributeError(name)

        def f(*args, **kw):
            it = self._mk()
            self._last = it
            r = it.call(fns[name], [None, args, kw])
            if r is None:
                e = it.err or ("PyExc_RuntimeError", "NULL without exception")
                raise PYEXC.get(e[0], RuntimeError)(e[1])
            return r

        return f
