"""the C extension, symbolically (clang AST) or compiled (replay)"""
import os
import sys

import skbeam.ext

from symx import cbuild, cexec

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "ctrans.c")
_prog = {}


def prog(openmp):
    if openmp not in _prog:
        _prog[openmp] = cexec.CProgram(SRC, openmp=openmp)
    return _prog[openmp]


class Handle:
    """module object plus what the run did to memory"""

    def __init__(self, mod, sym):
        self.m, self.sym = mod, sym

    def leaked(self):
        if self.sym:
            return sum(1 for b in self.m._last.live_mallocs if b.live)
        return self.m.leaked()

    def failed(self, k):
        """was there a k-th allocation (that was made to fail)?"""
        return (self.m._last.nmalloc if self.sym else self.m.allocations()) >= k

    def memory_errors(self):
        return 0 if self.sym else self.m.memory_errors()


def ctrans(c, threads=1, openmp=True, fail_at=0, schedule=None, races=False, install=False):
    if c.symbolic:
        p = prog(openmp)

        def mk():
            return cexec.Interp(p, threads=threads, malloc_fails=(lambda k: k == fail_at) if fail_at else None,
                                schedule=schedule, races=races)

        m = cexec.SymModule(p, "ctrans_methods", mk)
    else:
        m = cbuild.real(SRC, "ctrans", openmp)
        m.configure(threads, fail_at)
    if install:
        skbeam.ext.ctrans = m
        sys.modules["skbeam.ext.ctrans"] = m
    return Handle(m, c.symbolic)
