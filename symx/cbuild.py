"""Builds the C extension of the current tree in a scratch directory and loads it (for replays)."""
import ctypes
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sysconfig
import tempfile

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_cache = {}


class Real:
    """the compiled module; grid3d/ccdToQ plus control over threads and allocations"""

    def __init__(self, src, name, openmp=True):
        d = tempfile.mkdtemp(prefix="vp_ctrans_")
        try:
            so = os.path.join(d, "%s.so" % name)
            cmd = ["gcc", "-O0", "-shared", "-fPIC", "-w", "-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(),
                   "-I" + os.path.dirname(src), "-include", os.path.join(HERE, "cinc", "guard.h")]
            if openmp:
                cmd.append("-fopenmp")
            obj = os.path.join(d, "guard.o")
            subprocess.run(["gcc", "-O1", "-c", "-fPIC", os.path.join(HERE, "cinc", "guard.c"), "-o", obj], check=True)
            subprocess.run(cmd + [src, obj, "-o", so, "-lm", "-lpthread"], check=True)
            ld = importlib.machinery.ExtensionFileLoader(name, so)
            spec = importlib.util.spec_from_loader(name, ld)
            self._m = importlib.util.module_from_spec(spec)
            ld.exec_module(self._m)
            self._lib = ctypes.CDLL(so)
            for f in ("vg_live", "vg_count", "vg_bad"):
                getattr(self._lib, f).restype = ctypes.c_long
            self._lib.vg_reset.argtypes = [ctypes.c_long]
            self._omp = None
            if openmp:
                try:
                    self._omp = ctypes.CDLL("libgomp.so.1")
                except OSError:
                    pass
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def configure(self, threads=1, fail_at=0):
        if self._omp is not None:
            self._omp.omp_set_num_threads(int(threads))
        self._lib.vg_reset(int(fail_at))

    def memory_errors(self):
        return int(self._lib.vg_bad())

    def allocations(self):
        return int(self._lib.vg_count())

    def leaked(self):
        return int(self._lib.vg_live())

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        return getattr(self._m, n)


def real(src, name, openmp=True):
    k = (src, openmp)
    if k not in _cache:
        _cache[k] = Real(src, name, openmp)
    return _cache[k]


def real_pyx(path, name, package):
    """compiles a Cython file of the current tree (once per run) and loads it as package.name"""
    import fcntl
    import hashlib
    import sys

    k = ("pyx", path)
    if k in _cache:
        return _cache[k]
    own = None
    d = os.environ.get("VERIF_SCRATCH")
    if not d or not os.path.isdir(d):
        own = d = tempfile.mkdtemp(prefix="vp_pyx_")
    try:
        d2 = os.path.join(d, hashlib.sha256(open(path, "rb").read()).hexdigest()[:16])
        os.makedirs(d2, exist_ok=True)
        so = os.path.join(d2, name + ".so")
        with open(os.path.join(d2, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(so):
                shutil.copy(path, os.path.join(d2, name + ".pyx"))
                env = dict(os.environ, PYTHONPATH="")
                subprocess.run([sys.executable, "-m", "cython", "-3", os.path.join(d2, name + ".pyx"), "-o", os.path.join(d2, name + ".c")], check=True, capture_output=True, cwd=d2, env=env)
                subprocess.run(["gcc", "-O0", "-shared", "-fPIC", "-w", "-DNDEBUG", "-fwrapv", "-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(),
                                os.path.join(d2, name + ".c"), "-o", so + ".tmp"], check=True)
                os.rename(so + ".tmp", so)
        full = package + "." + name
        ld = importlib.machinery.ExtensionFileLoader(full, so)
        spec = importlib.util.spec_from_loader(full, ld)
        m = importlib.util.module_from_spec(spec)
        ld.exec_module(m)
        _cache[k] = m
        return m
    finally:
        if own:
            shutil.rmtree(own, ignore_errors=True)
