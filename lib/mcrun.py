"""Execution of the compiled entry points under the runtime of ompmc.c."""
import ctypes
import subprocess
from pathlib import Path

import numpy as np

SEQ, EACH, EACH_REV, STATIC, MASK, ROBIN, SPLIT = range(7)
RACE, BOUNDS = 2, 1
MODULES = ("_phono3py", "_phononcalc", "_recgrid")


class Runtime:
    def __init__(self):
        import vbuild

        self.site = vbuild.activate("ompmc")
        import importlib

        self.mods = [importlib.import_module("phono3py." + m) for m in MODULES]
        self.lib = ctypes.CDLL(str(Path(self.site).parent / "librt_mc.so"))
        self.lib.mc_err.restype = ctypes.c_char_p
        self.lib.mc_mode.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64, ctypes.c_int, ctypes.c_int]
        self.lib.mc_region.argtypes = [ctypes.c_uint64, ctypes.c_uint64]
        self.real = {}
        self.samples = {}
        self.limit = 1
        self.recording = True
        self.calls = 0
        for m in self.mods:
            for n in dir(m):
                f = getattr(m, n)
                if n.startswith("_") or not callable(f) or isinstance(f, type):
                    continue
                self.real[n] = f
                setattr(m, n, self._wrap(n, f))

    def _wrap(self, name, f):
        def g(*a):
            self.calls += 1
            if self.recording:
                key = (name,) + tuple(
                    (x.shape, x.dtype.str) if isinstance(x, np.ndarray) else
                    (int(x > 0) - int(x < 0) if isinstance(x, (int, float, np.number)) else str(x)) for x in a)
                k = self.samples.setdefault(name, {})
                if key not in k and len(k) < self.limit:
                    k[key] = copy_args(a)
            return f(*a)

        g.__name__ = name
        return g

    def reset(self, limit):
        self.samples = {}
        self.limit = limit
        self.recording = True

    def taken(self):
        """Samples of the calls since reset; recording stops."""
        self.recording = False
        return [(n, a) for n, k in sorted(self.samples.items()) for a in k.values()]

    def run(self, name, args, mode=(SEQ, 1, 0), heap=0, stack=0, watch=0, before=None):
        """Returns (return value, arguments after the call, errors)."""
        a = copy_args(args)
        lib = self.lib
        lib.mc_mode(*mode, heap, stack)
        for x in a:
            if isinstance(x, np.ndarray) and x.size:
                lib.mc_region(x.ctypes.data, x.nbytes)
        f = self.real[name]
        lib.mc_start(watch)
        lib.mc_dirty(stack)
        try:
            r = f(*a)
        finally:
            lib.mc_stop()
        errs = [lib.mc_err(i).decode() for i in range(lib.mc_nerr())]
        return r, a, errs

    def stats(self, reset=True):
        o = (ctypes.c_int64 * 8)()
        self.lib.mc_stats(o, int(reset))
        return dict(zip(("regions", "threads", "iterations", "accesses", "blocks", "barriers", "serial", "longest"),
                        list(o)))


    def regions(self):
        """Parallel regions which were executed: {name of function: iterations}."""
        b = ctypes.create_string_buffer(512)
        i, out = 0, {}
        while self.lib.mc_fn(i, b, 512):
            i += 1
            so, pc, n = b.value.decode().split("|")
            r = subprocess.run(["addr2line", "-f", "-s", "-e", so, pc], capture_output=True, text=True).stdout.split("\n")
            out[(r[0].split(".omp_outlined")[0], r[1].split(" ")[0])] = int(n)
        return out


def copy_args(a):
    memo = {}
    out = []
    for x in a:
        if isinstance(x, np.ndarray):
            k = (x.ctypes.data, x.shape, x.strides)
            if k not in memo:
                memo[k] = x.copy(order="C") if x.flags.c_contiguous else x.copy(order="K")
            out.append(memo[k])
        else:
            out.append(x)
    return tuple(out)


def where(err):
    """Source lines of an error of the runtime."""
    kind, so, *pcs = err.split("|")
    out = []
    for pc in pcs:
        if not pc:
            continue
        r = subprocess.run(["addr2line", "-f", "-s", "-e", so, pc], capture_output=True, text=True).stdout.split("\n")
        out.append("%s (%s)" % (r[1] if len(r) > 1 else "?", r[0]))
    return kind + ": " + " and ".join(dict.fromkeys(out))


def differ(x, y, rtol):
    """Difference of two results, or None."""
    if isinstance(x, (tuple, list)):
        for i, (a, b) in enumerate(zip(x, y)):
            d = differ(a, b, rtol)
            if d:
                return "%d: %s" % (i, d)
        return None
    a, b = np.atleast_1d(np.asarray(x)), np.atleast_1d(np.asarray(y))
    if a.dtype.kind in "fc":
        if not np.array_equal(np.isnan(a), np.isnan(b)):
            return "nan"
        if not a.size or a.tobytes() == b.tobytes():
            return None
        with np.errstate(all="ignore"):
            d = np.atleast_1d(np.abs(a - b))
        d[np.isnan(d)] = 0
        d[(a == b)] = 0
        s = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0
        return "%.3g of %.3g" % (d.max(), s) if d.max() > rtol * s else None
    if a.dtype == object:
        return None if x == y else "%r" % (x,)
    return None if np.array_equal(a, b) else "values"
