"""
Seams around everything the library delegates to.  Each seam is a replacement for a
function of a dependency; it is installed wherever the library can reach that function
(in the dependency's namespace and in every module of the library that imported it by name).
"""
import os
import sys
import time

import numpy as np

from . import boot


def _targets():
    import ripser as R
    import scipy.optimize as so
    import scipy.sparse.linalg as ssl
    import scipy.spatial as sp
    import scipy.sparse.csgraph as cs

    return {
        "ripser": [(R, "ripser")] + ([(sys.modules["ripser.ripser"], "ripser")] if "ripser.ripser" in sys.modules else []),
        "milp": [(so, "milp")],
        "lsqr": [(ssl, "lsqr")],
        "eigh": [(np.linalg, "eigh")],
        "cholesky": [(np.linalg, "cholesky")],
        "norm": [(np.linalg, "norm")],
        "KDTree": [(sp, "KDTree")],
        "shortest_path": [(cs, "shortest_path")],
    }


HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


def repo_modules():
    return [m for k, m in list(sys.modules.items()) if (k == "dreimac" or k.startswith("dreimac.")) and m is not None]


class Seams:
    def __init__(self):
        self.undo = []
        self.count = {}

    def put(self, mod, attr, new):
        self.undo.append((mod, attr, getattr(mod, attr)))
        setattr(mod, attr, new)

    def install(self, name, make):
        """make(real) -> replacement"""
        places = _targets()[name]
        real = getattr(places[0][0], places[0][1])
        if places[0][0] is np.linalg and not os.environ.get("NUMBA_DISABLE_JIT"):
            return real        # compiled kernels resolve these by identity: a stand-in would not compile
        new = make(real)
        for mod, attr in places:
            if getattr(mod, attr, None) is real:
                self.put(mod, attr, new)
        for m in repo_modules():
            for k, v in list(vars(m).items()):
                if v is real:
                    self.put(m, k, new)
        return real

    def restore(self):
        for mod, attr, old in reversed(self.undo):
            setattr(mod, attr, old)
        self.undo = []


def called_from_repo(depth=2):
    f = sys._getframe(depth)
    while f is not None and f.f_code.co_filename.startswith(HERE):
        f = f.f_back
    if f is None:
        return False
    return f.f_code.co_filename.startswith(boot.PKG)


# -- integer programs always run under a node limit ------------------------------
NODE_LIMIT = 400


def limited_milp(real, limit=None, log=None):
    def milp(c, *, integrality=None, bounds=None, constraints=None, options=None):
        o = dict(options or {})
        o["node_limit"] = min(o.get("node_limit", 10**9), limit or NODE_LIMIT)
        o.pop("time_limit", None)
        r = real(c, integrality=integrality, bounds=bounds, constraints=constraints, options=o)
        if log is not None:
            log.append((int(r.status), int(getattr(r, "mip_node_count", 0) or 0)))
        return r

    return milp


# -- counting / failing dependency calls -------------------------------------------
DEPS = ("ripser", "milp", "lsqr", "eigh", "cholesky", "norm", "KDTree", "shortest_path")


class DepFaults:
    """Counts calls of dependencies made by the library; optionally fails the k-th."""

    def __init__(self, plan=None):
        self.plan = plan or {}     # (name, k) -> (when, fn raising)
        self.count = {}
        self.fired = []
        self.armed = False

    def wrap(self, name, real):
        import functools

        def w(*a, **k):
            if not self.armed:
                return real(*a, **k)
            n = self.count[name] = self.count.get(name, 0) + 1
            act = self.plan.get((name, n))
            if act and act[0] == "before":
                self.fired.append((name, n, "before"))
                act[1]()
            r = real(*a, **k)
            if act and act[0] == "after":
                self.fired.append((name, n, "after"))
                act[1]()
            return r

        try:
            functools.update_wrapper(w, real)
        except Exception:
            pass
        return w

    def install(self, seams, names=DEPS):
        for n in names:
            if n == "KDTree":
                continue
            seams.install(n, lambda real, n=n: self.wrap(n, real))


ALLOC = ("zeros", "empty", "ones", "eye", "array", "zeros_like", "empty_like", "ones_like", "copy", "full", "linspace",
         "arange", "concatenate", "vstack", "mod", "exp", "sqrt", "sum", "dot", "argsort", "minimum", "meshgrid")


class AllocFaults:
    """The k-th allocation made from a frame of the library fails."""

    def __init__(self, k=None, fn=None):
        self.k = k
        self.fn = fn
        self.n = 0
        self.fired = []
        self.armed = False

    def install(self, seams):
        if not os.environ.get("NUMBA_DISABLE_JIT"):
            return              # stand-ins for numpy functions do not compile
        for name in ALLOC:
            real = getattr(np, name)

            def w(*a, _real=real, _name=name, **kw):
                if self.armed and sys._getframe(1).f_code.co_filename.startswith(boot.PKG):
                    self.n += 1
                    if self.n == self.k:
                        self.fired.append((_name, self.n))
                        self.fn()
                return _real(*a, **kw)

            if isinstance(real, np.ufunc):
                continue
            w.__name__ = name
            seams.put(np, name, w)


# -- clock ------------------------------------------------------------------------
class SimClock:
    """Virtual wall clock; the script says how it behaves."""

    def __init__(self, mode, seed=0):
        self.mode = mode
        self.t = 1.0e9
        self.rng = np.random.RandomState(seed)
        self.reads = 0
        self.elapsed = 0.0

    def read(self):
        self.reads += 1
        m = self.mode
        old = self.t
        if m == "normal":
            self.t += 0.01
        elif m == "frozen":
            pass
        elif m == "backward":
            self.t -= 3600.0
        elif m == "jump":
            self.t += float(self.rng.choice([-1e8, 1e8, 1e-9, 86400.0]))
        elif m == "nan":
            return float("nan")
        elif m == "inf":
            return float("inf")
        elif m == "zero":
            return 0.0
        d = abs(self.t - old)
        if d < 1e30:
            self.elapsed += d
        return self.t

    def read_ns(self):
        t = self.read()
        return int(t * 1e9) if t == t and abs(t) < 1e300 else 0

    def sleep(self, s):
        self.t += float(s)
        self.elapsed += float(s)

    def install(self, seams, names=("time", "perf_counter", "monotonic", "process_time", "thread_time")):
        new = {}
        for n in names:
            new[n] = self.read
            new[n + "_ns"] = self.read_ns
        new["sleep"] = self.sleep
        reals = {id(getattr(time, n)): f for n, f in new.items()}
        for n, f in new.items():
            seams.put(time, n, f)
        for m in repo_modules():
            for k, v in list(vars(m).items()):
                if id(v) in reals:
                    seams.put(m, k, reals[id(v)])


# -- standard output ----------------------------------------------------------------
class SimStdout:
    def __init__(self, mode="ok", k=1, exc=None):
        self.mode = mode
        self.k = k
        self.exc = exc
        self.n = 0
        self.fired = 0
        self.text = []
        self.encoding = "ascii" if mode == "ascii" else "utf-8"
        self.errors = "strict"

    def write(self, s):
        self.n += 1
        if self.mode == "bytes" and len(s) > 1:
            # text that cannot be encoded
            self.fired += 1
            raise UnicodeEncodeError("ascii", s, 0, 1, "injected")
        if self.mode == "fail" and self.n == self.k:
            self.fired += 1
            raise self.exc
        if self.mode == "fail_from" and self.n >= self.k:
            self.fired += 1
            raise self.exc
        if self.mode == "short":
            self.text.append(s[: len(s) // 2])
            self.fired += 1
            return len(s) // 2
        self.text.append(s)
        return len(s)

    def flush(self):
        if self.mode == "fail_flush":
            self.fired += 1
            raise self.exc

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no descriptor")

    def writable(self):
        return True
