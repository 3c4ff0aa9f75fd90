"""
Process set-up: environment, third-party imports, lock seam, then the code under test.

`boot()` imports DREiMac from the repository's working tree but never calls it, so a
forked child always starts from the state of a freshly imported library.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "dreimac") + os.sep

BASE_ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONWARNINGS": "",
    "LANG": "C.UTF-8",
}


def worker_env(jit=False, hashseed="0", extra=None, scratch=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("NUMBA_", "PYTHON", "MPL"))}
    env.update(BASE_ENV)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    if scratch:
        env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
        env["TMPDIR"] = scratch
    if extra:
        env.update(extra)
    return env


_booted = False


def boot():
    global _booted
    if _booted:
        return
    _booted = True
    import numpy, scipy, scipy.sparse.linalg, scipy.optimize, scipy.spatial, scipy.special  # noqa
    import scipy.sparse.csgraph  # noqa
    import sklearn.metrics.pairwise  # noqa
    import ripser  # noqa
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import mpl_toolkits.mplot3d  # noqa
    import numba

    # first use of the compiler loads its registries: do it once, on unrelated code
    if not os.environ.get("NUMBA_DISABLE_JIT"):
        import numpy as np

        @numba.jit(nopython=True, fastmath=True)
        def _warm(a, r):
            n = 0
            for i in range(a.shape[0]):
                if a[i, 0] < 1.0:
                    r[n] = np.sqrt(a[i, 0])
                    n += 1
            return n

        _warm(np.ones((2, 2)), np.ones(2))

    from . import locks

    locks.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import dreimac

    where = os.path.abspath(dreimac.__file__)
    if not where.startswith(PKG):
        raise RuntimeError("dreimac imported from %s, not from %s" % (where, PKG))
    import importlib
    import pkgutil

    for m in pkgutil.walk_packages(dreimac.__path__, "dreimac."):
        importlib.import_module(m.name)
    import gc

    gc.collect()
    gc.freeze()
