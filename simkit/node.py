"""
A differently configured simulated machine: a process with its own environment (compiler on or
off, hash seed, contents of fresh memory, thread count) that executes the same cases.  Compiled
kernels are warmed up on fixed inputs once; each case then runs in a fork.
"""
import os
import pickle
import struct
import subprocess
import sys

from . import boot

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONFIG = {
    "jit": {"jit": True, "hashseed": "0", "extra": {"MALLOC_PERTURB_": "90"}},
    "poison": {"jit": False, "hashseed": "77", "extra": {"MALLOC_PERTURB_": "165", "SIMKIT_POISON": "1", "OMP_NUM_THREADS": "2",
                                                        "OPENBLAS_NUM_THREADS": "2", "LANG": "C", "TZ": "Asia/Kathmandu"}},
}

# a set of strings is walked in another order on each
for _k, _h in (("poison1", "1"), ("poison2", "12345")):
    CONFIG[_k] = dict(CONFIG["poison"], hashseed=_h)


def poison():
    """Fresh memory holds garbage."""
    import numpy as np

    real, real_like = np.empty, np.empty_like

    def fill(a):
        k = a.dtype.kind
        if k in "fc":
            a.fill(np.nan if a.size % 2 else 1e30)
        elif k in "iu":
            a.fill(113)
        elif k == "b":
            a.fill(True)
        return a

    def empty(*a, **k):
        return fill(real(*a, **k))

    def empty_like(*a, **k):
        r = real_like(*a, **k)
        return fill(r) if isinstance(r, np.ndarray) else r

    np.empty, np.empty_like = empty, empty_like


def warm_cases():
    w = [{"k": "circle", "n": 30, "s": 1, "noise": 0.05}, {"k": "octa", "n": 24, "s": 2, "noise": 0.05},
         {"k": "circles2", "n": 40, "s": 3, "noise": 0.05}]
    o = [{"cls": "Circular", "w": 0, "dm": "pc", "L": 10, "kw": {}}, {"cls": "CP", "w": 1, "dm": "pc", "L": 10, "kw": {}},
         {"cls": "Toroidal", "w": 2, "dm": "pc", "L": 16, "kw": {}}, {"cls": "Circular", "w": 0, "dm": "sq", "L": 30, "kw": {}},
         {"cls": "CP", "w": 1, "dm": "ns", "L": 10, "kw": {}}]
    w[1]["rows"] = 14
    l = []
    for k, x in enumerate(o):
        kw = {"perc": 0.6, "standard_range": False}
        if x["cls"] == "Toroidal":
            kw["cocycle_idxs"] = [0, 1]
        if x["cls"] == "CP":
            kw["perc"] = 0.9
        l += [{"o": "new", "i": k}, {"o": "coords", "i": k, "kw": kw}]
    for f in ("make_delta0", "make_delta1", "make_delta1_compact", "make_delta2_compact", "sparse_cocycle_to_vector"):
        l.append({"o": "static", "f": "CohomologyUtils." + f, "s": 1})
    return {"worlds": w, "objs": o, "ops": l, "reenter": []}


def run_case(case):
    from . import engine, ops

    engine.standard()
    ctx = ops.Ctx(case)
    return [ops.perform(ctx, q) for q in case["ops"]]


def _read(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    return pickle.loads(f.read(struct.unpack("<I", h)[0]))


def _write(f, x):
    b = pickle.dumps(x, protocol=4)
    f.write(struct.pack("<I", len(b)) + b)
    f.flush()


def main():
    out = os.fdopen(os.dup(1), "wb")
    inp = os.fdopen(os.dup(0), "rb")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    boot.boot()
    from . import engine

    if os.environ.get("SIMKIT_POISON"):
        poison()
    if not os.environ.get("NUMBA_DISABLE_JIT"):
        run_case(warm_cases())
    _write(out, "ready")
    while True:
        case = _read(inp)
        if case is None:
            return
        try:
            r = ("ok", engine.sim_process(run_case, case, timeout=200, what="history"))
        except engine.Violation as v:
            r = ("violation", v.sig, str(v))
        except BaseException as e:
            r = ("error", repr(e))
        _write(out, r)


class Node:
    def __init__(self, flavour, scratch=None):
        c = CONFIG[flavour]
        env = boot.worker_env(jit=c["jit"], hashseed=c["hashseed"], extra=c["extra"], scratch=scratch or os.environ.get("TMPDIR"))
        self.p = subprocess.Popen([sys.executable, "-m", "simkit.node"], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL)
        self.ready = False

    def send(self, case):
        if not self.ready:
            if _read(self.p.stdout) != "ready":
                raise RuntimeError("node did not start")
            self.ready = True
        _write(self.p.stdin, case)

    def receive(self):
        r = _read(self.p.stdout)
        if r is None:
            raise RuntimeError("node died")
        return r


if __name__ == "__main__":
    main()
