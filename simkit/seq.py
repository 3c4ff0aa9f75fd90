"""
Sequential histories with faults inside calls, watched from outside: does the fault surface,
do caller-owned arrays keep their bytes, do results already handed out stay as they were, are
process-wide settings left alone.
"""
import gc
import hashlib
import os
import sys

import numpy as np

from . import engine, locks, ops, seams, statics
from .compare import canon, same
from .sim import Solo, Injected, SimDeadlock, SimHang, pick_steps


# -- images of caller-owned data ------------------------------------------------------
def arrays_in(v, depth=0, path=""):
    if depth > 6:
        return
    if isinstance(v, np.ndarray):
        yield path, v
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from arrays_in(x, depth + 1, path + "[%d]" % i)
    elif isinstance(v, dict):
        for k in v:
            yield from arrays_in(v[k], depth + 1, path + "[%r]" % (k,))


def image(v, depth=0):
    """Bytes of everything the caller can see in v."""
    if isinstance(v, np.ndarray):
        return ("a", v.dtype.str, v.shape, v.strides, hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest())
    if isinstance(v, (list, tuple)) and depth < 6:
        return (type(v).__name__, [image(x, depth + 1) for x in v])
    if isinstance(v, dict) and depth < 6:
        return ("d", [(k, image(v[k], depth + 1)) for k in v])
    if callable(v):
        return "fn"
    return repr(v)


def scribble(v, depth=0):
    """Overwrite everything mutable in v."""
    n = 0
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            v[...] = True if v.dtype.kind == "b" else 77
            n += 1
    elif isinstance(v, list) and depth < 6:
        for x in v:
            n += scribble(x, depth + 1)
        if v and not isinstance(v[0], (np.ndarray, list)):
            for k in range(len(v)):
                v[k] = 3
            n += 1
    elif isinstance(v, tuple) and depth < 6:
        for x in v:
            n += scribble(x, depth + 1)
    elif isinstance(v, dict) and depth < 6:
        for x in v.values():
            n += scribble(x, depth + 1)
    return n


# -- process-wide settings --------------------------------------------------------------
def settings():
    import decimal
    import locale
    import random
    import signal
    import tempfile
    import threading
    import warnings

    s = {}
    s["numpy error handling"] = dict(np.geterr())
    s["numpy error callback"] = repr(np.geterrcall())
    s["numpy print options"] = {k: repr(v) for k, v in np.get_printoptions().items()}
    s["numpy buffer size"] = np.getbufsize()
    st = np.random.get_state(legacy=False)
    s["numpy random state"] = hashlib.sha256(repr((st["bit_generator"], st["state"]["key"].tolist() if "key" in st["state"] else st["state"],
                                                  st["state"].get("pos"), st.get("has_gauss"), st.get("gauss"))).encode()).hexdigest()
    s["random state"] = hashlib.sha256(repr(random.getstate()).encode()).hexdigest()
    s["warning filters"] = [repr(f) for f in warnings.filters]
    s["warnings.showwarning"] = id(warnings.showwarning)
    s["decimal context"] = repr(decimal.getcontext()).split("flags=")[0]
    s["recursion limit"] = sys.getrecursionlimit()
    s["switch interval"] = sys.getswitchinterval()
    s["environment"] = dict(os.environ)
    s["working directory"] = os.getcwd()
    s["sys.stdout"] = id(sys.stdout)
    s["sys.stderr"] = id(sys.stderr)
    s["sys.stdin"] = id(sys.stdin)
    s["sys.path"] = list(sys.path)
    s["excepthook"] = (id(sys.excepthook), id(threading.excepthook))
    s["displayhook"] = id(sys.displayhook)
    s["profile function"] = repr(sys.getprofile())
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["signal handlers"] = {i: repr(signal.getsignal(i)) for i in range(1, 32)}
    s["interval timer"] = signal.getitimer(signal.ITIMER_REAL)
    s["tempdir"] = tempfile.tempdir
    s["gc"] = (gc.isenabled(), gc.get_threshold())
    s["threads"] = len(sys._current_frames())
    s["open files"] = sorted(_fds())
    s["umask"] = _umask()
    s["thread stack size"] = threading.stack_size()
    s["integer digits limit"] = getattr(sys, "get_int_max_str_digits", int)()
    L = sys.modules.get("logging")
    if L is not None:
        s["logging"] = (L.root.level, [repr(type(h)) for h in L.root.handlers], L.root.manager.disable, L.raiseExceptions)
    k = sys.modules.get("socket")
    if k is not None:
        s["socket timeout"] = k.getdefaulttimeout()
    s["scipy error handling"] = repr(__import__("scipy.special", fromlist=["geterr"]).geterr())
    m = sys.modules.get("matplotlib")
    if m is not None:
        s["matplotlib settings"] = {k: repr(m.rcParams[k]) for k in m.rcParams if not k.startswith("backend")}
        s["matplotlib backend"] = m.get_backend()
        P = sys.modules.get("matplotlib.pyplot")
        if P is not None:
            from matplotlib import _pylab_helpers as H

            s["figures"] = [(n, id(f.canvas.figure)) for n, f in H.Gcf.figs.items()]
            s["interactive"] = P.isinteractive()
    b = __import__("builtins")
    s["builtins"] = sorted((k, id(v)) for k, v in vars(b).items() if k != "_")
    return s


def _fds():
    d = os.open("/proc/self/fd", os.O_RDONLY)
    try:
        out = []
        for n in os.listdir(d):
            if int(n) != d:
                try:
                    out.append((int(n), os.readlink("/proc/self/fd/" + n)))
                except OSError:
                    pass
        return out
    finally:
        os.close(d)


def _umask():
    with open("/proc/self/status") as f:
        for l in f:
            if l.startswith("Umask"):
                return l.split()[1]


def settings_diff(a, b):
    out = []
    for k in a:
        if a[k] != b.get(k):
            x, y = a[k], b.get(k)
            if isinstance(x, dict):
                ks = [q for q in set(x) | set(y) if x.get(q) != y.get(q)]
                q = sorted(ks, key=str)[0]
                out.append("%s [%s]: %s -> %s" % (k, q, x.get(q), y.get(q)))
            else:
                out.append("%s: %s -> %s" % (k, str(x)[:120], str(y)[:120]))
    return out


# -- faults -----------------------------------------------------------------------------
LINE_EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RuntimeError", "SystemExit", "OSError", "FloatingPointError"]
DEP_EXC = ["RuntimeError", "MemoryError", "KeyboardInterrupt", "ValueError", "LinAlgError", "TypeError", "FloatingPointError",
           "IndexError", "KeyError", "OSError", "AttributeError", "TimeoutError", "ArithmeticError"]
STRICT = ("KeyboardInterrupt", "SystemExit", "MemoryError")


def gen_fault(rng, kinds=("line", "line", "line", "dep", "alloc", "cb")):
    k = rng.choice(kinds)
    f = {"kind": k, "u1": rng.random(), "u2": rng.random()}
    if k == "line":
        f["mode"] = rng.choice(["site", "site", "store", "uniform"])
        f["exc"] = rng.choice(LINE_EXC)
        f["tid"] = 0
        f["off"] = 0
    elif k == "dep":
        f["exc"] = rng.choice(DEP_EXC)
        f["when"] = rng.choice(["before", "before", "after"])
    elif k == "alloc":
        f["exc"] = "MemoryError"
    else:
        f["exc"] = rng.choice(DEP_EXC)
    return f


def resolve(f, rec):
    """Make an abstract fault concrete from a recorded fault-free execution of the op."""
    k = f["kind"]
    g = {"kind": k, "exc": f["exc"]}
    if k == "line":
        s = pick_steps(rec["sim"], [f])[0]
        if s is None:
            return None
        g["step"] = s
    elif k == "dep":
        names = sorted(n for n, c in rec["deps"].items() if c)
        if not names:
            return None
        n = names[int(f["u1"] * len(names)) % len(names)]
        g["name"] = n
        g["k"] = 1 + int(f["u2"] * rec["deps"][n]) % rec["deps"][n]
        g["when"] = f["when"]
    elif k == "alloc":
        if not rec["allocs"]:
            return None
        g["k"] = 1 + int(f["u1"] * rec["allocs"]) % rec["allocs"]
    else:
        if not rec["cbs"]:
            return None
        g["k"] = 1 + int(f["u1"] * rec["cbs"]) % rec["cbs"]
    return g


class _T:
    n = 0


class _RecSim:
    def __init__(self, sim):
        self.sites = sim.sites
        self.after_store = sim.after_store
        t = _T()
        t.n = sim.threads[0].n
        self.threads = [t]


def in_chain(e, made, depth=0):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if x is made or getattr(x, "_simkit_injected", False):
            return True
        stack += [x.__cause__, x.__context__]
    return False


BUDGET = 3_000_000


def shown(r, what, held, given):
    """A write of the caller to one of its arrays must not show in others it holds."""
    for d, nm in ((held, "result returned by"), (given, "arguments of")):
        for h in list(d):
            im = image(d[h][0])
            if im != d[h][1]:
                d[h] = (d[h][0], im)
                r.setdefault("changed", []).append("%s call %d (by %s)" % (nm, h + 1, what))


def run_seq(case, oplist, faults=None, record=None, snapshots=False, watch=False, budget=BUDGET):
    """
    faults: {op index: concrete fault}; record: op index to record.
    op may also be {"o": "scribX", "i": obj} | {"o": "scribR", "k": op index} | {"o": "scribA", "k": op index}.
    """
    S = engine.standard(case=case)
    faults = {int(k): v for k, v in (faults or {}).items()}
    dep = seams.DepFaults()
    dep.install(S)
    alloc = seams.AllocFaults()
    need_alloc = record is not None or any(f["kind"] == "alloc" for f in faults.values())
    if need_alloc:
        alloc.install(S)
    ctx = ops.Ctx(case)
    recs = []
    held = {}      # op index -> (value, image)
    given = {}     # op index -> (args, image)
    out_rec = None
    for k, q in enumerate(oplist):
        r = {"k": k}
        recs.append(r)
        if q["o"] == "scribX":
            o = case["objs"][q["i"]]
            X = ctx.arrays.pop((o["w"], o["dm"]), None)
            r["n"] = scribble(X) if X is not None else 0
            shown(r, "overwriting the input data", held, given)
            r["out"] = {"k": "skip"}
            continue
        if q["o"] in ("scribR", "scribA"):
            src = held if q["o"] == "scribR" else given
            r["n"] = 0
            if q["k"] in src:
                v = src.pop(q["k"])[0]
                data = [(key, a, image(a)) for key, a in ctx.arrays.items()]
                r["n"] = scribble(v)
                if oplist[q["k"]].get("f") in statics.PASS_THROUGH:
                    # documented to hand back the very array it was given
                    (given if q["o"] == "scribR" else held).pop(q["k"], None)
                shown(r, "overwriting the %s of call %d" % ("result" if q["o"] == "scribR" else "arguments", q["k"] + 1), held, given)
                for key, a, im in data:
                    if image(a) != im:
                        r.setdefault("changed", []).append("input data (by overwriting the result of call %d)" % (q["k"] + 1))
                        ctx.arrays.pop(key, None)
            r["out"] = {"k": "skip"}
            continue
        f = faults.get(k)
        plan = []
        dep.plan, dep.count, dep.fired = {}, {}, []
        alloc.k, alloc.n, alloc.fired = None, 0, []
        ctx.callback_calls = 0
        made = []
        cbn = [0]

        def fire(name=None, note=""):
            e = Injected.make(name or f["exc"], note)
            made.append(e)
            raise e

        if f:
            if f["kind"] == "line":
                plan = [{"step": f["step"], "do": "raise", "exc": f["exc"]}]
            elif f["kind"] == "dep":
                dep.plan = {(f["name"], f["k"]): (f["when"], fire)}
            elif f["kind"] == "alloc":
                alloc.k = f["k"]
                alloc.fn = fire
        solo = Solo(record=(record == k), plan=plan, budget=budget)

        def cbpoint(c):
            cbn[0] += 1
            if f and f["kind"] == "cb" and cbn[0] == f["k"]:
                fire()

        ctx.point = cbpoint
        ctx.last_args = None
        if q["o"] == "plot" and ctx.plot_ax is None:
            import matplotlib.pyplot as plt

            fig = plt.figure()
            ctx.plot_ax = (fig.add_subplot(121), fig.add_subplot(122, projection="3d"))
            plt.sca(ctx.plot_ax[0])
        before = settings() if snapshots else None
        X = None
        imgs = []
        if watch and "i" in q and q["o"] in ("new", "coords", "rep", "radius", "partition"):
            for key, X in ctx.arrays.items():
                imgs.append(("input data", X, image(X)))
            if q["o"] == "new":
                X = ctx.array(q["i"])
                imgs.append(("input data", X, image(X)))
        argimg = []

        def call():
            if watch and q["o"] == "static":
                a, kw = statics.args(q["f"], q["s"])
                ctx.last_args = (a, kw)
                im = image((a, kw))
                argimg.append(((a, kw), im))
                v = statics.resolve(q["f"])(*a, **kw)
                ret = v
                if q["f"] == "CohomologyUtils.reindex_cocycles":
                    ret = a[0]
                r["raw"] = True
                call.raw = v
                if q["f"] == "EquivariantPCA.ppca":
                    return v["X"], {"gauge": True}
                return ret, ({"gauge_abs": True} if q["f"] in statics.GAUGE else {})
            v, fl = ops.perform_raw(ctx, q)
            call.raw = v
            return v, fl

        call.raw = None
        traced = record == k or (f and f["kind"] == "line") or budget != BUDGET
        dep.armed = alloc.armed = True
        try:
            if traced:
                out, e = ops.outcome_of(lambda: solo.run(call))
            elif q.get("thread"):
                out, e = locks.call_in_thread(lambda: ops.outcome_of(call))
            else:
                out, e = ops.outcome_of(call)
        except (SimHang, SimDeadlock) as h:
            r["hang"] = str(h)
            r["out"] = {"k": "skip"}
            sys.settrace(None)
            return recs, out_rec
        finally:
            dep.armed = alloc.armed = False
            sys.settrace(None)
        r["out"] = out
        r["steps"] = solo.th.n
        if f:
            r["fired"] = bool(solo.sim.fired or made)
            r["site"] = str(solo.sim.fired[0][2]) if solo.sim.fired else str(dep.fired or alloc.fired or "callback")
            if out["k"] == "exc":
                r["exact"] = bool(getattr(e, "_simkit_injected", False))
                r["chain"] = in_chain(e, None)
            e = None
        if out["k"] == "exc":
            ctx.exc = None
        if snapshots:
            d = settings_diff(before, settings())
            if d:
                r["settings"] = d
        if watch:
            bad = []
            for nm, arr, im in imgs:
                if image(arr) != im:
                    bad.append(nm)
            for av, im in argimg:
                if q["f"] not in statics.IN_PLACE and image(av) != im:
                    bad.append("arguments of " + q["f"])
                given[k] = (av, image(av))
            if q["o"] == "coords" and ctx.last_args is not None:
                kw = ctx.last_args
                want = ops.kwargs_of(ctx, q)
                if {n: v for n, v in kw.items() if n != "partunity_fn"} != {n: v for n, v in want.items() if n != "partunity_fn"}:
                    bad.append("keyword arguments")
                given[k] = ([v for v in kw.values() if isinstance(v, list)], None)
                given[k] = (given[k][0], image(given[k][0]))
            for h in held:
                if image(held[h][0]) != held[h][1]:
                    bad.append("result returned by call %d" % (h + 1))
                    held[h] = (held[h][0], image(held[h][0]))
            if bad:
                r["changed"] = bad
            if out["k"] == "ok" and call.raw is not None:
                held[k] = (call.raw, image(call.raw))
        if record == k:
            out_rec = {"sim": _RecSim(solo.sim), "deps": dict(dep.count), "allocs": alloc.n, "cbs": cbn[0]}
    return recs, out_rec
