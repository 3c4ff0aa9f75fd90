"""C17: nothing outlives its use."""
import copy
import gc
import sys
import threading
import tracemalloc
import weakref

import numpy as np

from .. import engine, ops, seams, seq, statics
from ..sim import Injected, SimDeadlock, SimHang, Solo
from . import common

BUDGET = {"quick": (6000, 60), "thorough": (60000, 3000)}
JIT_SHARE = 60
LEVEL = "exploration"
RULE = ("A run makes a history of public calls on 1-3 objects (rejected calls, calls interrupted at a random line or with a failing "
        "dependency or callback, calls made in short-lived threads), then the caller drops everything it holds; every object, data "
        "array, bump function, argument list and result must be gone. One run in twelve instead repeats calls with ever new "
        "arguments on one object some 600 times (3000 if suspicious) and measures what is allocated after the first and the second half. One run in sixty uses compiled kernels (half of these "
        "measure growth over 60-120 calls). Non-trivial: "
        "something was handed to or made by the library; counted per distinct history.")
REAL = common.REAL_ALL
STUB = ["interrupts, dependency and callback failures (injected)", "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["objects in reference cycles count as gone when the cycle collector can remove them",
               "growth below 200 bytes per call (2000 with compiled kernels, resident memory 30 kB) is not judged"]
HALF = 300
PER_CALL = 200      # bytes
JIT_HALF = 30
JIT_PER_CALL = 2000
JIT_RSS = 30000


class Args(list):
    """The caller's list of classes (a plain list cannot be watched)."""
    __slots__ = ("__weakref__",)


class Ctx(ops.Ctx):
    def bump(self, name, op):
        f = ops.Ctx.bump(self, name, op)
        if f is not None and name not in ("linear", "quadratic", "exp"):
            self.watch(f, "bump function %s" % name)
        return f

    def watch(self, x, what):
        try:
            self.refs.append((weakref.ref(x), what))
        except TypeError:
            pass


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    jit = i % JIT_SHARE == JIT_SHARE - 1
    if i % 12 == 5 or (jit and i // JIT_SHARE % 2 == 0):
        cls = rng.choice(["Circular", "Toroidal", "CP"] if jit else ["Circular", "Circular", "Toroidal", "Proj", "Lens"])
        a = ops.gen_obj(rng, case, cls=cls, small=True)
        w, o = case["worlds"][0], case["objs"][a]
        w["n"] = min(w["n"], 60)
        if o["L"] > 12:
            o["L"] = 12
        l = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            if rng.random() < 0.2:
                l.append(common.gen_static(rng, heavy=0))
            elif jit:
                l.append({"o": "coords", "i": a, "kw": {"perc": 0.5, "standard_range": False}})
            else:
                l.append(ops.gen_query(rng, case, a, callbacks=False, reject=0.1))
        case["ops"] = l
        case["grow"] = rng.randint(0, 10**9)
        return case
    common.gen_rip(rng, case, 0.2)
    objs = [ops.gen_obj(rng, case, small=True)]
    while len(objs) < 3 and rng.random() < 0.35:
        objs.append(common.twin_obj(rng, case, objs[0]) if rng.random() < 0.5 else ops.gen_obj(rng, case, small=True))
    l = [{"o": "new", "i": a} for a in objs]
    for _ in range(rng.randint(1, 8)):
        a = rng.choice(objs)
        r = rng.random()
        if r < 0.15:
            q = common.gen_static(rng, heavy=0)
        elif r < 0.2:
            q = {"o": "new", "i": a}
        else:
            q = ops.gen_query(rng, case, a)
        l.append(q)
    for q in l:
        if rng.random() < 0.25:
            k = rng.choice(["line", "line", "dep", "cb"])
            f = {"kind": k, "exc": rng.choice(seq.LINE_EXC if k == "line" else seq.DEP_EXC)}
            if k == "line":
                f["step"] = int(2 ** rng.uniform(0, 12))
            elif k == "dep":
                f["name"] = rng.choice([n for n in seams.DEPS if n != "KDTree"])
                f["k"] = rng.choice([1, 1, 2])
                f["when"] = rng.choice(["before", "after"])
            q["fault"] = f
        if rng.random() < 0.15:
            q["thread"] = 1
    case["ops"] = l
    case["reenter"] = [ops.gen_query(rng, case, objs[0], callbacks=False, reject=0)]
    return case


def one(ctx, dep, q):
    """One call of a caller that keeps nothing. -> (outcome kind, fault fired)"""
    f = q.get("fault")
    made = [0]
    cbn = [0]
    dep.plan, dep.count, dep.fired = {}, {}, []

    def fire():
        made[0] += 1
        raise Injected.make(f["exc"], "")

    def point(c):
        cbn[0] += 1
        if f and f["kind"] == "cb" and cbn[0] == 1:
            fire()

    def call():
        if q["o"] == "static":
            a, kw = statics.args(q["f"], q["s"])
            for p, x in seq.arrays_in([a, kw]):
                ctx.watch(x, "argument of " + q["f"])
            v = statics.resolve(q["f"])(*a, **kw)
        else:
            v, _ = ops.perform_raw(ctx, q)
            if q["o"] == "new":
                ctx.watch(ctx.objs[q["i"]], "object")
                return "ok"
        for p, x in seq.arrays_in(v):
            ctx.watch(x, "result of " + ops.name(q, ctx.case))
        return "ok"

    plan = []
    if f and f["kind"] == "line":
        plan = [{"step": f["step"], "do": "raise", "exc": f["exc"]}]
    elif f and f["kind"] == "dep":
        dep.plan = {(f["name"], f["k"]): (f["when"], fire)}
    ctx.point = point
    ctx.last_args = None
    solo = Solo(plan=plan) if plan else None
    dep.armed = True
    try:
        r = solo.run(call) if solo else call()
    except (SimHang, SimDeadlock):
        raise
    except ops.Skip:
        r = "skip"
    except BaseException as e:
        r = "exc " + type(e).__name__
    finally:
        dep.armed = False
        sys.settrace(None)
    return r, bool(made[0] or (solo and solo.sim.fired))


def in_thread(fn):
    box = []
    t = threading.Thread(target=lambda: box.append(fn()))
    t.start()
    t.join()
    return box[0] if box else ("exc", False)


def kwargs_of(ctx, op):
    kw = _kwargs_of(ctx, op)
    for k, v in list(kw.items()):
        if isinstance(v, list) and isinstance(ctx, Ctx):
            kw[k] = Args(v)
            ctx.watch(kw[k], "argument list")
    return kw


_kwargs_of = ops.kwargs_of


def history(case):
    S = engine.standard(case=case)
    dep = seams.DepFaults()
    dep.install(S)
    ops.kwargs_of = kwargs_of
    ops.lib()
    ctx = Ctx(case)
    ctx.refs = []
    outs = []
    for q in case["ops"]:
        if q["o"] == "new":
            X = ctx.array(q["i"])
            if not any(r() is X for r, _ in ctx.refs):
                ctx.watch(X, "input data")
                if isinstance(X.base, np.ndarray):
                    ctx.watch(X.base, "input data")
            del X
        outs.append(in_thread(lambda: one(ctx, dep, q)) if q.get("thread") else one(ctx, dep, q))
    refs = ctx.refs
    ctx.objs.clear()
    ctx.arrays.clear()
    ctx.reenter_out = []
    ctx.last_args = None
    ctx.point = None
    dep.plan, dep.fired = {}, []
    ops._wlog.clear()
    del ctx
    for _ in range(3):
        gc.collect()
    alive = sorted({w for r, w in refs if r() is not None})
    why = []
    for r, w in refs:
        x = r()
        if x is not None and len(why) < 3:
            why.append("%s held by %s" % (w, holders(x, refs)))
        del x
    return outs, len(refs), alive, why


def holders(x, refs):
    out = []
    for h in gc.get_referrers(x):
        if h is refs or type(h).__name__ in ("frame", "list_iterator"):
            continue
        out.append(type(h).__name__ + (" with keys %s" % sorted(map(str, h))[:4] if isinstance(h, dict) else ""))
    return ", ".join(sorted(set(out))[:4]) or "something unknown"


def grow(case):
    S = engine.standard(case=case)
    dep = seams.DepFaults()
    ops.lib()
    rng = np.random.RandomState(case["grow"] % (2**31 - 1))
    ctx = Ctx(case)

    class Off(list):
        def append(self, x):
            pass

    ctx.refs = Off()
    i = next((q["i"] for q in case["ops"] if "i" in q), 0)
    if one(ctx, dep, {"o": "new", "i": i})[0] != "ok":
        return None, 0
    n = 0
    tracemalloc.start()

    def until(m):
        nonlocal n
        while n < m:
            for q in case["ops"]:
                q = copy.deepcopy(q)
                if q["o"] == "coords" and isinstance(q["kw"].get("perc", 0.5), float):
                    q["kw"]["perc"] = float(rng.uniform(0.1, 0.99))
                elif q["o"] == "partition":
                    q["r"] = float(rng.uniform(0.2, 3))
                elif q["o"] == "radius":
                    q["a"][0] = float(rng.uniform(0, 1))
                elif q["o"] == "static":
                    q["s"] = int(rng.randint(2**31 - 2))
                one(ctx, dep, q)
                n += 1
            ops._wlog.clear()
        gc.collect()
        return n, tracemalloc.get_traced_memory()[0]

    if case.get("jit"):
        return grow_jit(until)
    # a first look, and a longer one if it is suspicious (a cache of bounded size fills up first)
    for k in (1, 5):
        a, b = until(k * HALF), until(2 * k * HALF)
        per = (b[1] - a[1]) / (b[0] - a[0])
        if per <= PER_CALL:
            break
    snap = tracemalloc.take_snapshot()
    tracemalloc.stop()
    where = ""
    if per > PER_CALL:
        top = [s for s in snap.statistics("lineno") if "simkit" not in s.traceback[0].filename and "tracemalloc" not in s.traceback[0].filename]
        where = "; ".join("%s:%d %d bytes" % (s.traceback[0].filename, s.traceback[0].lineno, s.size) for s in top[:3])
    return (per, where), n


def resident():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def grow_jit(until):
    """Compiled kernels: what is compiled now and then is no growth, so every part of the run must grow."""
    w = []
    for k in range(1, 5):
        n, b = until(k * JIT_HALF)
        w.append((n, b, resident()))
        if len(w) >= 3 and not all(steady(a, b) for a, b in zip(w, w[1:])):
            break
    bad = [steady(a, b) for a, b in zip(w[1:], w[2:])]
    if all(bad):
        return (bad[-1][0], "with compiled kernels; resident memory %d per call" % bad[-1][1], 1), n
    return (0, ""), n


def steady(a, b):
    """Growth per call between two instants, if there is any."""
    t, r = ((b[j] - a[j]) / (b[0] - a[0]) for j in (1, 2))
    return (t, r) if t > JIT_PER_CALL or r > JIT_RSS else None


def execute(case, res):
    if "grow" in case:
        r, n = engine.sim_process(grow, case, timeout=400, what="a long run of calls")
        res.digest = "grow"
        res.steps = n
        if r is None:
            return
        res.count("long runs of calls measured" + (" (compiled kernels)" if case.get("jit") else ""))
        res.count("calls in long runs", n)
        res.key = engine.digest(case["worlds"], case["objs"], case["ops"])
        if r[0] > PER_CALL or len(r) > 2:
            res.bad("growth", "memory in use grows by %d bytes per call over %d calls (%s)" % (r[0], n, r[1]))
        return
    outs, n, alive, why = engine.sim_process(history, case, timeout=90, what="a history")
    for q, (o, fired) in zip(case["ops"], outs):
        res.count("calls")
        if o.startswith("exc"):
            res.count("calls that raised")
        if fired:
            res.count("fault " + q["fault"]["kind"])
        if q.get("thread"):
            res.count("calls in a short-lived thread")
    res.count("things dropped", n)
    res.steps = len(outs)
    res.digest = engine.digest(outs, n, alive)
    if n:
        res.key = engine.digest(case["worlds"], case["objs"], case["ops"])
    if alive:
        res.bad("kept:" + alive[0], "still alive after the caller dropped everything: %s (%s)" % (", ".join(alive), "; ".join(why)))


def shrink(case):
    if case.get("jit") and "grow" in case:
        return
    yield from common.shrink_list(case, "ops")
    for k, q in enumerate(case["ops"]):
        for f in ("fault", "thread"):
            if f in q:
                c = copy.deepcopy(case)
                del c["ops"][k][f]
                yield c
    if "rip" in case:
        c = copy.deepcopy(case)
        del c["rip"]
        yield c
    yield from common.simplify_ops(case, "ops")
    yield from common.simplify_worlds(case)
