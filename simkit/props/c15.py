"""C15: an object survives being copied, saved and restored."""
import copy
import pickle

import numpy as np

from .. import engine, ops
from ..sim import Solo, SimHang, pick_steps
from . import common

BUDGET = {"quick": (4000, 60), "thorough": (40000, 3000)}
JIT_SHARE = 60
LEVEL = "exploration"
RULE = ("A run is a chain of 1-4 simulated processes with one durable store between them.  Each process builds objects, makes "
        "calls (some rejected, some interrupted at an instant), saves objects with pickle or copies them between calls or at an "
        "instant in the middle of a call, and is then killed; the next one starts from nothing but the store, restores, "
        "queries, saves again.  Every outcome in every process is compared with the same call on a newly built object in a fresh "
        "process. Non-trivial: a restored or copied object answered a query; counted per distinct (calls, saves, instants, kills).")
REAL = common.REAL_ALL + ["pickle", "copy"]
STUB = ["process kills (only the saved bytes survive)", "interrupts (injected)", "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["objects are saved once their constructor has returned", "the store keeps the bytes it was given",
               "library version and interpreter are the same in all processes", "kernels run interpreted except in a share of the runs"]

HOW = ["pickle0", "pickle1", "pickle2", "pickle3", "pickle4", "pickle5", "pickle5", "pickle4", "deepcopy", "deepcopy", "copy"]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    common.gen_rip(rng, case, 0.3)
    a = ops.gen_obj(rng, case, small=True)
    objs = [a]
    if rng.random() < 0.6:
        objs.append(common.twin_obj(rng, case, a))
    if rng.random() < 0.3:
        objs.append(ops.gen_obj(rng, case, small=True, share=0.6))
    pool = []
    for o in objs:
        for _ in range(rng.randint(2, 3)):
            pool.append(ops.gen_query(rng, case, o))
    for q in list(pool)[:3]:
        if q["o"] == "coords" and q["kw"]:
            pool.append(common.vary(rng, q))
    case["reenter"] = [ops.gen_query(rng, case, rng.choice(objs), callbacks=False)]
    hist = []
    nslots = 0
    saved = {}
    for seg in range(rng.choice([1, 2, 2, 3, 4])):
        alive = []
        if seg:
            hist.append({"o": "kill"})
            if rng.random() < 0.4:
                # this process has already done other things when it restores
                o = rng.choice(objs)
                hist.append({"o": "new", "i": o})
                alive.append(o)
                hist.append(copy.deepcopy(rng.choice([q for q in pool if q["i"] == o] or pool)))
        else:
            for o in objs:
                if o == a or rng.random() < 0.7:
                    hist.append({"o": "new", "i": o})
                    alive.append(o)
        for s in sorted(saved):
            if rng.random() < 0.8:
                hist.append({"o": "load", "slot": s})
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            if r < 0.3 or not nslots:
                how = rng.choice(HOW)
                q = {"o": "save", "i": rng.choice(alive or objs), "slot": nslots, "how": how}
                nslots += 1
                if rng.random() < 0.45:
                    # in the middle of the next call
                    c = copy.deepcopy(rng.choice(pool))
                    c["snap"] = {"slot": q["slot"], "how": how, "i": c["i"] if rng.random() < 0.8 else q["i"],
                                 "at": _instant(rng)}
                    q = c
                else:
                    c = {"snap": q}
                s = c["snap"]
                if how.startswith("pickle"):
                    saved[s["slot"]] = s["i"]
                hist.append(q)
                if rng.random() < 0.6:
                    hist.append({"o": "load", "slot": s["slot"]})
            else:
                q = copy.deepcopy(rng.choice(pool))
                if rng.random() < 0.1:
                    q["stop"] = {"exc": rng.choice(["KeyboardInterrupt", "MemoryError"]), "at": _instant(rng)}
                elif rng.random() < 0.4:
                    q["slot"] = rng.randrange(nslots)
                hist.append(q)
        # every restored object is asked at least once
        for s in range(nslots):
            if rng.random() < 0.5:
                q = copy.deepcopy(rng.choice(pool))
                q["slot"] = s
                hist.append(q)
    case["ops"] = hist
    return case


def _instant(rng):
    return {"u1": rng.random(), "u2": rng.random(), "mode": rng.choice(["site", "store", "uniform"]), "tid": 0}


def _save(ctx, s, store, local):
    obj = ctx.objs.get(s["i"])
    if obj is None:
        return None
    if s["how"].startswith("pickle"):
        store[s["slot"]] = (s["i"], pickle.dumps(obj, protocol=int(s["how"][6:])))
    else:
        local[s["slot"]] = (s["i"], getattr(copy, s["how"])(obj))
    return True


def _load(ctx, slot, store, local):
    if slot in local:
        return local[slot]
    if slot in store:
        i, b = store[slot]
        local[slot] = (i, pickle.loads(b))
        return local[slot]
    return None


def _instant_of(case, q, ctx, at):
    """The step an abstract instant means (from a recorded execution of this call on a new object)."""
    c2 = ops.Ctx(case)
    c2.arrays = ctx.arrays
    if ops.perform(c2, {"o": "new", "i": q["i"]})["k"] != "ok":
        return None
    solo = Solo(record=True)
    c2.point = None
    solo.run(lambda: ops.perform(c2, q))
    return pick_steps(solo.sim, [at])[0]


def process(case, oplist, store):
    """One simulated process: starts from the store, is killed after its last op."""
    engine.standard(case=case)
    ctx = ops.Ctx(case)
    out = []
    local = {}      # restored and copied objects of this process
    for q in oplist:
        ctx.reenter_out = []
        r = {}
        out.append(r)
        if q["o"] == "save":
            r["out"], _ = ops.outcome_of(lambda: ((1, {}) if _save(ctx, q, store, local) else _skip()))
            continue
        if q["o"] == "load":
            def get():
                p = _load(ctx, q["slot"], store, local)
                if p is None:
                    _skip()
                return [np.array(d) for d in p[1].dgms_], {}

            r["out"], _ = ops.outcome_of(get)
            if q["slot"] in local:
                r["i"] = local[q["slot"]][0]
            continue
        c, p = ctx, q
        if "slot" in q:
            # the call is made on what was restored or copied
            try:
                got = _load(ctx, q["slot"], store, local)
            except Exception as e:
                r["out"] = {"k": "exc", "t": type(e).__name__, "m": str(e)[:200]}
                r["i"] = q["i"]
                continue
            if got is None or case["objs"][got[0]]["cls"] != case["objs"][q["i"]]["cls"]:
                r["out"] = {"k": "skip"}
                continue
            c = ops.Ctx(case)
            c.arrays = ctx.arrays
            c.objs = dict(ctx.objs)
            c.objs[got[0]] = got[1]
            p = dict(q, i=got[0])
            r["i"] = got[0]
        plan = []
        p = {k: v for k, v in p.items() if k not in ("snap", "slot", "stop")}
        if "snap" in q and p["i"] in c.objs:
            s = q["snap"]
            step = s["step"] if "step" in s else _instant_of(case, p, ctx, s["at"])
            if step:
                r["snap"] = step

                def fn(th):
                    r["snapped"] = ops.outcome_of(lambda: ((1, {}) if _save(c, s, store, local) else _skip()))[0]

                plan = [{"step": step, "do": "call", "fn": fn}]
        if "stop" in q and p["i"] in c.objs:
            s = q["stop"]
            step = s["step"] if "step" in s else _instant_of(case, p, ctx, s["at"])
            if step:
                r["stop"] = step
                plan = [{"step": step, "do": "raise", "exc": s["exc"]}]
        if plan:
            solo = Solo(plan=plan)
            try:
                r["out"] = solo.run(lambda: ops.perform(c, p))
            except SimHang as e:
                r["hang"] = str(e)
                break
            r["fired"] = bool(solo.sim.fired)
        else:
            r["out"] = ops.perform(c, p)
        r["inner"] = list(c.reenter_out)
    return out, store


def _skip():
    raise ops.Skip()


def segments(oplist):
    l = [[]]
    for k, q in enumerate(oplist):
        if q["o"] == "kill":
            l.append([])
        else:
            l[-1].append(k)
    return l


def execute(case, res):
    base = engine.Baselines(case)
    conc = copy.deepcopy(case)
    store = {}
    t = 90 if case.get("jit") else None
    pattern = []
    good = False
    digests = []
    for n, seg in enumerate(segments(case["ops"])):
        l = [case["ops"][k] for k in seg]
        recs, store = engine.sim_process(process, case, l, store, timeout=t, what="process %d of the chain" % (n + 1))
        where = " in process %d" % (n + 1)
        pattern.append("kill")
        for k, q, r in zip(seg, l, recs):
            if r.get("hang"):
                res.bad("hang", "call %d%s does not end: %s" % (k + 1, where, r["hang"]))
                break
            o = r["out"]
            digests.append(o)
            for f in ("snap", "stop"):
                if f in r:
                    conc["ops"][k][f]["step"] = r[f]
            if q["o"] in ("save", "load"):
                pattern.append((q["o"], q.get("how"), o["k"]))
                if o["k"] == "exc":
                    what = "%s.%s" % (case["objs"][q["i"]]["cls"], q["how"]) if q["o"] == "save" else "load"
                    res.bad("%s:%s" % (q["o"], what), "an object cannot be %s (%s)%s: %s(%s)" % (
                        "saved" if q["o"] == "save" else "restored", what, where, o["t"], o["m"]))
                elif q["o"] == "load" and o["k"] == "ok":
                    b = engine.compare(base.get({"o": "new", "i": r["i"]}), o, {"o": "new", "i": r["i"]}, case,
                                       ": diagrams of a restored or copied object" + where)
                    if b:
                        res.bad("load-" + b[0], b[1])
                    res.count("restored or copied")
                elif q["o"] == "save" and o["k"] == "ok":
                    res.count("saved by " + q["how"])
                continue
            if o["k"] == "skip":
                continue
            p = {x: y for x, y in q.items() if x not in ("snap", "slot", "stop")}
            if "i" in r:
                p["i"] = r["i"]
            s = r.get("snapped")
            if s and s["k"] == "exc":
                res.bad("save-mid:" + q["snap"]["how"], "an object cannot be saved (%s) at step %d of %s%s: %s(%s)" % (
                    q["snap"]["how"], r["snap"], ops.name(p, case), where, s["t"], s["m"]))
            elif s and s["k"] == "ok":
                res.count("saved in the middle of a call by " + q["snap"]["how"])
            pattern.append((common.short_op(p, case), o["k"], "slot" in q, r.get("snap"), r.get("stop")))
            if r.get("fired"):
                res.count("interrupted calls")
                continue
            if "slot" in q:
                res.count("calls on restored or copied objects: " + ops.name(p, case))
                good = good or o["k"] == "ok"
            who = " on a restored or copied object" if "slot" in q else ""
            b = engine.compare(base.get(p), o, p, case, who + where + " (call %d)" % (k + 1))
            if b:
                res.bad(("restored-" if "slot" in q else "") + b[0], b[1])
            if "slot" not in q:
                for iq, io in r.get("inner", []):
                    b = engine.compare(base.get(iq), io, iq, case, " from a callback" + where)
                    if b:
                        res.bad("re" + b[0], b[1])
        res.steps += len(l)
        res.count("processes killed")
        if res.viol:
            break
    res.case = conc
    res.digest = engine.digest(digests)
    if good:
        res.key = engine.digest(pattern)


def shrink(case):
    size = len(case["ops"]) // 2
    while size >= 1:
        for k in range(0, len(case["ops"]), size):
            c = copy.deepcopy(case)
            c["ops"] = common.without(c["ops"], k, size)
            if c["ops"]:
                yield c
        size //= 2
    for k, q in enumerate(case["ops"]):
        for f in ("snap", "stop"):
            if f in q:
                c = copy.deepcopy(case)
                del c["ops"][k][f]
                yield c
    if case["reenter"]:
        c = copy.deepcopy(case)
        c["reenter"] = []
        yield c
    yield from common.simplify_worlds(case)
