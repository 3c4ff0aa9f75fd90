"""C02: concurrent calls do not interfere."""
import copy

from .. import engine, ops, sim, threads
from . import common

BUDGET = {"quick": (2500, 70), "thorough": (20000, 3000)}
JIT_SHARE = 60
LEVEL = "exploration"
RULE = ("A run has 2-3 simulated caller threads with 1-2 calls each on shared and private objects; 4 schedules per run, each "
        "with 1-4 preemptions placed at source sites, right after writes to shared state, or uniformly, at line or bytecode "
        "granularity. Every call is compared with the same call alone. Non-trivial: at least one preemption took place while "
        "another call was in progress; counted per distinct (preempted site, resumed thread, calls) sequence.")
REAL = common.REAL_ALL
STUB = ["thread scheduler (every switch decided by the seed)", "locks created by the library (cooperative)",
        "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["switches happen between bytecodes of the library, not inside compiled dependencies (CPython's GIL)",
               "kernels run interpreted except in a share of the runs"]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "setup": [], "threads": [], "reenter": []}
    case["opcodes"] = rng.random() < 0.25
    common.gen_rip(rng, case, 0.2)
    a = ops.gen_obj(rng, case, small=True)
    objs = [a]
    if rng.random() < 0.5:
        objs.append(common.twin_obj(rng, case, a))
    if rng.random() < 0.2:
        objs.append(ops.gen_obj(rng, case, small=True, share=0.7))
    # cold start: every thread builds its own object, nothing has been computed in the process before
    cold = rng.random() < 0.15
    if not cold:
        for o in objs:
            case["setup"].append({"o": "new", "i": o})
    nt = 2 if rng.random() < 0.8 else 3
    static_only = rng.random() < 0.12
    f0 = common.gen_static(rng, heavy=0.0)
    for t in range(nt):
        l = []
        if cold:
            k = a if t == 0 else common.twin_obj(rng, case, a)
            l.append({"o": "new", "i": k})
            l.append(ops.gen_query(rng, case, k, callbacks=False, reject=0.03))
            case["threads"].append(l)
            continue
        for _ in range(1 if case["opcodes"] else rng.choice([1, 1, 2])):
            r = rng.random()
            if static_only:
                # same helper with other arguments, or different helpers
                l.append(rng.choice([{"o": "static", "f": f0["f"], "s": rng.randint(0, 10**9)}, common.near_static(rng, f0), dict(f0)])
                         if rng.random() < 0.6
                         else common.gen_static(rng, heavy=0.0))
            elif r < 0.12:
                l.append(common.gen_static(rng, heavy=0.0))
            elif r < 0.2:
                # construction in parallel: of a further object
                k = common.twin_obj(rng, case, rng.choice(objs))
                l.append({"o": "new", "i": k})
                l.append(ops.gen_query(rng, case, k, reject=0.03))
            else:
                l.append(ops.gen_query(rng, case, a if rng.random() < 0.65 else rng.choice(objs), reject=0.05))
        case["threads"].append(l)
    case["reenter"] = [] if cold else [ops.gen_query(rng, case, rng.choice(objs), callbacks=False, reject=0.03)]
    case["first"] = rng.randrange(nt)
    plans = []
    for _ in range(4):
        p = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            p.append({"tid": rng.randrange(nt), "u1": rng.random(), "u2": rng.random(),
                      "mode": rng.choice(["site", "site", "store", "store", "uniform"]), "to": rng.randrange(nt),
                      "off": rng.choice([0, 0, 0, 1])})
        plans.append(p)
    if rng.random() < 0.3:
        # two threads in the same section at once: the first is stopped there, then the second
        if rng.random() < 0.7 and not cold:
            case["threads"][1] = copy.deepcopy(case["threads"][0])
        for k in range(rng.randint(1, 4)):
            plans[k] = pair(rng, case["first"], nt)
    case["req"] = plans
    return case


def pair(rng, first, nt):
    a, b = (0, 1) if first != 1 else (1, 0)
    u1, u2, mode = rng.random(), rng.random(), rng.choice(["site", "site", "store"])
    return [{"tid": t, "u1": u1, "u2": u2, "mode": mode, "to": o, "off": 0} for t, o in ((a, b), (b, a))]


def execute(case, res):
    base = engine.Baselines(case)
    names = ",".join(common.short_op(q, case) for l in case["threads"] for q in l)
    if "plan" in case:
        plans = [case["plan"]]
    else:
        rec = engine.sim_process(threads.run_threads, case, None, True, timeout=90, what="calls one after another")
        if rec["deadlock"] or rec["hang"] or rec["errors"]:
            res.bad("hang" if rec["hang"] else "deadlock", "without any preemption: %s" % (rec["deadlock"] or rec["hang"] or rec["errors"]))
            c = dict(case)
            c["plan"] = [[] for _ in case["threads"]]
            res.case = c
            return
        R = threads.Recorded(rec)
        plans = []
        for reqs in case["req"]:
            p = [[] for _ in case["threads"]]
            for q, s in zip(reqs, sim.pick_steps(R, reqs)):
                if s is not None:
                    p[q["tid"]].append({"step": s, "do": "switch", "to": q["to"]})
            for l in p:
                l.sort(key=lambda a: a["step"])
            plans.append(p)
    keys = set()
    ds = []
    for p in plans:
        d = engine.sim_process(threads.run_threads, case, p, timeout=90, what="concurrent calls")
        bads = []
        if d["deadlock"]:
            bads.append(("deadlock", d["deadlock"]))
        elif d["hang"]:
            bads.append(("hang-steps", "step budget exceeded in concurrent run at " + d["hang"]))
        elif d["errors"]:
            raise engine.HarnessError(str(d["errors"]))
        else:
            for tid, (l, outs) in enumerate(zip(case["threads"], d["outs"])):
                for q, o in zip(l, outs):
                    b = engine.compare(base.get(q), o, q, case, " in thread %d, schedule %s" % (
                        tid, [(a, n, "%s:%s" % s, t) for a, n, s, t in d["switches"]][:6]))
                    if b:
                        bads.append(b)
        res.steps += d["total"]
        res.count("schedules")
        res.count("preemptions", len(d["switches"]))
        if case.get("opcodes"):
            res.count("schedules at bytecode granularity")
        if d["switches"]:
            keys.add(engine.digest([(s, t) for a, n, s, t in d["switches"]], names))
        ds.append(d["digest"])
        ds.append(d["outs"])
        if bads:
            for b in bads:
                res.bad(*b)
            c = copy.deepcopy(case)
            c.pop("req", None)
            c["plan"] = p
            res.case = c
            break
    res.digest = engine.digest(ds)
    res.key = sorted(keys)


def shrink(case):
    if "plan" not in case:
        return
    for t, l in enumerate(case["plan"]):
        for k in range(len(l)):
            c = copy.deepcopy(case)
            c["plan"][t] = common.without(l, k)
            yield c
    nt = len(case["threads"])
    if nt > 2:
        for t in range(nt):
            c = copy.deepcopy(case)
            c["threads"][t] = []
            c["plan"][t] = []
            yield c
    for t in range(nt):
        l = case["threads"][t]
        for k in range(len(l)):
            if len(l) > 1:
                c = copy.deepcopy(case)
                c["threads"][t] = common.without(l, k)
                yield c
    if case["reenter"] and not any(q.get("pu") == "reent" for l in case["threads"] for q in l):
        c = copy.deepcopy(case)
        c["reenter"] = []
        yield common.prune(c)
