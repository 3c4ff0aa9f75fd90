"""C01: a query's answer does not depend on what was asked before."""
import copy
import json

from .. import engine, ops
from . import common

BUDGET = {"quick": (2500, 60), "thorough": (20000, 3000)}
JIT_SHARE = 40
LEVEL = "exploration"
RULE = ("A run is a history of 4-60 public calls (construction, coordinates, cocycles, radius, partition, static helpers, "
        "dropping objects) on 1-3 objects, some of them twins of one another, some calls rejected, some with bump functions "
        "that call back into the objects, some calls made by other threads (one at a time). Every outcome is compared with the same call made alone in a fresh process. "
        "Non-trivial: at least 4 calls and at least 2 successful queries on an object already queried; counted once per "
        "distinct sequence of (call, outcome kind).")
REAL = common.REAL_ALL
STUB = ["caller (generated histories and callbacks)", "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["a forked child of an imported-but-never-called interpreter stands for a brand-new process",
               "results compared to 1e-6 (angles modulo a full turn; projective results up to the target's symmetries)"]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    small = True
    common.gen_rip(rng, case, 0.35)
    kinds = rng.random() < 0.08
    a = ops.gen_obj(rng, case, cls="CP" if kinds else None, small=small)
    objs = [a]
    r = rng.random()
    if kinds:
        # other coordinates of the same data with the same landmarks
        for cls in rng.sample(("Circular", "Toroidal", "Proj", "Lens"), rng.choice([1, 2])):
            objs.append(len(case["objs"]))
            case["objs"].append(dict(copy.deepcopy(case["objs"][a]), cls=cls, kw={}))
    elif r < 0.55:
        objs.append(common.twin_obj(rng, case, a))
    if r < 0.3 or rng.random() < 0.3:
        objs.append(ops.gen_obj(rng, case, small=small, share=0.6))
    pool = []
    for o in objs:
        for _ in range(rng.randint(2, 4)):
            pool.append(ops.gen_query(rng, case, o))
    # the same query to a twin
    if len(objs) > 1:
        for q in [q for q in pool if q["i"] == objs[0]][:2]:
            q2 = copy.deepcopy(q)
            q2["i"] = objs[1]
            pool.append(q2)
    # the same query with one argument changed
    for q in list(pool)[:3] + list(pool)[:2]:
        if q["o"] == "coords" and q["kw"]:
            q2 = common.vary(rng, q)
            pool.append(q2)
    for _ in range(rng.randint(1, 4)):
        f = common.gen_static(rng)
        pool.append(f)
        if rng.random() < 0.5:
            g = dict(f)
            g["s"] = rng.randint(0, 10**9)
            pool.append(g)
        if rng.random() < 0.5:
            pool.append(common.near_static(rng, f))
    case["reenter"] = [q for q in (ops.gen_query(rng, case, rng.choice(objs), callbacks=False) for _ in range(rng.randint(1, 2)))]
    n = rng.choice([4, 6, 8, 12, 16, 40, 60])
    hist = []
    pending = list(objs)
    rng.shuffle(pending)
    hist.append({"o": "new", "i": pending.pop()})
    alive = [hist[0]["i"]]
    while len(hist) < n:
        if pending and rng.random() < 0.4:
            o = pending.pop()
            hist.append({"o": "new", "i": o})
            if rng.random() < 0.4:
                # the caller reuses one array for its data sets
                hist[-1]["buf"] = rng.choice(alive)
            alive.append(o)
            continue
        if rng.random() < 0.04 and n > 6:
            o = rng.choice(alive)
            hist.append({"o": "drop", "i": o})
            hist.append({"o": "new", "i": rng.choice(objs)})
            if rng.random() < 0.4:
                hist[-1]["buf"] = rng.choice(alive)
            alive.append(hist[-1]["i"])
            continue
        hist.append(copy.deepcopy(rng.choice(pool)))
    if rng.random() < 0.35:
        # other threads of the program make some of the calls
        for q in hist:
            if q["o"] != "drop" and rng.random() < 0.3:
                q["thread"] = 1
    if rng.random() < 0.2:
        # calls by parts of the program for which warnings or floating-point trouble are errors
        for q in hist:
            if q["o"] in ("coords", "partition", "static") and q.get("pu") != "reent" and rng.random() < 0.25:
                q["mood"] = rng.choice(["werror", "werror", "fp"])
    case["ops"] = hist
    return case


def execute(case, res):
    base = engine.Baselines(case)
    outs = engine.sim_process(engine._history, case, case["ops"], what="history of %d calls" % len(case["ops"]))
    pattern = []
    queried = {}
    good = 0
    for k, (q, (o, inner)) in enumerate(zip(case["ops"], outs)):
        if q["o"] == "drop":
            continue
        b = base.get(q)
        bad = engine.compare(b, o, q, case, " as call %d of the history" % (k + 1))
        if bad:
            res.bad(*bad)
        for iq, io in inner:
            bad = engine.compare(base.get(iq), io, iq, case, " from inside a callback of call %d" % (k + 1))
            res.count("reentrant calls")
            if bad:
                res.bad("re" + bad[0], bad[1])
        pattern.append((common.short_op(q, case), o["k"], o.get("t")))
        res.count("outcome " + (o["k"] if o["k"] != "exc" else "rejected"))
        if o["k"] == "ok" and "i" in q and q["o"] != "new":
            if queried.get(q["i"]):
                good += 1
            queried[q["i"]] = True
        res.steps += 1
    res.digest = engine.digest([o for o, _ in outs])
    if len(case["ops"]) >= 4 and good >= 2:
        res.key = engine.digest(pattern)


def shrink(case):
    yield from common.shrink_list(case, "ops")
    for k, q in enumerate(case["ops"]):
        for f in ("thread", "mood"):
            if q.get(f):
                c = copy.deepcopy(case)
                del c["ops"][k][f]
                yield c
    if case["reenter"]:
        c = copy.deepcopy(case)
        c["reenter"] = []
        yield common.prune(c)
    yield from common.simplify_ops(case, "ops")
    yield from common.simplify_worlds(case)
