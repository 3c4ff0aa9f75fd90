"""C06: coordinates realise the chosen class whatever the solvers choose."""
import copy

from .. import engine, judge, ops, seams, worlds
from ..solvers import SimEigh, SimMilp, SimRipser, copy_raw
from . import common

BUDGET = {"quick": (6000, 70), "thorough": (60000, 3000)}
LEVEL = "exploration"
JIT_SHARE = 40
RULE = ("A run builds one object on one data set and makes one or two coordinates calls while the persistence solver gives an "
        "arbitrary legal answer (landmarks, classes and simplices reordered, simplices reoriented, cohomologous representatives) "
        "and the eigen-solver arbitrary eigenvectors; each result is compared with an independent reference (exact integer "
        "cohomology, dense least squares) up to the target's symmetries. Non-trivial: the reference judged the call (not "
        "ambiguous); counted per distinct (data set, object, solver answer, call).")
REAL = common.REAL_ALL
STUB = ["persistence solver's answer is replaced by an equivalent one", "eigenvector signs/phases", "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["distances within 1e-6 relative of the threshold, ties in persistence and eigenvalue gaps below 1e-6 are not judged",
               "with check_cocycle_condition off a representative whose naive lift is no cocycle is not judged"]
SWEEP = ("Circular", "Toroidal", "Proj", "Lens", "CP")


def gen_ripser(rng):
    o = {}
    if rng.random() < 0.12:
        return o
    for k in ("perm", "classes", "rows", "flip"):
        if rng.random() < 0.6:
            o[k] = 1
    if rng.random() < 0.5:
        o["cobound"] = rng.choice([0.1, 0.3, 0.45, 0.8])
    return o


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    cls = SWEEP[i % 5]
    if i % 37 == 11:
        case["ops"] = [common.gen_large(rng, case, cls)]
        case["rip"] = {k: 1 for k in ("perm", "classes", "rows", "flip") if rng.random() < 0.6}
        case["seed"] = rng.randint(0, 2**31 - 2)
        return case
    a = ops.gen_obj(rng, case, cls=cls, small=rng.random() < 0.7)
    w = case["worlds"][0]
    o = case["objs"][a]
    if o["dm"] in ("sq",) and rng.random() < 0.2:
        w["int"] = rng.choice([20, 50])
    if o["dm"] == "ns" and rng.random() < 0.25:
        w["int"] = rng.choice([20, 50])
    if o["dm"] != "pc" and rng.random() < 0.15:
        w["f32"] = 1
        w.pop("int", None)
    if rng.random() < 0.15:
        o["kw"]["verbose"] = True
    case["rip"] = gen_ripser(rng)
    case["seed"] = rng.randint(0, 2**31 - 2)
    l = []
    for _ in range(rng.choice([1, 1, 2])):
        q = ops.gen_coords(rng, case, a, callbacks=False, reject=0.03)
        kw = q["kw"]
        if kw.get("cocycle_idxs") and len(kw["cocycle_idxs"]) > 1 and rng.random() < 0.8:
            kw["cocycle_idxs"] = [rng.choice(kw["cocycle_idxs"])]
        if kw.get("cocycle_idx") == 1 and rng.random() < 0.6:
            kw["cocycle_idx"] = 0
        if rng.random() < 0.35 and "standard_range" not in kw:
            kw["standard_range"] = False
        if cls in ("Proj", "CP") and rng.random() < 0.1 and "proj_dim" in kw:
            kw["proj_dim"] = 0 if cls == "CP" else rng.choice([1, 4])
        if cls == "Lens" and rng.random() < 0.1 and "complex_dim" in kw:
            kw["complex_dim"] = 1
        if q.get("pu") == "boom" or kw.get("cocycle_idx") == "__float1" or kw.get("cocycle_idxs") == "__float1":
            continue
        l.append(q)
    if not l:
        l.append(ops.gen_coords(rng, case, a, callbacks=False, reject=0))
    case["ops"] = l
    return case


def simulate(case, milp_script=None):
    """Runs in a simulated process. -> raw answer, [(outcome, milp log, uncovered warnings)], events"""
    ops.record_warnings()
    s = seams.Seams()
    sr = SimRipser(case.get("rip", {}), case["seed"])
    se = SimEigh(case["seed"] + 1)
    sm = SimMilp(milp_script or ["real"], case["seed"] + 2)
    s.install("ripser", sr.make)
    s.install("eigh", se.make)
    s.install("milp", sm.make)
    ctx = ops.Ctx(case)
    i = case["ops"][0]["i"]
    out = ops.perform(ctx, {"o": "new", "i": i})
    if out["k"] != "ok" or not sr.log:
        return None, [(out, [], [])], sr.events, 0
    res = []
    for q in case["ops"]:
        n0 = len(sm.log)
        w0 = len(ops._wlog)
        o = ops.perform(ctx, q)
        res.append((o, sm.log[n0:], ops.uncovered_in(ops._wlog[w0:])))
    ev = dict(sr.events)
    if se.n:
        ev["eigenvectors rephased"] = se.n
    return sr.log[-1], res, ev, len(sm.log)


def judge_case(case, raw, res_list, wide=False):
    out = []
    o = case["objs"][case["ops"][0]["i"]]
    X = worlds.data(case["worlds"][o["w"]], o["dm"])
    for q, (r, mlog, unc) in zip(case["ops"], res_list):
        okm = all(e.get("success") for e in mlog)
        v = judge.judge(raw, X, o, q, r, milp_ok=okm, wide=wide, direct=bool(case.get("large")))
        out.append((v.kind, v.sig, v.msg, v.info))
    return out


def execute(case, res):
    t = 90 if case.get("jit") else None
    raw, outs, ev, nm = engine.sim_process(simulate, case, timeout=t, what=ops.name(case["ops"][0], case))
    for k, n in ev.items():
        res.count(k, n)
    res.count("integer programs", nm)
    if raw is None:
        o = outs[0][0]
        res.digest = engine.digest(o)
        if o["k"] == "ok":
            res.count("not judged: the persistence solver was not reached through the seam")
            return
        res.bad("construction:" + case["objs"][case["ops"][0]["i"]]["cls"], "the object cannot be built from legal data: %s" % (o,))
        return
    try:
        vs = engine.sim_process(judge_case, case, raw, outs, timeout=150, what="reference")
    except engine.Violation:
        res.count("not judged: reference timed out")
        return
    keys = []
    for q, (o, _, _), (k, sig, msg, info) in zip(case["ops"], outs, vs):
        nm = ops.name(q, case)
        if k == "unclear":
            res.count("not judged: " + str(msg))
        else:
            if case.get("large"):
                res.count("judged on large data")
            res.count("judged %s %s" % (nm, "rejection" if k == "rejected" else "result"))
            if k == "rejected":
                res.count("rejected: " + str(msg))
            elif not info.get("naive", True):
                res.count("repaired lift judged")
            keys.append(engine.digest(case["worlds"], case["objs"], case["rip"], case["seed"], q))
        if k == "bad":
            res.bad(sig + ":" + nm, "%s(%s): %s" % (nm, q.get("kw"), msg))
    res.key = keys
    res.digest = engine.digest([o for o, _, _ in outs], [v[:2] for v in vs])
    res.steps = len(outs)


def shrink(case):
    yield from common.shrink_list(case, "ops")
    for k in list(case["rip"]):
        c = copy.deepcopy(case)
        del c["rip"][k]
        yield c
    yield from common.simplify_ops(case, "ops")
    yield from common.simplify_worlds(case)
