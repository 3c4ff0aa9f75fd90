"""C03: a failure inside a call reaches the caller and leaves nothing behind."""
import copy

from .. import engine, ops, seq
from . import common

BUDGET = {"quick": (2500, 70), "thorough": (20000, 3000)}
JIT_SHARE = 60
LEVEL = "fault_enumeration"
RULE = ("A run takes a public call (construction, query or helper) after a short history, records a fault-free execution, and "
        "repeats it with 6 faults: an interrupt or error at a line of the library, a failed allocation, a failing dependency "
        "call (before or after it did its work), a failing callback. Checked: the fault reaches the caller; all later calls "
        "(same call, other calls on the object, other objects, helpers; some of them made by other threads) equal the fault-free process. Non-trivial: the fault "
        "fired inside the call; counted per distinct (call, fault kind, error, site).")
REAL = common.REAL_ALL
STUB = ["interrupts, allocation failures, dependency and callback failures (injected)", "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["interrupts arrive between lines of the library, not inside clean-up blocks",
               "a LinAlgError of the eigen-solver is a documented event (identity fallback): its result is not judged, later calls are",
               "kernels run interpreted except in a share of the runs"]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    common.gen_rip(rng, case, 0.2)
    a = ops.gen_obj(rng, case, small=True)
    objs = [a]
    if rng.random() < 0.3:
        objs.append(common.twin_obj(rng, case, a))
    hist = []
    r = rng.random()
    if r < 0.12:
        target = {"o": "new", "i": a}
        later = [{"o": "new", "i": a}, ops.gen_query(rng, case, a, reject=0)]
    elif r < 0.24:
        target = common.gen_static(rng, heavy=0)
        hist = [{"o": "new", "i": a}]
        later = [dict(target), common.gen_static(rng, heavy=0), ops.gen_query(rng, case, a, reject=0)]
    else:
        hist = [{"o": "new", "i": a}]
        if rng.random() < 0.4:
            hist.append(ops.gen_query(rng, case, a, reject=0.2))
        target = ops.gen_coords(rng, case, a, reject=0) if rng.random() < 0.85 else ops.gen_query(rng, case, a, reject=0)
        if rng.random() < 0.4 and target["o"] == "coords":
            target["pu"] = rng.choice(["cubic", "reent"])
        if target["o"] == "coords" and rng.random() < 0.5:
            target["kw"]["standard_range"] = False
        t2 = copy.deepcopy(target)
        later = [t2, ops.gen_query(rng, case, a, reject=0)]
        t3 = copy.deepcopy(target)
        if t3["o"] == "coords":
            t3["kw"]["perc"] = rng.choice([0.45, 0.6, 0.8])
            later.append(t3)
    for o in objs[1:]:
        later.append({"o": "new", "i": o})
        later.append(ops.gen_query(rng, case, o, reject=0))
    if rng.random() < 0.3:
        later.append(common.gen_static(rng, heavy=0))
    rng.shuffle(later)
    later.sort(key=lambda q: 0 if q["o"] == "new" else 1)
    for q in later:
        if rng.random() < 0.25:
            # made by another thread
            q["thread"] = 1
    case["ops"] = hist + [target] + later
    case["target"] = len(hist)
    case["reenter"] = [ops.gen_query(rng, case, a, callbacks=False, reject=0)]
    case["req"] = [seq.gen_fault(rng) for _ in range(6)]
    return case


def execute(case, res):
    base = engine.Baselines(case)
    t = case["target"]
    target = case["ops"][t]
    nm = ops.name(target, case)
    keys = set()
    if "fault" in case:
        fl = [case["fault"]]
    else:
        recs, rec = engine.sim_process(seq.run_seq, case, case["ops"][:t + 1], None, t, timeout=90, what=nm)
        if recs[-1].get("hang"):
            raise engine.Violation("hang-steps", nm + ": " + recs[-1]["hang"])
        if rec is None:
            return
        fl = [seq.resolve(f, rec) for f in case["req"]]
        bad = engine.compare(base.get(target), recs[-1]["out"], target, case, " (traced, no fault)")
        if bad:
            res.bad(*bad)
            return
    ds = []
    for f in fl:
        if f is None:
            continue
        recs, _ = engine.sim_process(seq.run_seq, case, case["ops"], {t: f}, timeout=90, what=nm + " with a fault")
        bads = []
        r = recs[t] if len(recs) > t else {}
        what = "%s at %s in %s" % (f["exc"], r.get("site", f), nm)
        if any(x.get("hang") for x in recs):
            bads.append(("hang-steps", what + ": " + [x["hang"] for x in recs if x.get("hang")][0]))
        elif r.get("fired"):
            res.count("fault " + f["kind"] + " " + f["exc"])
            keys.add(engine.digest(nm, f["kind"], f["exc"], r["site"]))
            out = r["out"]
            tolerated = f["kind"] == "dep" and f["name"] == "eigh" and f["exc"] == "LinAlgError"
            if tolerated:
                res.count("eigen-solver fallback taken")
            elif out["k"] == "ok":
                bads.append(("swallowed:" + nm, "%s was swallowed: the call returned a result" % what))
            elif out["k"] == "exc" and not r["chain"]:
                bads.append(("replaced:" + nm, "%s did not reach the caller: %s(%s) came instead" % (what, out["t"], out["m"])))
            elif out["k"] == "exc" and not r["exact"] and f["exc"] in seq.STRICT and out["t"] != f["exc"]:
                bads.append(("replaced:" + nm, "%s reached the caller as %s(%s)" % (what, out["t"], out["m"])))
        else:
            res.count("fault did not fire")
        for q, x in list(zip(case["ops"], recs))[t + 1:]:
            b = engine.compare(base.get(q), x["out"], q, case, " after %s" % what)
            if b:
                bads.append(("later-" + b[0], b[1]))
        res.steps += sum(x.get("steps", 0) for x in recs)
        ds.append([(x["out"]) for x in recs])
        if bads:
            for b in bads:
                res.bad(*b)
            c = copy.deepcopy(case)
            c.pop("req", None)
            c["fault"] = f
            res.case = c
            break
    res.digest = engine.digest(ds, fl)
    res.key = sorted(keys)


def shrink(case):
    if "fault" not in case:
        return
    t = case["target"]
    for k in range(len(case["ops"])):
        if k != t and not (case["ops"][k]["o"] == "new" and k < t):
            c = copy.deepcopy(case)
            c["ops"] = common.without(c["ops"], k)
            c["target"] = t - (k < t)
            yield common.prune(c)
    if not any(q.get("pu") == "reent" for q in case["ops"]) and case["reenter"]:
        c = copy.deepcopy(case)
        c["reenter"] = []
        yield common.prune(c)
