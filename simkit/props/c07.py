"""C07: integer lifting never silently yields a non-cocycle."""
import copy

from .. import engine, ops, worlds
from . import c06, common

BUDGET = {"quick": (5000, 72), "thorough": (60000, 3000)}
JIT_SHARE = 60
LEVEL = "exploration"
RULE = ("A run builds one object with a small prime on a representative whose naive lift usually is no cocycle (random "
        "coboundaries modulo the prime are added to the persistence solver's answer, or the data carry a class without integral "
        "lift), then makes 1-2 calls while the integer solver answers by a script: any other feasible point, a point integral only "
        "up to tolerance, no point, a point flagged as not solved, or an exception. The outcome is compared with exact integer "
        "cohomology: coordinates of a lift of the class, or an exception when there is none or the solver failed. Non-trivial: the "
        "integer solver was called or the class has no integral lift; counted per distinct (data, object, answers, call).")
REAL = common.REAL_ALL
STUB = ["persistence solver's answer is replaced by an equivalent one", "integer solver's answer follows a script (real answer as base)"]
ASSUMPTIONS = c06.ASSUMPTIONS


def gen_script(rng):
    r = rng.random()
    good = ["real", "shift", "noise", "shiftnoise"]
    if r < 0.55:
        return [rng.choice(good) for _ in range(3)]
    k = rng.choice([0, 0, 0, 1, 2])
    return [rng.choice(good) for _ in range(k)] + [rng.choice(["none", "partial", "raise"])]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    r = i % 8
    if r in (0, 1):
        # torsion: no integral lift
        cls = rng.choice(["Circular", "Circular", "Toroidal"])
        k = rng.choice(["rp2", "rp2", "rp2", "moore3"])
        w = {"k": k, "n": rng.randint(50, 80), "s": rng.randint(0, 10**9)}
        case["worlds"].append(w)
        dm = "sq"
        if rng.random() < 0.4:
            dm = "ns"
            w["rows"] = w["n"] - 10
        case["objs"].append({"cls": cls, "w": 0, "dm": dm, "L": rng.randint(18, 30),
                             "kw": {"prime": 2 if k == "rp2" else 3}})
        a = 0
    else:
        cls = {2: "Circular", 3: "Circular", 4: "Toroidal", 5: "Toroidal", 6: "CP", 7: "Toroidal"}[r]
        a = ops.gen_obj(rng, case, cls=cls, small=rng.random() < 0.8)
        case["objs"][a]["kw"]["prime"] = rng.choice([2, 3, 3, 5, 7, 11]) if cls != "CP" else rng.choice([3, 3, 5, 7, 41])
        case["objs"][a]["kw"].pop("maxdim", None)
    case["rip"] = {"cobound": rng.choice([0.45, 0.8, 0.8])}
    for k in ("perm", "classes", "rows", "flip"):
        if rng.random() < 0.3:
            case["rip"][k] = 1
    case["seed"] = rng.randint(0, 2**31 - 2)
    case["script"] = gen_script(rng)
    l = []
    for _ in range(rng.choice([1, 1, 2])):
        q = {"o": "coords", "i": a, "kw": {"perc": rng.choice([0.3, 0.5, 0.7, 0.9, 0.97]), "standard_range": False}}
        kw = q["kw"]
        if r in (0, 1):
            kw["perc"] = rng.choice([0.8, 0.9, 0.95, 0.5])
        if cls == "Toroidal":
            kw["cocycle_idxs"] = rng.choice([[0], [0, 1], [0, 1], [1, 0], [0, 1, 2], [2, 0]])
        elif rng.random() < 0.2:
            kw["cocycle_idx"] = 1
        if cls == "CP":
            kw["proj_dim"] = rng.choice([1, 2])
        if rng.random() < 0.3:
            q["pu"] = rng.choice(["quadratic", "exp"])
        l.append(q)
    case["ops"] = l
    return case


def execute(case, res):
    raw, outs, ev, _ = engine.sim_process(c06.simulate, case, case["script"], what=ops.name(case["ops"][0], case))
    for k, n in ev.items():
        res.count(k, n)
    if raw is None:
        o = outs[0][0]
        res.digest = engine.digest(o)
        if o["k"] == "ok":
            res.count("not judged: the persistence solver was not reached through the seam")
            return
        res.bad("construction:" + case["objs"][case["ops"][0]["i"]]["cls"], "the object cannot be built from legal data: %s" % (o,))
        return
    for o, mlog, _ in outs:
        for e in mlog:
            res.count("integer solver: %s%s" % (e["mode"], " (shifted)" if e.get("shifted") else ""))
    try:
        vs = engine.sim_process(c06.judge_case, case, raw, outs, True, timeout=150, what="reference")
    except engine.Violation:
        res.count("not judged: reference timed out")
        return
    keys = []
    for q, (o, mlog, _), (k, sig, msg, info) in zip(case["ops"], outs, vs):
        nm = ops.name(q, case)
        if k == "unclear":
            res.count("not judged: " + str(msg))
        elif mlog or not info.get("liftable", True):
            res.count("%s %s" % (nm, msg if k == "rejected" else "repaired" if not info.get("naive") else "naive"))
            if len([1 for e in mlog if e.get("success")]) > 1:
                res.count("two classes repaired in one call")
            keys.append(engine.digest(case["worlds"], case["objs"], case["rip"], case["seed"], case["script"], q))
        if k == "bad":
            res.bad(sig + ":" + nm, "%s(%s) with integer solver %s: %s" % (nm, q.get("kw"), [e["mode"] for e in mlog], msg))
    res.key = keys
    res.digest = engine.digest([o for o, _, _ in outs], [v[:2] for v in vs])
    res.steps = len(outs)


def shrink(case):
    yield from c06.shrink(case)
    for k, m in enumerate(case["script"]):
        if m != "real":
            c = copy.deepcopy(case)
            c["script"][k] = "real"
            yield c
