"""C08: toroidal coordinates are a reduced, invertible recombination of the classes."""
import copy

from .. import engine, ops, worlds
from . import c06, common

BUDGET = {"quick": (4000, 70), "thorough": (60000, 3000)}
LEVEL = "exploration"
JIT_SHARE = 50
RULE = ("A run asks one toroidal object for 2-4 classes in a random order, one or two times, under an arbitrary legal answer of "
        "the persistence solver (including another basis of the same persistence module) and of the integer solver. The integer "
        "class of every returned row is recovered from its values alone (nearest lattice point), then checked exactly: "
        "determinant +-1 over the requested classes, size reduction and exchange condition for the Dirichlet inner product. "
        "Non-trivial: a multi-class result was judged; counted per distinct (data, solver answers, call).")
REAL = common.REAL_ALL
STUB = ["persistence solver's answer is replaced by an equivalent one", "integer solver's answer shifted to another feasible one in part of the runs"]
ASSUMPTIONS = c06.ASSUMPTIONS + ["dependent classes (singular Gram matrix) and classes that the sample points do not distinguish are not judged",
                                 "when a lift had to be repaired the determinant is checked modulo the prime"]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    kind = rng.choice(["chords", "chords", "melon", "melon", "melon", "melon", "theta3", "eight", "circles3", "circles4", "torus", "circles2", "twins", "twins"])
    w = worlds.gen(rng, [kind], 44, 80)
    if kind == "torus":
        w["n"] = rng.randint(70, 100)
    case["worlds"].append(w)
    if kind == "melon":
        w["n"] = rng.randint(48, 62)
    if kind == "twins":
        w["n"] = 20 * w["m"]
        w["perm"] = rng.choice([0, 1])
    dm = rng.choice(["pc", "pc", "sq", "ns"])
    L = rng.randint(34, 42) if kind == "melon" else rng.randint(20, 32)
    if dm == "ns":
        w["rows"] = rng.randint(L, w["n"] - 4)
    kw = {}
    p = rng.choice([41, 41, 41, 13, 7, 47, 3])
    if p != 41:
        kw["prime"] = p
    if kind == "twins" and dm != "ns":
        L = w["n"] if rng.random() < 0.6 else w["n"] - rng.randint(0, 8)
    case["objs"].append({"cls": "Toroidal", "w": 0, "dm": dm, "L": L, "kw": kw})
    case["rip"] = {}
    for k in ("perm", "classes", "rows", "flip", "mix", "mix"):
        if rng.random() < 0.45:
            case["rip"][k] = 1
    if rng.random() < 0.4:
        case["rip"]["cobound"] = rng.choice([0.1, 0.3, 0.8])
    case["seed"] = rng.randint(0, 2**31 - 2)
    case["script"] = [rng.choice(["real", "real", "shift", "noise"])]
    l = []
    n = {"torus": 2, "circles2": 2, "eight": 2, "circles4": 4, "circles3": 3, "theta3": 3, "chords": w.get("m", 1) + 1, "melon": w.get("m", 1), "twins": w.get("m", 2)}[kind]
    for _ in range(rng.choice([1, 1, 2])):
        ids = list(range(min(n, 4)))
        rng.shuffle(ids)
        ids = ids[:rng.choice([2, 2, n, n]) if kind != "twins" else n]
        q = {"o": "coords", "i": 0, "kw": {"perc": rng.choice([0.1, 0.3, 0.5, 0.7, 0.9, 0.97]), "standard_range": False,
                                           "cocycle_idxs": ids}}
        if rng.random() < 0.3:
            q["pu"] = rng.choice(["quadratic", "exp", "half"])
        if rng.random() < 0.1:
            q["kw"]["check_cocycle_condition"] = False
        l.append(q)
    case["ops"] = l
    return case


def execute(case, res):
    t = 90 if case.get("jit") else None
    raw, outs, ev, _ = engine.sim_process(c06.simulate, case, case["script"], timeout=t, what=ops.name(case["ops"][0], case))
    for k, n in ev.items():
        res.count(k, n)
    if raw is None:
        o = outs[0][0]
        res.digest = engine.digest(o)
        if o["k"] == "ok":
            res.count("not judged: the persistence solver was not reached through the seam")
            return
        res.bad("construction:" + case["objs"][case["ops"][0]["i"]]["cls"], "the object cannot be built from legal data: %s" % (o,))
        return
    try:
        vs = engine.sim_process(c06.judge_case, case, raw, outs, True, timeout=150, what="reference")
    except engine.Violation:
        res.count("not judged: reference timed out")
        return
    keys = []
    for q, (o, mlog, _), (k, sig, msg, info) in zip(case["ops"], outs, vs):
        nm = ops.name(q, case)
        if k == "unclear":
            res.count("not judged: " + str(msg))
        elif k == "rejected":
            res.count("rejected: " + str(msg))
        elif k == "ok" and len(q["kw"]["cocycle_idxs"]) > 1:
            res.count("%d classes judged" % len(q["kw"]["cocycle_idxs"]))
            ch = info.get("change")
            if ch and any(ch[a][b] != (a == b) for a in range(len(ch)) for b in range(len(ch))):
                res.count("reduction did something")
            keys.append(engine.digest(case["worlds"], case["objs"], case["rip"], case["seed"], case["script"], q))
        if k == "bad":
            res.bad(sig + ":" + nm, "%s(%s): %s" % (nm, q.get("kw"), msg))
    res.key = keys
    res.digest = engine.digest([o for o, _, _ in outs], [v[:2] for v in vs])
    res.steps = len(outs)


def shrink(case):
    yield from c06.shrink(case)
    for q, op in enumerate(case["ops"]):
        ids = op["kw"].get("cocycle_idxs", [])
        if len(ids) > 2:
            for k in range(len(ids)):
                c = copy.deepcopy(case)
                del c["ops"][q]["kw"]["cocycle_idxs"][k]
                yield c
