"""C11: results do not depend on the execution environment."""
import copy

from .. import engine, judge, node, ops, seams, worlds
from ..compare import same_outcome
from ..solvers import SimRipser
from . import common

BUDGET = {"quick": (1500, 75), "thorough": (40000, 3000)}
LEVEL = "exploration"
RULE = ("A run executes one history of 2-7 calls (all kinds of coordinates, utilities with compiled kernels, all input layouts and "
        "precisions, up to 1500 points) on three simulated machines: interpreted; compiled with freshly allocated memory perturbed; "
        "interpreted with fresh arrays full of garbage, another hash seed (one of three), locale, time zone and thread count. All outcomes must agree "
        "up to rounding and the target's symmetries. Non-trivial: at least one call returned; counted per distinct history.")
REAL = common.REAL_ALL + ["numba (compiled machine)"]
STUB = ["contents of fresh memory", "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["differences at exact ties (lattice reduction, degenerate eigenvalues) are rounding, as decided by the reference model",
               "assertions are on (python -O is not an environment considered)"]
KERNELS = ["CohomologyUtils.make_delta0", "CohomologyUtils.make_delta1", "CohomologyUtils.make_delta1_compact",
           "CohomologyUtils.make_delta2_compact", "CohomologyUtils.sparse_cocycle_to_vector",
           "CohomologyUtils.lift_to_integer_cocycle", "CohomologyUtils.reindex_cocycles",
           "CircleMapUtils.levelset_coloring", "GeometryExamples.moore_space_distance_matrix"]
NODES = {}


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    case["machine"] = ("poison", "poison1", "poison2")[i // 32 % 3]
    l = []
    cls = ["CP", "Circular", "Toroidal", "CP", "Proj", "Lens"][i % 6]
    if i % 17 == 3:
        case["ops"] = [{"o": "new", "i": 0}, common.gen_large(rng, case, cls)]
        return case
    a = ops.gen_obj(rng, case, cls=cls, small=rng.random() < 0.6)
    o, w = case["objs"][a], case["worlds"][0]
    big = rng.random() < 0.12 and o["dm"] == "pc"
    if big:
        w["n"] = rng.choice([300, 700, 1500] if cls != "CP" else [150, 300, 600])
        if o["L"] > 22:
            o["L"] = 20
    if o["dm"] != "pc":
        r = rng.random()
        if r < 0.2:
            w["int"] = rng.choice([20, 50])
        elif r < 0.4:
            w["f32"] = 1
    elif rng.random() < 0.15:
        w["f32"] = 1
    l.append({"o": "new", "i": a})
    for _ in range(rng.choice([1, 2, 2])):
        q = ops.gen_coords(rng, case, a, callbacks=False, reject=0.03)
        if rng.random() < 0.6:
            q["kw"]["standard_range"] = False
        l.append(q)
    if rng.random() < 0.3:
        l.append(ops.gen_query(rng, case, a, callbacks=False, reject=0.1))
    for _ in range(rng.choice([0, 1, 1, 2])):
        l.append(common.gen_static(rng, names=KERNELS if rng.random() < 0.6 else None, heavy=0.02))
    case["ops"] = l
    return case


def get_node(f):
    n = NODES.get(f)
    if n is None or n.p.poll() is not None:
        n = NODES[f] = node.Node(f)
    return n


def raw_of(case, q):
    """The persistence solver's answer for the reference model."""
    engine.standard()
    s = seams.Seams()
    sr = SimRipser({}, 0)
    s.install("ripser", sr.make)
    out = ops.perform(ops.Ctx(case), {"o": "new", "i": q["i"]})
    return sr.log[-1] if out["k"] == "ok" and sr.log else None


def rounding(case, q, a, b):
    """Do both outcomes realise the class? Then they differ by a tie."""
    if q["o"] != "coords":
        return False
    o = case["objs"][q["i"]]
    if o["cls"] == "Circular":
        return False
    raw = engine.sim_process(raw_of, case, q)
    if raw is None:
        return False
    X = worlds.data(case["worlds"][o["w"]], o["dm"])
    for out in (a, b):
        v = engine.sim_process(judge.judge, raw, X, o, q, out, timeout=150, what="reference")
        if v.kind not in ("ok", "unclear"):
            return False
        if v.kind == "unclear" and out["k"] != a["k"]:
            return False
    if o["cls"] == "Toroidal":
        # both are legal: is there a tie that rounding can decide either way?
        ref = engine.sim_process(nudged, case, q, None)
        return any(same_outcome(ref, engine.sim_process(nudged, case, q, s), 2e-5) for s in range(16))
    return True


def nudged(case, q, s):
    """The call alone, with solver answers off by a rounding error."""
    engine.standard()
    if s is not None:
        import numpy as np

        R = np.random.RandomState(s)

        def off(x):
            x = np.asarray(x)
            return x * (1 + 1e-11 * R.randn(*x.shape))

        m = seams.Seams()
        m.install("lsqr", lambda real: lambda *a, **k: (lambda r: (off(r[0]),) + tuple(r[1:]))(real(*a, **k)))
        m.install("cholesky", lambda real: lambda *a, **k: off(real(*a, **k)))
    ctx = ops.Ctx(case)
    out = ops.perform(ctx, {"o": "new", "i": q["i"]})
    return ops.perform(ctx, q) if out["k"] == "ok" else out


def large(case, out, res):
    """However large the data: compare with the reference model."""
    q = case["ops"][-1]
    raw = engine.sim_process(raw_of, case, q)
    if raw is None:
        return
    o = case["objs"][q["i"]]
    X = worlds.data(case["worlds"][o["w"]], o["dm"])
    v = engine.sim_process(judge.judge, raw, X, o, q, out, True, False, True, timeout=150, what="reference")
    res.count("large data " + ("not judged" if v.kind == "unclear" else "judged"))
    if v.kind == "bad":
        nm = ops.name(q, case)
        res.bad("large:" + nm, "%s(%s) with %d landmarks: %s" % (nm, q["kw"], o["L"], v.msg))


def execute(case, res):
    flavours = ("jit", case.get("machine", "poison"))
    for f in flavours:
        get_node(f).send(case)
    base = engine.sim_process(node.run_case, case, timeout=200, what="history")
    got = {}
    for f in flavours:
        r = get_node(f).receive()
        if r[0] == "violation":
            res.bad("%s:%s" % (r[1], f), "on the %s machine: %s" % (f, r[2]))
            continue
        if r[0] == "error":
            raise engine.HarnessError(r[1])
        got[f] = r[1]
    ok = False
    for f, outs in got.items():
        for q, a, b in zip(case["ops"], base, outs):
            if a["k"] == "skip" and b["k"] == "skip":
                continue
            nm = ops.name(q, case)
            res.count("compared %s" % f)
            # iterative solvers stop within 1e-6 of the solution, an iteration earlier or later
            d = same_outcome(a, b, (2e-4 if case.get("large") else 2e-5) if q["o"] == "coords" else 1e-6)
            ok = ok or a["k"] == "ok"
            if d:
                if rounding(case, q, a, b):
                    res.count("tie")
                    continue
                res.bad("differs:%s:%s" % (f, nm), "%s(%s) on the %s machine differs from the interpreted one: %s" % (
                    nm, q.get("kw", q.get("s", "")), f, d))
    if case.get("large") and base[-1]["k"] != "skip":
        large(case, base[-1], res)
    for q, a in zip(case["ops"], base):
        if q["o"] == "coords":
            res.count("%s %s" % (ops.name(q, case), "returned" if a["k"] == "ok" else "raised"))
    if ok:
        res.key = engine.digest(case["worlds"], case["objs"], case["ops"])
    res.digest = engine.digest(base, [[o["k"] for o in v] for v in got.values()])
    res.steps = 3 * len(base)


def shrink(case):
    for c in common.shrink_list(case, "ops"):
        yield c
    yield from common.simplify_ops(case, "ops")
    yield from common.simplify_worlds(case)
