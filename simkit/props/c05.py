"""C05: example generators are reproducible and leave the process-wide random stream alone."""
import copy
import hashlib

from .. import engine, ops, seq, sim, statics, threads
from . import common

BUDGET = {"quick": (2500, 60), "thorough": (25000, 3000)}
LEVEL = "exploration"
RULE = ("A run mixes generator calls with other users of the process-wide random streams (seeding, drawing, saving, restoring) "
        "in 1-3 simulated threads over 4 schedules; results handed out are overwritten by the caller. Samples are compared "
        "with the same call in fresh processes with two other prior stream states; the draws seen by the other users are "
        "compared with a model of the stream that no generator touches; omitted seeds are compared with the documented "
        "fall-back; different seeds must differ. Non-trivial: a generator ran after or during other use of the stream; "
        "counted per distinct (calls, switches).")
REAL = common.REAL_ALL
STUB = ["thread scheduler", "other users of the random streams"]
ASSUMPTIONS = ["switches happen between lines/bytecodes of the library and between calls of the other users"]

FALLBACK = ("rp2_metric", "torus_3d", "klein_bottle_4d")
SEEDED = FALLBACK + ("noisy_circle",)


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "threads": [], "setup": []}
    case["opcodes"] = rng.random() < 0.2
    nt = rng.choice([1, 2, 2, 3])
    gens = statics.GENERATORS
    for t in range(nt):
        l = []
        rngy = t > 0 and rng.random() < 0.75
        for _ in range(rng.randint(2, 5) if not rngy else rng.randint(3, 8)):
            r = rng.random()
            if rngy or r < 0.3:
                a = rng.choice(["seed", "draw", "draw", "draw", "randn", "save", "restore", "pyseed", "pydraw"])
                l.append({"o": "rng", "a": a, "v": rng.randint(0, 10**6)})
            else:
                q = common.gen_static(rng, gens, heavy=0.08)
                l.append(q)
                if rng.random() < 0.3:
                    l.append(dict(q))
        case["threads"].append(l)
    case["pre"] = rng.randint(0, 10**6)
    case["first"] = rng.randrange(nt)
    req = []
    for _ in range(4 if nt > 1 else 1):
        p = []
        for _ in range(rng.choice([1, 2, 3, 5]) if nt > 1 else 0):
            p.append({"tid": rng.randrange(nt), "u1": rng.random(), "u2": rng.random(), "mode": rng.choice(["site", "store", "uniform"]),
                      "to": rng.randrange(nt), "off": rng.choice([0, 0, 1])})
        req.append(p)
    case["req"] = req
    f = rng.choice(SEEDED)
    n, s1 = rng.randint(6, 25), rng.choice([0, 1, rng.randint(0, 1000), rng.randint(0, 2**31)])
    case["direct"] = {"f": f, "n": n, "s1": s1, "s2": s1 + rng.choice([1, 2, n, 10, 100, 256, 1000, 4096, 10**6, 2**16, 2**31])}
    return case


def _hash(state):
    return hashlib.sha256(repr(state).encode()).hexdigest()[:16]


def _state():
    import random

    import numpy as np

    st = np.random.get_state(legacy=False)
    return _hash((st["bit_generator"], st["state"]["key"].tolist(), st["state"]["pos"], st.get("has_gauss"), st.get("gauss"))), _hash(random.getstate())


def _run(case, plan, record):
    import random

    import numpy as np

    np.random.seed(case["pre"])
    random.seed(case["pre"])
    log = []
    saved = {}
    handed = []
    solo = len(case["threads"]) == 1

    def body(s, th, ctx, q):
        if q["o"] == "rng":
            s.step(th, None, 9)
            a = q["a"]
            v = None
            if a == "seed":
                np.random.seed(q["v"])
            elif a == "draw":
                v = np.random.random_sample(2).tolist()
            elif a == "randn":
                v = np.random.randn(1).tolist()
            elif a == "save":
                saved[th.tid] = np.random.get_state()
            elif a == "restore":
                if th.tid in saved:
                    np.random.set_state(saved[th.tid])
            elif a == "pyseed":
                random.seed(q["v"])
            elif a == "pydraw":
                v = random.random()
            log.append((th.tid, a, q["v"], v))
            return {"k": "skip"}
        before = _state() if solo else None
        val = {}

        def go():
            def raw():
                v, fl = ops.perform_raw(ctx, q)
                val["v"] = v
                return v, fl

            return ops.outcome_of(raw)[0]

        o = s.traced(th, go)
        if solo and _state() != before:
            o = dict(o)
            o["moved"] = 1
        if "v" in val:
            # the caller reuses the array it was given
            seq.scribble(val["v"])
        return o

    d = threads.run_threads(case, plan, record, body=body)
    d["log"] = log
    d["state"] = _state()
    return d


def _model(case, log):
    """The other users' view if generators do not exist."""
    import random

    import numpy as np

    R = np.random.RandomState(case["pre"])
    P = random.Random(case["pre"])
    saved = {}
    out = []
    for tid, a, arg, v in log:
        w = None
        if a == "seed":
            R.seed(arg)
        elif a == "draw":
            w = R.random_sample(2).tolist()
        elif a == "randn":
            w = R.randn(1).tolist()
        elif a == "save":
            saved[tid] = R.get_state()
        elif a == "restore":
            if tid in saved:
                R.set_state(saved[tid])
        elif a == "pyseed":
            P.seed(arg)
        elif a == "pydraw":
            w = P.random()
        out.append(w)
    st = R.get_state(legacy=False)
    s = _hash((st["bit_generator"], st["state"]["key"].tolist(), st["state"]["pos"], st.get("has_gauss"), st.get("gauss")))
    return out, (s, _hash(P.getstate()))


def _direct(case, which, pre):
    """One call in a fresh process."""
    import random

    import numpy as np

    engine.standard()
    np.random.seed(pre)
    random.seed(pre)
    d = case["direct"]
    f = statics.resolve("GeometryExamples." + d["f"])
    extra = (3, 1) if d["f"] in ("torus_3d", "klein_bottle_4d") else ()
    kw = {} if which is None else {"seed": which}
    return ops.outcome_of(lambda: (f(d["n"], *extra, **kw), {}))[0]


def _alone(case, op, pre):
    import random

    import numpy as np

    np.random.seed(pre)
    random.seed(pre)
    return engine._alone(case, op)


def execute(case, res):
    memo = {}

    def base(q):
        k = (q["f"], q["s"])
        if k not in memo:
            a = engine.sim_process(_alone, case, q, 11)
            b = engine.sim_process(_alone, case, q, 22)
            r = engine.compare(a, b, q, case, " called twice in fresh processes")
            if r:
                res.bad("irreproducible:" + q["f"], r[1])
            memo[k] = a
        return memo[k]

    names = ",".join(q.get("f", q.get("a")) for l in case["threads"] for q in l)
    d = case["direct"]
    if d:
        a = engine.sim_process(_direct, case, d["s1"], 1)
        b = engine.sim_process(_direct, case, d["s2"], 1)
        from ..compare import same_outcome

        if a["k"] == "ok" and b["k"] == "ok" and same_outcome(a, b) is None:
            res.bad("seed-ignored:" + d["f"], "%s: seeds %d and %d give the same samples" % (d["f"], d["s1"], d["s2"]))
        a2 = engine.sim_process(_direct, case, d["s1"], 2)
        r = same_outcome(a, a2)
        if r:
            res.bad("irreproducible:" + d["f"], "%s with seed %d: %s" % (d["f"], d["s1"], r))
        if d["f"] in FALLBACK:
            x = engine.sim_process(_direct, case, None, 3)
            y = engine.sim_process(_direct, case, d["n"], 4)
            r = same_outcome(x, y)
            if r:
                res.bad("fallback:" + d["f"], "%s(%d) without seed is not seed=%d: %s" % (d["f"], d["n"], d["n"], r))
            z = engine.sim_process(_direct, case, 0, 4)
            if z["k"] == "ok" and same_outcome(z, y) is None:
                res.bad("seed-ignored:" + d["f"], "%s: seed 0 gives the samples of seed %d" % (d["f"], d["n"]))
        res.count("direct seed comparisons")
    if "plan" in case:
        plans = [case["plan"]]
    else:
        rec = engine.sim_process(_run, case, None, True, timeout=90)
        if rec["errors"]:
            raise engine.HarnessError(str(rec["errors"]))
        R = threads.Recorded(rec)
        plans = []
        for reqs in case["req"]:
            p = [[] for _ in case["threads"]]
            for q, s in zip(reqs, sim.pick_steps(R, reqs)):
                if s is not None:
                    p[q["tid"]].append({"step": s, "do": "switch", "to": q["to"]})
            for l in p:
                l.sort(key=lambda a: a["step"])
            plans.append(p)
    keys = set()
    ds = []
    for p in plans:
        d = engine.sim_process(_run, case, p, False, timeout=90)
        n0 = len(res.viol)
        if d["deadlock"]:
            res.bad("deadlock", d["deadlock"])
        elif d["hang"]:
            res.bad("hang-steps", d["hang"])
        elif d["errors"]:
            raise engine.HarnessError(str(d["errors"]))
        else:
            for tid, (l, outs) in enumerate(zip(case["threads"], d["outs"])):
                for q, o in zip(l, outs):
                    if q["o"] == "rng":
                        res.count("stream use " + q["a"])
                        continue
                    res.count("generator calls")
                    if o.get("moved"):
                        res.bad("stream:" + q["f"], q["f"] + " moved the process-wide random stream")
                    b = engine.compare(base(q), o, q, case, " in thread %d (prior stream state, switches %s)" % (tid, d["switches"][:4]))
                    if b:
                        res.bad(*b)
            want, st = _model(case, d["log"])
            for k, ((tid, a, arg, v), w) in enumerate(zip(d["log"], want)):
                if v != w:
                    res.bad("draws", "the %s of thread %d (event %d) saw %s instead of %s: a generator disturbed the process-wide "
                            "stream; switches %s" % (a, tid, k, v, w, d["switches"][:4]))
                    break
            else:
                if st != d["state"]:
                    res.bad("draws", "final state of the process-wide stream differs from what its users made of it; switches %s" % (d["switches"][:4],))
        keys.add(engine.digest(names, [(s, t) for a, n, s, t in d["switches"]]))
        res.steps += d["total"]
        res.count("switches", len(d["switches"]))
        ds.append((d["digest"], d["outs"], d["log"], d["state"]))
        if len(res.viol) > n0:
            c = copy.deepcopy(case)
            c.pop("req", None)
            c["plan"] = p
            c["direct"] = None
            res.case = c
            break
    res.digest = engine.digest(ds)
    res.key = sorted(keys)


def shrink(case):
    if "plan" not in case:
        return
    for t, l in enumerate(case["plan"]):
        for k in range(len(l)):
            c = copy.deepcopy(case)
            c["plan"][t] = common.without(l, k)
            yield c
    for t, l in enumerate(case["threads"]):
        for k in range(len(l)):
            c = copy.deepcopy(case)
            c["threads"][t] = common.without(l, k)
            yield c
