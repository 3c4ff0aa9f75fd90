"""C12: plot helpers draw only on the axes they are given."""
import copy
import itertools

from .. import engine, figures, ops, sim, threads
from . import common

BUDGET = {"quick": (2500, 72), "thorough": (20000, 3000)}
LEVEL = "exploration"
RULE = ("A run has 1-3 simulated parts of a program (one: a history; several: threads under a seeded preemption schedule) that create, "
        "select and close figures (managed by pyplot or not, 2-d and 3-d axes) and call the plotting helpers with explicit axes or on "
        "the current ones; some helper calls are interrupted at a chosen line. The model keeps which axes each call must draw on; "
        "every axes must end up with exactly the artists of its own calls (as drawn alone on fresh axes), the figure registry, the "
        "selection and all other axes must stay as the program left them. Non-trivial: at least two axes existed and a helper call "
        "returned; counted per distinct (sessions, schedule).")
REAL = ["dreimac.PlotUtils", "matplotlib (Agg): pyplot state machine, figures, axes, artists", "numpy"]
STUB = ["thread scheduler", "interrupts (injected)"]
ASSUMPTIONS = ["threads switch between lines of the library; calls into matplotlib are atomic", "no figure is rendered"]
ANY = ["imscatter", "plot_patches", "plot_proj_boundary", "plot_2sphere_boundary"]
HOW = [None] * 6 + ["sub", "inset"]
D3 = ["plot_3sphere_mesh", "set_axes_equal", "plot_rp3_stereo", "plot_rp3_stereo"]
CUR = ["plot_rp2_stereo", "plot_rp2_stereo", "imscatter", "plot_patches", "plot_proj_boundary", "plot_2sphere_boundary"]


def gen_plot(rng, case, keys):
    r = rng.random()
    if r < 0.35:
        return {"o": "plot", "f": rng.choice(CUR), "s": rng.randint(0, 10**6), "ax": None}
    # explicit axes
    cand = [(k, i, a) for k, axs in keys.items() for i, a in enumerate(axs)]
    d2 = [(k, i) for k, i, a in cand if a == "2d"]
    d3 = [(k, i) for k, i, a in cand if a == "3d"]
    if d3 and rng.random() < 0.35:
        return {"o": "plot", "f": rng.choice(D3), "s": rng.randint(0, 10**6), "ax": list(rng.choice(d3))}
    if d2:
        f = rng.choice(ANY) if rng.random() < 0.93 else "plot_3sphere_mesh"
        return {"o": "plot", "f": f, "s": rng.randint(0, 10**6), "ax": list(rng.choice(d2))}
    return {"o": "plot", "f": rng.choice(CUR), "s": rng.randint(0, 10**6), "ax": None}


def gen_axes(rng):
    return [rng.choice(["2d", "2d", "2d", "3d"]) for _ in range(rng.choice([1, 1, 2, 3]))]


def gen(rng, i, tier):
    nt = 1 if i % 3 == 0 else rng.choice([2, 2, 3])
    case = {"worlds": [], "objs": [], "reenter": [], "init": [], "threads": []}
    keys0 = {}
    for k in range(rng.randint(0 if nt == 1 else 1, 3)):
        ax = ["2d"] * rng.choice([1, 2]) if nt > 1 else gen_axes(rng)
        if rng.random() < 0.3 and k:
            ax = gen_axes(rng)
        key = "f%d" % k
        managed = k == 0 or rng.random() < 0.75
        keys0[key] = ax
        case["init"].append({"o": "fig", "key": key, "axes": ax, "managed": managed, "how": rng.choice(HOW)})
    if case["init"] and rng.random() < 0.5:
        k = rng.choice(sorted(keys0))
        case["init"].append({"o": "sel", "ax": [k, rng.randrange(3)]})
    for t in range(nt):
        keys = dict(keys0)
        l = []
        for s in range(rng.randint(2, 7) if nt == 1 else rng.randint(1, 4)):
            r = rng.random()
            if r < 0.5:
                l.append(gen_plot(rng, case, keys))
            elif r < 0.68:
                key = "t%d.%d" % (t, s)
                ax = [] if nt == 1 and rng.random() < 0.15 else ["2d"] * rng.choice([1, 2]) if nt > 1 and rng.random() < 0.7 else gen_axes(rng)
                keys[key] = ax
                l.append({"o": "fig", "key": key, "axes": ax, "managed": rng.random() < 0.8, "how": rng.choice(HOW)})
            elif r < 0.88 and keys:
                l.append({"o": "sel", "ax": [rng.choice(sorted(keys)), rng.randrange(3)]})
            elif keys:
                c = [k for k in sorted(keys) if nt == 1 or k != "f0"]
                if c:
                    l.append({"o": "close", "fig": rng.choice(c)})
        if not any(q["o"] == "plot" for q in l) and (t == 0 or rng.random() < 0.6):
            l.insert(rng.randrange(len(l) + 1), gen_plot(rng, case, keys0))
        case["threads"].append(l)
    case["first"] = rng.randrange(nt)
    case["opcodes"] = False
    plans = []
    for _ in range(1 if nt == 1 else 3):
        p = []
        if nt > 1:
            for _ in range(rng.choice([1, 1, 2, 3])):
                p.append({"tid": rng.randrange(nt), "u1": rng.random(), "u2": rng.random(), "mode": rng.choice(["site", "uniform"]),
                          "to": rng.randrange(nt), "off": 0, "do": "switch"})
        if rng.random() < 0.25:
            p.append({"tid": rng.randrange(nt), "u1": rng.random(), "u2": rng.random(), "mode": "uniform", "to": 0, "off": 0,
                      "do": "raise", "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
        plans.append(p)
    case["req"] = plans
    return case


def run(case, plan, record):
    S = figures.Session()
    import matplotlib.pyplot as plt

    plt.close("all")
    S.last = figures.registry()
    for q in case["init"]:
        S.step(q)
    nt = len(case["threads"])

    def body(sm, th, ctx, q):
        if q["o"] != "plot":
            return S.step(q)
        ax, fig = S.target(q)
        if isinstance(ax, str):
            return {"k": "skip"}
        if ax is None and nt > 1:
            return {"k": "skip"}
        seen = S.before(q, ax)
        box = {}

        def call():
            box["v"] = S.call(q, ax if q.get("ax") is not None else None)
            return None, {}

        def go():
            return ops.outcome_of(call)[0]

        out = sm.traced(th, go)
        S.after(q, ax, fig, out, box.get("v"), nt == 1, seen)
        return out

    d = threads.run_threads(case, plan, record, body)
    S.check_registry("the last helper call")
    return d, S.bad, S.calls, S.picture(), S.kinds, S.n


def judge(case, d, bad, calls, pic, kinds, res):
    for b in bad:
        res.bad(*b)
    # a call on the current axes may have begun before or after another thread selected other axes
    calls = [c for c in calls if c[0]]
    best = None
    memo = {}
    for pick in itertools.islice(itertools.product(*[c[0] for c in calls]), 48):
        v = []
        assign(case, [(n, q, out) for n, (_, q, out) in zip(pick, calls)], pic, kinds, v, memo, res if best is None else None)
        if not v:
            return
        best = best or v
    for x in best or []:
        res.bad(*x)


def assign(case, calls, pic, kinds, bad, memo, res):
    by = {}
    for n, q, out in calls:
        by.setdefault(n, []).append((q, out))
    for n, (arts, look, lim) in pic.items():
        l = by.get(n, [])
        if [1 for q, out in l if out["k"] == "exc" and "injected" in out["m"]]:
            if res:
                res.count("axes of an interrupted call (other axes judged)")
            continue
        key = repr((kinds[n], [q for q, _ in l]))
        if key not in memo:
            memo[key] = engine.sim_process(figures.reference, kinds[n], [q for q, _ in l], what="helpers on fresh axes")
        ref, rlook, rlim = memo[key]
        for (q, out), (k, t, _) in zip(l, ref):
            if out["k"] != k or out.get("t") != t:
                bad.append(("outcome:PlotUtils." + q["f"], "PlotUtils.%s on %s %s; alone on fresh axes it %s" % (
                    q["f"], n, out.get("t") or "returns", t or "returns")))
        want = [a for _, _, added in ref for a in added]
        m = figures.same_set(want, arts)
        names = sorted({q["f"] for q, _ in l})
        if m:
            others = sorted({q["f"] for x, q, _ in calls if x != n})
            bad.append(("artists", "axes %s (calls given it: %s; other calls: %s): %s" % (n, names, others, m)))
            continue
        if len(case["threads"]) == 1 or len(l) < 2:
            m = figures.differ(rlook, look)
            if m:
                bad.append(("look", "axes %s (calls given it: %s): appearance: %s" % (n, names, m)))
            m = figures.differ(rlim, lim)
            if m:
                bad.append(("limits", "axes %s (calls given it: %s): limits: %s" % (n, names, m)))


def execute(case, res):
    if "plan" in case:
        plans = [case["plan"]]
    else:
        d = engine.sim_process(run, case, None, True, timeout=90, what="plotting")[0]
        R = threads.Recorded(d)
        plans = []
        for reqs in case["req"]:
            p = [[] for _ in case["threads"]]
            for q, s in zip(reqs, sim.pick_steps(R, reqs)):
                if s is not None:
                    p[q["tid"]].append({"step": s, "do": q["do"], "to": q["to"], "exc": q.get("exc")})
            for l in p:
                l.sort(key=lambda a: a["step"])
            plans.append(p)
        if len(case["threads"]) == 1 and any(plans[0]):
            plans.insert(0, [[] for _ in case["threads"]])
    keys = []
    ds = []
    for p in plans:
        d, bad, calls, pic, kinds, n = engine.sim_process(run, case, p, False, timeout=90, what="plotting")
        for k, v in n.items():
            res.count(k, v)
        if d["deadlock"] or d["hang"]:
            res.bad("hang", str(d["deadlock"] or d["hang"]))
        if d["errors"]:
            raise engine.HarnessError(str(d["errors"]))
        judge(case, d, bad, calls, pic, kinds, res)
        res.steps += d["total"]
        res.count("schedules")
        res.count("preemptions", len(d["switches"]))
        res.count("interrupted calls", sum(1 for _, q, o in calls if o["k"] == "exc" and "injected" in o["m"]))
        res.count("calls that could have drawn on either of several current axes", sum(1 for n_, _, _ in calls if len(n_) > 1))
        if len(pic) > 1 and any(o["k"] == "ok" for _, _, o in calls):
            keys.append(engine.digest(case["init"], case["threads"], [(s, t) for _, _, s, t in d["switches"]]))
        ds.append([d["digest"], [(n_, q["f"], o["k"]) for n_, q, o in calls], sorted(pic)])
        if res.viol:
            c = copy.deepcopy(case)
            c.pop("req", None)
            c["plan"] = p
            res.case = c
            break
    res.key = keys
    res.digest = engine.digest(ds)


def shrink(case):
    if "plan" not in case:
        return
    for t, l in enumerate(case["plan"]):
        for k in range(len(l)):
            c = copy.deepcopy(case)
            c["plan"][t] = common.without(l, k)
            yield c
    for t, l in enumerate(case["threads"]):
        if l:
            c = copy.deepcopy(case)
            c["threads"][t] = []
            c["plan"][t] = []
            yield c
        for k in range(len(l)):
            c = copy.deepcopy(case)
            c["threads"][t] = common.without(l, k)
            yield c
    for k in range(len(case["init"])):
        c = copy.deepcopy(case)
        c["init"] = common.without(c["init"], k)
        yield c
