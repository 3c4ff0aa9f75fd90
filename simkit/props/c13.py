"""C13: process-wide settings are left as found."""
import copy

from .. import boot, engine, ops, seq, sim, statics, threads
from . import c02, common

BUDGET = {"quick": (2500, 70), "thorough": (20000, 3000)}
JIT_SHARE = 60
LEVEL = "fault_enumeration"
RULE = ("A run is a short history of public calls (all classes, all helpers, plotting helpers), each bracketed by a snapshot of "
        "process-wide settings, made under varied initial settings; one call is also interrupted or failed at up to 5 "
        "different instants. One run in six brackets 2-3 concurrent callers under 5 schedules instead. Non-trivial: a bracketed call did work (returned, or was interrupted inside the library); "
        "counted per distinct (call, outcome, fault site).")
REAL = common.REAL_ALL + ["matplotlib (Agg)"]
STUB = ["thread scheduler in concurrent runs", "interrupts, allocation failures, dependency and callback failures (injected)", "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["interrupts arrive between lines of the library, not inside clean-up blocks"]

PLOTS = ["imscatter", "plot_patches", "plot_proj_boundary", "plot_2sphere_boundary", "plot_3sphere_mesh", "set_axes_equal",
         "plot_rp2_stereo", "plot_rp3_stereo"]


IMPORT = """
import importlib, json, sys
for m in json.loads(sys.argv[2]):
    try:
        importlib.import_module(m)
    except Exception:
        pass
import warnings, random
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.figure()
np.random.seed(int(sys.argv[3]))
random.seed(int(sys.argv[3]))
if sys.argv[4] != "None":
    np.seterr(all=sys.argv[4])
from simkit import seq
sys.path.insert(0, sys.argv[1])
a = seq.settings()
import dreimac
b = seq.settings()
print("@@" + json.dumps([sorted(m for m in sys.modules if not m.startswith(("dreimac", "__main__"))), seq.settings_diff(a, b),
                         dreimac.__file__]))
"""


def _import(mods, ini, scratch):
    import json
    import subprocess
    import sys

    env = boot.worker_env(scratch=scratch)
    r = subprocess.run([sys.executable, "-c", IMPORT, boot.REPO, json.dumps(mods), str(ini["seed"]), str(ini["err"])],
                       env=env, cwd=scratch, capture_output=True, text=True, timeout=300)
    l = [x for x in r.stdout.split("\n") if x.startswith("@@")]
    if not l:
        raise engine.HarnessError("import failed: " + r.stderr[-500:])
    return json.loads(l[0][2:])


def execute_import(case, res):
    """A new interpreter in which everything the library needs is loaded already imports the library."""
    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix="simkit-import-")
    try:
        mods, _, where = _import([], case["init"], scratch)
        if not where.startswith(boot.PKG):
            raise engine.HarnessError("imported " + where)
        _, diff, _ = _import(mods, case["init"], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if diff:
        res.bad("import:" + diff[0].split(":")[0].split(" [")[0], "importing the library changed " + "; ".join(diff))
    res.count("imports bracketed")
    res.key = [engine.digest("import", case["init"])]
    res.digest = engine.digest(diff)
    res.steps = 1


def gen(rng, i, tier):
    if i % 1000 == 0:
        return {"import": 1, "worlds": [], "objs": [], "init": {"err": rng.choice(["warn", "ignore", None]), "seed": rng.randint(0, 10**6)}}
    if i % 6 == 4:
        case = c02.gen(rng, i, tier)
        case["opcodes"] = 0
        if len(case["threads"]) == 2 and case["setup"] and rng.random() < 0.6:
            case["threads"][1] = copy.deepcopy(case["threads"][0])
        case["req"] = [c02.pair(rng, case["first"], len(case["threads"])) if rng.random() < 0.6 else p for p in case["req"]]
        case["init"] = {"err": rng.choice(["warn", "ignore", None]), "seed": rng.randint(0, 10**6), "filters": rng.random() < 0.3}
        return case
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    common.gen_rip(rng, case, 0.2)
    a = ops.gen_obj(rng, case, small=True)
    if i % 20 == 9 and case["objs"][a]["dm"] == "pc":
        case["worlds"][0]["n"] = rng.choice([600, 1300, 2600, 4500]) if case["objs"][a]["cls"] != "CP" else 600
    l = []
    if rng.random() < 0.3:
        l.append(common.gen_static(rng, heavy=0.3))
    l.append({"o": "new", "i": a})
    if rng.random() < 0.25:
        case["objs"][a]["kw"]["verbose"] = True
    for _ in range(rng.randint(1, 3)):
        l.append(ops.gen_query(rng, case, a, reject=0.2))
    for _ in range(rng.randint(1, 5)):
        l.append(common.gen_static(rng, heavy=0.05))
    if rng.random() < 0.35:
        l.append({"o": "plot", "f": rng.choice(PLOTS), "s": rng.randint(0, 10**6)})
    case["reenter"] = [ops.gen_query(rng, case, a, callbacks=False)]
    case["ops"] = l
    case["target"] = rng.choice([k for k, q in enumerate(l)])
    case["req"] = [seq.gen_fault(rng) for _ in range(5)]
    case["init"] = {"err": rng.choice(["warn", "ignore", "raise_over", None]), "seed": rng.randint(0, 10**6),
                    "filters": rng.random() < 0.3}
    return case


def _threads(case, plan, record=False):
    start = {}
    _init(case)

    def prepare(sim, shared):
        start.update(seq.settings())

    d = threads.run_threads(case, plan, record, prepare=prepare)
    d["settings"] = seq.settings_diff(start, seq.settings())
    return d


def execute_threads(case, res):
    if "plan" in case:
        plans = [case["plan"]]
    else:
        rec = engine.sim_process(_threads, case, None, True, timeout=90, what="calls one after another")
        R = threads.Recorded(rec)
        plans = [None]
        for reqs in case["req"]:
            p = [[] for _ in case["threads"]]
            for q, s in zip(reqs, sim.pick_steps(R, reqs)):
                if s is not None:
                    p[q["tid"]].append({"step": s, "do": "switch", "to": q["to"]})
            for l in p:
                l.sort(key=lambda a: a["step"])
            plans.append(p)
    keys, ds = set(), []
    for p in plans:
        d = engine.sim_process(_threads, case, p, timeout=90, what="concurrent calls")
        res.steps += d["total"]
        res.count("concurrent schedules bracketed")
        res.count("preemptions", len(d["switches"]))
        ds.append((d["digest"], d["settings"]))
        if d["deadlock"] or d["hang"] or d["errors"]:
            # judged by C02
            res.count("schedule not judged: " + ("deadlock" if d["deadlock"] else "hang" if d["hang"] else "error"))
            continue
        if d["switches"]:
            keys.add(engine.digest([(s, t) for a, n, s, t in d["switches"]]))
        if d["settings"]:
            res.bad("settings:%s" % d["settings"][0].split(":")[0].split(" [")[0],
                    "concurrent calls (schedule %s) changed %s" % ([(a, n, "%s:%s" % s, t) for a, n, s, t in d["switches"]][:6],
                                                                   "; ".join(d["settings"])))
            c = copy.deepcopy(case)
            c.pop("req", None)
            c["plan"] = p or [[] for _ in case["threads"]]
            res.case = c
            break
    res.key = sorted(keys)
    res.digest = engine.digest(ds)


def _run(case, faults, record):
    _init(case)
    # figures of the rest of the program
    import matplotlib.pyplot as plt

    plt.figure()
    plt.figure()
    return seq.run_seq(case, case["ops"], faults, record, True, False)


def _init(case):
    import random
    import warnings

    import numpy as np

    ini = case["init"]
    if ini["err"] == "ignore":
        np.seterr(all="ignore")
    elif ini["err"] == "raise_over":
        np.seterr(over="call", under="ignore")
    np.random.seed(ini["seed"])
    random.seed(ini["seed"])
    if ini["filters"]:
        warnings.filterwarnings("error", category=UserWarning, module="nothing")


def execute(case, res):
    if case.get("import"):
        return execute_import(case, res)
    if "threads" in case:
        return execute_threads(case, res)
    t = case["target"]
    fl = []
    keys = set()
    runs = [None]
    ds = []
    if "fault" in case:
        runs = [case["fault"]]
    else:
        recs, rec = engine.sim_process(_run, case, None, t, timeout=90, what="history")
        runs = [None] + ([seq.resolve(f, rec) for f in case["req"]] if rec else [])
    for n, f in enumerate(runs):
        if f is None and n > 0:
            continue
        recs, _ = engine.sim_process(_run, case, {t: f} if f else None, None, timeout=90, what="history")
        for q, r in zip(case["ops"], recs):
            nm = ops.name(q, case) if q["o"] != "plot" else "PlotUtils." + q["f"]
            if r.get("hang"):
                res.bad("hang-steps", r["hang"])
            if r.get("settings"):
                what = "returned" if r["out"]["k"] == "ok" else "raised %s" % r["out"].get("t")
                if r.get("fired"):
                    what = "was hit by %s at %s" % (f["exc"], r["site"])
                res.bad("settings:%s" % r["settings"][0].split(":")[0].split(" [")[0],
                        "%s, which %s, changed %s" % (nm, what, "; ".join(r["settings"])))
            keys.add(engine.digest(nm, r["out"]["k"], r["out"].get("t"), r.get("site") if r.get("fired") else None))
            res.count("calls bracketed")
            if r.get("fired"):
                res.count("fault %s %s" % (f["kind"], f["exc"]))
        res.steps += sum(r.get("steps", 0) for r in recs)
        ds.append([(r["out"]["k"], r["out"].get("t")) for r in recs])
        if res.viol:
            c = copy.deepcopy(case)
            c.pop("req", None)
            c["fault"] = f
            res.case = c
            break
    res.key = sorted(keys)
    res.digest = engine.digest(ds, runs)


def shrink(case):
    if "threads" in case:
        yield from c02.shrink(case)
        return
    if "fault" not in case:
        return
    t = case["target"]
    if case["fault"]:
        c = copy.deepcopy(case)
        c["fault"] = None
        yield c
    for k in reversed(range(len(case["ops"]))):
        if k == t and case["fault"]:
            continue
        c = copy.deepcopy(case)
        c["ops"] = common.without(c["ops"], k)
        c["target"] = max(0, t - (k < t))
        if c["ops"]:
            yield common.prune(c)
    if case["init"] != {"err": None, "seed": 0, "filters": False}:
        c = copy.deepcopy(case)
        c["init"] = {"err": None, "seed": 0, "filters": False}
        yield c
