"""C14: every query ends within a bounded amount of work."""
import copy

import numpy as np

from .. import engine, judge, ops, seams, worlds
from ..sim import Injected, SimHang, Solo
from ..solvers import SimRipser, copy_raw
from . import common

BUDGET = {"quick": (5000, 70), "thorough": (50000, 3000)}
LEVEL = "exploration"
RULE = ("A run executes a history of 2-6 calls whose solvers answer adversarially (least squares inexact by any factor, so that the "
        "lattice reduction meets arbitrary, nearly dependent and exactly tied lattices; repeated classes; failing or degenerate "
        "eigen-decompositions; any basis and representative of the persistence module; classes without integral lift). Work is counted "
        "in executed lines of the library, branch-and-bound nodes and solver calls; each call must end within a polynomial of its input "
        "size, and a class without integral lift must be rejected. Non-trivial: the call entered lattice reduction, dimension "
        "reduction or integer lifting; counted per distinct (data, object, answers, call).")
REAL = common.REAL_ALL
STUB = ["least-squares answers perturbed", "eigen-decompositions fail or are degenerate", "persistence solver's answer replaced by an "
        "equivalent one", "branch and bound stops at the seam's node cap"]
ASSUMPTIONS = ["kernels run interpreted; compiled dependencies end by themselves except the integer solver (C14 counts its nodes)",
               "an integer program with unbounded variables and no limit that is undecided after 4000 nodes counts as endless "
               "(all decidable ones seen needed at most 1 node)"]
CAP = 4000
LSQR = ["real", "real", "tiny", "small", "unit", "large", "huge", "zero", "same", "coarse"]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    r = i % 8
    l = []
    if r in (0, 4):
        k = rng.choice(["rp2", "rp2", "rp2", "moore3"])
        w = {"k": k, "n": rng.randint(60, 120), "s": rng.randint(0, 10**9)}
        case["worlds"].append(w)
        case["objs"].append({"cls": rng.choice(["Circular", "Circular", "Toroidal"]), "w": 0, "dm": "sq", "L": rng.randint(20, 36),
                             "kw": {"prime": 2 if k == "rp2" else 3}})
        a = 0
    else:
        cls = {1: "Toroidal", 2: "Toroidal", 3: "Toroidal", 5: "Proj", 6: "CP", 7: "Lens"}[r]
        a = ops.gen_obj(rng, case, cls=cls, small=True)
        if cls == "Toroidal":
            case["worlds"][0]["k"] = k = rng.choice(["circles3", "circles4", "chords", "theta3", "eight"])
            case["worlds"][0]["n"] = rng.randint(44, 80)
            if k == "chords":
                case["worlds"][0]["m"] = rng.choice([1, 2, 3])
            case["worlds"][0].pop("rows", None)
            case["objs"][a]["L"] = rng.randint(18, 30)
            if case["objs"][a]["dm"] == "ns":
                case["worlds"][0]["rows"] = case["objs"][a]["L"] + 6
    case["rip"] = {}
    for k in ("perm", "classes", "rows", "flip", "mix"):
        if rng.random() < 0.3:
            case["rip"][k] = 1
    if rng.random() < 0.3:
        case["rip"]["cobound"] = rng.choice([0.1, 0.45, 0.8])
    case["seed"] = rng.randint(0, 2**31 - 2)
    cls = case["objs"][a]["cls"]
    case["lsqr"] = rng.choice(LSQR) if cls == "Toroidal" else "real"
    case["eigh"] = rng.choice(["real", "fail", "failonce", "identity", "real"]) if cls in ("Proj", "CP", "Lens") else "real"
    l.append({"o": "new", "i": a})
    for _ in range(rng.choice([1, 2, 3])):
        q = ops.gen_coords(rng, case, a, callbacks=False, reject=0.05)
        kw = q["kw"]
        kw["standard_range"] = False
        if cls == "Toroidal":
            kw["perc"] = rng.choice([0.05, 0.2, 0.5, 0.8])
            kw["cocycle_idxs"] = rng.choice([[0, 1], [1, 0], [0, 1, 2], [2, 1, 0], [0, 0], [0, 1, 0], [0, 1, 1, 0], [0, 1, 2, 3],
                                             [3, 1, 2, 0], [1, 2], [0, 1, 2, 3, 4]])
        if r in (0, 4):
            kw["perc"] = rng.choice([0.3, 0.5, 0.7, 0.9])
            kw.pop("check_cocycle_condition", None)
            if cls == "Toroidal":
                kw["cocycle_idxs"] = rng.choice([[0], [0], [0, 1]])
        l.append(q)
    if rng.random() < 0.4:
        l.append(common.gen_static(rng, heavy=0.03))
    if rng.random() < 0.2:
        l.append(ops.gen_query(rng, case, a, callbacks=False))
    case["ops"] = l
    return case


def bound(case, q):
    """Executed lines a call may need."""
    if q["o"] == "static":
        return 3_000_000
    o = case["objs"][q["i"]]
    w = case["worlds"][o["w"]]
    N, L = w["n"], o["L"]
    n = len(q.get("kw", {}).get("cocycle_idxs", [0])) if isinstance(q.get("kw", {}).get("cocycle_idxs", [0]), list) else 1
    b = 40_000 + 200 * N * L + (n + 1) * (300 * L ** 2 + 20 * L ** 3) + 4000 * n ** 4
    if o["cls"] == "CP":
        b += 40 * L ** 4 + 60 * N * L ** 2
    return b


class Endless(BaseException):
    pass


def simulate(case):
    ops.record_warnings()
    s = seams.Seams()
    sr = SimRipser(case["rip"], case["seed"])
    s.install("ripser", sr.make)
    R = np.random.RandomState(case["seed"] % (2**31 - 1))
    calls = {"lsqr": 0, "eigh": 0, "milp": 0, "cholesky": 0}
    limit = {"n": None}
    endless = []

    def tick(k):
        calls[k] += 1
        if limit["n"] is not None and sum(calls.values()) > limit["n"]:
            raise SimHang("solver called %d times in one query (%s)" % (limit["n"], k))

    def mk_lsqr(real):
        def lsqr(A, b, *a, **k):
            tick("lsqr")
            r = real(A, b, *a, **k)
            m = case["lsqr"]
            x = np.array(r[0])
            if m == "zero":
                x = np.zeros_like(x)
            elif m == "coarse":
                x = np.round(x * 8) / 8
            elif m == "same":
                x = x + 1e-9 * np.arange(len(x))
            elif m != "real":
                x = x + {"tiny": 1e-12, "small": 1e-4, "unit": 1.0, "large": 1e5, "huge": 1e12}[m] * R.randn(len(x))
            return (x,) + tuple(r[1:])

        return lsqr

    def mk_eigh(real):
        def eigh(a, *args, **kw):
            tick("eigh")
            m = case["eigh"]
            if m == "fail" or (m == "failonce" and calls["eigh"] == 1):
                raise Injected.make("LinAlgError", "eigh")
            r = real(a, *args, **kw)
            if m == "identity":
                # any orthonormal basis is one for a multiple of the identity
                return type(r)(r[0], np.eye(len(r[0]), dtype=r[1].dtype)) if hasattr(r, "eigenvalues") else (r[0], np.eye(len(r[0])))
            return r

        return eigh

    def mk_chol(real):
        def cholesky(*a, **k):
            tick("cholesky")
            return real(*a, **k)

        return cholesky

    def mk_milp(real):
        def milp(c, *, integrality=None, bounds=None, constraints=None, options=None):
            tick("milp")
            o = dict(options or {})
            limited = "time_limit" in o or o.get("node_limit") is not None or finite(bounds, len(np.atleast_1d(c)))
            o.pop("time_limit", None)
            o["node_limit"] = min(o.get("node_limit", CAP), CAP)
            r = real(c, integrality=integrality, bounds=bounds, constraints=constraints, options=o)
            if int(r.status) in (1, 4) and not r.success and not limited:
                endless.append(int(r.status))
            return r

        return milp

    s.install("lsqr", mk_lsqr)
    s.install("eigh", mk_eigh)
    s.install("cholesky", mk_chol)
    s.install("milp", mk_milp)
    ctx = ops.Ctx(case)
    res = []
    for q in case["ops"]:
        b = bound(case, q)
        for k in calls:
            calls[k] = 0
        limit["n"] = 400 if q["o"] != "static" else 5000
        n0 = len(endless)
        solo = Solo(budget=b)
        try:
            out, _ = ops.outcome_of(lambda: solo.run(lambda: ops.perform_raw(ctx, q)))
        except SimHang as h:
            res.append(({"k": "hang", "m": str(h)}, solo.th.n, b, dict(calls), False))
            break
        res.append((out, solo.th.n, b, dict(calls), len(endless) > n0))
    return (sr.log[-1] if sr.log else None), res, dict(sr.events)


def finite(bounds, n):
    try:
        lb = np.broadcast_to(np.asarray(bounds.lb, dtype=float), (n,))
        ub = np.broadcast_to(np.asarray(bounds.ub, dtype=float), (n,))
        return bool(np.isfinite(lb).all() and np.isfinite(ub).all())
    except Exception:
        return False


def execute(case, res):
    raw, outs, ev = engine.sim_process(simulate, case, what="history")
    for k, n in ev.items():
        res.count(k, n)
    res.count("least squares: " + case["lsqr"])
    res.count("eigen-solver: " + case["eigh"])
    keys = []
    for q, (out, n, b, calls, endless) in zip(case["ops"], outs):
        nm = ops.name(q, case)
        res.steps += n
        if out["k"] == "hang":
            res.bad("endless:" + nm, "%s(%s) exceeds its work bound of %d lines (or 400 solver calls): %s" % (nm, q.get("kw", ""), b, out["m"]))
            break
        if endless:
            res.bad("milp:" + nm, "%s(%s): the integer program is undecided after %d nodes and no limit was set: the search never ends" % (
                nm, q.get("kw", ""), CAP))
        res.count("work below %d%% of the bound" % (1 if n < b / 100 else 10 if n < b / 10 else 50 if n < b / 2 else 100))
        for k, c in calls.items():
            if c:
                res.count("calls of " + k, c)
        if out["k"] == "ok" and q["o"] == "coords" and case["lsqr"] == "real" and calls["milp"] and case["worlds"][0]["k"] in ("rp2", "moore3"):
            o = case["objs"][q["i"]]
            v = engine.sim_process(judge.judge, raw, worlds.data(case["worlds"][o["w"]], o["dm"]), o, q, out, timeout=150, what="reference")
            if v.kind == "bad" and v.sig in ("not-liftable", "not-rejected"):
                res.bad(v.sig + ":" + nm, "%s(%s): %s" % (nm, q.get("kw"), v.msg))
            res.count("repaired class on torsion data judged: " + v.kind)
        if q["o"] == "coords":
            res.count("%s %s" % (nm, "returned" if out["k"] == "ok" else "raised " + out["t"]))
            if any(calls.values()):
                keys.append(engine.digest(case["worlds"], case["objs"], case["rip"], case["seed"], case["lsqr"], case["eigh"], q))
    res.key = keys
    res.digest = engine.digest([(o, n) for o, n, _, _, _ in outs])


def shrink(case):
    yield from common.shrink_list(case, "ops")
    for k in list(case["rip"]):
        c = copy.deepcopy(case)
        del c["rip"][k]
        yield c
    for k in ("lsqr", "eigh"):
        if case[k] != "real":
            c = copy.deepcopy(case)
            c[k] = "real"
            yield c
    yield from common.simplify_ops(case, "ops")
    yield from common.simplify_worlds(case)
