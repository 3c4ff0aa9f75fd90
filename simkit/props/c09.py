"""C09: uncovered or corrupted points are contained."""
import copy
import re

import numpy as np

from .. import engine, judge, ops, refmodel, seams, worlds
from ..compare import same_outcome
from ..solvers import SimEigh, SimRipser, copy_raw
from . import common

BUDGET = {"quick": (5000, 70), "thorough": (60000, 3000)}
LEVEL = "exploration"
JIT_SHARE = 40
RULE = ("A run builds one object while distance readings of points that are no landmarks are lost or corrupted (all or some readings "
        "NaN, infinite, huge, far away; in the caller's matrix or in the solver's answer) or simply lie outside every ball, and makes "
        "1-3 calls. NaN rows must be exactly the points no ball covers, some warning must carry their number, and all other rows must "
        "equal those of a second simulated process in which these points do not exist (same solver answer, renumbered) and agree with "
        "the reference model. Non-trivial: at least one point was uncovered or had a corrupted reading and the call returned; counted "
        "per distinct (data, object, corruption, call).")
REAL = common.REAL_ALL
STUB = ["persistence solver's distance readings are damaged (faults)", "eigenvector signs in half of the runs",
        "second process: the persistence solver repeats its recorded answer without the removed points"]
ASSUMPTIONS = ["landmarks themselves are readable: the persistence solver needs their distances",
               "points at the cover radius up to 1e-9 relative are not judged"]
KINDS = ["nan", "nan", "nan1", "inf", "mixed", "far", "huge", "part", "partinf", "parthalf"]
SWEEP = ("Circular", "Toroidal", "Proj", "Lens", "CP")


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    a = ops.gen_obj(rng, case, cls=SWEEP[i % 5], small=rng.random() < 0.7)
    o, w = case["objs"][a], case["worlds"][0]
    if o["L"] >= w["n"]:
        o["L"] = max(9, w["n"] - 6)
    case["rip"] = {}
    case["seed"] = rng.randint(0, 2**31 - 2)
    k = rng.choice([0, 1, 1, 2, 3, 5])
    if o["dm"] == "ns":
        o["L"] = min(o["L"], w["rows"])
        w["corrupt"] = [[rng.randrange(w["rows"], w["n"]), rng.choice(KINDS)] for _ in range(k)]
        if rng.random() < 0.2:
            w["int"] = rng.choice([20, 50])
            w["corrupt"] = [[c, "far"] for c, _ in w["corrupt"]]
    elif k:
        case["rip"]["lose"] = [[round(rng.random(), 4), rng.choice(KINDS)] for _ in range(k)]
    if rng.random() < 0.3:
        case["rip"]["perm"] = 1
    case["eig"] = rng.random() < 0.5
    l = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < 0.15:
            l.append({"o": "partition", "i": a, "r": rng.choice([0.3, 0.5, 0.8, 1.1]),
                      "pu": rng.choice(["linear", "quadratic", "exp", "cubic", "half"])})
            continue
        q = ops.gen_coords(rng, case, a, callbacks=False, reject=0)
        q["kw"]["standard_range"] = False
        q["kw"]["perc"] = rng.choice([0.05, 0.2, 0.3, 0.5, 0.7, 0.9])
        l.append(q)
    case["ops"] = l
    return case


class Replayed:
    """The solver repeats a recorded answer, without the removed points."""

    def __init__(self, raw):
        self.raw = raw

    def make(self, real):
        def ripser(*a, **kw):
            r = copy_raw(self.raw)
            r["num_edges"] = 0
            r["r_cover"] = 0.0
            return r

        return ripser


def remap(raw, keep, dm):
    new = {int(v): k for k, v in enumerate(keep)}
    r = copy_raw(raw)
    r["idx_perm"] = np.array([new[int(v)] for v in r["idx_perm"]])
    if dm != "ns":
        r["dperm2all"] = r["dperm2all"][:, keep]
    for l in r["cocycles"]:
        for k in range(len(l)):
            c = np.array(l[k])
            if len(c):
                for j in range(c.shape[1] - 1):
                    c[:, j] = [new[int(v)] for v in c[:, j]]
            l[k] = c
    return r


def simulate(case):
    engine.standard()
    s = seams.Seams()
    sr = SimRipser(case["rip"], case["seed"])
    s.install("ripser", sr.make)
    if case["eig"]:
        s.install("eigh", SimEigh(case["seed"] + 1).make)
    ctx = ops.Ctx(case)
    out = ops.perform(ctx, {"o": "new", "i": case["ops"][0]["i"]})
    if out["k"] != "ok" or not sr.log:
        return None, [(out, [])], {}
    res = []
    for q in case["ops"]:
        w0 = len(ops._wlog)
        o = ops.perform(ctx, q)
        res.append((o, [t for _, t in ops._wlog[w0:]]))
    return sr.log[-1], res, dict(sr.events)


def simulate_without(case, q, raw, X, keep):
    """The same call in a process where only the points `keep` exist."""
    engine.standard()
    s = seams.Seams()
    o = case["objs"][q["i"]]
    ctx = ops.Ctx(case)
    if o["dm"] == "pc":
        Y = X[keep]
    elif o["dm"] == "sq":
        Y = X[np.ix_(keep, keep)]
    else:
        rows = X.shape[0]
        Y = X[np.ix_([k for k in keep if k < rows], keep)]
    ctx.arrays[(o["w"], o["dm"])] = Y
    r = remap(raw, keep, o["dm"])
    if o["dm"] == "ns":
        # when only sampled points are left the matrix is square and the solver's readings are used
        r["dperm2all"] = Y[r["idx_perm"]]
    s.install("ripser", Replayed(r).make)
    out = ops.perform(ctx, {"o": "new", "i": q["i"]})
    if out["k"] != "ok":
        return out, False
    out = ops.perform(ctx, q)
    return out, True


def expected_cover(case, raw, X, q):
    """Which points the balls of this call cover. None: ambiguous or rejected."""
    o = case["objs"][q["i"]]
    cls = o["cls"]
    try:
        m = refmodel.Model(raw, X, o["dm"], o["kw"].get("prime", judge.PRIME[cls]))
        if q["o"] == "partition":
            D0 = np.asarray(raw["dgms"][0], dtype=float)
            fin = D0[np.isfinite(D0[:, 1]), 1]
            r = float(q["r"] * (fin.max() if fin.size else 1.0))
        else:
            kw = judge.args_of(cls, q)
            d = 2 if cls == "CP" else 1
            idxs = kw["cocycle_idxs"] if cls == "Toroidal" else [kw["cocycle_idx"]]
            picked = [m.pick(d, c) for c in idxs]
            b = max(p[0] for p in picked)
            e = min(p[1] for p in picked)
            if b >= e:
                return None
            r, _ = m.scale(b, e, kw["perc"], kw["standard_range"])
        return m.partition(r, q.get("pu") or "linear")[1]
    except (refmodel.Unclear, refmodel.Rejected, ValueError):
        return None


def rows_of(out, q, cls):
    """Arrays whose rows are points."""
    v = out["v"]
    if q["o"] == "partition":
        return [v[1][0][1].T]
    if cls == "Toroidal":
        return [x[1] for x in v[1]] if v[0] == "l" else list(v[1])
    return [v[1]]


def check(case, raw, X, q, out, warns, res, nm):
    cls = case["objs"][q["i"]]["cls"]
    cov = expected_cover(case, raw, X, q)
    if cov is None or out["k"] != "ok":
        return None
    N = len(cov)
    nunc = int((~cov).sum())
    for A in rows_of(out, q, cls):
        A = np.asarray(A)
        if len(A) != N:
            res.bad("shape:" + nm, "%s: %d rows for %d points" % (nm, len(A), N))
            return None
        bad = np.isnan(A) if A.ndim == 1 else np.isnan(A).any(1)
        full = bad if A.ndim == 1 else np.isnan(A).all(1)
        for b in range(N):
            if cov[b] and bad[b]:
                if cls in ("Proj", "Lens", "CP") and q["o"] == "coords":
                    # the projection of a point orthogonal to all kept directions is undefined
                    v = engine.sim_process(judge.judge, raw, X, case["objs"][q["i"]], q, out, timeout=150, what="reference")
                    if v.kind == "unclear":
                        res.count("not judged: " + str(v.msg))
                        return None
                res.bad("nan:" + nm, "%s: point %d is covered but comes back as NaN (%d of %d points are uncovered)" % (nm, b, nunc, N))
                return None
            if not cov[b] and not full[b]:
                res.bad("not-nan:" + nm, "%s: point %d is covered by no landmark but comes back as a number" % (nm, b))
                return None
        inf = np.isinf(A) if A.ndim == 1 else np.isinf(A).any(1)
        if inf.any():
            res.bad("inf:" + nm, "%s: point %d comes back infinite" % (nm, int(np.argmax(inf))))
            return None
    said = [int(m) for t in warns for m in re.findall(r"\d+", t)]
    if nunc and nunc not in said:
        res.bad("warning:" + nm, "%s: %d points are uncovered; warnings: %s" % (nm, nunc, warns[:3]))
    told = ops.uncovered_in([("", t) for t in warns])
    if any(t != nunc for t in told):
        res.bad("warning:" + nm, "%s: a warning counts %s uncovered points, there are %d" % (nm, told, nunc))
    return cov


def kept(out, cov, q, cls):
    """The outcome restricted to the points that exist in the second process."""
    o = dict(out)
    v = out["v"]
    if q["o"] == "partition":
        o["v"] = ("l", [("a", v[1][0][1][:, cov]), ("a", v[1][1][1][cov])])
    elif cls == "Toroidal":
        o["v"] = ("l", [("a", np.asarray(x)[cov]) for x in rows_of(out, q, cls)])
    else:
        o["v"] = ("a", v[1][cov])
    return o


def execute(case, res):
    t = 90 if case.get("jit") else None
    raw, outs, ev = engine.sim_process(simulate, case, timeout=t, what=ops.name(case["ops"][0], case))
    for k, n in ev.items():
        res.count(k, n)
    if raw is None:
        o = outs[0][0]
        res.digest = engine.digest(o)
        if o["k"] == "ok":
            res.count("not judged: the persistence solver was not reached through the seam")
            return
        res.bad("construction:" + case["objs"][case["ops"][0]["i"]]["cls"], "the object cannot be built from legal data: %s" % (o,))
        return
    o = case["objs"][case["ops"][0]["i"]]
    cls = o["cls"]
    X = worlds.data(case["worlds"][o["w"]], o["dm"])
    D = X[[int(i) for i in raw["idx_perm"]]] if o["dm"] == "ns" else raw["dperm2all"]
    corrupt = ~np.isfinite(np.asarray(D, dtype=float)).all(0)
    keys = []
    for q, (out, warns) in zip(case["ops"], outs):
        nm = ops.name(q, case)
        cov = check(case, raw, X, q, out, warns, res, nm)
        if cov is None:
            res.count("not judged: rejected or ambiguous")
            if out["k"] == "ok" or res.viol:
                continue
            # a call that raises: it must also raise when the uncovered or unreadable points do not exist
            cov = expected_cover(case, raw, X, q)
            cov = ~corrupt if cov is None else cov & ~corrupt
            if cov.all() or not cov.any() or (~cov)[[int(i) for i in raw["idx_perm"]]].any() or corrupt[[int(i) for i in raw["idx_perm"]]].any():
                continue
        nunc = int((~cov).sum())
        res.count("uncovered points", nunc)
        if nunc:
            ref, built = engine.sim_process(simulate_without, case, q, raw, X, np.nonzero(cov)[0], timeout=t, what=nm)
            if out["k"] == "exc":
                if ref["k"] == "ok":
                    res.bad("raises:" + nm, "%s(%s) raised %s(%s); without the %d uncovered points it returns" % (
                        nm, q.get("kw"), out["t"], out["m"], nunc))
                continue
            if not built:
                res.count("not judged: too few points left")
                continue
            got = kept(out, cov, q, cls)
            d = same_outcome(kept(ref, np.ones(int(cov.sum()), dtype=bool), q, cls), got, 1e-5) if ref["k"] == "ok" else "raises %s(%s) without them" % (ref["t"], ref["m"])
            if d and ref["k"] == "ok" and cls in ("Proj", "Lens", "CP") and q["o"] == "coords":
                v = engine.sim_process(judge.judge, raw, X, o, q, out, timeout=150, what="reference")
                if v.kind == "unclear":
                    res.count("not judged: " + str(v.msg))
                    continue
            if d:
                res.bad("differs:" + nm, "%s(%s): with %d uncovered points the others differ from a run without these points: %s" % (
                    nm, q.get("kw"), nunc, d))
            res.count("compared with a run without the points: " + nm)
        if corrupt.any() and q["o"] == "coords" and not res.viol:
            try:
                v = engine.sim_process(judge.judge, raw, X, o, q, out, timeout=150, what="reference")
            except engine.Violation:
                v = judge.Verdict("unclear", msg="reference timed out")
            if v.kind == "bad":
                res.bad(v.sig + ":" + nm, "%s(%s): %s" % (nm, q.get("kw"), v.msg))
            res.count("reference: " + v.kind)
        if nunc or corrupt.any():
            keys.append(engine.digest(case["worlds"], case["objs"], case["rip"], case["seed"], q))
    res.key = keys
    res.digest = engine.digest([o for o, _ in outs])
    res.steps = len(outs)


def shrink(case):
    yield from common.shrink_list(case, "ops")
    for k in list(case["rip"]):
        c = copy.deepcopy(case)
        del c["rip"][k]
        yield c
    for k in range(len(case["rip"].get("lose", []))):
        c = copy.deepcopy(case)
        c["rip"]["lose"] = common.without(c["rip"]["lose"], k)
        yield c
    for k in range(len(case["worlds"][0].get("corrupt", []))):
        c = copy.deepcopy(case)
        c["worlds"][0]["corrupt"] = common.without(c["worlds"][0]["corrupt"], k)
        yield c
    if case["eig"]:
        c = copy.deepcopy(case)
        c["eig"] = False
        yield c
    yield from common.simplify_ops(case, "ops")
    yield from common.simplify_worlds(case)
