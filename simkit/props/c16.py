"""C16: diagrams, representatives, cover radii and partitions are the ones of the construction."""
import copy

import numpy as np

from .. import engine, judge, ops, refmodel, seams, worlds, zlinalg as Z
from ..refmodel import Model, Rejected, Unclear
from ..solvers import SimMilp, SimRipser
from . import common
from .c06 import gen_ripser

BUDGET = {"quick": (5000, 60), "thorough": (60000, 3000)}
JIT_SHARE = 60
LEVEL = "exploration"
RULE = ("A run builds one object while the persistence solver gives an arbitrary legal answer (and readings of single points may be "
        "lost or corrupted on the way) and makes a short history of coordinates calls and of the calls that show the ingredients of "
        "the construction; every ingredient is checked against the solver's answer and the reference model. Non-trivial: the "
        "ingredient was judged; counted per distinct (data set, object, solver answer, call).")
REAL = common.REAL_ALL
STUB = ["persistence solver's answer is replaced by an equivalent one, with single distance readings lost or corrupted",
        "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["classes counted from the end, dimensions that were not computed and class numbers that are no int are not judged",
               "distances within 1e-9 of the cover radius are not judged", "any of several classes of equal persistence is accepted"]
SWEEP = ("Circular", "Toroidal", "Proj", "Lens", "CP")
LOST = ["nan", "inf", "far", "huge"]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    cls = SWEEP[i % 5]
    a = ops.gen_obj(rng, case, cls=cls, small=rng.random() < 0.6)
    w, o = case["worlds"][0], case["objs"][a]
    if o["dm"] != "pc" and rng.random() < 0.25:
        w["int"] = rng.choice([20, 50])
    elif o["dm"] != "pc" and rng.random() < 0.15:
        w["f32"] = 1
    if rng.random() < 0.1:
        o["kw"]["verbose"] = True
    case["rip"] = gen_ripser(rng)
    if o["dm"] != "ns" and rng.random() < 0.3:
        case["rip"]["lose"] = [[round(rng.random(), 4), rng.choice(LOST)] for _ in range(rng.choice([1, 2, 4]))]
    case["seed"] = rng.randint(0, 2**31 - 2)
    d = 2 if cls == "CP" else 1
    l = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        r = rng.random()
        if r < 0.2:
            l.append(ops.gen_coords(rng, case, a, callbacks=False, reject=0.1))
        elif r < 0.55:
            l.append({"o": "rep", "i": a, "c": rng.choice([0, 0, 1, 1, 2, 3, 99]),
                      "d": rng.choice([d, d, d, rng.randint(1, o["kw"].get("maxdim", d))])})
        elif r < 0.7:
            x, y = sorted([round(rng.uniform(0.05, 2), 3), round(rng.uniform(0.1, 4), 3)])
            if rng.random() < 0.15:
                x, y = y, x
            l.append({"o": "radius", "i": a, "a": [rng.choice([0, 1, 0.2, 0.5, 0.9, round(rng.random(), 3)]), x, y, rng.random() < 0.5]})
        else:
            l.append({"o": "partition", "i": a, "r": rng.choice([0.2, 0.4, 0.8, 1.1, 2.0, 5.0, round(rng.uniform(0.1, 3), 3)]),
                      "pu": rng.choice(["linear", "quadratic", "exp", "cubic", "half", "hole", "pow1.5", "pow3", "pow6", "obj"])})
    case["ops"] = l
    return case


def simulate(case):
    ops.record_warnings()
    s = seams.Seams()
    sr = SimRipser(case.get("rip", {}), case["seed"])
    s.install("ripser", sr.make)
    s.install("milp", SimMilp(["real"], case["seed"] + 2).make)
    ctx = ops.Ctx(case)
    i = case["ops"][0]["i"]
    out = ops.perform(ctx, {"o": "new", "i": i})
    if out["k"] != "ok" or not sr.log:
        return None, [out], sr.events, None
    res = []
    for q in case["ops"]:
        w0 = len(ops._wlog)
        o = ops.perform(ctx, q)
        o["uncovered"] = ops.uncovered_in(ops._wlog[w0:])
        res.append(o)
    try:
        dg = [np.array(x) for x in ctx.objs[i].dgms_]
    except AttributeError:
        dg = None
    return sr.log[-1], res, dict(sr.events), dg


def plain(c):
    """Undo the harness's encoding of values."""
    return [plain(x) for x in c[1]] if c[0] == "l" else c[1] if c[0] in ("a", "s") else None


def rows(x):
    x = np.asarray(x, dtype=float).reshape(-1, 2)
    return sorted(map(tuple, x.tolist()))


def judge_dgms(raw, dg, maxdim):
    """-> message or None"""
    if len(dg) != len(raw["dgms"]):
        return "%d diagrams, the solver gave %d" % (len(dg), len(raw["dgms"]))
    for d in range(len(dg)):
        if rows(dg[d]) != rows(raw["dgms"][d]):
            return "diagram %d does not hold the intervals the solver found" % d
        if d >= 1 and len(dg[d]):
            with np.errstate(all="ignore"):
                pers = dg[d][:, 1] - dg[d][:, 0]
            if any(pers[k] < pers[k + 1] - 1e-9 * abs(pers[k]) for k in range(len(pers) - 1)):
                return "diagram %d is not ordered by decreasing persistence" % d
    return None


def cochain_of(m, coc, d):
    """The library's sparse cocycle (rows of landmark numbers and a value) -> {sorted simplex: value mod p}"""
    coc = np.asarray(coc)
    if coc.ndim != 2 or (len(coc) and coc.shape[1] != d + 2):
        return None
    if len(coc) == 0:
        return {}
    if not np.all(coc == np.round(coc)):
        return None
    out = {}
    for r in coc.tolist():
        vs = [int(v) for v in r[:-1]]
        if min(vs) < 0 or max(vs) >= m.L or len(set(vs)) < len(vs):
            return None
        sg = 1
        for a in range(len(vs)):
            for b in range(a + 1, len(vs)):
                if vs[a] > vs[b]:
                    sg = -sg
        s = tuple(sorted(vs))
        out[s] = (out.get(s, 0) + sg * int(r[-1])) % m.p
    return {s: v for s, v in out.items() if v}


def cohomologous(m, x, y, d, t):
    """Are the cochains x and y of degree d (mod p) cohomologous in the complex at scale t?"""
    m.complex(t)
    keep = m.eid if d == 1 else m.tid
    diff = {}
    for s in set(x) | set(y):
        v = (x.get(s, 0) - y.get(s, 0)) % m.p
        if v and s in keep:
            diff[s] = v
    if not diff:
        return True
    if d == 1:
        return m.is_cocycle1(diff, m.p) and not m.gauge(diff, m.p)
    basis = [{} for _ in m.edges]
    for (a, b, c), k in m.tid.items():
        basis[m.eid[(a, b)]][k] = 1
        basis[m.eid[(b, c)]][k] = 1
        basis[m.eid[(a, c)]][k] = -1
    return Z.solve_mod(basis, {m.tid[s]: v for s, v in diff.items()}, m.p, len(m.tris)) is not None


def judge_rep(m, q, r):
    c, d = q["c"], q["d"]
    if d < 1 or d >= len(m.raw["dgms"]):
        raise Unclear("dimension that was not computed")
    o, dg = m.order(d)
    if c < 0:
        raise Unclear("classes counted from the end are not documented")
    if c >= len(o):
        return None if r["k"] == "exc" else "class %d of %d was answered" % (c, len(o))
    if r["k"] == "exc":
        return "class %d of %d is refused: %s %s" % (c, len(o), r["t"], r["m"])
    try:
        b, e, coc = plain(r["v"])
        b, e = float(b), float(e)
    except (TypeError, ValueError):
        return "not a triple of two numbers and a cocycle"
    me = dg[o[c], 1] - dg[o[c], 0]
    near = 1e-6 * max(1e-12, np.max(np.where(np.isfinite(dg[:, 1]), dg[:, 1], 0)))
    cand = [k for k in o if (dg[k, 1] - dg[k, 0] == me) or abs((dg[k, 1] - dg[k, 0]) - me) < near]
    cand = [k for k in cand if np.isclose(dg[k, 0], b, rtol=1e-6, atol=0) and np.isclose(dg[k, 1], e, rtol=1e-6, atol=0)]
    if not cand:
        return "birth and death (%.6g, %.6g) are not those of class %d (%.6g, %.6g)" % (b, e, c, dg[o[c], 0], dg[o[c], 1])
    x = cochain_of(m, coc, d)
    if x is None:
        return "not a list of %d-simplices of landmarks with values" % d
    for k in cand:
        y = m.cochain(np.array(m.raw["cocycles"][d][k]).reshape(-1, d + 2), d)
        if x == y:
            return None
        t = float(dg[k, 1]) * (1 - 1e-5) if np.isfinite(dg[k, 1]) else float(np.max(m.DL) * 2 + 1)
        if t <= dg[k, 0] * (1 + 1e-5):
            raise Unclear("class too short to compare representatives")
        if d > 2:
            raise Unclear("representatives of dimension above 2")
        if cohomologous(m, x, y, d, t):
            return None
    return "the cocycle does not represent class %d of dimension %d" % (c, d)


def judge_radius(q, r):
    perc, b, e, std = q["a"]
    start = 2 * b if std else b
    if abs(start - e) < 1e-9 * max(1.0, e):
        raise Unclear("empty range up to rounding")
    if start > e:
        return None if r["k"] == "exc" else "a class too short for a cover was accepted"
    if r["k"] == "exc":
        return "refused: %s %s" % (r["t"], r["m"])
    try:
        rc, t = [float(v) for v in plain(r["v"])]
    except (TypeError, ValueError):
        return "not two numbers"
    w = (1 - perc) * start + perc * e
    if abs(t - w) > 1e-9 * e or abs(rc - w / 2) > 1e-9 * e:
        return "radius %.9g and threshold %.9g, should be %.9g and %.9g" % (rc, t, w / 2, w)
    return None


def judge_partition(m, q, r, single=False):
    """single: readings in single precision"""
    D0 = np.asarray(m.raw["dgms"][0], dtype=float)
    fin = D0[np.isfinite(D0[:, 1]), 1]
    rc = float(q["r"] * (fin.max() if fin.size else 1.0))
    P, covered, _ = m.partition(rc, q["pu"])
    if q["pu"] == "hole" and (np.abs(m.D - 0.25 * rc) < 1e-6 * rc).any():
        raise Unclear("distance at an edge of the bump function")
    if single and (np.abs(m.D - rc) < 1e-6 * rc).any():
        raise Unclear("distance at the cover radius")
    tol = 1e-3 if single else 1e-7
    if r["k"] == "exc":
        return "refused: %s %s" % (r["t"], r["m"])
    try:
        phi, ball = plain(r["v"])
        phi = np.asarray(phi, dtype=float)
        ball = np.asarray(ball)
    except (TypeError, ValueError):
        return "not a partition and an index"
    if phi.shape != P.shape or ball.shape != (m.N,):
        return "shapes %s and %s" % (phi.shape, ball.shape)
    with np.errstate(all="ignore"):
        U = m.D < rc
        w = np.zeros(P.shape)
        w[U] = refmodel.BUMPS[q["pu"]](m.D[U], rc)
        thin = (w.sum(0) < (1e-30 if single else 1e-290))
    nan = np.isnan(phi).any(0)
    for b in range(m.N):
        if thin[b] and covered[b]:
            continue
        if covered[b]:
            if nan[b] or np.max(np.abs(phi[:, b] - P[:, b])) > tol:
                return "point %d: weights are not those of the bump function" % b
            if not (0 <= int(ball[b]) < m.L) or not U[int(ball[b]), b]:
                return "point %d does not lie in ball %s" % (b, ball[b])
            if int(ball[b]) != int(np.argmax(U[:, b])):
                return "point %d: ball %s is not the first one that holds it" % (b, ball[b])
        elif not nan[b]:
            return "point %d is covered by no ball but has weights" % b
    n = int((~covered).sum())
    if not thin[covered].any():
        said = r.get("uncovered") or []
        if (n and n not in said) or (not n and any(said)):
            return "%d points are not covered, the warnings say %s" % (n, said)
    return None


def judge_case(case, raw, outs, dg):
    o = case["objs"][case["ops"][0]["i"]]
    X = worlds.data(case["worlds"][o["w"]], o["dm"])
    m = Model(raw, X, o["dm"], o["kw"].get("prime", judge.PRIME[o["cls"]]))
    single = getattr(X, "dtype", None) == np.float32
    res = []
    if dg is not None:
        msg = judge_dgms(raw, dg, None)
        res.append(("diagrams", "bad" if msg else "ok", msg))
    for q, r in zip(case["ops"], outs):
        if q["o"] == "coords" or r["k"] == "skip":
            continue
        try:
            msg = judge_rep(m, q, r) if q["o"] == "rep" else judge_radius(q, r) if q["o"] == "radius" else judge_partition(m, q, r, single)
        except Unclear as e:
            res.append((q["o"], "unclear", str(e)))
            continue
        res.append((q["o"], "bad" if msg else "ok", msg))
    return res


def execute(case, res):
    cls = case["objs"][case["ops"][0]["i"]]["cls"]
    raw, outs, ev, dg = engine.sim_process(simulate, case, what=ops.name(case["ops"][0], case))
    for k, n in ev.items():
        res.count(k, n)
    if raw is None:
        res.digest = engine.digest(outs[0])
        if outs[0]["k"] == "ok":
            res.count("not judged: the persistence solver was not reached through the seam")
            return
        res.bad("construction:" + cls, "the object cannot be built from legal data: %s" % (outs[0],))
        return
    try:
        vs = engine.sim_process(judge_case, case, raw, outs, dg, timeout=150, what="reference")
    except engine.Violation:
        res.count("not judged: reference timed out")
        return
    for what, kind, msg in vs:
        if kind == "unclear":
            res.count("not judged: " + msg)
        else:
            res.count("judged " + what)
        if kind == "bad":
            res.bad("%s:%s" % (what, cls), "%s: %s" % (what, msg))
    for r in outs:
        for n in r.get("uncovered") or []:
            res.count("points reported uncovered", n)
    if any(k != "unclear" for _, k, _ in vs):
        res.key = [engine.digest(case["worlds"], case["objs"], case["rip"], case["seed"], q) for q in case["ops"] if q["o"] != "coords"]
    res.digest = engine.digest([{k: v for k, v in r.items() if k != "m"} for r in outs], [v[:2] for v in vs])
    res.steps = len(outs)


def shrink(case):
    yield from common.shrink_list(case, "ops")
    for k in list(case["rip"]):
        c = copy.deepcopy(case)
        del c["rip"][k]
        yield c
    yield from common.simplify_ops(case, "ops")
    yield from common.simplify_worlds(case)
