"""C04: caller data and returned results are never altered behind the caller's back."""
import copy

from .. import engine, ops, seq, statics
from . import common

BUDGET = {"quick": (3500, 70), "thorough": (25000, 3000)}
JIT_SHARE = 60
LEVEL = "exploration"
RULE = ("A run is a history of calls by a caller that keeps every array it passed and every result it got, watches their "
        "bytes after every call (including interrupted and rejected ones), and at random moments overwrites its own inputs, "
        "its argument lists or results it was given; calls made after that are compared with a fresh process. Non-trivial: "
        "something was overwritten or interrupted and a query followed; counted per distinct (calls, scribbles, faults).")
REAL = common.REAL_ALL
STUB = ["caller that scribbles", "interrupts and dependency faults (injected)", "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["helpers documented to work in place (integer lift, reindexing) may alter their argument",
               "public attributes of the object are not 'returned results'"]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    common.gen_rip(rng, case, 0.2)
    a = ops.gen_obj(rng, case, small=True)
    objs = [a]
    w = case["worlds"][case["objs"][a]["w"]]
    r = rng.random()
    if r < 0.35:
        # all points are landmarks: the shortest way from the caller's array into the object
        o = case["objs"][a]
        if o["dm"] == "ns":
            w["rows"] = min(w["rows"], 20)
            o["L"] = w["rows"]
        else:
            w["n"] = rng.randint(12, 20) if o["cls"] != "CP" else rng.randint(9, 12)
            if "rows" in w:
                w["rows"] = min(w["rows"], w["n"] - 2)
            o["L"] = w["n"]
    if rng.random() < 0.15 and case["objs"][a]["dm"] != "pc":
        w["int"] = rng.choice([10, 40])
    if rng.random() < 0.15:
        w["f32"] = 1
    if rng.random() < 0.3:
        objs.append(common.twin_obj(rng, case, a))
    l = []
    for o in objs:
        l.append({"o": "new", "i": o})
    n = rng.randint(5, 14) if rng.random() < 0.93 else rng.choice([25, 45])
    pool = [ops.gen_query(rng, case, rng.choice(objs), callbacks=False, reject=0.1) for _ in range(3)]
    pool += [common.gen_static(rng, heavy=0) for _ in range(2)]
    pool.append({"o": "rep", "i": a, "c": 0, "d": 2 if case["objs"][a]["cls"] == "CP" else 1})
    while len(l) < n:
        r = rng.random()
        if r < 0.5 or len(l) < 2:
            l.append(copy.deepcopy(rng.choice(pool)))
        elif r < 0.7:
            k = rng.randrange(len(l))
            l.append({"o": "scribR", "k": k})
            if l[k]["o"] not in ("scribR", "scribA", "scribX", "new"):
                l.append(copy.deepcopy(l[k]))
        elif r < 0.8:
            k = rng.randrange(len(l))
            l.append({"o": "scribA", "k": k})
            if l[k]["o"] not in ("scribR", "scribA", "scribX", "new"):
                l.append(copy.deepcopy(l[k]))
        elif r < 0.95:
            l.append({"o": "scribX", "i": rng.choice(objs)})
            l.append(copy.deepcopy(rng.choice(pool)))
        else:
            l.append(common.gen_static(rng, heavy=0.01))
    case["ops"] = l
    if rng.random() < 0.4:
        ks = [k for k, q in enumerate(l) if q["o"] in ("coords", "new", "static", "partition")]
        k = rng.choice(ks)
        case["freq"] = {"k": k, "f": seq.gen_fault(rng, ("line", "line", "dep", "cb"))}
        if l[k]["o"] == "new":
            l.insert(k + 1, dict(l[k]))
            for q in l[k + 2:]:
                if q["o"] in ("scribR", "scribA") and q["k"] > k:
                    q["k"] += 1
    return case


def execute(case, res):
    base = engine.Baselines(case)
    l = case["ops"]
    faults = case.get("faults")
    if faults is None:
        faults = {}
        if "freq" in case:
            k = case["freq"]["k"]
            if k < len(l):
                _, rec = engine.sim_process(seq.run_seq, case, l[:k + 1], None, k, timeout=90, what="history")
                f = seq.resolve(case["freq"]["f"], rec) if rec else None
                if f:
                    faults = {str(k): f}
    recs, _ = engine.sim_process(seq.run_seq, case, l, faults, None, False, True, timeout=90, what="history")
    bads = []
    pat = []
    acted = False
    active = False
    for q, r in zip(l, recs):
        if r.get("hang"):
            bads.append(("hang-steps", r["hang"]))
        if r.get("changed"):
            nm = "the caller" if q["o"].startswith("scrib") else ops.name(q, case)
            what = "failed/interrupted " if r["out"]["k"] == "exc" else ""
            bads.append(("altered:%s" % r["changed"][0].split(" by ")[0], "%s%s altered: %s" % (what, nm, "; ".join(r["changed"]))))
        if r.get("fired"):
            res.count("fault %s %s" % (faults[str(r["k"])]["kind"], faults[str(r["k"])]["exc"]))
            acted = True
        elif r["out"]["k"] != "skip":
            b = engine.compare(base.get(q), r["out"], q, case, " as call %d (after the caller overwrote its own arrays)" % (r["k"] + 1))
            if b:
                bads.append(b)
            if acted and r["out"]["k"] == "ok":
                active = True
        if q["o"].startswith("scrib"):
            res.count("overwritten " + {"X": "input data", "R": "result", "A": "arguments"}[q["o"][-1]], r.get("n", 0))
            acted = acted or r.get("n", 0) > 0
        pat.append((q["o"], common.short_op(q, case) if "scrib" not in q["o"] else "", r["out"]["k"], bool(r.get("fired"))))
    res.steps = sum(r.get("steps", 0) for r in recs)
    res.digest = engine.digest([r["out"] for r in recs], pat)
    if active:
        res.key = engine.digest(pat)
    c = copy.deepcopy(case)
    c.pop("freq", None)
    c["faults"] = faults
    res.case = c
    for b in bads:
        res.bad(*b)


def drop_op(case, k):
    c = copy.deepcopy(case)
    del c["ops"][k]
    keep = []
    for q in c["ops"]:
        if q["o"] in ("scribR", "scribA"):
            if q["k"] == k:
                continue
            if q["k"] > k:
                q["k"] -= 1
        keep.append(q)
    if len(keep) != len(c["ops"]):
        # positions shift again: only safe when the dropped scribbles come last
        idx = {id(q): n for n, q in enumerate(c["ops"])}
        new = {n: m for m, n in enumerate(idx[id(q)] for q in keep)}
        for q in keep:
            if q["o"] in ("scribR", "scribA"):
                q["k"] = new.get(q["k"], 0)
        f = {}
        for kk, v in c.get("faults", {}).items():
            n = int(kk)
            n = n - (n > k)
            if int(kk) != k and n in new:
                f[str(new[n])] = v
        c["faults"] = f
        c["ops"] = keep
        return c
    f = {}
    for kk, v in c.get("faults", {}).items():
        n = int(kk)
        if n != k:
            f[str(n - (n > k))] = v
    c["faults"] = f
    return c


def shrink(case):
    if case.get("faults"):
        c = copy.deepcopy(case)
        c["faults"] = {}
        yield c
    for k in reversed(range(len(case["ops"]))):
        c = drop_op(case, k)
        if c["ops"]:
            yield common.prune(c)
    yield from common.simplify_ops(case, "ops")
    yield from common.simplify_worlds(case)
