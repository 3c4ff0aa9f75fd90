"""C10: diagnostics never change results."""
import copy
import sys

import numpy as np

from .. import engine, ops, seams
from ..compare import same_outcome
from ..seq import in_chain
from ..sim import Injected
from . import common

BUDGET = {"quick": (4000, 65), "thorough": (50000, 3000)}
LEVEL = "fault_enumeration"
JIT_SHARE = 60
RULE = ("A run executes a history of 2-8 calls (constructors with verbose on, queries of all classes, dimension reduction with verbose "
        "on, flag switched in between) in a simulated process whose clock misbehaves (jumps, goes backwards, stands still, returns NaN "
        "or infinity) and whose output stream works, is missing, writes short, or fails at a chosen write; every outcome is compared "
        "with the same history in a quiet process. A call hit by an output failure must raise that failure or return the quiet result; "
        "it is repeated afterwards. Non-trivial: a message was written or the clock was read during the history; counted per distinct "
        "(history, clock, stream).")
REAL = common.REAL_ALL
STUB = ["clock (time module)", "standard output and standard error", "HiGHS node limit through the milp seam"]
ASSUMPTIONS = ["diagnostics go through sys.stdout/sys.stderr and the clock is read through the time module"]
CLOCKS = ["normal", "frozen", "backward", "jump", "jump", "nan", "inf", "zero"]
OUTS = ["ok", "ok", "ok", "none", "short", "fail", "fail", "fail", "fail", "fail_from", "fail_flush", "bytes"]
EXC = ["OSError", "OSError", "BrokenPipeError", "ValueError", "KeyboardInterrupt", "MemoryError", "RuntimeError"]
MODES = ["one-by-one", "one-by-one", "exponential", "direct"]


def gen(rng, i, tier):
    case = {"worlds": [], "objs": [], "ops": [], "reenter": []}
    l = []
    n = rng.choice([1, 1, 2])
    for _ in range(n):
        a = ops.gen_obj(rng, case, small=rng.random() < 0.8)
        case["objs"][a]["kw"]["verbose"] = True
        l.append({"o": "new", "i": a})
    for _ in range(rng.randint(1, 4)):
        a = rng.randrange(n)
        if rng.random() < 0.2:
            l.append({"o": "ppca", "s": rng.randint(0, 10**6), "n": rng.randint(6, 25), "d": rng.randint(3, 9),
                      "dim": rng.randint(0, 3), "mode": rng.choice(MODES), "c": rng.random() < 0.5, "nan": rng.random() < 0.3})
        elif rng.random() < 0.12:
            l.append({"o": "toggle", "i": a})
        elif rng.random() < 0.1:
            l.append({"o": "new", "i": a})
        else:
            q = ops.gen_query(rng, case, a, callbacks=False, reject=0.1)
            if q["o"] == "coords" and "projective_dim_red_mode" in q["kw"]:
                q["kw"]["projective_dim_red_mode"] = rng.choice(MODES)
            l.append(q)
    case["ops"] = l
    case["clock"] = rng.choice(CLOCKS)
    case["seed"] = rng.randint(0, 2**31 - 2)
    out = {"mode": rng.choice(OUTS)}
    if out["mode"].startswith("fail"):
        out["at"] = rng.randrange(len(l))
        out["k"] = rng.choice([1, 1, 2, 2, 3, 4])
        out["exc"] = rng.choice(EXC)
    case["out"] = out
    return case


def one(ctx, q, verbose):
    if q["o"] == "toggle":
        o = ctx.objs.get(q["i"])
        if verbose and o is not None and hasattr(o, "verbose"):
            o.verbose = not o.verbose
        return {"k": "skip"}
    if q["o"] == "ppca":
        R = np.random.RandomState(q["s"])
        W = R.random_sample((q["n"], q["d"])) + 0.05
        W = np.sqrt(W / W.sum(1)[:, None])
        W = W * np.exp(2j * np.pi * R.random_sample(W.shape)) if q["c"] else W * R.choice([-1.0, 1.0], W.shape)
        if q["nan"]:
            W[q["n"] // 2] = np.nan

        def call():
            from dreimac.utils import EquivariantPCA

            d = EquivariantPCA.ppca(W, min(q["dim"], q["d"] - 2), q["mode"], verbose)
            return [d["X"], d["variance"]], {"ppca": True}

        out, _ = ops.outcome_of(call)
        return out
    return ops.perform(ctx, q)


def history(case, verbose):
    engine.standard()
    case = copy.deepcopy(case)
    for o in case["objs"]:
        o["kw"]["verbose"] = verbose
    ctx = ops.Ctx(case)
    info = {"reads": 0, "writes": 0, "fired": 0, "elapsed": 0.0}
    res = []
    if not verbose:
        for q in case["ops"]:
            res.append((one(ctx, q, False), None, None, None))
        return res, info
    s = seams.Seams()
    clock = seams.SimClock(case["clock"], case["seed"] % 2**31)
    clock.install(s)
    o = case["out"]
    keep = sys.stdout, sys.stderr
    for k, q in enumerate(case["ops"]):
        m = o["mode"]
        faulty = m.startswith("fail") and o["at"] == k
        exc = None
        if faulty:
            exc = Injected.make(o["exc"], "output")
            st = seams.SimStdout(m, o["k"], exc)
        elif m == "none":
            st = None
        else:
            st = seams.SimStdout(m if not m.startswith("fail") else "ok")
        sys.stdout = sys.stderr = st
        try:
            seen = {}

            def probe():
                try:
                    return ops.perform_raw(ctx, q)
                except BaseException as x:
                    seen["e"] = x
                    raise

            out = one(ctx, q, True) if q["o"] in ("toggle", "ppca") else ops.outcome_of(probe)[0]
        finally:
            changed = sys.stdout is not st
            sys.stdout, sys.stderr = keep
        fired = st.fired if st is not None else 0
        info["writes"] += st.n if st is not None else 0
        info["fired"] += fired
        again = None
        if fired and faulty:
            made = ctx.objs.get(q.get("i"))
            again = one(ctx, q, True)
            if q["o"] == "new" and made is not None:
                # later calls go to the object whose construction was hit
                ctx.objs[q["i"]] = made
        ch = None
        if out["k"] == "exc" and faulty:
            ch = in_chain(seen["e"], exc) if "e" in seen else ("injected" in out["m"])
        res.append((out, fired, ch, (again, changed)))
    info["reads"] = clock.reads
    info["elapsed"] = clock.elapsed
    return res, info


def differs(a, b):
    if a["k"] == "skip" or b["k"] == "skip":
        return None
    if a.get("ppca") and b.get("ppca"):
        x = same_outcome({"k": "ok", "v": a["v"][1][0], "gauge": True}, {"k": "ok", "v": b["v"][1][0], "gauge": True})
        return x or same_outcome({"k": "ok", "v": a["v"][1][1]}, {"k": "ok", "v": b["v"][1][1]})
    return same_outcome(a, b)


def name(q, case):
    return {"ppca": "EquivariantPCA.ppca", "toggle": "toggle"}.get(q["o"]) or ops.name(q, case)


def execute(case, res):
    t = 90 if case.get("jit") else None
    quiet, _ = engine.sim_process(history, case, False, timeout=t, what="quiet history")
    loud, info = engine.sim_process(history, case, True, timeout=t, what="history")
    o = case["out"]
    what = "clock %s, output %s" % (case["clock"], o["mode"])
    skip = set()
    for q, (a, _, _, _), (b, fired, chain, extra) in zip(case["ops"], quiet, loud):
        nm = name(q, case)
        again, changed = extra or (None, False)
        if changed:
            res.bad("stdout:" + nm, "%s replaced sys.stdout (%s)" % (nm, what))
        if q.get("i") in skip and q["o"] != "new":
            continue
        if fired and o["mode"] == "bytes" and b["k"] == "exc" and b["t"] == "UnicodeEncodeError":
            res.count("unencodable message surfaced")
            if q["o"] == "new":
                skip.add(q["i"])
            continue
        if o["mode"] == "none" and b["k"] == "exc" and b["t"] == "AttributeError" and "NoneType" in b["m"] and a["k"] == "ok":
            # there is no stream to write to
            res.count("missing output surfaced")
            if q["o"] == "new":
                skip.add(q["i"])
            continue
        if fired and o["mode"].startswith("fail") and b["k"] == "exc" and chain and b["t"] == o["exc"]:
            res.count("output failure surfaced")
        else:
            d = differs(a, b)
            if d:
                sig = "fault:" if fired and o["mode"].startswith("fail") else "differs:"
                res.bad(sig + nm, "%s(%s) with verbose on (%s%s) differs from the quiet call: %s" % (
                    nm, q.get("kw", ""), what, "; output failed %d times" % fired if fired else "", d))
            elif fired and o["mode"].startswith("fail"):
                res.count("output failure swallowed, right result")
        if again is not None:
            d = differs(a, again)
            if d:
                res.bad("after:" + nm, "%s repeated after an output failure differs from the quiet call: %s" % (nm, d))
        res.count("calls compared")
    res.count("clock reads", info["reads"])
    res.count("writes", info["writes"])
    res.count("output faults fired (%s)" % o["mode"], info["fired"])
    res.count("clock %s" % case["clock"], 1)
    res.count("simulated seconds", int(min(info["elapsed"], 1e15)))
    if info["writes"] or info["reads"]:
        res.key = engine.digest(case["worlds"], case["objs"], case["ops"], case["clock"], o)
    res.digest = engine.digest([x[0] for x in loud], [x[1] for x in loud])
    res.steps = len(loud)


def shrink(case):
    for k in reversed(range(len(case["ops"]))):
        if case["out"].get("at") == k or case["ops"][k]["o"] == "new":
            continue
        c = copy.deepcopy(case)
        del c["ops"][k]
        if "at" in c["out"] and c["out"]["at"] > k:
            c["out"]["at"] -= 1
        yield c
    if case["clock"] != "normal":
        c = copy.deepcopy(case)
        c["clock"] = "normal"
        yield c
    if case["out"]["mode"] != "ok":
        c = copy.deepcopy(case)
        c["out"] = {"mode": "ok"}
        yield c
    yield from common.simplify_ops(case, "ops")
    yield from common.simplify_worlds(case)
