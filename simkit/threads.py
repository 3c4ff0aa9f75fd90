"""Concurrent histories: several simulated caller threads over shared objects."""
from . import engine, ops
from .sim import Sim


def run_threads(case, plan, record=False, body=None, prepare=None):
    """
    In a simulated process: set up, then run case["threads"] under the given plan
    (list per thread of {"step","do","to"}).  Returns a plain dict.
    """
    engine.standard(case=case)
    shared = ops.Ctx(case)
    setup_out = [ops.perform(shared, q) for q in case.get("setup", [])]
    sim = Sim(opcodes=bool(case.get("opcodes")), record=record)
    if prepare:
        prepare(sim, shared)

    def make(tid, oplist):
        ctx = ops.Ctx(case)
        ctx.arrays = shared.arrays
        ctx.objs = shared.objs
        out = []

        def fn(th):
            ctx.point = lambda k: sim.step(th, None, k)
            for q in oplist:
                th.out.append(None)
                if body:
                    o = body(sim, th, ctx, q)
                else:
                    o = sim.traced(th, lambda: ops.perform(ctx, q))
                th.out[-1] = o
            return out

        return fn

    for tid, l in enumerate(case["threads"]):
        acts = [a for a in (plan[tid] if plan and tid < len(plan) else [])]
        th = sim.add(make(tid, l), acts)
        th.out = []
    sim.run(first=case.get("first", 0))
    errs = []
    for th in sim.threads:
        if th.error is not None:
            errs.append((th.tid, type(th.error).__name__, str(th.error)[:300]))
    d = {"setup": setup_out, "outs": [th.out for th in sim.threads], "deadlock": sim.deadlock, "hang": sim.hang,
         "errors": errs, "switches": [(a, n, s, b) for a, n, s, b in sim.switches], "steps": [th.n for th in sim.threads],
         "total": sim.total, "digest": sim.digest(), "order": sim.finish_order}
    if record:
        d["sites"] = sim.sites
        d["after"] = sim.after_store
    return d


class Recorded:
    """What pick_steps needs from a recorded run."""

    def __init__(self, d):
        self.sites = d["sites"]
        self.after_store = d["after"]

        class T:
            pass

        self.threads = []
        for n in d["steps"]:
            t = T()
            t.n = n
            self.threads.append(t)
