"""Running histories of ops in simulated processes (forked children)."""
import hashlib

import numpy as np

from . import forks, ops, seams
from .compare import same_outcome, brief
from .sim import Sim, Solo, SimHang, SimDeadlock, Injected


class Violation(Exception):
    def __init__(self, sig, msg):
        Exception.__init__(self, msg)
        self.sig = sig


class HarnessError(Exception):
    pass


CRASH_SIGNALS = ("signal 4", "signal 6", "signal 7", "signal 8", "signal 11")
TIMEOUT = 40.0


def sim_process(fn, *args, timeout=None, what="call"):
    """Run fn in a simulated process; a crash or a hang of the code under test is a violation."""
    t = timeout or TIMEOUT
    try:
        return forks.fork_call(fn, *args, timeout=t)
    except forks.ChildHung as e:
        raise Violation("hang", "%s does not end (%s)" % (what, e))
    except forks.ChildDied as e:
        if any(s in str(e) for s in CRASH_SIGNALS):
            raise Violation("crash", "process crashed during %s: %s" % (what, e))
        raise HarnessError(str(e))


# -- set-up common to all simulated processes -------------------------------------
def standard(ctx=None, milp_limit=None, case=None):
    ops.record_warnings()
    s = seams.Seams()
    s.install("milp", lambda real: seams.limited_milp(real, milp_limit))
    if case and case.get("rip"):
        # a persistence solver that always gives the same legal answer to the same question
        from .solvers import SimRipser

        s.install("ripser", SimRipser(case["rip"], case["rip"]["s"], stable=True).make)
    return s


def strip(op):
    """The op whose solo outcome is the reference for this op."""
    q = {k: v for k, v in op.items() if k not in ("buf", "thread")}
    if q.get("pu") == "reent":
        q["pu"] = "linear"
    return q


def _alone(case, op):
    standard(case=case)
    ctx = ops.Ctx(case)
    ctx.reenter_ops = []
    if "i" in op and op["o"] != "new":
        out = ops.perform(ctx, {"o": "new", "i": op["i"]})
        if out["k"] != "ok":
            return {"k": "skip"}
    return ops.perform(ctx, op)


class Baselines:
    """Outcome of a call made alone in a brand-new process."""

    def __init__(self, case):
        self.case = case
        self.memo = {}

    def get(self, op):
        q = strip(op)
        key = repr(sorted(q.items(), key=str))
        if key not in self.memo:
            self.memo[key] = sim_process(_alone, self.case, q, what=ops.name(q, self.case))
        return self.memo[key]


def compare(base, out, op, case, where=""):
    if out["k"] == "skip" or base["k"] == "skip":
        return None
    r = same_outcome(base, out)
    if r:
        return ("differs:" + ops.name(op, case), "%s%s: %s" % (ops.name(op, case), where, r))
    return None


# -- sequential histories ------------------------------------------------------------
def _history(case, oplist):
    standard(case=case)
    ctx = ops.Ctx(case)
    out = []
    for q in oplist:
        ctx.reenter_out = []
        o = ops.perform(ctx, q)
        out.append((o, list(ctx.reenter_out)))
    return out


def digest(*xs):
    h = hashlib.sha256()
    for x in xs:
        h.update(_bytes(x))
    return h.hexdigest()[:16]


def _bytes(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                x = np.round(np.nan_to_num(x, nan=123.0, posinf=1e9, neginf=-1e9), 4) + 0.0
        return repr((x.shape, x.tolist())).encode()
    if isinstance(x, (list, tuple)):
        return b"[" + b",".join(_bytes(y) for y in x) + b"]"
    if isinstance(x, dict):
        return b"{" + b",".join(str(k).encode() + b":" + _bytes(x[k]) for k in sorted(x, key=str) if k != "m") + b"}"
    return repr(x).encode()


class Res:
    """Result of one run."""

    def __init__(self):
        self.viol = []
        self.stats = {}
        self.key = None
        self.digest = ""
        self.steps = 0
        self.case = None   # concretised case, for replay

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, sig, msg):
        self.viol.append({"sig": sig, "msg": msg[:600]})

    def to_json(self):
        return {"v": self.viol, "stats": self.stats, "key": self.key, "digest": self.digest, "steps": self.steps,
                "case": self.case}
