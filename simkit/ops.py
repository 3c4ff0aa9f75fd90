"""
The workload vocabulary.  A case lists data sets ("worlds"), object specs ("objs") and ops;
everything is JSON and every array is rebuilt from it.

op = {"o": "new",       "i": obj}
     {"o": "coords",    "i": obj, "kw": {...}, "pu": "linear"|...}
     {"o": "rep",       "i": obj, "c": class, "d": dimension}
     {"o": "radius",    "i": obj, "a": [perc, death, birth, standard_range]}
     {"o": "partition", "i": obj, "r": factor, "pu": ...}
     {"o": "static",    "f": "CircleMapUtils.center", "s": seed}
"""
import re
import warnings

import numpy as np

from . import worlds
from .compare import canon

CLS = {
    "Circular": "CircularCoords",
    "Toroidal": "ToroidalCoords",
    "Proj": "ProjectiveCoords",
    "CP": "ComplexProjectiveCoords",
    "Lens": "LensCoords",
}
NAN = float("nan")


def lib():
    import dreimac

    return dreimac


# -- warnings ------------------------------------------------------------------
_wlog = []


def record_warnings():
    """Once per simulated process: every warning is recorded, none is printed or deduplicated."""
    import sys

    warnings.simplefilter("always")

    def show(message, category, filename, lineno, file=None, line=None):
        _wlog.append((category.__name__, str(message)))

    warnings.showwarning = show
    return _wlog


def uncovered_in(log):
    n = [int(m.group(1)) for c, t in log for m in [re.search(r"(\d+)\D*not covered", t)] if m]
    return n


# -- context -------------------------------------------------------------------
class _Bump:
    """A bump function that is no function: no __name__, no __code__, not hashable."""

    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __eq__(self, other):
        return isinstance(other, _Bump)

    def __call__(self, ds, r):
        return np.maximum(r - ds, 0) ** self.e


class Ctx:
    def __init__(self, case, point=None):
        self.case = case
        self.arrays = {}
        self.objs = {}
        self.point = point      # called inside callbacks: a scheduling point
        self.reenter_ops = case.get("reenter", [])
        self.depth = 0
        self.callback_calls = 0
        self.reenter_out = []
        self.owned = []         # (name, array, image) caller-owned arrays to watch
        self.callback_fault = None
        self.last_args = None
        self.plot_ax = None

    def array(self, i):
        o = self.case["objs"][i]
        key = (o["w"], o["dm"])
        if key not in self.arrays:
            self.arrays[key] = worlds.data(self.case["worlds"][o["w"]], o["dm"])
        return self.arrays[key]

    def refill(self, old, new):
        """The data of object `new`, in the array that held the data of object `old`."""
        A, B = self.array(old), self.array(new)
        if A is B or A.shape != B.shape or A.dtype != B.dtype:
            return B
        A[...] = B
        keys = [(self.case["objs"][i]["w"], self.case["objs"][i]["dm"]) for i in (old, new)]
        del self.arrays[keys[0]]
        self.arrays[keys[1]] = A
        return A

    # bump functions supplied by the caller
    def bump(self, name, op):
        D = lib()
        if name is None:
            return None
        if name in ("linear", "quadratic", "exp"):
            return getattr(D.PartUnity, name)
        ctx = self

        def cubic(ds, r):
            ctx.callback_calls += 1
            if ctx.point:
                ctx.point(1)
            if ctx.callback_fault is not None:
                ctx.callback_fault()
            return (r - ds) ** 3

        def reent(ds, r):
            ctx.callback_calls += 1
            if ctx.point:
                ctx.point(2)
            if ctx.depth < 2:
                ctx.depth += 1
                try:
                    for q in ctx.reenter_ops:
                        ctx.reenter_out.append((q, perform(ctx, q)))
                        if ctx.point:
                            ctx.point(3)
                finally:
                    ctx.depth -= 1
            return r - ds

        def scrib(ds, r):
            # a callback that uses the array it is given as scratch space
            v = r - ds
            ds[...] = 1e9
            return v

        def half(ds, r):
            # bump functions that vanish on part of the ball
            return np.maximum(0.75 * r - ds, 0)

        def hole(ds, r):
            # no weight near the centre either
            return np.where(ds < 0.25 * r, 0.0, r - ds)

        if name.startswith("pow"):
            # anonymous functions made by one factory: same name, same code, different behaviour
            e = float(name[3:])
            return lambda ds, r: np.maximum(r - ds, 0) ** e
        if name == "obj":
            return _Bump(1.5)

        def boom(ds, r):
            raise ZeroDivisionError("callback failed")

        return {"cubic": cubic, "reent": reent, "scrib": scrib, "half": half, "hole": hole, "boom": boom}[name]


PRIME_DEFAULT = {"Circular": 41, "Toroidal": 41, "Proj": 2, "CP": 41, "Lens": 3}


def kwargs_of(ctx, op):
    kw = dict(op.get("kw", {}))
    if op.get("pu") is not None:
        kw["partunity_fn"] = ctx.bump(op["pu"], op)
    for k, v in list(kw.items()):
        if isinstance(v, list):
            # the caller's own list, not the case's
            kw[k] = list(v)
        elif v == "__float1":
            kw[k] = 1.0
    return kw


def _rounded(v):
    return v


def perform_raw(ctx, op):
    """The bare call: returns (value, flags) or raises."""
    m = op.get("mood")
    if m:
        # a program that wants warnings or floating-point trouble to be errors
        q = {k: v for k, v in op.items() if k != "mood"}
        if m == "fp":
            with np.errstate(all="raise", under="ignore"):
                return perform_raw(ctx, q)
        with warnings.catch_warnings():
            warnings.simplefilter("error", UserWarning)
            warnings.simplefilter("error", RuntimeWarning)
            return perform_raw(ctx, q)
    D = lib()
    o = op["o"]
    if o == "new":
        spec = ctx.case["objs"][op["i"]]
        X = ctx.refill(op["buf"], op["i"]) if "buf" in op else ctx.array(op["i"])
        cls = getattr(D, CLS[spec["cls"]])
        obj = cls(X, spec["L"], distance_matrix=(spec["dm"] != "pc"), **spec.get("kw", {}))
        ctx.objs[op["i"]] = obj
        return [np.array(d) for d in obj.dgms_], {}
    if o == "drop":
        ctx.objs.pop(op["i"], None)
        import gc

        gc.collect()
        raise Skip()
    if o == "static":
        from . import statics

        return statics.call(op["f"], op["s"], ctx, op.get("near", 0))
    if o == "plot":
        from . import plots
        import matplotlib.pyplot as plt

        if ctx.plot_ax is None:
            # the axes exist before the call is judged
            fig = plt.figure()
            ctx.plot_ax = (fig.add_subplot(121), fig.add_subplot(122, projection="3d"))
            plt.sca(ctx.plot_ax[0])
        plots.call(op["f"], op["s"], ctx.plot_ax[1] if op["f"] in plots.NEEDS3D else ctx.plot_ax[0])
        return None, {}
    obj = ctx.objs.get(op["i"])
    if obj is None:
        raise Skip()
    cls = ctx.case["objs"][op["i"]]["cls"]
    if o == "coords":
        kw = kwargs_of(ctx, op)
        ctx.last_args = kw
        v = obj.get_coordinates(**kw)
        if cls in ("Circular", "Toroidal"):
            return v, {"circle": True}
        return v, {"gauge": True}
    if o == "rep":
        return obj.get_representative_cocycle(op["c"], op["d"]), {}
    if o == "radius":
        return obj.get_cover_radius(*op["a"]), {}
    if o == "partition":
        D0 = obj.dgms_[0]
        fin = D0[np.isfinite(D0[:, 1]), 1]
        r = float(op["r"] * (fin.max() if fin.size else 1.0))
        return obj.get_covering_partition(r, ctx.bump(op["pu"], op)), {}
    raise AssertionError("unknown op %r" % (op,))


class Skip(Exception):
    pass


def outcome_of(fn):
    """Run fn() -> (value, flags) and describe what the caller sees."""
    from .sim import SimHang, SimDeadlock

    try:
        v, fl = fn()
    except Skip:
        return {"k": "skip"}, None
    except (SimHang, SimDeadlock):
        raise
    except BaseException as e:
        return {"k": "exc", "t": type(e).__name__, "m": str(e)[:200]}, e
    out = {"k": "ok", "v": canon(v)}
    out.update(fl)
    return out, v


def perform(ctx, op):
    if op.get("thread") and not ctx.depth:
        # another thread of the program makes this call, the others wait
        from .locks import call_in_thread
        from .sim import SimDeadlock

        try:
            out, e = call_in_thread(lambda: outcome_of(lambda: perform_raw(ctx, op)))
        except SimDeadlock as d:
            return {"k": "exc", "t": "Deadlock", "m": str(d)}
    else:
        out, e = outcome_of(lambda: perform_raw(ctx, op))
    if ctx.depth and out["k"] == "exc":
        # inside a callback: a fault made by the simulator goes on to the outer call
        x = e
        while x is not None:
            if getattr(x, "_simkit_injected", False):
                raise e
            x = x.__cause__ or x.__context__
    return out


def name(op, case=None):
    if op["o"] == "static":
        return op["f"]
    c = case["objs"][op["i"]]["cls"] if case else ""
    return "%s.%s" % (c, {"new": "__init__", "coords": "get_coordinates", "rep": "get_representative_cocycle",
                         "radius": "get_cover_radius", "partition": "get_covering_partition"}[op["o"]])


# -- generation ----------------------------------------------------------------
KINDS = {
    "Circular": ["circle", "ellipse", "circles2", "eight", "annulus", "torus", "theta3"],
    "Toroidal": ["circles2", "circles3", "theta3", "eight", "circles2"],
    "Proj": ["circle", "rp2", "torus", "eight"],
    "Lens": ["circle", "moore3", "eight"],
    "CP": ["octa", "sphere"],
}


def gen_world(rng, cls, small=False):
    kind = rng.choice(KINDS[cls])
    lo, hi = (20, 40) if small else (24, 60)
    w = worlds.gen(rng, [kind], lo, hi)
    if cls == "CP":
        w["n"] = rng.randint(24, 42)
    return w


def gen_obj(rng, case, cls=None, small=False, share=0.3):
    """Append a world (or share one) and an object spec to the case; returns the index."""
    cls = cls or rng.choices(["Circular", "Toroidal", "Proj", "Lens", "CP"], [4, 3, 2, 2, 1.5])[0]
    cand = [i for i, w in enumerate(case["worlds"]) if w["k"] in KINDS[cls] and (cls != "CP" or 20 <= w["n"] <= 44) and w["n"] <= 100]
    if cand and rng.random() < share:
        wi = rng.choice(cand)
        w = case["worlds"][wi]
    else:
        w = gen_world(rng, cls, small)
        case["worlds"].append(w)
        wi = len(case["worlds"]) - 1
    n = w["n"]
    if w["k"] in worlds.METRIC_ONLY:
        dm = rng.choice(["sq", "sq", "ns"])
    else:
        dm = rng.choice(["pc", "pc", "sq", "ns"])
    if dm == "pc" and cls != "CP" and not any(o["w"] == wi for o in case["objs"]) and rng.random() < 0.03:
        # more points than fit in one block of whatever size
        n = w["n"] = rng.choice([300, 600, 1300, 2600])
    if cls == "CP":
        L = rng.randint(9, 13)
    else:
        L = rng.randint(12 if cls == "Toroidal" else 9, 18 if small else 22)
    if dm == "ns":
        w.setdefault("rows", min(n - 2, max(L, n // 2)))
        L = min(L, w["rows"])
        if rng.random() < 0.3:
            L = w["rows"] if w["rows"] <= 22 else L
    elif rng.random() < 0.12 and n <= 30 and cls != "CP":
        L = n
    kw = {}
    p = {"Circular": [41, 41, 3, 7, 11, 47], "Toroidal": [41, 41, 5, 7, 13], "Proj": [2], "CP": [41, 41, 3, 7],
         "Lens": [3, 3, 5, 7]}[cls]
    prime = rng.choice(p)
    if prime != PRIME_DEFAULT[cls]:
        kw["prime"] = prime
    if cls in ("Circular", "Toroidal") and rng.random() < 0.08:
        kw["maxdim"] = 2
        L = min(L, 12)
    case["objs"].append({"cls": cls, "w": wi, "dm": dm, "L": L, "kw": kw})
    return len(case["objs"]) - 1


def gen_coords(rng, case, i, callbacks=True, reject=0.12, negative=False):
    cls = case["objs"][i]["cls"]
    kw = {"perc": rng.choice([0.3, 0.5, 0.7, 0.9, 0.95, 0.99, round(rng.uniform(0.2, 0.98), 3)])}
    if rng.random() < 0.05:
        kw["perc"] = rng.choice([0, 1, 0.0, 1.0, 0.02, 0.999])
    kw["standard_range"] = rng.random() < 0.15
    if cls == "Toroidal":
        kw["cocycle_idxs"] = rng.choice([[0], [0, 1], [1, 0], [1], [0, 1, 2], [2, 0]])
    else:
        kw["cocycle_idx"] = rng.choice([0, 0, 0, 1])
    if negative and rng.random() < 0.06:
        if cls == "Toroidal":
            kw["cocycle_idxs"] = rng.choice([[0, -1], [-1], [-2, 0]])
        else:
            kw["cocycle_idx"] = -1
    if cls == "Lens":
        kw["complex_dim"] = rng.choice([2, 2, 3, 4])
    if cls in ("Proj", "CP"):
        kw["proj_dim"] = rng.choice([1, 2, 3])
    if cls in ("Proj", "CP", "Lens"):
        kw["projective_dim_red_mode"] = rng.choice(["direct", "exponential", "one-by-one", "exponential"])
    if cls in ("Circular", "Toroidal", "CP") and rng.random() < 0.15:
        kw["check_cocycle_condition"] = False
    op = {"o": "coords", "i": i, "kw": kw}
    if rng.random() < 0.6:
        pu = ["linear", "quadratic", "exp", "cubic", "half", "pow1.5", "pow3", "pow6", "obj"]
        if callbacks:
            pu += ["reent", "reent"]
        op["pu"] = rng.choice(pu)
    if rng.random() < reject:
        bad = rng.choice(["idx", "float", "mode", "short", "boom", "dim"])
        if bad == "idx":
            if cls == "Toroidal":
                kw["cocycle_idxs"] = rng.choice([[0, 99], [99], []])
            else:
                kw["cocycle_idx"] = 99
        elif bad == "float":
            kw["cocycle_idxs" if cls == "Toroidal" else "cocycle_idx"] = "__float1"
        elif bad == "mode" and cls in ("Proj", "CP", "Lens"):
            kw["projective_dim_red_mode"] = "bogus"
        elif bad == "short":
            kw["standard_range"] = True
            if cls == "Toroidal":
                kw["cocycle_idxs"] = [3]
            else:
                kw["cocycle_idx"] = 3
        elif bad == "boom":
            op["pu"] = "boom"
        elif bad == "dim" and cls in ("Proj", "CP"):
            kw["proj_dim"] = 60
    # default arguments are part of the interface: sometimes leave everything out
    if rng.random() < 0.1:
        op["kw"] = {k: v for k, v in kw.items() if k in ("projective_dim_red_mode", "cocycle_idx") and rng.random() < 0.5}
    elif rng.random() < 0.15:
        op["kw"] = {k: v for k, v in kw.items() if rng.random() < 0.5}
    return op


def gen_query(rng, case, i, callbacks=True, reject=0.12):
    r = rng.random()
    cls = case["objs"][i]["cls"]
    if r < 0.66:
        return gen_coords(rng, case, i, callbacks, reject, negative=True)
    if r < 0.8:
        d = 2 if cls == "CP" else 1
        return {"o": "rep", "i": i, "c": rng.choice([0, 0, 1, 2, -1, 99]), "d": rng.choice([d, d, d, 5])}
    if r < 0.9:
        a, b = sorted([round(rng.uniform(0.1, 2), 3), round(rng.uniform(0.1, 4), 3)])
        if rng.random() < 0.2:
            a, b = b, a
        return {"o": "radius", "i": i, "a": [rng.choice([0.2, 0.5, 0.9]), a, b, rng.random() < 0.5]}
    return {"o": "partition", "i": i, "r": rng.choice([0.4, 0.8, 1.1, 2.0]),
            "pu": rng.choice(["linear", "quadratic", "exp", "cubic", "half", "scrib", "pow2", "pow4"])}
