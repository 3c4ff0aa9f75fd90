"""Pieces shared by the properties."""
import copy

from .. import ops, statics, worlds

REAL_ALL = ["dreimac (all modules, from /repo's working tree)", "ripser", "HiGHS (scipy.optimize.milp)", "LSQR", "LAPACK",
            "numpy", "scipy"]


def prune(case):
    """Drop objects and worlds no op uses, renumber."""
    case = copy.deepcopy(case)
    lists = []
    if "ops" in case:
        lists.append(case["ops"])
    lists += case.get("threads", [])
    if "reenter" in case:
        lists.append(case["reenter"])
    if "setup" in case:
        lists.append(case["setup"])
    if "later" in case:
        lists.append(case["later"])
    used = sorted({q[k] for l in lists for q in l for k in ("i", "buf") if k in q})
    m = {o: k for k, o in enumerate(used)}
    for l in lists:
        for q in l:
            for k in ("i", "buf"):
                if k in q:
                    q[k] = m[q[k]]
    case["objs"] = [case["objs"][o] for o in used]
    uw = sorted({o["w"] for o in case["objs"]})
    mw = {o: k for k, o in enumerate(uw)}
    for o in case["objs"]:
        o["w"] = mw[o["w"]]
    case["worlds"] = [case["worlds"][w] for w in uw]
    return case


def without(lst, k, size=1):
    return lst[:k] + lst[k + size:]


def shrink_list(case, field):
    """Candidates with fewer ops in case[field] (a list of ops)."""
    l = case[field]
    size = len(l) // 2
    while size >= 1:
        for k in range(0, len(l), size):
            c = copy.deepcopy(case)
            c[field] = without(c[field], k, size)
            if c[field]:
                yield prune(c)
        size //= 2


def simplify_ops(case, field):
    for k, q in enumerate(case[field]):
        if q.get("pu") not in (None, "linear", "reent"):
            c = copy.deepcopy(case)
            c[field][k]["pu"] = "linear"
            yield c
        for name, v in list(q.get("kw", {}).items()):
            c = copy.deepcopy(case)
            del c[field][k]["kw"][name]
            yield c


def simplify_worlds(case):
    for w, spec in enumerate(case.get("worlds", [])):
        for drop in ("embed", "scale", "shift", "layout", "f32"):
            if drop in spec:
                c = copy.deepcopy(case)
                del c["worlds"][w][drop]
                yield c
        for n in (spec["n"] // 2, spec["n"] - 4):
            if n >= 16:
                c = copy.deepcopy(case)
                c["worlds"][w]["n"] = n
                if "rows" in c["worlds"][w]:
                    c["worlds"][w]["rows"] = min(c["worlds"][w]["rows"], n - 2)
                for o in c["objs"]:
                    if o["w"] == w:
                        o["L"] = min(o["L"], c["worlds"][w].get("rows", n) if o["dm"] == "ns" else n)
                yield c


def gen_static(rng, names=None, heavy=0.02):
    names = names or statics.NAMES
    while True:
        f = rng.choice(names)
        if f in statics.HEAVY and rng.random() > heavy:
            continue
        return {"o": "static", "f": f, "s": rng.randint(0, 2**31 - 2)}


def near_static(rng, f):
    """The same helper on arguments that are easily mistaken for those of f."""
    return dict(f, near=rng.randint(1, 10**9))


def gen_rip(rng, case, share=0.3):
    """Sometimes another legal answer of the persistence solver: representatives that need the integer repair."""
    if rng.random() < share:
        o = {"s": rng.randint(0, 10**9), "cobound": rng.choice([0.15, 0.3, 1.0])}
        for k in ("perm", "flip", "rows", "classes"):
            if rng.random() < 0.3:
                o[k] = 1
        case["rip"] = o


def gen_large(rng, case, cls):
    """One object with many landmarks and one query (more simplices than fit in small index types)."""
    if cls == "CP":
        w = {"k": "octa", "n": rng.choice([80, 120, 200]), "s": rng.randint(0, 10**9), "noise": 0.05}
        L = rng.randint(76, 80)
    else:
        w = {"k": rng.choice(["circle", "ellipse", "eight"]), "s": rng.randint(0, 10**9), "noise": 0.05}
        L = rng.choice([100, 257, 370, 400])
        w["n"] = L + rng.choice([0, 40, 200])
    dm = rng.choice(["pc", "pc", "sq"])
    if rng.random() < 0.5:
        # many points instead (more than fit in small index types, more than one block)
        L = rng.randint(12, 16) if cls == "CP" else rng.randint(18, 40)
        w["n"] = rng.choice([1100, 2100, 4500] if cls == "CP" else [1100, 2100, 4500, 8500, 8500, 33000, 66000])
        dm = "pc"
    case["worlds"].append(w)
    case["objs"].append({"cls": cls, "w": 0, "dm": dm, "L": L, "kw": {}})
    kw = {"perc": rng.choice([0.02, 0.05, 0.1]), "standard_range": False}
    if cls == "CP":
        kw["perc"] = rng.choice([0.1, 0.3, 0.5])
    if cls == "Lens":
        kw["complex_dim"] = rng.choice([2, 3, 8])
    if cls in ("Proj", "CP"):
        kw["proj_dim"] = rng.choice([1, 2, 3, 8])
    if w["n"] >= 1000:
        kw["perc"] = rng.choice([0.3, 0.5, 0.7, 0.9])
    if cls in ("Proj", "Lens"):
        kw["perc"] = rng.choice([0.1, 0.3, 0.5])
        kw["projective_dim_red_mode"] = rng.choice(["direct", "exponential"])
    case["large"] = 1
    return {"o": "coords", "i": 0, "kw": kw}


VARIANTS = ("pow1.5", "pow3", "pow6")


def vary(rng, q):
    """The same query with one argument changed, sometimes only slightly."""
    q2 = copy.deepcopy(q)
    kw = q2["kw"]
    r = rng.random()
    if "perc" in kw and r < 0.45:
        d = rng.choice([-0.25, -0.13, 0.1, 0.03, 0.004, -0.0015])
        kw["perc"] = round(min(0.99, max(0.05, kw["perc"] + d)), 4)
    elif r < 0.65 or not kw:
        if q2.get("pu") in VARIANTS or rng.random() < 0.5:
            q2["pu"] = rng.choice([v for v in VARIANTS if v != q2.get("pu")])
        else:
            q2["pu"] = rng.choice(["linear", "quadratic", "exp"])
    else:
        k = rng.choice(sorted(kw))
        v = kw[k]
        if isinstance(v, bool):
            kw[k] = not v
        elif k in ("proj_dim", "complex_dim"):
            kw[k] = v + 1 if v < 3 else v - 1
        elif k == "cocycle_idx" and v in (0, 1):
            kw[k] = 1 - v
        elif k == "cocycle_idxs":
            kw[k] = rng.choice([[0], [1], [0, 1], [1, 0]])
        elif k == "projective_dim_red_mode":
            kw[k] = rng.choice(["direct", "exponential", "one-by-one"])
        else:
            q2["pu"] = rng.choice(["linear", "quadratic", "exp"])
    return q2


def twin_obj(rng, case, i):
    """An object of the same shape on different data (catches caches keyed too coarsely)."""
    o = copy.deepcopy(case["objs"][i])
    r = rng.random()
    if r > (0.75 if o["cls"] == "CP" else 0.93):
        # another kind of coordinates with the same number of landmarks
        small = o["L"] <= 13 and case["worlds"][o["w"]]["n"] <= 60
        o["cls"] = rng.choice([c for c in ("Circular", "Toroidal", "Proj", "Lens", "CP") if c != o["cls"] and (c != "CP" or small)])
        o["kw"] = {}
    elif r < 0.5:
        w = copy.deepcopy(case["worlds"][o["w"]])
        if rng.random() < 0.6:
            w["s"] = rng.randint(0, 10**9)
        else:
            # data that are easily mistaken for the others
            w["near"] = {"kind": rng.choice(worlds.NEAR), "s": rng.randint(0, 10**9)}
        case["worlds"].append(w)
        o["w"] = len(case["worlds"]) - 1
    elif r < 0.7:
        o["L"] = max(8, o["L"] - rng.randint(1, 3))
    elif r < 0.85 and o["cls"] not in ("Proj",):
        o["kw"]["prime"] = rng.choice([p for p in (3, 5, 7, 11) if p != o["kw"].get("prime")])
    elif o["cls"] == "Circular":
        o["cls"] = "Toroidal"
    elif o["cls"] == "Toroidal":
        o["cls"] = "Circular"
    case["objs"].append(o)
    return len(case["objs"]) - 1


def short_op(q, case):
    s = ops.name(q, case) if q["o"] != "drop" else "drop"
    return s
