"""Decides whether the outcome of a coordinates call is one the documentation allows."""
import itertools
import signal

import numpy as np

from . import zlinalg as Z
from .refmodel import (Model, Unclear, Rejected, circle_match, search_class, proj_match, reduce_dim, small_vectors)

DEFAULTS = {
    "Circular": dict(perc=0.5, cocycle_idx=0, standard_range=True, check_cocycle_condition=True),
    "Toroidal": dict(perc=0.5, cocycle_idxs=[0], standard_range=True, check_cocycle_condition=True),
    "CP": dict(perc=0.5, cocycle_idx=0, proj_dim=1, standard_range=True, check_cocycle_condition=True,
               projective_dim_red_mode="exponential"),
    "Proj": dict(perc=0.9, cocycle_idx=0, proj_dim=2, standard_range=True, projective_dim_red_mode="exponential"),
    "Lens": dict(perc=0.9, cocycle_idx=0, complex_dim=2, standard_range=True, projective_dim_red_mode="exponential"),
}
PRIME = {"Circular": 41, "Toroidal": 41, "CP": 41, "Proj": 2, "Lens": 3}
TOL = 2e-3


class Verdict:
    def __init__(self, kind, sig=None, msg=None, **info):
        self.kind = kind        # ok | unclear | bad | rejected
        self.sig = sig
        self.msg = msg
        self.info = info


def args_of(cls, op):
    kw = dict(DEFAULTS[cls])
    kw.update(op.get("kw", {}))
    return kw


def setup(raw, X, obj, op, drop=()):
    """Model, scale, partition and complex for a call. Raises Unclear/Rejected."""
    cls = obj["cls"]
    kw = args_of(cls, op)
    m = Model(raw, X, obj["dm"], obj.get("kw", {}).get("prime", PRIME[cls]))
    d = 2 if cls == "CP" else 1
    idxs = kw["cocycle_idxs"] if cls == "Toroidal" else [kw["cocycle_idx"]]
    picked = [m.pick(d, c, idxs) for c in idxs]
    if "projective_dim_red_mode" in kw:
        if kw["projective_dim_red_mode"] not in ("direct", "exponential", "one-by-one"):
            raise Rejected("no such reduction mode")
        if (kw["complex_dim"] - 1 if cls == "Lens" else kw["proj_dim"]) + 1 >= m.L:
            raise Unclear("nothing to reduce")
    if not picked:
        raise Rejected("no classes")
    birth = max(b for b, _, _ in picked)
    death = min(e for _, e, _ in picked)
    if abs(birth - death) < 1e-9 * max(1.0, abs(death)):
        raise Unclear("supports touch")
    if birth >= death:
        raise Rejected("supports do not intersect")
    r, t = m.scale(birth, death, kw["perc"], kw["standard_range"])
    P, covered, first = m.partition(r, op.get("pu") or "linear")
    m.complex(t)
    co = [m.cochain(c, d) for _, _, c in picked]
    if d == 1:
        co = [{e: v for e, v in x.items()} for x in co]
    # cover elements that meet must be joined by an edge
    for b in range(m.N):
        ks = np.nonzero(P[:, b])[0]
        for a_ in range(len(ks)):
            for c_ in range(a_ + 1, len(ks)):
                if not m.adj[ks[a_], ks[c_]]:
                    raise Unclear("cover element pair without an edge")
    return m, kw, P, covered, first, co


def naive_lift(m, x):
    return {e: m.centred(v) for e, v in x.items()}


def on_edges(m, x):
    return {e: v for e, v in x.items() if e in m.eid}


def circle_classes(m, x):
    """(alpha_naive or None, alpha0 or None): integral classes of the naive lift / of some lift."""
    nl = on_edges(m, naive_lift(m, x))
    # modulo 2 the sign of the naive lift depends on the orientation in which a simplex is stored
    a1 = m.class_int(nl) if m.p != 2 and m.is_cocycle1(nl) else None
    a0 = m.class_mod_p(on_edges(m, x))
    if a0 is not None:
        a0 = [c - m.p if c > m.p // 2 else c for c in a0]
    if a1 is not None and a0 is None:
        raise AssertionError("naive lift is a cocycle but the class does not lift")
    return a1, a0


def _lll(B, delta=0.99):
    """Lattice reduction of the rows (QR recomputed after every exchange)."""
    B = B.astype(float).copy()
    n = len(B)

    def gs():
        R = np.linalg.qr(B.T, mode="r")
        d = np.diag(R).copy()
        return (R / d[:, None]).T.copy(), d * d

    mu, q2 = gs()
    k = 1
    steps = 0
    while k < n and steps < 6000:
        steps += 1
        for j in range(k - 1, -1, -1):
            q = round(mu[k, j])
            if q:
                B[k] -= q * B[j]
                mu[k, : j + 1] -= q * mu[j, : j + 1]
        if q2[k] >= (delta - mu[k, k - 1] ** 2) * q2[k - 1]:
            k += 1
        else:
            B[[k, k - 1]] = B[[k - 1, k]]
            mu, q2 = gs()
            k = max(k - 1, 1)
    Q = np.linalg.qr(B.T)[0].T
    return B, Q * np.einsum("ij,ij->i", Q, B)[:, None]


def shortest(T, m, first):
    """Integer vectors whose map is nearly constant, if there are any of moderate size."""
    z = np.where(np.isnan(T).any(1), np.nan, 0.0)
    out = []
    for kw in (dict(npts=10), dict(npts=30), dict(npts=30, S=200.0)):
        out += recover(z, T, m, first, basis=True, **kw)
    return list(dict.fromkeys(v for v in out if any(v)))


def recover(theta, T, m, first, size=400.0, npts=10, basis=False, S=2e3):
    """
    Integer vectors v with theta = T v (mod 1, up to a constant per component): nearest lattice
    point in (values at a few points, v / size).
    """
    b = T.shape[1]
    idx = np.nonzero(~np.isnan(theta))[0]
    comp = np.array([m.comp[first[k]] for k in idx])
    th = theta / (2 * np.pi)
    out = []
    for seed in range(3):
        R = np.random.RandomState(seed)
        rows, tg = [], []
        cs = sorted(set(comp.tolist()))
        per = max(2, npts // len(cs), b)
        for c in cs:
            mem = idx[comp == c]
            mem = R.permutation(mem)
            # points on which every class shows, then random ones
            W = T[mem] - T[mem[0]]
            W = W - np.rint(W)
            piv = []
            for _ in range(min(b, len(mem) - 1)):
                nr = np.linalg.norm(W, axis=1)
                k = int(np.argmax(nr))
                if nr[k] < 1e-3:
                    break
                piv.append(k)
                u = W[k] / nr[k]
                W = W - np.outer(W @ u, u)
            seen, rest = set(), []
            for k, x in enumerate(mem):
                key = tuple(np.round((T[x] - T[mem[0]]) % 1, 6))
                if k and k not in piv and key not in seen:
                    seen.add(key)
                    rest.append(x)
            sel = [mem[k] for k in piv] + rest
            for x in sel[:per]:
                rows.append(T[x] - T[mem[0]])
                tg.append(th[x] - th[mem[0]])
        if not rows:
            return out
        D, t = np.array(rows), np.array(tg)
        n = len(t)
        L = np.zeros((b + n, n + b))
        L[:b, :n] = D.T * S
        L[:b, n:] = np.eye(b) / size
        L[b:, :n] = np.eye(n) * S
        tgt = np.r_[t * S, np.zeros(b)]
        B, Q = _lll(L)
        if basis:
            out += [tuple(int(x) for x in np.rint(r[n:] * size)) for r in B]
            continue
        r = tgt.copy()
        for k in range(len(B) - 1, -1, -1):
            r = r - np.rint(r @ Q[k] / (Q[k] @ Q[k])) * B[k]
        v = np.rint((tgt - r)[n:] * size).astype(int)
        v = tuple(int(x) for x in v)
        if v not in out:
            out.append(v)
    return out


HARDER = [dict(npts=30), dict(S=5e4), dict(npts=30, S=5e4)]


def judge_circle_row(m, theta, T, P, covered, first, exact, base):
    """Is theta the map of a class congruent to base modulo p?"""
    comps = m.point_components(first)
    if not T.shape[1]:
        return search_class(theta, T, comps, covered, [()], TOL)
    cands = ([tuple(exact)] if exact is not None else []) + [tuple(base)]
    w, v = search_class(theta, T, comps, covered, cands, TOL)
    if w <= TOL:
        return w, v
    if T.shape[1] > 6:
        raise Unclear("many classes")
    rest = theta - 2 * np.pi * (T @ np.array(base, dtype=float))
    ks = recover(rest, m.p * T, m, first) + small_vectors(T.shape[1], {1: 8, 2: 4, 3: 2}.get(T.shape[1], 0))
    to = lambda vs: [tuple(a + m.p * k for a, k in zip(base, v)) for v in vs]
    w, v = search_class(theta, T, comps, covered, to(ks), TOL)
    for kw_ in HARDER:
        if w > TOL:
            w, v = search_class(theta, T, comps, covered, to(recover(rest, m.p * T, m, first, **kw_)), TOL)
    return w, v


def basic_circle(theta, covered, N):
    theta = np.asarray(theta)
    if theta.shape != (N,):
        return "shape %s instead of (%d,)" % (theta.shape, N)
    nan = np.isnan(theta)
    if (nan != ~covered).any():
        b = int(np.argwhere(nan != ~covered)[0][0])
        return "point %d is %s" % (b, "NaN but is covered" if nan[b] else "a number but is not covered")
    z = theta[covered]
    if z.size and (z.min() < -1e-9 or z.max() > 2 * np.pi + 1e-9):
        return "value outside [0, 2 pi]"
    return None


class TooLong(Exception):
    pass


def _alarm(*a):
    raise TooLong()


def judge(raw, X, obj, op, out, milp_ok=True, wide=False, direct=False):
    """
    direct: judge only classes whose naive lift is a cocycle, without integer homology (for large data).
    raw: the persistence solver's answer; out: outcome of the call (ops.perform).
    milp_ok: every integer program the call issued was answered with a feasible point.
    """
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(40)
    try:
        return _judge(raw, X, obj, op, out, milp_ok, wide, direct)
    except TooLong:
        return Verdict("unclear", msg="reference too expensive")
    except Unclear as e:
        return Verdict("unclear", msg=str(e))
    except Rejected as e:
        if out["k"] == "ok":
            return Verdict("bad", "not-rejected", "returned coordinates although it must be rejected: %s" % e)
        return Verdict("rejected", msg=str(e))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _judge(raw, X, obj, op, out, milp_ok, wide, direct=False):
    cls = obj["cls"]
    m, kw, P, covered, first, co = setup(raw, X, obj, op)
    if not covered.any():
        raise Unclear("nothing covered")
    if direct and cls in ("Circular", "Toroidal", "CP"):
        return judge_direct(m, cls, kw, P, covered, first, co, out)
    if cls in ("Circular", "Toroidal"):
        return judge_circle(m, cls, kw, P, covered, first, co, out, milp_ok, wide)
    if cls == "CP":
        return judge_cp(m, kw, P, covered, first, co[0], out, milp_ok)
    q = 2 if cls == "Proj" else m.p
    F = m.ff_class_map(co[0], P, covered, first, q)
    dim = kw["complex_dim"] - 1 if cls == "Lens" else kw["proj_dim"]
    R = reduce_dim(F, covered, dim, kw["projective_dim_red_mode"])
    if out["k"] != "ok":
        return Verdict("bad", "raises", "raised %s(%s)" % (out["t"], out["m"]))
    A = out["v"][1]
    msg = proj_match(A, R, q, 1e-3)
    if msg:
        return Verdict("bad", "wrong", msg)
    return Verdict("ok", naive=True, uncovered=int((~covered).sum()), nontrivial=bool(m.tris))


def judge_direct(m, cls, kw, P, covered, first, co, out):
    if len(co) != 1:
        raise Unclear("several classes")
    if m.p == 2:
        raise Unclear("modulo 2 the naive lift depends on orientations")
    if cls == "CP":
        nl = {t: v for t, v in naive_lift(m, co[0]).items() if t in m.tid}
        if not m.is_cocycle2(nl):
            raise Unclear("naive lift is no cocycle")
    else:
        nl = on_edges(m, naive_lift(m, co[0]))
        if not m.is_cocycle1(nl):
            raise Unclear("naive lift is no cocycle")
    info = dict(naive=True, uncovered=int((~covered).sum()))
    if out["k"] != "ok":
        return Verdict("bad", "raises", "raised %s(%s)" % (out["t"], out["m"]), **info)
    if cls == "CP":
        F, h = m.cp_class_map(nl, P, covered, first)
        R = reduce_dim(F, covered, kw["proj_dim"], kw["projective_dim_red_mode"], 1e-3)
        msg = proj_match(out["v"][1], R, 0, 5e-3)
        if msg and delicate(m, nl, P, covered, first, kw, R, co[0]):
            raise Unclear("accuracy of the least squares decides")
        return Verdict("bad", "wrong", msg, **info) if msg else Verdict("ok", **info)
    v = out["v"]
    th = np.asarray(v[1] if cls == "Circular" else (v[1][0][1] if v[0] == "l" else np.asarray(v[1])[0]))
    msg = basic_circle(th, covered, m.N)
    if msg:
        return Verdict("bad", "wrong", msg, **info)
    T = m.circle_maps([nl], P, covered, first)
    w = circle_match(th, T[:, 0], m.point_components(first), covered, TOL)
    if w > TOL:
        return Verdict("bad", "wrong", "the coordinates of the class are off by %.3g rad" % w, **info)
    return Verdict("ok", **info)


def judge_circle(m, cls, kw, P, covered, first, co, out, milp_ok, wide):
    check = kw["check_cocycle_condition"]
    B = m.h1()
    b = len(B)
    naive, base = [], []
    for x in co:
        a1, a0 = circle_classes(m, x)
        naive.append(a1)
        base.append(a0)
    info = dict(naive=all(a is not None for a in naive), liftable=all(a is not None for a in base), betti=b,
                uncovered=int((~covered).sum()), comps=max(m.comp) + 1)
    if not check and not info["naive"]:
        return Verdict("unclear", msg="check switched off and the naive lift is no cocycle", **info)
    if not info["liftable"]:
        if out["k"] == "ok":
            return Verdict("bad", "not-liftable", "returned coordinates for a class without integral lift", **info)
        return Verdict("rejected", msg="no integral lift", **info)
    if not info["naive"] and not milp_ok:
        if out["k"] == "ok":
            return Verdict("bad", "solver-failed", "returned coordinates although the integer solver did not succeed", **info)
        return Verdict("rejected", msg="solver failed", **info)
    T = m.circle_maps(B, P, covered, first) if b else np.where(covered, 0.0, np.nan)[:, None][:, :0]
    G = None
    if b:
        _, H = m.harmonic1(B)
        G = H.T @ H
    if len(co) > 1:
        if b > 6:
            return Verdict("unclear", msg="many classes", **info)
        cl = [naive[k] if naive[k] is not None else base[k] for k in range(len(co))]
        A = np.array(cl, dtype=float)
        if np.linalg.matrix_rank(A @ np.asarray(G) @ A.T if b else np.zeros((len(co),) * 2), tol=1e-9) < len(co):
            return Verdict("unclear", msg="dependent classes", **info)
    if out["k"] != "ok":
        return Verdict("bad", "raises", "raised %s(%s)" % (out["t"], out["m"]), **info)
    v = out["v"]
    rows = [v[1]] if cls == "Circular" else ([x[1] for x in v[1]] if v[0] == "l" else list(np.asarray(v[1])))
    if len(rows) != len(co):
        return Verdict("bad", "rows", "%d rows for %d classes" % (len(rows), len(co)), **info)
    for k, th in enumerate(rows):
        msg = basic_circle(th, covered, m.N)
        if msg:
            return Verdict("bad", "wrong", "row %d: %s" % (k, msg), **info)
    if len(co) == 1:
        w, vec = judge_circle_row(m, np.asarray(rows[0]), T, P, covered, first, naive[0], base[0])
        if w > TOL:
            if b > 4 and naive[0] is None:
                return Verdict("unclear", msg="many classes", **info)
            return Verdict("bad", "wrong", "no integral lift of the class gives these coordinates (closest is off by %.3g rad)" % w, **info)
        info["worst"] = w
        return Verdict("ok", **info)
    return judge_rows(m, rows, T, G, P, covered, first, naive, base, info)


def ambiguous(T, m, first, covered, combos=()):
    """Some non-zero class has a constant map on the points at hand: classes cannot be read off."""
    comps = m.point_components(first)
    z = np.where(covered, 0.0, np.nan)
    b = T.shape[1]
    vs = [v for v in shortest(T, m, first)] + [v for v in small_vectors(b, 1 if b <= 5 else 0)] + list(combos)
    for v in vs:
        if any(v) and circle_match(z, T @ np.array(v, dtype=float), comps, covered, 0.1) <= 0.1:
            return True
    return False


def judge_rows(m, rows, T, G, P, covered, first, naive, base, info):
    v = _judge_rows(m, rows, T, G, P, covered, first, naive, base, info)
    if v.kind == "bad":
        # the classes were read off the values at the sample points: is that reading unique?
        if not info["naive"] and (m.p > 11 or T.shape[1] > 4):
            return Verdict("unclear", msg="large repaired classes", **info)
        if ambiguous(T, m, first, covered):
            return Verdict("unclear", msg="classes cannot be read off the points", **info)
    return v


def _judge_rows(m, rows, T, G, P, covered, first, naive, base, info):
    """C08: rows are a unimodular recombination, LLL-reduced."""
    b, n = T.shape[1], len(rows)
    comps = m.point_components(first)
    A = np.array([naive[k] if naive[k] is not None else base[k] for k in range(n)], dtype=int)
    combos = {tuple(np.array(c) @ A) for c in small_vectors(n, 2 if n <= 3 else 1)}
    combos = sorted(combos, key=lambda v: (max(map(abs, v), default=0), v))
    V = []
    # repaired lifts can be large, and the recombination adds up their rounding errors
    TOL = 2e-3 if info["naive"] else 2e-2
    for k, th in enumerate(rows):
        th = np.asarray(th)
        w, vec = search_class(th, T, comps, covered, combos, TOL)
        if w > TOL and info["naive"]:
            # the classes are known exactly: look for the combination
            TA = T @ A.T
            for kw_ in [dict()] + HARDER:
                if w > TOL:
                    ms = recover(th, TA, m, first, **kw_)
                    w2, vec2 = search_class(th, T, comps, covered, [tuple(int(x) for x in np.array(c) @ A) for c in ms], TOL)
                    if w2 < w:
                        w, vec = w2, vec2
        if w > TOL:
            if b > 6:
                raise Unclear("many classes")
            more = recover(th, T, m, first)
            if b <= 3:
                more += small_vectors(b, 6 if b <= 2 else 4)
            elif b <= 5:
                more += small_vectors(b, 2)
            w2, vec2 = search_class(th, T, comps, covered, more, TOL)
            for kw_ in HARDER:
                if w2 > TOL:
                    w2, vec2 = search_class(th, T, comps, covered, recover(th, T, m, first, **kw_), TOL)
            if w2 < w:
                w, vec = w2, vec2
        if w > TOL:
            return Verdict("bad", "row-wrong", "row %d is not the circle map of an integral class (closest is off by %.3g rad)" % (k, w),
                           **info)
        V.append(vec)
    V = np.array(V, dtype=int)
    exact = info["naive"]
    if exact:
        # the classes are known: V = M A with M integral, det +-1
        M = Z.solve_rational([list(map(int, a)) for a in A], [list(map(int, v)) for v in V])
        if M is None:
            return Verdict("bad", "span", "rows %s are not integer combinations of the classes %s" % (V.tolist(), A.tolist()), **info)
        if any(c.denominator != 1 for r in M for c in r):
            return Verdict("bad", "span", "rows %s are not integer combinations of the classes %s" % (V.tolist(), A.tolist()), **info)
        Mi = [[int(c) for c in r] for r in M]
        d = Z.det(Mi)
        if abs(d) != 1:
            return Verdict("bad", "det", "recombination %s has determinant %s" % (Mi, d), **info)
        info["change"] = Mi
    else:
        # the lifts are only known modulo p
        p = m.p
        Mp = mod_solve(A % p, V % p, p)
        if Mp == "dependent":
            return Verdict("unclear", msg="classes dependent modulo p", **info)
        if Mp is None:
            return Verdict("bad", "span", "rows %s are not combinations of the classes %s modulo %d" % (V.tolist(), A.tolist(), p), **info)
        d = Z.det([[int(c) for c in r] for r in Mp]) % p
        if d not in (1, p - 1):
            return Verdict("bad", "det", "recombination modulo %d has determinant %d" % (p, d), **info)
    # reduced for the Dirichlet inner product of the rows, in the order returned
    Gv = V @ G @ V.T
    try:
        C = np.linalg.cholesky(Gv)
    except np.linalg.LinAlgError:
        return Verdict("bad", "singular", "the rows are linearly dependent", **info)
    r2 = np.diag(C) ** 2
    mu = C / np.diag(C)[None, :]
    for k in range(n):
        for j in range(k):
            if abs(mu[k, j]) > 0.5 + 1e-3:
                return Verdict("bad", "size", "rows %d,%d are not size-reduced (mu = %.4f)" % (k, j, mu[k, j]), **info)
        if k and r2[k] < (0.75 - mu[k, k - 1] ** 2) * r2[k - 1] - 1e-3 * r2[k - 1]:
            return Verdict("bad", "exchange", "rows %d,%d violate the exchange condition" % (k - 1, k), **info)
    return Verdict("ok", **info)


def mod_solve(A, V, p):
    """M with M A = V modulo p."""
    n, b = A.shape
    # column echelon of A^T | V^T
    W = np.concatenate([A.T % p, V.T % p], axis=1).astype(object)
    row = 0
    for c in range(n):
        piv = None
        for r in range(row, b):
            if W[r, c] % p:
                piv = r
                break
        if piv is None:
            return "dependent"
        W[[row, piv]] = W[[piv, row]]
        W[row] = (W[row] * pow(int(W[row, c]), -1, p)) % p
        for r in range(b):
            if r != row and W[r, c] % p:
                W[r] = (W[r] - W[r, c] * W[row]) % p
        row += 1
    if any((W[r, n:] % p).any() for r in range(row, b)):
        return None
    return [[int(W[j, n + k]) for j in range(n)] for k in range(V.shape[0])]


def delicate(m, c, P, covered, first, kw, R, x):
    """Does the reference itself move when its least squares are solved with the usual accuracy (1e-6) only?"""
    rest = float(np.sqrt(sum(v * v for t, v in naive_lift(m, x).items() if t not in m.tid)))
    for acc in (1e-6, 3e-6):
        F, _ = m.cp_class_map(c, P, covered, first, acc, rest)
        try:
            R2 = reduce_dim(F, covered, kw["proj_dim"], kw["projective_dim_red_mode"], 5e-4)
        except Unclear:
            return True
        if proj_match(R2, R, 0, 1.2e-3) is not None:
            return True
    return False


def judge_cp(m, kw, P, covered, first, x, out, milp_ok):
    nl = {t: v for t, v in naive_lift(m, x).items() if t in m.tid}
    is_n = m.p != 2 and m.is_cocycle2(nl)
    info = dict(naive=is_n, uncovered=int((~covered).sum()), liftable=True)
    if len(m.tris) > 1500 or len(m.tets()) > 6000:
        raise Unclear("complex too large for the reference")
    if not kw["check_cocycle_condition"] and not is_n:
        return Verdict("unclear", msg="check switched off and the naive lift is no cocycle", **info)
    cands = []
    if is_n:
        cands = [nl]
    else:
        l = m.lift2({t: v for t, v in x.items() if t in m.tid})
        if l is None:
            info["liftable"] = False
            if out["k"] == "ok":
                return Verdict("bad", "not-liftable", "returned coordinates for a class without integral lift", **info)
            return Verdict("rejected", msg="no integral lift", **info)
        if not milp_ok:
            if out["k"] == "ok":
                return Verdict("bad", "solver-failed", "returned coordinates although the integer solver did not succeed", **info)
            return Verdict("rejected", msg="solver failed", **info)
        alpha, gen, rank = l
        if rank > 1:
            if out["k"] != "ok":
                return Verdict("bad", "raises", "raised %s(%s)" % (out["t"], out["m"]), **info)
            return Verdict("unclear", msg="several free classes", **info)
        if rank == 0:
            cands = [alpha]
        else:
            for k in sorted(range(-8, 9), key=abs):
                c = dict(alpha)
                for t, v in gen.items():
                    c[t] = c.get(t, 0) + m.p * k * v
                cands.append(c)
    if out["k"] != "ok":
        return Verdict("bad", "raises", "raised %s(%s)" % (out["t"], out["m"]), **info)
    A = out["v"][1]
    best = None
    unclear = delicates = 0
    for c in cands:
        F, h = m.cp_class_map(c, P, covered, first)
        if not is_n and m.h1_betti_real:
            raise Unclear("first cohomology present: representatives are not equivalent")
        try:
            R = reduce_dim(F, covered, kw["proj_dim"], kw["projective_dim_red_mode"], 1e-3)
        except Unclear:
            unclear += 1
            continue
        msg = proj_match(A, R, 0, 5e-3)
        if msg is None:
            return Verdict("ok", **info)
        if len(A) == len(R) and delicate(m, c, P, covered, first, kw, R, x):
            delicates += 1
        best = best or msg
    if unclear:
        raise Unclear("eigenvalue gap")
    if delicates:
        raise Unclear("accuracy of the least squares decides")
    return Verdict("bad", "wrong", best, **info)
