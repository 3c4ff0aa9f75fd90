"""Simulated solvers: any legal answer, or a failure."""
import copy
import hashlib

import numpy as np

from . import seams, zlinalg


def copy_raw(r):
    return {"dgms": [np.array(d) for d in r["dgms"]], "cocycles": [[np.array(c) for c in l] for l in r["cocycles"]],
            "idx_perm": np.array(r["idx_perm"]), "dperm2all": np.array(r["dperm2all"])}


def corrupt(D, col, kind):
    """Readings of the distances to one point are damaged. part*: only some of them."""
    n = D.shape[0]
    if D.dtype.kind in "iu":
        D[:, col] += 100000
        return
    if kind == "nan":
        D[:, col] = np.nan
    elif kind == "nan1":
        D[:, col] = 1e3 * max(1.0, float(np.nanmax(np.where(np.isfinite(D), D, 0))))
        D[col % n, col] = np.nan
    elif kind == "inf":
        D[:, col] = np.inf
    elif kind == "mixed":
        D[::2, col] = np.inf
        D[1::2, col] = np.nan
    elif kind == "far":
        D[:, col] += 1e3 * max(1.0, float(np.nanmax(np.where(np.isfinite(D), D, 0))))
    elif kind == "huge":
        D[:, col] = 1e300
    elif kind == "part":
        D[(col * 7) % n, col] = np.nan
    elif kind == "partinf":
        D[col % 3::3, col] = np.inf
    elif kind == "parthalf":
        D[col % 2::2, col] = np.nan


class SimRipser:
    """
    Wraps the persistence solver.  opts: perm, classes, rows, flip, cobound (strength).
    Records what the library was given (before it could alter it).
    """

    def __init__(self, opts, seed, stable=False):
        """stable: the answer depends on the question only, not on how many were asked before"""
        self.opts = opts
        self.seed = seed
        self.stable = stable
        self.rng = np.random.RandomState(seed % (2**31 - 1))
        self.log = []
        self.events = {}

    def ev(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + n

    def make(self, real):
        def ripser(*a, **kw):
            if not seams.called_from_repo(2):
                return real(*a, **kw)
            if self.stable:
                self.rng = np.random.RandomState(_question(self.seed, a, kw))
            r = real(*a, **kw)
            r = dict(r)
            coeff = kw.get("coeff", 2)
            self.perturb(r, coeff)
            if self.opts.get("lose"):
                self.lose(r)
            self.log.append(copy_raw(r))
            return r

        return ripser

    def perturb(self, r, p):
        o, R = self.opts, self.rng
        idx = np.array(r["idx_perm"])
        L = len(idx)
        Dll = np.array(r["dperm2all"])[:, idx]
        pos = {int(v): k for k, v in enumerate(idx)}
        if o.get("mix"):
            self.mix(r, p, pos)
        if o.get("cobound"):
            for d in range(1, len(r["dgms"])):
                for k in range(len(r["cocycles"][d])):
                    if R.random_sample() < 0.8:
                        new = self.cohomologous(r["cocycles"][d][k], d, p, idx, pos, Dll, float(r["dgms"][d][k, 1]), o["cobound"])
                        if new is not None:
                            r["cocycles"][d][k] = new
                            self.ev("cohomologous representative")
        for d in range(1, len(r["dgms"])):
            for k in range(len(r["cocycles"][d])):
                c = np.array(r["cocycles"][d][k])
                if len(c) == 0:
                    continue
                if o.get("flip"):
                    for row in c:
                        if R.random_sample() < 0.5:
                            i, j = R.permutation(d + 1)[:2]
                            row[i], row[j] = row[j], row[i]
                            row[-1] = (-row[-1]) % p
                    self.ev("simplices reoriented")
                if o.get("rows"):
                    c = c[R.permutation(len(c))]
                    self.ev("simplices reordered")
                r["cocycles"][d][k] = c
        if o.get("classes"):
            for d in range(1, len(r["dgms"])):
                n = len(r["dgms"][d])
                if n > 1:
                    q = R.permutation(n)
                    r["dgms"][d] = np.array(r["dgms"][d])[q]
                    r["cocycles"][d] = [r["cocycles"][d][i] for i in q]
                    self.ev("classes reordered")
        if o.get("perm"):
            q = R.permutation(L)
            r["idx_perm"] = idx[q]
            r["dperm2all"] = np.array(r["dperm2all"])[q]
            self.ev("landmarks reordered")

    def lose(self, r):
        """Distance readings of points that are no landmarks are lost or corrupted on the way back."""
        D = np.array(r["dperm2all"])
        if D.dtype.kind != "f":
            return
        land = set(int(v) for v in r["idx_perm"])
        rest = [j for j in range(D.shape[1]) if j not in land]
        for u, kind in self.opts["lose"]:
            if rest:
                corrupt(D, rest[int(u * len(rest)) % len(rest)], kind)
                self.ev("reading " + kind)
        r["dperm2all"] = D

    def mix(self, r, p, pos):
        """Another basis of the same persistence module: add a class that is defined wherever the first one is."""
        R = self.rng
        dg, cs = np.array(r["dgms"][1], dtype=float), r["cocycles"][1]
        vals = []
        for c in cs:
            v = {}
            for row in c:
                vs = [pos[int(x)] for x in row[:-1]]
                v[tuple(sorted(vs))] = (_sign(vs) * int(row[-1])) % p
            vals.append(v)
        idx = np.array(r["idx_perm"])
        for i in range(len(cs)):
            new = dict(vals[i])
            hit = False
            for j in range(len(cs)):
                if j != i and dg[j, 0] >= dg[i, 0] and dg[j, 1] >= dg[i, 1] and R.random_sample() < 0.6:
                    a = int(R.choice([-3, -2, -1, 1, 2, 3]))
                    hit = True
                    for s, v in vals[j].items():
                        new[s] = (new.get(s, 0) + a * v) % p
            rows = [[int(idx[s[1]]), int(idx[s[0]]), (-v) % p] for s, v in sorted(new.items()) if v % p]
            if hit and rows:
                r["cocycles"][1][i] = np.array(rows, dtype=np.asarray(cs[i]).dtype)
                self.ev("basis of the persistence module changed")

    def cohomologous(self, coc, d, p, idx, pos, D, death, strength):
        R = self.rng
        L = len(idx)
        if not np.isfinite(death):
            death = np.inf
        vals = {}
        for row in coc:
            vs = [pos[int(v)] for v in row[:-1]]
            sg = _sign(vs)
            vals[tuple(sorted(vs))] = (sg * int(row[-1])) % p
        if d == 1:
            f = np.zeros(L, dtype=int)
            m = max(1, int(strength * L))
            for v in R.choice(L, m, replace=False):
                f[v] = R.randint(-2, 3) if strength < 0.5 else R.randint(0, p)
            for i in range(L):
                for j in range(i + 1, L):
                    if D[i, j] < death:
                        x = (vals.get((i, j), 0) + int(f[i] - f[j])) % p
                        vals[(i, j)] = x
        elif d == 2:
            g = {}
            for i in range(L):
                for j in range(i + 1, L):
                    if D[i, j] < death and R.random_sample() < strength:
                        g[(i, j)] = R.randint(-1, 2) if strength < 0.5 else R.randint(0, p)
            for i in range(L):
                for j in range(i + 1, L):
                    if D[i, j] < death:
                        for k in range(j + 1, L):
                            if D[i, k] < death and D[j, k] < death:
                                s = g.get((i, j), 0) + g.get((j, k), 0) - g.get((i, k), 0)
                                if s:
                                    vals[(i, j, k)] = (vals.get((i, j, k), 0) + s) % p
        else:
            return None
        rows = []
        for s, v in sorted(vals.items()):
            if v % p:
                # like the solver: vertices in decreasing order
                rev = list(reversed(s))
                sg = _sign(rev)
                rows.append([int(idx[x]) for x in rev] + [(sg * v) % p])
        if not rows:
            return None
        return np.array(rows, dtype=np.asarray(coc).dtype)


def _question(seed, a, kw):
    h = hashlib.sha256(str(seed).encode())
    for k, v in [(str(i), v) for i, v in enumerate(a)] + sorted(kw.items()):
        h.update(k.encode())
        if isinstance(v, np.ndarray):
            h.update(repr((v.shape, v.dtype.str)).encode() + np.ascontiguousarray(v).tobytes())
        elif v is None or isinstance(v, (bool, int, float, str)):
            h.update(repr(v).encode())
    return int.from_bytes(h.digest()[:4], "big") % (2**31 - 1)


def _sign(vs):
    s = 1
    for a in range(len(vs)):
        for b in range(a + 1, len(vs)):
            if vs[a] > vs[b]:
                s = -s
    return s


class SimEigh:
    """Eigenvectors with arbitrary signs (real) or phases (complex)."""

    def __init__(self, seed):
        self.rng = np.random.RandomState(seed % (2**31 - 1))
        self.n = 0

    def make(self, real):
        def eigh(a, *args, **kw):
            r = real(a, *args, **kw)
            if not seams.called_from_repo(2):
                return r
            w, V = r
            self.n += 1
            if np.iscomplexobj(V):
                ph = np.exp(2j * np.pi * self.rng.random_sample(V.shape[1]))
            else:
                ph = self.rng.choice([-1.0, 1.0], V.shape[1])
            V = V * ph[None, :]
            try:
                return type(r)(w, V)
            except TypeError:
                return w, V

        return eigh


class SimMilp:
    """
    script: list of modes, one per call (last one repeats):
      "real"      the real answer (node limit)
      "shift"     real answer + a random integer vector that keeps every constraint satisfied
      "noise"     real answer, integral only up to tolerance
      "shiftnoise"
      "none"      not solved, no point returned (status 1..4)
      "partial"   not solved, but a point is returned
      "raise"     the solver raises
    """

    def __init__(self, script, seed, node_limit=None, exc=RuntimeError):
        self.script = list(script)
        self.rng = np.random.RandomState(seed % (2**31 - 1))
        self.log = []
        self.limit = node_limit or seams.NODE_LIMIT
        self.exc = exc

    def make(self, real):
        lim = seams.limited_milp(real, self.limit)

        def milp(c, *, integrality=None, bounds=None, constraints=None, options=None):
            n = len(self.log)
            mode = self.script[min(n, len(self.script) - 1)]
            ent = {"mode": mode}
            self.log.append(ent)
            if mode == "raise":
                e = self.exc("injected:milp")
                e._simkit_injected = True
                raise e
            r = lim(c, integrality=integrality, bounds=bounds, constraints=constraints, options=options)
            ent["status"] = int(r.status)
            ent["success"] = bool(r.success)
            if mode in ("none", "partial"):
                r = copy.copy(r)
                st = int(self.rng.randint(1, 5))
                x = r.get("x")
                r["success"] = False
                r["status"] = st
                r["message"] = "simulated: not solved"
                if mode == "none":
                    r["x"] = None
                else:
                    r["x"] = np.zeros(len(np.atleast_1d(c))) if x is None else np.array(x) + self.rng.randint(-1, 2, len(x))
                ent["success"] = False
                ent["status"] = st
                return r
            if not r.success:
                return r
            x = np.array(r.x, dtype=float)
            if "shift" in mode and not np.any(np.asarray(c)):
                y = self.shifted(np.rint(x), constraints, bounds)
                if y is not None:
                    x = y
                    ent["shifted"] = True
            if "noise" in mode:
                x = x + self.rng.choice([-1, 1], len(x)) * 1e-7 * self.rng.random_sample(len(x))
                ent["noisy"] = True
            r = copy.copy(r)
            r["x"] = x
            return r

        return milp

    def shifted(self, x, constraints, bounds):
        cons = constraints if isinstance(constraints, (list, tuple)) else [constraints]
        try:
            A = cons[0].A
            A = A.tocsr() if hasattr(A, "tocsr") else __import__("scipy.sparse", fromlist=["csr_matrix"]).csr_matrix(A)
        except Exception:
            return None
        rows = []
        for k in range(A.shape[0]):
            s, e = A.indptr[k], A.indptr[k + 1]
            row = {}
            for j, v in zip(A.indices[s:e], A.data[s:e]):
                row[int(j)] = row.get(int(j), 0) + int(round(v))
            rows.append({j: v for j, v in row.items() if v})
        ker = zlinalg.kernel([r for r in rows if r], A.shape[1])
        if not ker:
            return None
        R = self.rng
        y = x.copy()
        big = int(R.choice([1, 1, 1, 4]))
        for k in R.choice(len(ker), min(len(ker), 6), replace=False):
            m = int(R.choice([-1, 1])) * big
            for j, v in ker[k].items():
                y[j] += m * v
        for c in cons:
            try:
                z = c.A @ y
                if (z < np.asarray(c.lb) - 1e-9).any() or (z > np.asarray(c.ub) + 1e-9).any():
                    return None
            except Exception:
                return None
        try:
            if bounds is not None and ((y < np.asarray(bounds.lb) - 1e-9).any() or (y > np.asarray(bounds.ub) + 1e-9).any()):
                return None
        except Exception:
            return None
        return y
