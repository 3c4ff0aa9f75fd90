"""
Independent reference model of the documented constructions.  It works from the answer the
persistence solver gave (before the library touched it), with dense linear algebra and
exact integer cohomology, and never calls the library.
"""
import itertools

import numpy as np

from . import zlinalg as Z

BUMPS = {
    "linear": lambda d, r: r - d,
    "quadratic": lambda d, r: (r - d) ** 2,
    "exp": lambda d, r: np.exp(r ** 2 / (d ** 2 - r ** 2)),
    "cubic": lambda d, r: (r - d) ** 3,
    "half": lambda d, r: np.maximum(0.75 * r - d, 0),
    "hole": lambda d, r: np.where(d < 0.25 * r, 0.0, r - d),
    "pow1.5": lambda d, r: np.maximum(r - d, 0) ** 1.5,
    "pow3": lambda d, r: np.maximum(r - d, 0) ** 3,
    "pow6": lambda d, r: np.maximum(r - d, 0) ** 6,
    "obj": lambda d, r: np.maximum(r - d, 0) ** 1.5,
    "reent": lambda d, r: r - d,
    None: lambda d, r: r - d,
}


class Unclear(Exception):
    """The case is numerically or combinatorially ambiguous: not judged."""


class Rejected(Exception):
    """The documented behaviour is to raise."""


class Model:
    def __init__(self, raw, X, dm, prime, skip_cols=()):
        """raw: dict with dgms, cocycles (original ids), idx_perm, dperm2all — a private copy."""
        self.raw = raw
        self.p = prime
        self.land = [int(i) for i in raw["idx_perm"]]
        self.pos = {v: k for k, v in enumerate(self.land)}
        if dm == "ns":
            self.D = np.array(X, dtype=float)[self.land, :]
        else:
            self.D = np.array(raw["dperm2all"], dtype=float)
        self.DL = self.D[:, self.land]
        self.L = len(self.land)
        self.N = self.D.shape[1]

    # -- classes -----------------------------------------------------------------
    def order(self, d):
        dg = np.asarray(self.raw["dgms"][d], dtype=float)
        if len(dg) == 0:
            return [], dg
        pers = dg[:, 1] - dg[:, 0]
        return list(np.argsort(-pers, kind="stable")), dg

    def pick(self, d, c, group=()):
        """group: all classes asked for; a tie among them does not matter"""
        if d >= len(self.raw["dgms"]):
            raise Rejected("no such dimension")
        o, dg = self.order(d)
        if isinstance(c, int) and c < 0:
            raise Unclear("classes counted from the end are not documented")
        if not isinstance(c, int) or c >= len(o):
            raise Rejected("no such class")
        pers = np.array([dg[k, 1] - dg[k, 0] for k in o])
        me = pers[c]
        others = np.delete(pers, [g for g in set(group) | {c} if isinstance(g, int) and 0 <= g < len(pers)])
        if len(others) and np.isfinite(me) and np.min(np.abs(others - me)) < 1e-6 * max(1e-12, np.max(pers[np.isfinite(pers)])):
            raise Unclear("tie in persistence")
        k = o[c]
        return float(dg[k, 0]), float(dg[k, 1]), np.array(self.raw["cocycles"][d][k])

    def scale(self, birth, death, perc, standard_range):
        start = 2 * birth if standard_range else birth
        if abs(start - death) < 1e-9 * max(1.0, death):
            raise Unclear("empty range up to rounding")
        if start > death:
            raise Rejected("class too short")
        t = (1 - perc) * start + perc * death
        if not np.isfinite(t):
            raise Unclear("infinite class")
        iu = np.triu_indices(self.L, 1)
        gap = np.abs(self.DL[iu] - t)
        if gap.size and np.min(gap) < 1e-6 * t:
            raise Unclear("edge at the threshold")
        return t / 2, t

    # -- partition of unity --------------------------------------------------------
    def partition(self, r, bump):
        with np.errstate(all="ignore"):
            U = self.D < r
            phi = np.zeros(self.D.shape)
            phi[U] = BUMPS[bump](self.D[U], r)
            s = phi.sum(0)
        covered = s > 0
        near = np.abs(self.D - r) < 1e-9 * max(r, 1e-300)
        if near.any():
            raise Unclear("distance at the cover radius")
        P = np.zeros_like(phi)
        P[:, covered] = phi[:, covered] / s[covered]
        first = np.array([int(np.argmax(P[:, b] > 0)) if covered[b] else -1 for b in range(self.N)])
        return P, covered, first

    # -- the complex ---------------------------------------------------------------
    def complex(self, t):
        n = self.L
        adj = self.DL < t
        self.edges = [(i, j) for i in range(n) for j in range(i + 1, n) if adj[i, j]]
        self.eid = {e: k for k, e in enumerate(self.edges)}
        self.tris = []
        for (i, j) in self.edges:
            for k in range(j + 1, n):
                if adj[i, k] and adj[j, k]:
                    self.tris.append((i, j, k))
        self.tid = {t_: k for k, t_ in enumerate(self.tris)}
        self.adj = adj
        # components and spanning forest
        comp = [-1] * n
        tree = {}
        self.treeparent = {}
        c = 0
        for s in range(n):
            if comp[s] >= 0:
                continue
            comp[s] = c
            stack = [s]
            while stack:
                u = stack.pop()
                for v in range(n):
                    if v != u and adj[min(u, v), max(u, v)] and comp[v] < 0:
                        comp[v] = c
                        self.treeparent[v] = u
                        tree[(min(u, v), max(u, v))] = 1
                        stack.append(v)
            c += 1
        self.comp = comp
        self.tree = tree

    def tets(self):
        n = self.L
        adj = self.adj
        return [(i, j, k, l) for (i, j, k) in self.tris for l in range(k + 1, n) if adj[i, l] and adj[j, l] and adj[k, l]]

    def cochain(self, coc, dim):
        """Solver's sparse cocycle -> {sorted simplex of landmarks: value mod p}"""
        out = {}
        for row in coc:
            vs = [self.pos[int(v)] for v in row[:-1]]
            val = int(row[-1]) % self.p
            s = sorted(vs)
            sign = 1
            for a in range(len(vs)):
                for b in range(a + 1, len(vs)):
                    if vs[a] > vs[b]:
                        sign = -sign
            if val:
                out[tuple(s)] = (sign * val) % self.p
        return out

    def centred(self, v):
        """The library's convention: residues above (p-1)/2 become negative; -1 stays 1 for p = 2."""
        return v - self.p if v > (self.p - 1) / 2 else v

    def is_cocycle1(self, x, mod=None):
        for (i, j, k) in self.tris:
            s = x.get((i, j), 0) + x.get((j, k), 0) - x.get((i, k), 0)
            if (s % mod if mod else s) != 0:
                return False
        return True

    def is_cocycle2(self, x, mod=None):
        for (i, j, k, l) in self.tets():
            s = x.get((i, j, k), 0) - x.get((i, j, l), 0) + x.get((i, k, l), 0) - x.get((j, k, l), 0)
            if (s % mod if mod else s) != 0:
                return False
        return True

    # -- H^1 with integer coefficients -----------------------------------------------
    def h1(self):
        """Basis of H^1(K;Z) by cocycles that vanish on the spanning forest."""
        nt = [e for e in self.edges if e not in self.tree]
        idx = {e: k for k, e in enumerate(nt)}
        rows = []
        for (i, j, k) in self.tris:
            r = {}
            for e, c in (((i, j), 1), ((j, k), 1), ((i, k), -1)):
                if e in idx:
                    r[idx[e]] = r.get(idx[e], 0) + c
            r = {a: b for a, b in r.items() if b}
            if r:
                rows.append(r)
        ker = Z.kernel(rows, len(nt))
        self.h1_nt = nt
        self.h1_idx = idx
        self.h1_basis = [{nt[k]: c for k, c in b.items()} for b in ker]
        self._h1_raw = ker
        return self.h1_basis

    def gauge(self, x, mod=None):
        """Subtract a coboundary so that x vanishes on the forest. x: {edge: int}"""
        f = {}

        def val(v):
            stack = []
            while v not in f:
                if v not in self.treeparent:
                    f[v] = 0
                    break
                stack.append(v)
                v = self.treeparent[v]
            for w in reversed(stack):
                u = self.treeparent[w]
                e = (min(u, w), max(u, w))
                # (df)_{ij} = f_i - f_j must equal x_ij on the tree
                f[w] = f[u] - x.get(e, 0) if e == (u, w) else f[u] + x.get(e, 0)
            return None

        for v in range(self.L):
            val(v)
        out = {}
        for (i, j) in self.edges:
            y = x.get((i, j), 0) - (f[i] - f[j])
            if mod:
                y %= mod
            if y:
                out[(i, j)] = y
        return out

    def class_mod_p(self, x):
        """Coefficients (mod p) of the class of the mod-p cocycle x in the integral basis, or None."""
        g = self.gauge(x, self.p)
        if any(e in self.tree for e in g):
            raise AssertionError("gauge")
        return Z.solve_mod(self._h1_raw, {self.h1_idx[e]: v for e, v in g.items()}, self.p, len(self.h1_nt))

    def class_int(self, x):
        """Coefficients of an integral cocycle in the basis (exact)."""
        g = self.gauge(x)
        b = self.h1_basis
        if not b:
            return []
        # basis vectors are independent: solve over the rationals
        es = sorted({e for v in b for e in v} | set(g))
        A = [[v.get(e, 0) for e in es] for v in b]
        M = Z.solve_rational(A, [[g.get(e, 0) for e in es]])
        if M is None:
            raise AssertionError("not in the span")
        return [int(c) for c in M[0]]

    # -- harmonic integration ----------------------------------------------------------
    def harmonic1(self, vecs):
        """vecs: list of {edge: number}. Returns tau (L x m), harmonic parts (E x m)."""
        E = len(self.edges)
        d0 = np.zeros((E, self.L))
        for k, (i, j) in enumerate(self.edges):
            d0[k, i] = 1
            d0[k, j] = -1
        A = np.zeros((E, len(vecs)))
        for m, v in enumerate(vecs):
            for e, c in v.items():
                if e in self.eid:
                    A[self.eid[e], m] = c
        if E == 0:
            return np.zeros((self.L, len(vecs))), A
        tau = np.linalg.lstsq(d0, A, rcond=None)[0]
        return tau, A - d0 @ tau

    def circle_maps(self, vecs, P, covered, first):
        """Real representatives (in turns) of the circle maps of integral cocycles. N x m"""
        tau, _ = self.harmonic1(vecs)
        M = len(vecs)
        eta = np.zeros((M, self.L, self.L))
        for m, v in enumerate(vecs):
            for (i, j), c in v.items():
                eta[m, i, j] = c
                eta[m, j, i] = -c
        out = np.full((self.N, M), np.nan)
        for b in range(self.N):
            if covered[b]:
                w = P[:, b]
                j = first[b]
                ks = np.nonzero(w)[0]
                for k in ks:
                    if k != j and not self.adj[min(j, k), max(j, k)]:
                        raise Unclear("cover element pair without an edge")
                for m in range(M):
                    out[b, m] = w[ks] @ (tau[ks, m] + eta[m, j, ks])
        return out

    def point_components(self, first):
        return np.array([self.comp[j] if j >= 0 else -1 for j in first])

    # -- CP ----------------------------------------------------------------------------
    def cp_class_map(self, alpha, P, covered, first, rough=None, outside=0.0):
        """alpha: {triangle: int}. rough: accuracy of the least-squares solution (None: as accurate as possible);
        outside: norm of the cochain on simplices that are not in the complex (a solver that is given
        them, too, stops earlier)."""
        T, E = len(self.tris), len(self.edges)
        v = np.zeros(T)
        for t, c in alpha.items():
            if t in self.tid:
                v[self.tid[t]] = c
        if rough is not None or T * E > 4_000_000:
            nu, h, d1 = self._sparse_harmonic2(v, rough, outside)
        else:
            d1 = np.zeros((T, E))
            for k, (a, b, c) in enumerate(self.tris):
                d1[k, self.eid[(a, b)]] += 1
                d1[k, self.eid[(b, c)]] += 1
                d1[k, self.eid[(a, c)]] -= 1
            nu = np.linalg.lstsq(d1, v, rcond=None)[0] if T else np.zeros(E)
            h = v - d1 @ nu if T else v
        N2 = np.zeros((self.L, self.L))
        for k, (i, j) in enumerate(self.edges):
            N2[i, j] = nu[k]
            N2[j, i] = -nu[k]
        H3 = np.zeros((self.L,) * 3)
        for k, t in enumerate(self.tris):
            for perm, sg in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((1, 0, 2), -1), ((0, 2, 1), -1), ((2, 1, 0), -1)):
                H3[t[perm[0]], t[perm[1]], t[perm[2]]] = sg * h[k]
        F = np.full((self.N, self.L), np.nan, dtype=complex)
        for b in range(self.N):
            if covered[b]:
                j = first[b]
                w = P[:, b]
                ph = N2[:, j] + H3[:, j, :] @ w
                F[b] = np.sqrt(w) * np.exp(2j * np.pi * ph)
        if d1 is not None:
            self.h1_betti_real = E - (self.L - (max(self.comp) + 1)) - (np.linalg.matrix_rank(d1) if T else 0)
        return F, h

    def _sparse_harmonic2(self, v, rough=None, outside=0.0):
        from scipy.sparse import csr_matrix
        from scipy.sparse.linalg import lsmr, lsqr

        T, E = len(self.tris), len(self.edges)
        cols = np.array([[self.eid[(a, b)], self.eid[(b, c)], self.eid[(a, c)]] for a, b, c in self.tris]).ravel()
        A = csr_matrix((np.tile([1.0, 1.0, -1.0], T), (np.repeat(np.arange(T), 3), cols)), shape=(T, E))
        if not T:
            return np.zeros(E), v, None
        if rough is not None:
            B = csr_matrix((A.data, A.indices, np.append(A.indptr, A.indptr[-1])), shape=(T + 1, E))
            nu = lsqr(B, np.append(v, outside), atol=rough, btol=rough)[0]
        else:
            nu = lsmr(A, v, atol=1e-12, btol=1e-12, maxiter=20000)[0]
        return nu, v - A @ nu, None

    def lift2(self, x):
        """Integral 2-cocycles reducing to x mod p: (one lift, generator of the free part) or None."""
        tets = self.tets()
        rows = []
        for (i, j, k, l) in tets:
            r = {}
            for t, c in (((i, j, k), 1), ((i, j, l), -1), ((i, k, l), 1), ((j, k, l), -1)):
                r[self.tid[t]] = r.get(self.tid[t], 0) + c
            rows.append(r)
        ker = Z.kernel(rows, len(self.tris))
        a = Z.solve_mod(ker, {self.tid[t]: v for t, v in x.items() if t in self.tid}, self.p, len(self.tris))
        if a is None:
            return None
        alpha = {}
        for c, b in zip(a, ker):
            c = c - self.p if c > self.p // 2 else c
            if c:
                for k, v in b.items():
                    alpha[self.tris[k]] = alpha.get(self.tris[k], 0) + c * v
        # free generators: harmonic parts of the kernel
        T, E = len(self.tris), len(self.edges)
        d1 = np.zeros((T, E))
        for k, (i, j, l) in enumerate(self.tris):
            d1[k, self.eid[(i, j)]] += 1
            d1[k, self.eid[(j, l)]] += 1
            d1[k, self.eid[(i, l)]] -= 1
        K = np.zeros((T, len(ker)))
        for m, b in enumerate(ker):
            for k, v in b.items():
                K[k, m] = v
        H = K - d1 @ np.linalg.lstsq(d1, K, rcond=None)[0]
        sv = np.linalg.svd(H, compute_uv=False)
        rank = int((sv > 1e-6).sum())
        if rank == 0:
            return alpha, None, 0
        if rank > 1:
            return alpha, None, rank
        u = H[:, int(np.argmax(np.linalg.norm(H, axis=0)))]
        co = (u @ H) / (u @ u)
        # Euclid on the coefficients
        vec = None
        cur = 0.0
        for m in range(len(ker)):
            c, v = co[m], {k: x_ for k, x_ in ker[m].items()}
            if abs(c) < 1e-6:
                continue
            if vec is None:
                vec, cur = v, c
                continue
            while abs(c) > 1e-6:
                q = int(round(cur / c))
                nv = dict(vec)
                for k, x_ in v.items():
                    nv[k] = nv.get(k, 0) - q * x_
                vec, cur, v, c = v, c, nv, cur - q * c
        gen = {self.tris[k]: x_ for k, x_ in vec.items() if x_}
        return alpha, gen, 1

    # -- finite-field coordinates --------------------------------------------------------
    def ff_class_map(self, x, P, covered, first, q):
        n = self.L
        w = np.exp(2j * np.pi / q) if q != 2 else -1.0
        C = np.ones((n, n), dtype=complex if q != 2 else float)
        for (i, j), v in x.items():
            C[i, j] = w ** v
            C[j, i] = (1 / w) ** v
        F = np.full((self.N, n), np.nan, dtype=C.dtype)
        for b in range(self.N):
            if covered[b]:
                F[b] = np.sqrt(P[:, b]) * C[first[b]]
        return F


def reduce_dim(F, covered, dim, mode, mingap=1e-6):
    """Reference dimension reduction; rows of F are points. Returns the reduced rows (NaN where uncovered)."""
    X = F[covered].T

    def keep(X, d):
        S = X @ X.conj().T
        w, V = np.linalg.eigh(S)
        w, V = w[::-1], V[:, ::-1]
        if d < len(w) and w[d - 1] - w[d] < mingap * max(w[0], 1e-300):
            raise Unclear("eigenvalue gap")
        Y = V[:, :d].conj().T @ X
        nr = np.linalg.norm(Y, axis=0)
        if (nr < 1e-3).any():
            raise Unclear("point projected to zero")
        return Y / nr

    n = X.shape[0]
    t = dim + 1
    if t >= n:
        raise Unclear("nothing to reduce")
    if mode == "direct":
        X = keep(X, t)
    elif mode == "exponential":
        k = (n - t) // 2
        while k > 0:
            X = keep(X, t + k)
            k //= 2
        if X.shape[0] > t:
            X = keep(X, t)
    elif mode == "one-by-one":
        while X.shape[0] > t:
            X = keep(X, X.shape[0] - 1)
    else:
        raise Rejected("mode")
    out = np.full((F.shape[0], t), np.nan, dtype=X.dtype)
    out[covered] = X.T
    return out


# -- comparisons up to the target's symmetries ------------------------------------------------
def circle_match(theta, ref_turns, comps, covered, tol):
    """theta (radians) equals ref up to one rotation per component. -> worst deviation (radians)"""
    worst = 0.0
    for c in set(comps[covered].tolist()):
        m = covered & (comps == c)
        z = np.exp(1j * (theta[m] - 2 * np.pi * ref_turns[m]))
        u = z / z[0]
        # centre on the mean direction
        mean = u.mean()
        if abs(mean) < 1e-3:
            return np.pi
        worst = max(worst, float(np.max(np.abs(np.angle(u / (mean / abs(mean)))))))
        if worst > tol:
            return worst
    return worst


def search_class(theta, T, comps, covered, cands, tol=2e-3):
    """Find the integer vector v among cands with theta = T v up to rotations."""
    best = (np.inf, None)
    for v in cands:
        w = circle_match(theta, T @ np.array(v, dtype=float), comps, covered, tol)
        # the solver's rounding grows with the class
        w /= 1 + max(map(abs, v), default=0) / 20
        if w < best[0]:
            best = (w, v)
        if w <= tol:
            return best
    return best


def triples(n, seed=7, m=60):
    r = np.random.RandomState(seed)
    return r.randint(0, n, (m, 3))


def proj_match(A, B, q, tol):
    """
    A, B: rows, equal up to a common isometry and, per row, a sign (q=2), a q-th root of unity,
    or any phase (q=0).  None or a description.
    """
    if A.shape != B.shape:
        return "shape %s instead of %s" % (A.shape, B.shape)
    na, nb = np.isnan(A).any(1), np.isnan(B).any(1)
    if (na != nb).any():
        b = int(np.argwhere(na != nb)[0][0])
        return "point %d is %s" % (b, "NaN but is covered" if na[b] else "a number but is not covered")
    A, B = A[~na], B[~na]
    if len(A) == 0:
        return None
    nr = np.abs(np.linalg.norm(A, axis=1) - 1)
    if nr.max() > 1e-6:
        return "row %d has norm %.6f" % (int(nr.argmax()), float(np.linalg.norm(A[int(nr.argmax())])))
    # many points: everything against some of them
    sel = np.arange(len(A)) if len(A) <= 800 else np.random.RandomState(len(A)).choice(len(A), 300, replace=False)
    G, H = A @ A[sel].conj().T, B @ B[sel].conj().T
    d = np.abs(np.abs(G) - np.abs(H))
    if d.max() > tol:
        i, j = np.unravel_index(int(d.argmax()), d.shape)
        return "|<x_%d,x_%d>| is %.4f instead of %.4f" % (i, j, abs(G[i, j]), abs(H[i, j]))
    if q >= 2:
        d = np.abs(G ** q - H ** q)
        if d.max() > tol * q:
            i, j = np.unravel_index(int(d.argmax()), d.shape)
            return "<x_%d,x_%d>^%d differs by %.3g" % (i, j, q, d.max())
    if len(A) > 800:
        A, B = A[sel], B[sel]
        G, H = A @ A.conj().T, B @ B.conj().T
    for a, b, c in triples(len(A)):
        x = G[a, b] * G[b, c] * G[c, a]
        y = H[a, b] * H[b, c] * H[c, a]
        if abs(x - y) > 3 * tol:
            return "phase invariant of points %d,%d,%d is %s instead of %s" % (a, b, c, np.round(x, 4), np.round(y, 4))
    return None


def small_vectors(b, m):
    """All integer vectors with entries in [-m, m], small ones first."""
    r = range(-m, m + 1)
    return sorted(itertools.product(r, repeat=b), key=lambda v: (max(map(abs, v), default=0), sum(map(abs, v))))
