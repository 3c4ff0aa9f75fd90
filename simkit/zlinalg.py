"""Exact integer linear algebra for small sparse matrices (Python integers)."""


def kernel(rows, n):
    """
    Basis of {x in Z^n : row . x = 0 for every row}; rows are dicts {col: int}.
    The basis is saturated (the kernel of an integer matrix always is).
    Returns a list of dicts.
    """
    # expr[v] = linear form of an eliminated variable in terms of other variables
    subst = {}

    def reduce(row):
        row = dict(row)
        todo = [v for v in row if v in subst]
        while todo:
            v = todo.pop()
            c = row.pop(v, 0)
            if not c:
                continue
            for u, d in subst[v].items():
                nv = row.get(u, 0) + c * d
                if nv:
                    row[u] = nv
                    if u in subst:
                        todo.append(u)
                else:
                    row.pop(u, None)
        return row

    hard = []
    for r in rows:
        r = reduce(r)
        if not r:
            continue
        piv = None
        for v in sorted(r):
            if abs(r[v]) == 1:
                piv = v
                break
        if piv is None:
            hard.append(r)
            continue
        c = r.pop(piv)
        subst[piv] = {u: -d * c for u, d in r.items()}
    # leftovers without a unit coefficient: they may have gained one
    changed = True
    while changed:
        changed = False
        nxt = []
        for r in hard:
            r = reduce(r)
            if not r:
                changed = changed or False
                continue
            piv = None
            for v in sorted(r):
                if abs(r[v]) == 1:
                    piv = v
                    break
            if piv is None:
                nxt.append(r)
            else:
                c = r.pop(piv)
                subst[piv] = {u: -d * c for u, d in r.items()}
                changed = True
        hard = nxt
    free = [v for v in range(n) if v not in subst]
    if hard:
        cols = sorted({v for r in hard for v in r})
        sub = _dense_kernel([[r.get(v, 0) for v in cols] for r in hard], len(cols))
        basis = [{cols[k]: c for k, c in enumerate(b) if c} for b in sub]
        basis += [{v: 1} for v in free if v not in cols]
    else:
        basis = [{v: 1} for v in free]
    # back-substitute
    full = {}

    def value(v, b, memo):
        if v in memo:
            return memo[v]
        if v in subst:
            memo[v] = None
            s = 0
            for u, d in subst[v].items():
                s += d * value(u, b, memo)
            memo[v] = s
        else:
            memo[v] = b.get(v, 0)
        return memo[v]

    import sys

    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(max(lim, 10000))
    try:
        out = []
        for b in basis:
            memo = {}
            x = {}
            for v in range(n):
                c = value(v, b, memo)
                if c:
                    x[v] = c
            out.append(x)
    finally:
        sys.setrecursionlimit(lim)
    return out


def _dense_kernel(A, n):
    """Integer kernel basis by unimodular column operations."""
    A = [list(r) for r in A]
    U = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    col = 0
    for r in range(len(A)):
        while True:
            nz = [j for j in range(col, n) if A[r][j]]
            if len(nz) <= 1:
                break
            p = min(nz, key=lambda j: abs(A[r][j]))
            for j in nz:
                if j != p:
                    q = A[r][j] // A[r][p]
                    if q:
                        for row in A:
                            row[j] -= q * row[p]
                        for row in U:
                            row[j] -= q * row[p]
        nz = [j for j in range(col, n) if A[r][j]]
        if nz:
            j = nz[0]
            for row in A:
                row[col], row[j] = row[j], row[col]
            for row in U:
                row[col], row[j] = row[j], row[col]
            col += 1
            if col == n:
                break
    return [[U[i][j] for i in range(n)] for j in range(col, n)]


def solve_mod(basis, target, p, n):
    """a with sum a_j basis_j = target (mod p) on coordinates 0..n-1, or None. Vectors are dicts."""
    m = len(basis)
    rows = []
    coords = set(target)
    for b in basis:
        coords |= set(b)
    for v in sorted(coords):
        rows.append([b.get(v, 0) % p for b in basis] + [target.get(v, 0) % p])
    piv = []
    r = 0
    for c in range(m):
        k = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if k is None:
            continue
        rows[r], rows[k] = rows[k], rows[r]
        inv = pow(rows[r][c], -1, p)
        rows[r] = [x * inv % p for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                f = rows[i][c]
                rows[i] = [(x - f * y) % p for x, y in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    for i in range(r, len(rows)):
        if rows[i][m]:
            return None
    a = [0] * m
    for i, c in enumerate(piv):
        a[c] = rows[i][m]
    return a


def det(M):
    """Exact determinant (fractions)."""
    from fractions import Fraction

    M = [[Fraction(x) for x in r] for r in M]
    n = len(M)
    d = Fraction(1)
    for c in range(n):
        k = next((i for i in range(c, n) if M[i][c]), None)
        if k is None:
            return Fraction(0)
        if k != c:
            M[c], M[k] = M[k], M[c]
            d = -d
        d *= M[c][c]
        for i in range(c + 1, n):
            f = M[i][c] / M[c][c]
            if f:
                M[i] = [x - f * y for x, y in zip(M[i], M[c])]
    return d


def solve_rational(A, B):
    """M with M A = B for rows; A: m x b (rank m), B: k x b. None if inconsistent."""
    from fractions import Fraction

    m, b = len(A), len(A[0])
    out = []
    for row in B:
        # solve sum_i M_i A[i][c] = row[c]
        T = [[Fraction(A[i][c]) for i in range(m)] + [Fraction(row[c])] for c in range(b)]
        r = 0
        piv = []
        for c in range(m):
            k = next((i for i in range(r, b) if T[i][c]), None)
            if k is None:
                return None
            T[r], T[k] = T[k], T[r]
            f = T[r][c]
            T[r] = [x / f for x in T[r]]
            for i in range(b):
                if i != r and T[i][c]:
                    g = T[i][c]
                    T[i] = [x - g * y for x, y in zip(T[i], T[r])]
            piv.append(c)
            r += 1
        if any(T[i][m] for i in range(r, b)):
            return None
        out.append([T[i][m] for i in range(m)])
    return out
