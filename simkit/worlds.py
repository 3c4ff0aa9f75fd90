"""Data sets, generated independently of the code under test from a small JSON spec."""
import numpy as np

TWO_PI = 2 * np.pi


def _circle(rng, n, r=1.0, noise=0.05, even=0.5):
    t = np.sort((1 - even) * rng.random_sample(n) * TWO_PI + even * np.arange(n) * TWO_PI / n)
    P = np.c_[np.cos(t), np.sin(t)] * r
    return P + noise * r * rng.randn(n, 2)


def points(spec):
    """-> ndarray (n, d) or None when the world is a metric space"""
    rng = np.random.RandomState(spec["s"])
    k = spec["k"]
    n = spec["n"]
    noise = spec.get("noise", 0.05)
    if k == "circle":
        P = _circle(rng, n, 1.0, noise)
    elif k == "ellipse":
        P = _circle(rng, n, 1.0, noise) * np.array([1.0, 0.75])
    elif k == "circles2":
        a = n // 2
        P = np.r_[_circle(rng, a, 1.0, noise), _circle(rng, n - a, 1.25, noise) + np.array([5.0, 0])]
    elif k == "circles3":
        a = n // 3
        P = np.r_[_circle(rng, a, 1.0, noise), _circle(rng, a, 1.3, noise) + np.array([5.5, 0]),
                  _circle(rng, n - 2 * a, 1.6, noise) + np.array([0, 6.5])]
    elif k == "circles4":
        a = n // 4
        P = np.r_[_circle(rng, a, 1.0, noise), _circle(rng, a, 1.3, noise) + np.array([5.5, 0]),
                  _circle(rng, a, 1.6, noise) + np.array([0, 6.5]),
                  _circle(rng, n - 3 * a, 1.15, noise) + np.array([7.5, 7.5])]
    elif k == "twins":
        # exact copies of one loop: classes with equal persistence and equal norms
        m = spec.get("m", 2)
        C = _circle(rng, n // m, 1.0, noise, even=1.0 if spec.get("reg") else 0.5)
        P = np.concatenate([C + np.array([4.0 * j, 3.0 * (j % 2)]) for j in range(m)])
    elif k == "eight":
        a = n // 2
        P = np.r_[_circle(rng, a, 1.0, noise), _circle(rng, n - a, 1.2, noise) + np.array([2.2, 0])]
    elif k == "theta3":
        # three circles in a row, touching: classes that interact
        a = n // 3
        P = np.r_[_circle(rng, a, 1.0, noise), _circle(rng, a, 1.2, noise) + np.array([2.1, 0.2]),
                  _circle(rng, n - 2 * a, 1.1, noise) + np.array([1.1, 2.1])]
    elif k == "chords":
        # circle with m parallel chords: strongly interacting classes
        m = spec.get("m", 1)
        hs = {1: [0.15], 2: [-0.3, 0.35], 3: [-0.55, 0.05, 0.5]}[m]
        seg = [2 * np.pi] + [2 * np.sqrt(1 - h * h) for h in hs]
        tot = sum(seg)
        cnt = [max(4, int(round(n * s_ / tot))) for s_ in seg]
        parts = [_circle(rng, cnt[0], 1.0, 0)]
        for h, c in zip(hs, cnt[1:]):
            w = np.sqrt(1 - h * h)
            x = -w + 2 * w * (np.arange(1, c + 1) / (c + 1.0))
            parts.append(np.c_[x, np.full(c, h)])
        P = np.concatenate(parts)
        P = P + 0.6 * noise * rng.randn(*P.shape)
    elif k == "melon":
        # m + 1 arcs of different length between two poles: m loops that share long arcs
        m = spec.get("m", 2) + 1
        bulge = 0.7 + 0.9 * rng.random_sample(m)
        seg = np.pi * np.sqrt((1 + bulge ** 2) / 2)
        cnt = np.maximum(4, np.rint(n * seg / seg.sum()).astype(int))
        parts = []
        for j in range(m):
            ph = np.pi * (np.arange(cnt[j]) + 0.5) / cnt[j]
            a = TWO_PI * j / m
            parts.append(np.c_[bulge[j] * np.sin(ph) * np.cos(a), bulge[j] * np.sin(ph) * np.sin(a), np.cos(ph)])
        P = np.concatenate(parts)
        P = P + 0.6 * noise * rng.randn(*P.shape)
    elif k == "torus":
        s, t = rng.random_sample((2, n)) * TWO_PI
        P = np.c_[np.cos(s), np.sin(s), spec.get("r", 1.0) * np.cos(t), spec.get("r", 1.0) * np.sin(t)]
        P = P + noise * rng.randn(n, 4)
    elif k == "annulus":
        t = rng.random_sample(n) * TWO_PI
        r = 0.7 + 0.6 * rng.random_sample(n)
        P = np.c_[r * np.cos(t), r * np.sin(t)]
    elif k == "blob":
        P = rng.randn(n, spec.get("d", 2))
    elif k == "sphere":
        P = rng.randn(n, 3)
        P /= np.linalg.norm(P, axis=1)[:, None]
        P += noise * rng.randn(n, 3)
    elif k == "octa":
        base = np.r_[np.eye(3), -np.eye(3)]
        g = (1 + 5 ** 0.5) / 2
        ico = np.array([[0, a, b * g] for a in (1, -1) for b in (1, -1)])
        ico = np.r_[ico, ico[:, [2, 0, 1]], ico[:, [1, 2, 0]]] / np.sqrt(1 + g * g)
        base = base if spec.get("ico", 0) == 0 else ico
        extra = rng.randn(max(0, n - len(base)), 3)
        extra /= np.linalg.norm(extra, axis=1)[:, None]
        P = np.r_[base + noise * rng.randn(*base.shape), extra]
    else:
        return None
    d = spec.get("embed", 0)
    if d > P.shape[1]:
        Q, _ = np.linalg.qr(rng.randn(d, d))
        P = np.c_[P, np.zeros((len(P), d - P.shape[1]))] @ Q
    if spec.get("scale"):
        P = P * spec["scale"]
    if spec.get("shift"):
        P = P + spec["shift"]
    if spec.get("dup"):
        # some points occur more than once
        k = min(spec["dup"], len(P) // 4)
        P = P.copy()
        P[-k:] = P[:k]
    perm = rng.permutation(len(P)) if spec.get("perm", 1) else np.arange(len(P))
    return _near(P[perm], spec)


def _near(P, spec):
    """Data that are easily mistaken for others: the same but for a few points or for the order of the points."""
    c = spec.get("near")
    if not c:
        return P
    rng = np.random.RandomState(c["s"])
    P = P.copy()
    n = len(P)
    size = P.std() or 1.0
    if c["kind"] == "one":
        P[rng.randint(1, n - 1)] += 0.4 * size * rng.randn(P.shape[1])
    elif c["kind"] == "middle":
        # first and last points as they were
        P[3 : n - 3] += 0.1 * size * rng.randn(max(0, n - 6), P.shape[1])
    elif c["kind"] == "order":
        # the same points in another order
        P = P[rng.permutation(n)]
    elif c["kind"] == "swap":
        i, j = rng.choice(n, 2, replace=False)
        P[[i, j]] = P[[j, i]]
    elif c["kind"] == "columns":
        P = P * (1 + 0.3 * rng.random_sample(P.shape[1]))
    elif c["kind"] == "slight":
        P = P + 2e-3 * size * rng.randn(*P.shape)
    return P


NEAR = ("one", "middle", "order", "swap", "columns", "slight")


def _dists(P):
    # exact zeros on the diagonal, exactly symmetric
    D = np.sqrt(((P[:, None, :] - P[None, :, :]) ** 2).sum(-1))
    return D


def _near_metric(D, spec):
    c = spec.get("near")
    if not c:
        return D
    rng = np.random.RandomState(c["s"])
    n = len(D)
    if c["kind"] in ("order", "swap"):
        q = rng.permutation(n)
        return D[q][:, q]
    # stretched around some points (still a metric)
    a = np.zeros(n)
    a[rng.choice(n, 1 if c["kind"] == "one" else n // 3, replace=False)] = 0.15 * D.max()
    D = D + a[:, None] + a[None, :]
    np.fill_diagonal(D, 0)
    return D


def metric(spec):
    rng = np.random.RandomState(spec["s"])
    k, n = spec["k"], spec["n"]
    if k == "rp2":
        P = rng.randn(n, 3)
        P /= np.linalg.norm(P, axis=1)[:, None]
        G = np.clip(np.abs(P @ P.T), 0, 1)
        D = np.arccos(G)
        D = (D + D.T) / 2
        np.fill_diagonal(D, 0)
        return _near_metric(D, spec)
    if k == "moore3":
        # circle with a disc glued along 3 turns, approximated by a disc with boundary points
        # identified under rotation by a third of a turn
        q = 3
        r = np.sqrt(rng.random_sample(n))
        r[: n // 3] = 1.0
        t = rng.random_sample(n) * TWO_PI
        X = np.c_[r * np.cos(t), r * np.sin(t)]
        u = np.c_[np.cos(t), np.sin(t)]
        gap = 1 - r
        D = _dists(X)
        # via the boundary: x -> its boundary point, rotate, walk to y
        via = np.full((n, n), np.inf)
        for j in range(q):
            c, s = np.cos(j * TWO_PI / q), np.sin(j * TWO_PI / q)
            R = np.array([[c, -s], [s, c]])
            V = u @ R.T
            via = np.minimum(via, gap[:, None] + np.sqrt(((V[:, None, :] - X[None, :, :]) ** 2).sum(-1)))
        D = np.minimum(D, np.minimum(via, via.T))
        # metric closure
        for m in range(n):
            D = np.minimum(D, D[:, m][:, None] + D[m][None, :])
        np.fill_diagonal(D, 0)
        return _near_metric((D + D.T) / 2, spec)
    P = points(spec)
    return _dists(P)


def _parts(D, gap):
    lab = np.arange(len(D))
    while True:
        new = np.array([lab[D[i] < gap].min() for i in range(len(D))])
        if (new == lab).all():
            return lab
        lab = new


METRIC_ONLY = ("rp2", "moore3")


def data(spec, dm):
    """The array handed to the library. dm: "pc" point cloud, "sq" square matrix, "ns" rows x columns."""
    if dm == "pc":
        X = points(spec)
    else:
        D = metric(spec)
        if spec.get("int"):
            D = np.ceil(D * spec["int"]).astype(int)
            np.fill_diagonal(D, 0)
        elif spec.get("apart"):
            # no distance between different parts, as geodesic distances have it
            part = _parts(D, 1.5 * spec.get("scale", 1.0))
            D[part[:, None] != part[None, :]] = np.inf
        if dm == "ns":
            X = D[: spec["rows"], :].copy()
            for c in spec.get("corrupt", []):
                # c = [column, kind]; never one of the first `rows` columns
                from .solvers import corrupt

                corrupt(X, c[0], c[1])
        else:
            X = D
    lay = spec.get("layout", "C")
    if lay == "F":
        X = np.asfortranarray(X)
    elif lay == "view":
        B = np.zeros((X.shape[0] * 2, X.shape[1] + 3), dtype=X.dtype)
        B[::2, 1:-2] = X
        X = B[::2, 1:-2]
    if spec.get("f32"):
        X = X.astype(np.float32)
    return X


def gen(rng, kinds, nlo=24, nhi=60):
    k = rng.choice(kinds)
    spec = {"k": k, "n": rng.randint(nlo, nhi), "s": rng.randint(0, 10**9)}
    if k in ("circle", "ellipse", "circles2", "circles3", "circles4", "eight", "theta3", "torus", "sphere", "octa", "chords", "melon"):
        spec["noise"] = rng.choice([0.02, 0.05, 0.08])
    if k == "torus":
        spec["r"] = rng.choice([0.8, 1.0, 1.3])
    if k == "chords":
        spec["m"] = rng.choice([1, 2, 2, 3])
    if k == "melon":
        spec["m"] = rng.choice([2, 3, 3, 4])
    if k == "twins":
        spec["m"] = rng.choice([2, 2, 3])
        spec["noise"] = rng.choice([0, 0.03])
        spec["reg"] = rng.choice([0, 1])
    if k == "octa":
        spec["ico"] = rng.choice([0, 1])
    if k == "blob":
        spec["d"] = rng.choice([2, 3])
    if k not in METRIC_ONLY:
        if rng.random() < 0.2:
            spec["embed"] = rng.choice([4, 6])
        if rng.random() < 0.2:
            spec["scale"] = rng.choice([1e-4, 0.01, 10.0, 1000.0])
        if rng.random() < 0.1:
            spec["dup"] = rng.choice([1, 2, 5])
        if rng.random() < 0.15:
            spec["shift"] = rng.choice([5.0, -3.0])
    if k in ("circles2", "circles3", "circles4", "twins") and rng.random() < 0.3:
        spec["apart"] = 1
    if rng.random() < 0.25:
        spec["layout"] = rng.choice(["F", "view"])
    return spec
