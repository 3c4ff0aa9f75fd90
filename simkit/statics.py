"""Stateless public helpers: argument generators and calls."""
import numpy as np


def _cloud(r, n=None, d=None):
    return r.randn(n or r.randint(5, 25), d or r.randint(2, 5))


def _dm(r, n=None):
    P = _cloud(r, n, 3)
    D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
    np.fill_diagonal(D, 0)
    return D


def _unit(r, n, d):
    X = r.randn(n, d)
    return X / np.linalg.norm(X, axis=1)[:, None]


def _cunit(r, n, d):
    X = r.randn(n, d) + 1j * r.randn(n, d)
    return X / np.linalg.norm(X, axis=1)[:, None]


def _circ(r, n=None):
    return r.random_sample(n or r.randint(5, 40)) * 2 * np.pi


def _seed(r):
    """Seed argument: mostly omitted, zero, small or large."""
    k = r.randint(5)
    return {} if k < 2 else {"seed": int([0, r.randint(99), r.randint(2**31 - 2) + 2**30][k - 2])}


def _table(nmax=12, dim=3):
    from math import comb

    return np.array([[comb(i, l) for l in range(dim + 2)] for i in range(nmax + 1)])


def _sparse_cocycle(r, nv=8, dim=1, p=7):
    rows = []
    for _ in range(r.randint(2, 9)):
        v = r.permutation(nv)[: dim + 1]
        rows.append(list(v) + [r.randint(1, p)])
    return np.array(rows, dtype=int)


def _class_map(r):
    n, d = r.randint(8, 25), r.randint(4, 9)
    W = r.random_sample((n, d)) + 0.05
    W /= W.sum(1)[:, None]
    if r.randint(2):
        return np.sqrt(W) * r.choice([1.0, -1.0], size=(n, d))
    return np.sqrt(W) * np.exp(2j * np.pi * r.random_sample((n, d)))


def _taxi(X, Y):
    """A distance of the caller's own."""
    return np.abs(X[:, None, :] - Y[None, :, :]).sum(-1)


def _reindex(r):
    n, m = 20, 7
    idx = r.permutation(n)[:m]
    ck = [[np.array([[idx[r.randint(m)], idx[r.randint(m)], 1 + r.randint(3)] for _ in range(4)])] for _ in range(2)]
    return (ck, idx, n), {}


SPEC = {
    "GeometryUtils.get_csm": lambda r: ((_cloud(r, 7, 3), _cloud(r, 9, 3)), {}),
    "GeometryUtils.get_csm_projarc": lambda r: ((_unit(r, 7, 3), _unit(r, 9, 3)), {}),
    "GeometryUtils.get_ssm": lambda r: ((_cloud(r),), {}),
    "GeometryUtils.get_greedy_perm_pc": lambda r: ((_cloud(r, 20, 3), r.randint(1, 20)), {"csm_fn": _taxi} if r.randint(3) == 0 else {}),
    "GeometryUtils.get_greedy_perm_dm": lambda r: ((_dm(r, 20), r.randint(1, 20)), {}),
    "GeometryUtils.landmark_geodesic_distance": lambda r: ((_cloud(r, 25, 2), r.randint(2, 9), r.randint(4, 9)), {}),
    "CohomologyUtils.lift_to_integer_cocycle": lambda r: ((_sparse_cocycle(r), 7), {}),
    "CohomologyUtils.sparse_cocycle_to_vector": lambda r: ((_sparse_cocycle(r), _table(), 8, int), {}),
    "CohomologyUtils.make_delta0": lambda r: ((_dm(r, 8), 1.5, _table()), {}),
    "CohomologyUtils.make_delta1": lambda r: ((_dm(r, 8), 2.0, _table()), {}),
    "CohomologyUtils.make_delta1_compact": lambda r: ((_dm(r, 8), 2.0, _table()), {}),
    "CohomologyUtils.make_delta2_compact": lambda r: ((_dm(r, 7), 2.5, _table()), {}),
    "CohomologyUtils.reindex_cocycles": _reindex,
    "PartUnity.linear": lambda r: ((r.random_sample(9), 1.0), {}),
    "PartUnity.quadratic": lambda r: ((r.random_sample(9), 1.0), {}),
    "PartUnity.exp": lambda r: ((r.random_sample(9), 1.0), {}),
    "EquivariantPCA.ppca": lambda r: ((_class_map(r), r.randint(1, 3), ["direct", "exponential", "one-by-one"][r.randint(3)]), {}),
    "CircleMapUtils.to_sinebow": lambda r: ((_circ(r),), {}),
    "CircleMapUtils.center": lambda r: ((_circ(r),), {}),
    "CircleMapUtils.offset": lambda r: ((_circ(r), r.random_sample()), {}),
    "CircleMapUtils.linear_combination": lambda r: (
        ([list(_circ(r, 9)) for _ in range(2)], [[1, 1], [0, 2]]) if r.randint(2) else
        (r.random_sample((3, 8)) * 6, r.randint(-2, 3, (2, 3)) if r.randint(3) else np.eye(3, dtype=int)), {}),
    "CircleMapUtils.levelset_coloring": lambda r: ((_circ(r),), {"n_levelsets": int(r.randint(1, 6)), "smoothing": [0, 0.25, 0.7][r.randint(3)]}),
    "ProjectiveMapUtils.get_stereo_proj_codim1": lambda r: ((_unit(r, 12, 3),) + ((_unit(r, 1, 3)[0],) if r.randint(2) else ()), {}),
    "ProjectiveMapUtils.circle_to_3dnorthpole": lambda r: ((r.randn(2),), {}),
    "ProjectiveMapUtils.hopf_map": lambda r: ((_cunit(r, 9, 2),), {}),
    "ProjectiveMapUtils.stereographic_projection_hemispheres": lambda r: (
        (_unit(r, 14, 3),), {"center_vector": _unit(r, 1, 3)[0]} if r.randint(2) else {}),
    "ProjectiveMapUtils.rotmat": lambda r: ((r.randn(4),) + ((r.randn(4),) if r.randint(2) else ()), {}),
    "LensMapUtils.lens_3D_to_disk_3D": lambda r: ((_cunit(r, 9, 2), int([2, 3, 5][r.randint(3)])), {}),
    "GeometryExamples.line_patches": lambda r: ((5, int(r.randint(2, 5)), 3, 0.25), {}),
    "GeometryExamples.moving_dot": lambda r: ((int(r.randint(2, 5)),), {"sigma": [1.5, 3][r.randint(2)]} if r.randint(2) else {}),
    "GeometryExamples.rp2_metric": lambda r: ((int(r.randint(5, 20)),), _seed(r)),
    "GeometryExamples.torus_3d": lambda r: ((int(r.randint(5, 20)), [3, 2.5][r.randint(2)], 1), _seed(r)),
    "GeometryExamples.klein_bottle_4d": lambda r: ((int(r.randint(5, 20)), [3, 2.5][r.randint(2)], 1), _seed(r)),
    "GeometryExamples.trefoil": lambda r: ((int(r.randint(5, 30)),), {"noisy": bool(r.randint(2))}),
    "GeometryExamples.bullseye": lambda r: ((), {}),
    "GeometryExamples.three_circles": lambda r: ((), {}),
    "GeometryExamples.sphere": lambda r: ((int(r.randint(5, 30)),), {}),
    "GeometryExamples.noisy_circle": lambda r: ((int(r.randint(5, 30)),) + ((0.1 + r.random_sample(),) if r.randint(2) else ()), _seed(r)),
    "GeometryExamples.genus_two_surface": lambda r: ((), {}),
    "GeometryExamples.moore_space_distance_matrix": lambda r: ((int(r.randint(12, 30)),), {"prime": int([2, 3, 5][r.randint(3)])}),
}
HEAVY = ("GeometryExamples.genus_two_surface", "GeometryExamples.bullseye", "GeometryExamples.three_circles")
# documented to work in place
IN_PLACE = ("CohomologyUtils.lift_to_integer_cocycle", "CohomologyUtils.reindex_cocycles")
# documented to return (part of) the array they are given
PASS_THROUGH = IN_PLACE + ("ProjectiveMapUtils.circle_to_3dnorthpole",)
GAUGE = ("EquivariantPCA.ppca", "ProjectiveMapUtils.get_stereo_proj_codim1")
GENERATORS = [k for k in SPEC if k.startswith("GeometryExamples.")]
NAMES = sorted(SPEC)


def resolve(name):
    import dreimac
    import dreimac.utils as U

    c, f = name.split(".")
    k = getattr(U, c, None) or getattr(dreimac, c)
    return getattr(k, f)


def args(name, seed, near=0):
    a, kw = SPEC[name](np.random.RandomState(seed))
    if near:
        a = tuple(_near(x, np.random.RandomState(near)) for x in a)
    return a, kw


def _near(x, r):
    """An argument that is easily mistaken for x (same shape and some of: same sum, same ends, same bytes)."""
    if not isinstance(x, np.ndarray) or x.dtype.kind not in "fc" or x.size < 3:
        return x
    k = r.randint(4)
    if k == 0:
        return x[::-1].copy()
    if k == 1:
        return np.ascontiguousarray(x.T).reshape(x.shape) if x.ndim == 2 else np.roll(x, 1)
    y = x.copy()
    if k == 2:
        # a few values in the middle
        j = tuple(r.randint(1, max(2, m - 1)) if m > 2 else r.randint(m) for m in y.shape)
        y[j] *= 1.3
        if y.ndim == 2 and y.shape[0] == y.shape[1]:
            y[j[::-1]] = y[j]
        return y
    return y * (1 + 2e-3)


def call(name, seed, ctx=None, near=0):
    a, kw = args(name, seed, near)
    if ctx is not None:
        ctx.last_args = (a, kw)
    v = resolve(name)(*a, **kw)
    if name == "CohomologyUtils.reindex_cocycles":
        v = a[0]
    if name == "EquivariantPCA.ppca":
        return v["X"], {"gauge": True}
    if name in GAUGE:
        # the pole is an eigenvector when not given: only defined up to sign, norms are invariant
        return np.asarray(v), {"gauge_abs": True}
    return v, {}
