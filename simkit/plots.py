"""Calls of the plotting helpers."""
import numpy as np

NEEDS3D = ("plot_3sphere_mesh", "set_axes_equal", "plot_rp3_stereo")
TAKES_AX = ("imscatter", "plot_patches", "plot_proj_boundary", "plot_2sphere_boundary", "plot_3sphere_mesh", "set_axes_equal",
            "plot_rp3_stereo")


def call(name, seed, ax=None):
    import dreimac

    P = dreimac.PlotUtils
    r = np.random.RandomState(seed)
    f = getattr(P, name)
    if name == "imscatter":
        n, d = int(r.randint(1, 6)), int(r.randint(1, 5))
        X, Pt, z = r.randn(n, 2), r.random_sample((n, d * d)), [1, 0.5, 3][seed % 3]
        if ax is None:
            return f(X, Pt, d) if seed % 2 else f(X, Pt, d, zoom=z)
        return f(X, Pt, d, z, ax) if seed % 2 else f(X, Pt, d, ax=ax)
    if name == "plot_patches":
        Pt, z = r.random_sample((int(r.randint(1, 8)), 9)), [1, 0.5, 3][seed % 3]
        if ax is None:
            return f(Pt) if seed % 2 else f(Pt, zoom=z)
        return f(Pt, z, ax) if seed % 2 else f(Pt, ax=ax)
    if name in ("plot_proj_boundary", "plot_2sphere_boundary"):
        return f(ax) if ax is not None and seed % 2 else f(**({"ax": ax} if ax is not None else {}))
    if name == "plot_3sphere_mesh":
        if ax is None:
            return f() if seed % 3 == 0 else f(4, 5, alpha=0.4)
        return f(3, 6, 0.7, ax) if seed % 2 else f(ax=ax, n_parallels=4, n_meridians=5)
    if name == "set_axes_equal":
        return f(ax)
    if name == "plot_rp2_stereo":
        S = r.randn(9, 3 if seed % 11 == 0 else 2)
        kw = {}
        if seed % 3 == 0:
            kw = {"arrowcolor": [(0.1, 0.2, 0.9), "m"][seed % 2], "facecolor": "w"}
        return f(S, r.random_sample(9) if seed % 2 else r.random_sample((9, 3)), **kw)
    if name == "plot_rp3_stereo":
        S = r.randn(9, 4 if seed % 11 == 0 else 3)
        v = r.random_sample(9) if seed % 2 else r.random_sample((9, 3))
        return f(ax, S, v, bool(seed % 3 == 0)) if seed % 5 == 0 else f(ax, S, v, draw_sphere=bool(seed % 3 == 0))
    raise AssertionError(name)
