"""Canonical results and comparisons."""
import numpy as np

TWO_PI = 2 * np.pi


def canon(v, depth=0):
    if depth > 6:
        return ("deep",)
    if isinstance(v, np.ndarray):
        return ("a", np.array(v, copy=True))
    if isinstance(v, np.generic):
        return ("a", np.array(v))
    if isinstance(v, (bool, int, float, complex, str, bytes)) or v is None:
        return ("s", v)
    if isinstance(v, (list, tuple)):
        return ("l", [canon(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("d", {str(k): canon(x, depth + 1) for k, x in v.items()})
    if hasattr(v, "toarray") and hasattr(v, "shape"):
        return ("a", np.array(v.toarray()))
    return ("o", type(v).__name__)


def circ_diff(a, b):
    d = np.abs(np.asarray(a) - np.asarray(b)) % TWO_PI
    return np.minimum(d, TWO_PI - d)


def same(a, b, circle=False, tol=1e-6):
    """None if equal, else a short description."""
    if a[0] != b[0]:
        # scalar vs 0-d array is not a difference
        if {a[0], b[0]} == {"a", "s"}:
            return same(("a", np.asarray(a[1])), ("a", np.asarray(b[1])), circle, tol)
        return "kind %s vs %s" % (a[0], b[0])
    if a[0] == "a":
        x, y = a[1], b[1]
        if x.shape != y.shape:
            return "shape %s vs %s" % (x.shape, y.shape)
        if x.dtype.kind in "OSU" or y.dtype.kind in "OSU":
            return None if x.tolist() == y.tolist() else "values differ"
        if x.dtype.kind != y.dtype.kind and {x.dtype.kind, y.dtype.kind} - set("iub"):
            if not ({x.dtype.kind, y.dtype.kind} <= set("iubf")):
                return "dtype %s vs %s" % (x.dtype, y.dtype)
        if x.size == 0:
            return None
        nx, ny = np.isnan(x), np.isnan(y)
        if (nx != ny).any():
            return "NaN pattern differs at %s" % (np.argwhere(nx != ny)[0].tolist(),)
        if circle:
            d = circ_diff(np.where(nx, 0, x), np.where(ny, 0, y))
            scale = 1.0
        else:
            with np.errstate(all="ignore"):
                eq = (x == y) | nx
                d = np.where(eq, 0, np.abs(np.where(nx, 0, x).astype(complex) - np.where(ny, 0, y).astype(complex)))
            d = np.where(np.isnan(d), np.inf, d)
            fin = np.abs(x[np.isfinite(x)])
            scale = max(1.0, float(fin.max()) if fin.size else 1.0)
        m = float(np.max(d))
        if m > tol * scale:
            i = np.unravel_index(int(np.argmax(d)), d.shape)
            return "values differ by %.3g at %s (%r vs %r)" % (m, tuple(int(j) for j in i), x[i].item(), y[i].item())
        return None
    if a[0] == "s":
        x, y = a[1], b[1]
        if isinstance(x, float) and isinstance(y, float):
            return same(("a", np.asarray(x)), ("a", np.asarray(y)), circle, tol)
        return None if x == y or (x != x and y != y) else "%r vs %r" % (x, y)
    if a[0] == "l":
        if len(a[1]) != len(b[1]):
            return "length %d vs %d" % (len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = same(x, y, circle, tol)
            if r:
                return "[%d]: %s" % (i, r)
        return None
    if a[0] == "d":
        if set(a[1]) != set(b[1]):
            return "keys differ"
        for k in sorted(a[1]):
            r = same(a[1][k], b[1][k], circle, tol)
            if r:
                return "[%s]: %s" % (k, r)
        return None
    return None if a[1:] == b[1:] else "%s vs %s" % (a[1:], b[1:])


def bargmann(X):
    """Invariants of rows up to a phase each and one common unitary."""
    G = X @ np.conj(X).T
    return G


def same_outcome(a, b, tol=1e-6):
    """Outcomes of the same op in two executions. None if they agree."""
    if a["k"] != b["k"]:
        return "%s vs %s" % (brief(a), brief(b))
    if a["k"] == "exc":
        return None if a["t"] == b["t"] else "%s vs %s" % (brief(a), brief(b))
    r = same(a["v"], b["v"], a.get("circle", False), tol)
    if r and a.get("gauge_abs") and a["v"][1].shape == b["v"][1].shape:
        x, y = np.linalg.norm(a["v"][1], axis=1), np.linalg.norm(b["v"][1], axis=1)
        if np.allclose(np.sort(x), np.sort(y), atol=1e-6, equal_nan=True):
            return None
    if r and a.get("gauge"):
        r2 = same_gauge(a["v"], b["v"], max(1e-5, tol))
        if r2 is None:
            return None
    return r


def same_gauge(a, b, tol=1e-5):
    """Projective-type outputs: equal up to row phases and a common isometry (rounding may
    rotate nearly degenerate eigenvectors)."""
    if a[0] != "a" or b[0] != "a" or a[1].shape != b[1].shape:
        return "shape"
    x, y = a[1], b[1]
    nx, ny = np.isnan(x).any(1), np.isnan(y).any(1)
    if (nx != ny).any():
        return "NaN rows differ"
    x, y = x[~nx], y[~nx]
    if len(x) == 0:
        return None
    d = np.max(np.abs(np.abs(x @ np.conj(x).T) - np.abs(y @ np.conj(y).T)))
    return None if d < tol else "Gram invariants differ by %.3g" % d


def brief(o):
    if o["k"] == "exc":
        return "raises %s(%s)" % (o["t"], o.get("m", "")[:80])
    return "returns a value"
