"""
Simulated plotting sessions: several parts of a program create, select and close figures and
call the plotting helpers; the model keeps, per axes, what was drawn on it by whom.
"""
import numpy as np

from . import plots
from .compare import canon, same


def arr(x):
    return np.array(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan)) if x is not None else None


def desc(a):
    """What an artist shows, independently of the axes it is on."""
    t = type(a).__name__
    d = {"type": t, "z": float(a.get_zorder()), "visible": a.get_visible(), "alpha": a.get_alpha()}
    try:
        if hasattr(a, "get_data_3d"):
            d["data"] = [arr(x) for x in a.get_data_3d()]
        elif hasattr(a, "get_xydata"):
            d["data"] = arr(a.get_xydata())
        if hasattr(a, "_offsets3d"):
            d["off"] = [arr(x) for x in a._offsets3d]
        elif hasattr(a, "get_offsets"):
            d["off"] = arr(a.get_offsets())
        if hasattr(a, "_segments3d"):
            d["seg"] = [arr(x) for x in a._segments3d]
        if hasattr(a, "get_array") and a.get_array() is not None:
            d["values"] = arr(a.get_array())
            d["clim"] = [float(x) for x in a.get_clim()]
            d["cmap"] = a.get_cmap().name
        for k in ("get_facecolor", "get_edgecolor", "get_color"):
            if hasattr(a, k):
                v = getattr(a, k)()
                d[k] = v if isinstance(v, str) else np.asarray(v, dtype=float)
        if hasattr(a, "get_sizes"):
            d["sizes"] = np.asarray(a.get_sizes(), dtype=float)
        if hasattr(a, "get_verts") and t in ("FancyArrow", "Polygon"):
            d["verts"] = arr(a.get_xy())
        if t == "AnnotationBbox":
            d["xy"] = np.asarray(a.xy, dtype=float)
            im = a.offsetbox.get_children()[0]
            d["image"] = arr(im.get_array())
            d["clim"] = [float(x) for x in im.get_clim()]
            d["zoom"] = float(a.offsetbox.get_zoom())
    except Exception as e:
        d["error"] = type(e).__name__
    return d


def own(ax):
    """Artists added to the axes (without spines, axis, title and background)."""
    fixed = {id(ax.patch), id(ax.xaxis), id(ax.yaxis), id(ax.title), id(ax._left_title), id(ax._right_title)}
    fixed |= {id(s) for s in ax.spines.values()}
    if hasattr(ax, "zaxis"):
        fixed.add(id(ax.zaxis))
    return [c for c in ax.get_children() if id(c) not in fixed and c not in ax.child_axes]


def look(ax):
    """Appearance that does not depend on pending autoscaling."""
    d = {"face": np.asarray(ax.get_facecolor(), dtype=float), "aspect": str(ax.get_aspect()), "visible": ax.get_visible(),
         "xloc": type(ax.xaxis.get_major_locator()).__name__, "yloc": type(ax.yaxis.get_major_locator()).__name__,
         "title": ax.get_title(), "on": bool(ax.axison)}
    return d


def limits(ax):
    l = [ax.get_xlim(), ax.get_ylim()]
    if hasattr(ax, "get_zlim"):
        l.append(ax.get_zlim())
    return np.asarray(l, dtype=float)


def differ(a, b):
    return same(canon(a), canon(b), tol=1e-6)


def current_of(fig):
    return fig.gca() if fig.axes else None


def registry():
    from matplotlib import _pylab_helpers as H

    out = []
    for num, man in H.Gcf.figs.items():
        f = man.canvas.figure
        c = current_of(f)
        out.append((num, id(f), [id(x) for x in f.axes], id(c) if c is not None else None, len(f.get_children()) - len(f.axes)))
    return out


def registry_diff(a, b):
    if a == b:
        return None
    na, nb = [x[0] for x in a], [x[0] for x in b]
    if sorted(na) != sorted(nb):
        return "figures %s became %s" % (na, nb)
    if na != nb:
        return "the current figure changed from %s to %s" % (na[-1:], nb[-1:])
    for x, y in zip(a, b):
        if x[1] != y[1]:
            return "figure %d was replaced" % x[0]
        if x[2] != y[2]:
            return "axes of figure %d changed from %d to %d" % (x[0], len(x[2]), len(y[2]))
        if x[3] != y[3]:
            return "the current axes of figure %d changed" % x[0]
        if x[4] != y[4]:
            return "something was added to figure %d itself" % x[0]
    return "changed"


class Session:
    """Everything the simulated program knows about its figures."""

    def __init__(self):
        self.figs = {}        # key -> (figure, managed, [axes], [kind])
        self.closed = set()
        self.how = {}
        self.bad = []
        self.calls = []       # (axes name, op, ok) in order of completion
        self.names = {}       # id(axes) -> name
        self.axes = {}        # name -> axes
        self.kinds = {}
        self.last = None      # registry after the last step of the program itself
        self.inflight = 0
        self.running = []     # per call in progress on the current axes: the axes current since it began
        self.n = {}
        self.keep = []

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def make(self, key, kinds, managed=True, how=None):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure

        f = plt.figure() if managed else Figure()
        if not managed:
            from matplotlib.backends.backend_agg import FigureCanvasAgg

            FigureCanvasAgg(f)
        axs = []
        # axes of a figure, of a part of a figure, or inside other axes
        g = f.subfigures(1, 2)[1] if how == "sub" else f
        for i, k in enumerate(kinds):
            ax = g.add_subplot(1, max(1, len(kinds)), i + 1, **({"projection": "3d"} if k == "3d" else {}))
            if how == "inset" and k == "2d":
                self.learn("%s.%d.host" % (key, i), ax, k)
                ax = ax.inset_axes([0.5, 0.5, 0.4, 0.4])
            self.learn("%s.%d" % (key, i), ax, k)
            axs.append(ax)
        self.figs[key] = (f, managed, axs)
        self.how[key] = how
        self.last = registry()

    def learn(self, name, ax, kind):
        self.names[id(ax)] = name
        self.axes[name] = ax
        self.kinds[name] = kind

    def check_registry(self, where):
        d = registry_diff(self.last, registry())
        if d:
            self.bad.append(("registry:" + where, "during %s: %s" % (where, d)))
            self.last = registry()

    # -- steps of the program itself ------------------------------------------------
    def step(self, q):
        import matplotlib.pyplot as plt

        self.check_registry("the helper call in progress" if self.inflight else "the last helper call")
        o = q["o"]
        if o == "fig":
            if q["key"] not in self.figs:
                self.make(q["key"], q["axes"], q.get("managed", True), q.get("how"))
        elif o == "sel":
            e = self.figs.get(q["ax"][0])
            if e and e[1] and q["ax"][0] not in self.closed and e[2] and self.how.get(q["ax"][0]) != "inset":
                plt.sca(e[2][q["ax"][1] % len(e[2])])
        elif o == "close":
            e = self.figs.get(q["fig"])
            if e and e[1] and q["fig"] not in self.closed:
                self.closed.add(q["fig"])
                plt.close(e[0])
        self.last = registry()
        if self.inflight:
            import matplotlib.pyplot as plt

            c = current_of(plt.gcf()) if plt.get_fignums() else None
            if c is not None:
                for s in self.running:
                    if id(c) not in s:
                        s.append(id(c))
        self.count("program steps" + (" while a helper was running" if self.inflight else ""))
        return {"k": "ok", "v": ("s", None)}

    # -- helper calls -----------------------------------------------------------------
    def target(self, q):
        """(axes or None, figure that may grow or None)"""
        import matplotlib.pyplot as plt

        if q.get("ax") is not None:
            e = self.figs.get(q["ax"][0])
            if not e or not e[2]:
                return "skip", None
            return e[2][q["ax"][1] % len(e[2])], None
        if not plt.get_fignums():
            return None, None
        f = plt.gcf()
        return current_of(f), f

    def before(self, q, ax):
        self.check_registry("the last helper call")
        self.inflight += 1
        seen = [id(ax)] if ax is not None else []
        if q.get("ax") is None:
            self.running.append(seen)
        return seen

    def after(self, q, ax, fig, out, val, alone, seen):
        import matplotlib.pyplot as plt

        self.inflight -= 1
        self.running = [s for s in self.running if s is not seen]
        nm = "PlotUtils." + q["f"]
        if ax is None:
            # no axes existed: exactly one may have been made
            new = None
            if plt.get_fignums():
                f = plt.gcf()
                c = current_of(f)
                if c is not None and id(c) not in self.names:
                    new = c
            if new is not None and alone:
                grown = registry()
                if fig is None:
                    okg = len(grown) == len(self.last) + 1 and grown[:-1] == self.last and len(grown[-1][2]) == 1
                else:
                    okg = len(grown) == len(self.last) and all(
                        x == y or (x[0] == y[0] and x[1] == y[1] and len(y[2]) == len(x[2]) + 1) for x, y in zip(self.last, grown))
                if not okg:
                    self.bad.append(("made:" + nm, "%s created more than one axes" % nm))
                self.learn("made%d" % len(self.axes), new, "2d")
                self.figs["made%d" % len(self.figs)] = (new.figure, True, [new])
                self.last = grown
                ax = new
        else:
            self.check_registry(nm)
        if ax is not None and out["k"] == "ok" and q["f"] not in ("plot_rp2_stereo", "plot_rp3_stereo"):
            if id(val) in seen:
                seen = [id(val)]
            elif val is not ax:
                self.bad.append(("returned:" + nm, "%s returned %s instead of the axes it drew on" % (
                    nm, self.names.get(id(val), type(val).__name__))))
        cands = [self.names[i] for i in seen if i in self.names] or ([self.names.get(id(ax))] if ax is not None else [])
        self.calls.append((cands, q, out))
        self.count("helper calls" + ("" if q.get("ax") is not None else " on the current axes"))

    def call(self, q, ax):
        return plots.call(q["f"], q["s"], ax)

    # -- judgement --------------------------------------------------------------------
    def picture(self):
        return {n: ([desc(a) for a in own(ax)], look(ax), limits(ax)) for n, ax in sorted(self.axes.items())}


def reference(kind, calls):
    """The same calls on one fresh axes, alone: [(outcome kind, added artists)], look, limits"""
    import matplotlib.pyplot as plt
    from . import ops

    ops.record_warnings()
    f = plt.figure()
    ax = f.add_subplot(1, 1, 1, **({"projection": "3d"} if kind == "3d" else {}))
    res = []
    for q in calls:
        n = len(own(ax))
        out, _ = ops.outcome_of(lambda: (plots.call(q["f"], q["s"], ax if q.get("ax") is not None else None), {}))
        res.append((out["k"], out.get("t"), [desc(a) for a in own(ax)[n:]]))
    return res, look(ax), limits(ax)


def same_set(a, b):
    """Multisets of artist descriptions."""
    if len(a) != len(b):
        return "%d artists instead of %d (%s)" % (len(b), len(a), _count_diff(a, b))
    left = list(b)
    for x in a:
        hit = None
        for k, y in enumerate(left):
            if y["type"] == x["type"] and differ(x, y) is None:
                hit = k
                break
        if hit is None:
            like = [y for y in left if y["type"] == x["type"]]
            return "a %s is missing or looks different%s" % (x["type"], ": " + str(differ(x, like[0])) if like else "")
        left.pop(hit)
    return None


def _count_diff(a, b):
    c = {}
    for x in b:
        c[x["type"]] = c.get(x["type"], 0) + 1
    for x in a:
        c[x["type"]] = c.get(x["type"], 0) - 1
    return ", ".join("%+d %s" % (n, t) for t, n in sorted(c.items()) if n)
