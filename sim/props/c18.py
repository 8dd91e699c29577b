"""C18: a drawing goes to the axes it is given and nowhere else."""
import json
import math
import warnings

from .. import farm as F
from .. import models as M
from .. import ops as O
from .. import threads as T
from ..core import Violation, weighted
from ..seams import quiet

RUNS = {"quick": 1600, "thorough": 20000}
LISTS = ("steps",)
RULE = ("one run = a list of drawings of counts, tables, curves and cracks on several open figures, with the program's current "
        "figure changing, figures being cleared and closed, and drawings aborted in between; non-trivial if a drawing went to "
        "axes that were not the current ones, or after an abort; distinct by event-log digest")
STATES = "hash of (what is drawn, how the target is given, whose axes are current, kind of fault)"
REAL = ["all plotting methods of counts, damage tables, curves and crack geometries", "matplotlib with the Agg backend", "pandas"]
STUB = ["other users of pyplot (current figure, closing, clearing)", "Ctrl-C and memory exhaustion", "a failing density function",
        "display", "numba compilation"]

DRAW = {"hist": 5, "residuals": 3, "table": 3, "sn": 4, "paris": 3, "geo": 2, "msc": 1, "periods": 1}
TYPES = ["min-max", "mean-range", "counts-range", "counts-range-cumsum", "counts-range-2D"]
GIVE = ["both", "both", "both", "ax", "ax", "fig", "none"]


def gen(rng, tier, idx):
    steps = []
    table = {k: w for k, w in DRAW.items() if rng.random() < 0.7} or dict(DRAW)
    for _ in range(rng.randint(2, 7)):
        x = rng.random()
        at = {"fig": round(rng.random(), 4), "ax": rng.randrange(2)}
        if x < 0.62:
            s = dict(at, do=weighted(rng, table), a=round(rng.random(), 4), b=round(rng.random(), 4), v=rng.randrange(256),
                     give=rng.choice(GIVE))
            if rng.random() < 0.3:
                s["fault"] = {"kind": rng.choice(["interrupt", "memory", "switch", "switch", "callback", "invalid"]),
                              "x": round(rng.random(), 5), "fig": round(rng.random(), 4), "ax": rng.randrange(2)}
            if s["do"] in ("msc", "periods"):
                s["give"] = "none"
            steps.append(s)
        elif x < 0.80:
            steps.append(dict(at, do="switch"))
        elif x < 0.85:
            steps.append(dict(at, do="note", v=rng.randrange(4)))
        elif x < 0.90:
            steps.append(dict(at, do="clear"))
        elif x < 0.95:
            steps.append(dict(at, do="close"))
        elif x < 0.99:
            steps.append(dict(at, do="new"))
        else:
            steps.append(dict(at, do="svg", a=round(rng.random(), 4), v=rng.randrange(2)))
    pool = O.gen_pool(rng, n=(1, 3), size=(2, 10))
    if pool["geo"]["kind"] == "cylinder":
        pool["geo"].update(initial_depth=rng.choice([0.5, 1.0, 2.0, 5.0, 12.0]), outer_diameter=rng.choice([100.0, 200.0, 1000.0]),
                           width_to_depth_ratio=rng.choice([1.0, 2.0, 4.0]))
    return {"pool": pool,
            "figs": [{"own": rng.random() < 0.25, "axes": rng.choice([1, 1, 2])} for _ in range(rng.randint(1, 3))], "steps": steps}


def simplify(plan):
    for i, s in enumerate(plan["steps"]):
        if s.get("fault"):
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, fault=None)] + plan["steps"][i + 1:])
    if len(plan["figs"]) > 1:
        for i in range(len(plan["figs"])):
            yield dict(plan, figs=plan["figs"][:i] + plan["figs"][i + 1:])
    p = plan["pool"]
    for key in ("derived", "windows", "arrays", "sn", "paris"):
        for i in range(len(p[key])):
            if len(p[key]) > 1 or key == "derived":
                yield dict(plan, pool=dict(p, **{key: p[key][:i] + p[key][i + 1:]}))


# ------------------------------------------------------------------ drawing
class Twice:
    """Density function of the caller; may fail."""

    def __init__(self, fails):
        self.fails = fails

    def __call__(self, x):
        if self.fails:
            raise ArithmeticError("injected")
        return 2.0 * x

    def __repr__(self):
        return "twice"


def correction(cc, v):
    """A mean stress correction that shows what it does in a new figure."""
    import matplotlib.pyplot as plt
    import numpy as np
    from py_fatigue.mean_stress import corrections as C

    f, kw = [(C.dnvgl_mean_stress_correction, {"detail_factor": 0.8}), (C.walker_mean_stress_correction, {"gamma": 0.6}),
             (C.swt_mean_stress_correction, {})][v % 3]
    mean, amp = np.array(cc.mean_stress, dtype=float), np.array(cc.stress_range, dtype=float) / 2

    def call(fig=None, ax=None):  # pylint: disable=unused-argument
        want = f(mean.copy(), amp.copy(), **kw)
        was = set(plt.get_fignums())
        got = f(mean.copy(), amp.copy(), plot=True, **kw)
        if not np.array_equal(want, got, equal_nan=True):
            raise Violation("plot-changes-result", f"{f.__name__}: {got} when plotting, {want} otherwise")
        new = sorted(set(plt.get_fignums()) - was)
        fig = plt.figure(new[0]) if new else plt.gcf()
        return fig, fig.gca()

    return call


class Picked:
    """One drawing of the plan: the object, the method and its arguments."""

    def __init__(self, pool, s):
        v = s["v"]
        self.kw, self.points = {}, None
        k = s["do"]
        fault = (s.get("fault") or {}).get("kind")
        dens = Twice(fault == "callback") if v & 64 or fault == "callback" else None
        bad = fault == "invalid"
        if k == "hist":
            self.on = pool.pick(pool.counts, s["a"])
            self.call = self.on.plot_histogram
            self.kw = {"plot_type": TYPES[v % 5]}
            if v & 8:
                self.kw["bins"] = [5, 20][v >> 4 & 1]
            if v & 128:
                self.kw["mode"] = "valley"
            if v % 7 == 0:
                self.kw.update({"s": 4, "alpha": 0.5, "cmap": "magma"})
            if bad:
                self.kw.update({"plot_type": "pie"} if v & 32 else {"mode": "hill"})
            if dens:
                self.kw["dens_func"] = dens
        elif k == "residuals":
            self.on = pool.pick(pool.counts, s["a"])
            self.call = self.on.plot_residuals_sequence if v & 1 else self.on.plot_half_cycles_sequence
            if v % 3 == 0:
                self.kw = {"lw": 3, "alpha": 0.5}
        elif k == "table":
            t = pool.pick(pool.counts, s["a"]).to_df()
            sn = pool.pick(pool.sn, s["b"])
            try:
                t.miner.damage(sn)
            except Exception:  # pylint: disable=broad-except
                raise O.Skip() from None
            self.on = t
            self.call = t.miner.plot_histogram
            if v % 3 == 0:
                self.kw = {"s": 4, "alpha": 0.5, "cmap": "magma"}
            if dens:
                self.kw["dens_func"] = dens
        elif k == "sn":
            self.on = pool.pick(pool.sn, s["a"])
            self.call = self.on.plot
            if v & 1:
                self.kw = {"cycles": [1e4, 2e5], "stress_range": [80.0, 30.0], "dataset_name": "d"}
            if v % 3 == 0:
                self.kw.update({"lw": 3, "alpha": 0.5})
            if bad:
                self.kw = {"cycles": [1e4, 2e5], "stress_range": [80.0]}
        elif k == "paris":
            self.on = pool.pick(pool.paris, s["a"])
            self.call = self.on.plot
            if v & 1:
                self.kw = {"sif": [100.0, 300.0], "growth_rate": [1e-8, 1e-6], "dataset_name": "d"}
            if v % 3 == 0:
                self.kw.update({"lw": 3, "alpha": 0.5})
            if bad:
                self.kw = {"sif": [100.0, 300.0], "growth_rate": [1e-8]}
        elif k == "periods":
            from py_fatigue.cycle_count.utils import aggregate_cc, plot_aggregated_residuals

            if not pool.frames:
                raise O.Skip()
            self.on = {}
            for by in (["D", "all"], ["h"])[v & 1]:
                try:
                    self.on[by] = aggregate_cc(pool.frames[0], by, save_residuals=True)[1]
                except Exception:  # pylint: disable=broad-except
                    raise O.Skip() from None
            self.was = json.dumps(self.on)

            def call(fig=None, ax=None):  # pylint: disable=unused-argument
                out = plot_aggregated_residuals(self.on, "CC_a", minor_grid=bool(v & 2))
                if json.dumps(self.on) != self.was:
                    raise Violation("drawn-object-changed", "drawing changed the residual sequences it was given")
                return out

            self.call = call
        elif k == "msc":
            self.on = pool.pick(pool.counts, s["a"])
            self.call = correction(self.on, v)
        else:
            if not hasattr(pool.geo, "plot"):
                raise O.Skip()
            self.on = pool.geo
            self.call = pool.geo.plot
            if v & 1:
                self.kw = {"alpha": 0.5}

    def expected(self, s):
        """Points the picture must show, where that is plain."""
        r = lambda *p: tuple(round(float(i), 7) + 0.0 for i in p)  # noqa: E731
        if s["do"] == "hist":
            cc, kind = self.on, self.kw["plot_type"]
            rows = list(zip(cc.count_cycle, cc.mean_stress, cc.stress_range))
            if kind in ("min-max", "mean-range"):
                f = (lambda m, w: r(m - w / 2, m + w / 2)) if kind == "min-max" else r
                out = set()
                for _c, m, w in rows:
                    out.add(f(m, w))
                return out
            rows = sorted(((w, c) for c, _m, w in rows), reverse=True)
            total, out = 0.0, set()
            for w, c in rows:
                total += c
                out.add((*r(total if kind.endswith("cumsum") else c, w), f"{c:.7g}"))
            return out
        if s["do"] == "table":
            k = 2.0 if "dens_func" in self.kw else 1.0
            return {(*r(c, w), f"{k * d:.7g}")
                    for c, w, d in zip(self.on["count_cycle"], self.on["stress_range"], self.on["pm_damage"])}
        if s["do"] == "periods":
            return {r(*p) for p in zip(*[next(iter(self.on.values()))["CC_a"][k] for k in ("idx", "res")])}
        if s["do"] == "residuals":
            return {r(i, y) for i, y in enumerate(self.on.residuals_sequence)}
        return None


def shown(ax, old, what, n):
    """Sets of points, with colours if n = 3, of the artists that are new."""
    r = lambda *p: tuple(round(float(i), 7) + 0.0 for i in p)  # noqa: E731
    if what in ("residuals", "periods"):
        return [{r(*p) for p in zip(*ln.get_data())} for ln in ax.lines if ln not in old]
    new = [c for c in ax.collections if c not in old]
    if n == 3:
        return [{(*r(*p), f"{v:.7g}") for p, v in zip(c.get_offsets(), c.get_array())} for c in new
                if c.get_array() is not None]
    return [{r(*p) for p in c.get_offsets()} for c in new]


def off(s, p, ax, old):
    """What is wrong with the lines of a curve or a crack, or None.  Where and
    how densely they are sampled is free."""
    new = [ln for ln in ax.lines if ln not in old]
    pts = [[(float(x), float(y)) for x, y in zip(*ln.get_data())] for ln in new]
    if s["do"] == "geo":
        return off_crack(p.on, p.on.initial_depth, pts)
    if s["do"] not in ("sn", "paris"):
        return None
    data = [p.kw.get(k) for k in (("cycles", "stress_range") if s["do"] == "sn" else ("sif", "growth_rate"))]
    if data[0] and [tuple(d) for d in zip(*data)] not in pts:
        return "the data set is not shown"
    own = [q for ln, q in zip(new, pts) if ln.get_label() == p.on.name]
    if not own:
        return "the curve is not shown"
    return off_sn(p.on, own[0]) if s["do"] == "sn" else off_paris(p.on, own[0])


def off_sn(c, pts):
    law = lambda n: max(10 ** ((float(a) - math.log10(n)) / float(m)) for m, a in zip(c.slope, c.intercept))  # noqa: E731
    for n, y in pts:
        w = law(min(n, float(c.endurance)))
        if not abs(y - w) <= 1e-6 * w:
            return f"({n!r}, {y!r}) is not on the curve: {w!r}"
    return None if len(pts) > 1 else "the curve has no extent"


def off_paris(c, pts):
    law = M.Paris(c.slope.tolist(), c.intercept.tolist(), float(c.threshold), float(c.critical))
    inside = 0
    for k, y in pts:
        if not (math.isfinite(k) and law.th * (1 - 1e-9) <= k <= law.cr * (1 + 1e-9)):
            return f"stress intensity {k!r} is outside {law.th} to {law.cr}"
        if law.th * (1 + 1e-9) < k < law.cr * (1 - 1e-9):
            inside += 1
            if not abs(y - law.rate(k)) <= 1e-6 * law.rate(k):
                return f"({k!r}, {y!r}) is not on the curve: {law.rate(k)!r}"
    return None if inside > 1 else "the curve has no extent"


def off_crack(g, depth, pts):
    radii = [[math.hypot(x, y) for x, y in q] for q in pts]
    if not radii:
        return None
    outer = g.outer_diameter / 2
    for r, what in ((outer, "outer"), (outer - g.thickness, "inner")):
        if not any(all(abs(x - r) <= 1e-9 * outer for x in q) and math.dist(z[0], z[-1]) <= 1e-9 * outer
                   for z, q in zip(pts, radii)):
            return f"no closed circle with the {what} radius {r}"
    half = g.width_to_depth_ratio * depth / outer
    if half > 1.5 or depth - outer * (1 - math.cos(half)) <= 0.1 * depth:
        return None  # the crack front would be no arc
    for z, q in zip(pts, radii):
        if abs(min(q) - (outer - depth)) <= 2e-3 * depth and max(q) <= outer * (1 + 1e-9) and max(q) - min(q) > 0.5 * depth:
            rim = [x for x, d in zip(z, q) if abs(d - outer) <= 1e-9 * outer]
            wide = max(math.dist(a, b) for a in rim for b in rim)
            return None if abs(wide - 2 * outer * math.sin(half)) <= 1e-2 * wide else f"the crack is {wide} wide, not {2 * half * outer}"
    return f"no crack of depth {depth} from the outer surface, radii {[(min(q), max(q)) for q in radii]}"


# ---------------------------------------------------------------- pictures
def _num(x):
    import numpy as np

    a = np.ma.filled(np.ma.asarray(x, dtype=float), float("nan"))
    return [float(f"{v:.9g}") for v in a.ravel().tolist()]


def _grid(axis):
    out = []
    for t in (axis.get_major_ticks(1), axis.get_minor_ticks(1)):
        g = t[0].gridline
        out.append((g.get_visible(), str(g.get_linestyle()), str(g.get_color())) if g.get_visible() else False)
    return out


def look(fig):
    """What a figure shows, as plain values."""
    out = [look_at(ax) for ax in fig.axes]
    out.append({"texts": [t.get_text() for t in fig.texts], "size": _num(fig.get_size_inches())})
    return json.loads(json.dumps(out))


def look_at(ax):
    return {
        "lines": [(_num(ln.get_xdata()), _num(ln.get_ydata()), str(ln.get_color()), str(ln.get_linestyle()),
                   str(ln.get_marker()), str(ln.get_label()), ln.get_linewidth(), ln.get_alpha()) for ln in ax.lines],
        "points": [(_num(c.get_offsets()), None if c.get_array() is None else _num(c.get_array()), _num(c.get_sizes()),
                    c.get_cmap().name, c.get_alpha(), _num(c.get_clim()))
                   if hasattr(c, "get_sizes") else type(c).__name__ for c in ax.collections],
        "texts": [t.get_text() for t in ax.texts], "patches": len(ax.patches), "images": len(ax.images),
        "labels": [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()], "scales": [ax.get_xscale(), ax.get_yscale()],
        "limits": [_num(ax.get_xlim()), _num(ax.get_ylim())], "grid": [_grid(ax.xaxis), _grid(ax.yaxis)],
        "frame": [sp.get_visible() for _n, sp in sorted(ax.spines.items())], "aspect": str(ax.get_aspect()),
        "place": _num(ax.get_position(True).bounds), "legend": ax.get_legend() is not None,
        "ticks": [type(f()).__name__ for a in (ax.xaxis, ax.yaxis) for f in (
            a.get_major_locator, a.get_minor_locator, a.get_major_formatter, a.get_minor_formatter)],
        "visible": ax.get_visible(), "background": str(ax.get_facecolor())}


def settings():
    """Process-wide settings that other drawings depend on."""
    import matplotlib as mpl

    return dict({k: repr(v) for k, v in mpl.rcParams.items() if not k.startswith("_") and k != "backend"},
                interactive=repr(mpl.is_interactive()))


def first_difference(a, b):
    if len(a) != len(b):
        return f"{len(a) - 1} axes instead of {len(b) - 1}"
    for i, (x, y) in enumerate(zip(a, b)):
        for k in y:
            if x.get(k) != y[k]:
                return f"axes {i}, {k}: {str(x.get(k))[:160]} instead of {str(y[k])[:160]}"
    return "?"


class Sheet:
    """A figure on somebody's desk, and all that was done to it on purpose."""

    def __init__(self, n_axes, own, fig=None, script=()):
        self.n_axes, self.own, self.script = n_axes, own, list(script)
        self.fig, self.axes = blank(n_axes, own) if fig is None else (fig, fig.axes[:1])

    def ax(self, i):
        return self.axes[i % len(self.axes)]


def blank(n_axes, own):
    import matplotlib.pyplot as plt
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure

    if own:
        fig = Figure()
        FigureCanvasAgg(fig)
    else:
        fig = plt.figure()
    return fig, [fig.add_subplot(1, n_axes, i + 1) for i in range(n_axes)]


def note(ax, v):
    if v == 0:
        ax.grid(False)
    elif v == 1:
        ax.plot([1.0, 2.0], [3.0, 1.0], color="#010101")
    elif v == 2:
        ax.set_title("mine")
    else:
        ax.grid(True)


def targets(s, sheet):
    """Arguments that say where to draw."""
    if s["give"] == "none" or sheet is None:
        return {}
    if s["give"] == "fig":
        sheet.fig.sca(sheet.ax(s["ax"]))
        return {"fig": sheet.fig}
    if s["give"] == "ax":
        return {"ax": sheet.ax(s["ax"])}
    return {"fig": sheet.fig, "ax": sheet.ax(s["ax"])}


BLANK = {}  # what an untouched sheet shows, by number of axes


def alone(pool, sheet):
    """What the sheet shows when its script is all that ever happens."""
    import matplotlib.pyplot as plt

    if not sheet.script and sheet.n_axes in BLANK:
        return BLANK[sheet.n_axes]
    plt.close("all")
    new = None
    if not (sheet.script and sheet.script[0].get("give") == "none"):
        new = Sheet(sheet.n_axes, False)
    for s in sheet.script:
        if s["do"] == "note":
            note(new.ax(s["ax"]), s["v"])
            continue
        p = Picked(pool, s)
        if s["give"] == "none":
            fig, _ax = p.call(**p.kw)
            new = Sheet(1, False, fig)
            continue
        plt.figure(new.fig.number)
        plt.sca(new.ax(s["ax"]))
        p.call(**dict(p.kw, fig=new.fig, ax=new.ax(s["ax"])))
    out = look(new.fig)
    plt.close("all")
    if not sheet.script:
        BLANK[sheet.n_axes] = out
    return out


# -------------------------------------------------------------------- the run
class Desk:
    def __init__(self, plan, ctx):
        self.ctx = ctx
        self.pool = O.Pool(plan["pool"])
        self.before = self.pool.fingerprint()
        self.sheets = [Sheet(f["axes"], f["own"]) for f in plan["figs"]]
        self.done = []  # (sheet, what it showed when it was put away)
        self.struck = False

    def pick(self, x):
        return self.sheets[min(int(x * len(self.sheets)), len(self.sheets) - 1)]

    def open(self):
        import matplotlib.pyplot as plt

        return set(plt.get_fignums())

    def put_away(self, sheet, keep=True):
        import matplotlib.pyplot as plt

        if keep:
            self.done.append((sheet, look(sheet.fig)))
        if not sheet.own:
            plt.close(sheet.fig)

    def replace(self, sheet, keep=True):
        self.put_away(sheet, keep)
        new = Sheet(sheet.n_axes, sheet.own)
        self.sheets[self.sheets.index(sheet)] = new
        return new

    def strays(self):
        return sorted(self.open() - {s.fig.number for s in self.sheets if not s.own})

    def current(self, x, i, sheet=None):
        """Somebody makes other axes the current ones; on the given sheet the
        current axes stay, as they say where to draw."""
        import matplotlib.pyplot as plt

        s = self.pick(x)
        if s.own:
            return None
        plt.figure(s.fig.number)
        if s is not sheet:
            plt.sca(s.ax(i))
        return plt.gca()

    def step(self, s):
        import matplotlib.pyplot as plt

        k, ctx = s["do"], self.ctx
        if k == "switch":
            ctx.log("switch", self.current(s["fig"], s["ax"]) is not None)
        elif k == "note":
            sheet = self.pick(s["fig"])
            note(sheet.ax(s["ax"]), s["v"])
            sheet.script.append(s)
        elif k == "new":
            self.sheets.append(Sheet(1 + s["ax"], False))
            ctx.fault("figure-opened")
        elif k == "close":
            ctx.fault("figure-closed")
            self.replace(self.pick(s["fig"]))
        elif k == "clear":
            ctx.fault("figure-cleared")
            sheet = self.pick(s["fig"])
            self.done.append((Sheet(sheet.n_axes, sheet.own, sheet.fig, sheet.script), look(sheet.fig)))
            sheet.fig.clear()
            sheet.script = []
            sheet.axes = [sheet.fig.add_subplot(1, sheet.n_axes, i + 1) for i in range(sheet.n_axes)]
        elif k == "svg":
            self.preview(s)
        else:
            self.draw(s)

    def preview(self, s):
        import matplotlib.pyplot as plt

        curve = self.pool.pick(self.pool.sn if s["v"] else self.pool.paris, s["a"])
        if curve is None:
            return
        was, now = self.open(), plt.gcf().number if plt.get_fignums() else None
        try:
            text = curve._repr_svg_()  # pylint: disable=protected-access
        except ValueError:
            return
        ctx = self.ctx
        ctx.check("<svg" in text, "no-preview", "the preview of a curve is not an SVG picture")
        left = plt.gcf().number if plt.get_fignums() else None
        ctx.check(self.open() == was and left == now, "figure-left", lambda: f"the preview of a curve left figures "
                  f"{sorted(self.open() - was)} open, current figure {now} became {left}")
        ctx.probe("preview")
        ctx.log("preview")

    def draw(self, s):
        import matplotlib.pyplot as plt

        ctx, f = self.ctx, s.get("fault")
        try:
            p = Picked(self.pool, s)
        except O.Skip:
            return
        sheet = None if s["give"] == "none" else self.pick(s["fig"])
        kw = dict(p.kw, **targets(s, sheet))
        target = sheet.ax(s["ax"]) if sheet else None
        cur = plt.gca() if plt.get_fignums() else None
        away = target is not None and cur is not target
        was = self.open()
        old = list(target.lines) + list(target.collections) + list(target.texts) if sheet else []
        beside = [(a, look_at(a)) for a in sheet.fig.axes if a is not target] if sheet else []
        rc = settings()
        kind = f["kind"] if f else None
        if kind in ("interrupt", "memory", "switch"):
            kind, err, got = self.strike(p, kw, f, sheet)
        else:
            err, got = None, None
            try:
                got = p.call(**kw)
            except Violation:
                raise
            except Exception as e:  # pylint: disable=broad-except
                err = e
        ctx.state(s["do"], s["give"], "none" if cur is None else "other" if away else "target", kind)
        now = settings()
        ctx.check(now == rc, "settings-changed", lambda: f"{s['do']} changed {[k for k in now if now[k] != rc.get(k)][:5]}")
        ctx.log(s["do"], s["give"], away, kind, type(err).__name__ if err else None)
        if err is not None:
            if kind in ("callback", "invalid", "interrupt", "memory"):
                ctx.fault(f"{kind}:{s['do']}")
                self.struck = True
            else:
                ctx.probe("refused")
                self.refused(s, sheet, err)
            # the picture that failed is thrown away
            if sheet is not None:
                self.replace(sheet, keep=False)
            for n in self.strays():
                plt.close(n)
            return
        fig, ax = got
        if away or self.struck:
            ctx.nontrivial = True
        if sheet is not None:
            ctx.check(ax is target and fig is sheet.fig, "wrong-axes",
                      lambda: f"{s['do']} given {s['give']} returned other axes or another figure than the given ones")
            ctx.check(not self.strays(), "figure-left", lambda: f"{s['do']} given {s['give']} opened figures {self.strays()}")
            sheet.script.append(s)
        else:
            new = self.open() - was
            ctx.check(fig.number in new and len(new) == 1 and ax.figure is fig, "wrong-axes",
                      lambda: f"{s['do']} given nothing opened {sorted(new)} and drew on figure {fig.number}")
            self.sheets.append(Sheet(1, False, fig, [s]))
        for a, was in beside:
            now = look_at(a)
            ctx.check(now == was, "other-axes-changed", lambda: f"{s['do']} given {s['give']} changed other axes of the figure: "
                      + first_difference([now], [was]))  # noqa: B023
        lost = [x for x in old if x not in ax.get_children()]
        ctx.check(not lost, "wiped", lambda: f"{s['do']} given {s['give']} removed {lost} from its axes")
        want = p.expected(s)
        if want is not None:
            seen = shown(ax, old, s["do"], len(next(iter(want), ())))
            ctx.check(want in seen, "wrong-points", lambda: f"{s['do']} {p.kw.get('plot_type', '')}: shown "
                      f"{[sorted(x)[:3] for x in seen]}, in the data {sorted(want)[:3]}")

        bad = off(s, p, ax, old)
        ctx.check(bad is None, "wrong-lines", lambda: f"{s['do']} {p.kw}: {bad}")

    def strike(self, p, kw, f, sheet):
        """A drawing with something happening at one place inside it."""
        import matplotlib.pyplot as plt

        # number of places, counted on a spare figure
        back = plt.gcf().number if plt.get_fignums() else None
        spare = Sheet(1, True)
        _r, e, st = T.interrupted(lambda: p.call(**dict(p.kw, fig=spare.fig, ax=spare.ax(0))))
        for n in self.strays():
            plt.close(n)
        if back is not None:
            plt.figure(back)
        if e is not None or not st.n:
            try:
                return None, None, p.call(**kw)
            except Exception as e2:  # pylint: disable=broad-except
                return None, e2, None
        at = 1 + min(int(f["x"] * st.n), st.n - 1)
        if f["kind"] == "switch":
            hit = []

            def act():
                hit.append(self.current(f["fig"], f["ax"], sheet if "ax" not in kw else None))

            r, e, _st = T.interrupted(lambda: p.call(**kw), at, act)
            if hit and hit[0] is not None:
                self.ctx.fault("switch-during")
                self.ctx.nontrivial = True
            return f["kind"], e, r
        exc = T.Interrupt() if f["kind"] == "interrupt" else T.Exhausted()
        r, e, _st = T.interrupted(lambda: p.call(**kw), at, exc)
        return f["kind"] if e is exc else None, e, r

    def refused(self, s, sheet, err):
        """A drawing that fails undisturbed must do so on an empty desk too."""
        import matplotlib.pyplot as plt

        back = plt.gcf().number if plt.get_fignums() else None
        spare = blank(1, False)
        e2, p = None, Picked(self.pool, s)
        try:
            p.call(**dict(p.kw, fig=spare[0], ax=spare[1][0]))
        except Exception as e:  # pylint: disable=broad-except
            e2 = e
        plt.close(spare[0])
        if back is not None:
            plt.figure(back)
        self.ctx.check(type(e2) is type(err), "refused", lambda: f"{s['do']} given {s['give']}: {type(err).__name__} {err}")
        # a record may have no residual sequence
        may = s["do"] == "residuals" and p.on.residuals_sequence is None
        self.ctx.check(may, "not-drawn", lambda: f"{s['do']} {p.kw} given {s['give']}: {type(err).__name__} {err}")

    def end(self):
        import matplotlib.pyplot as plt

        ctx = self.ctx
        after = self.pool.fingerprint()
        ctx.check(after == self.before, "drawn-object-changed", lambda: O.diff(self.before, after))
        for sheet in self.sheets:
            self.done.append((sheet, look(sheet.fig)))
        plt.close("all")
        for sheet, seen in self.done:
            want = alone(self.pool, sheet)
            ctx.check(seen == want, "wrong-picture", lambda: f"after {[(s['do'], s.get('give')) for s in sheet.script]}: "
                      + first_difference(seen, want))
            ctx.log("picture", len(want) - 1, str(want)[:4000])


def execute(plan, ctx):
    import matplotlib as mpl
    import matplotlib.pyplot as plt

    plt.close("all")
    with quiet(), mpl.rc_context(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            desk = Desk(plan, ctx)
            for s in plan["steps"]:
                desk.step(s)
            desk.end()
        finally:
            plt.close("all")
