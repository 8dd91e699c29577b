"""Operations on a pool of shared objects (counts, curves, geometries, arrays,
tables), for the worlds of threads (C07) and interruption (C06).

A pool is planned as JSON and can be built any number of times; an operation
names the pool objects it uses by numbers in [0, 1), so any part of a plan is a
plan.  What an operation returns (or raises) is turned into plain values."""
import functools
import json

from . import farm as F
from . import models as M
from .core import Violation, weighted
from .seams import stamp
from .props import c11, c13

CORRECT = [("DNVGL-RP-C203", {"detail_factor": 0.8}), ("dnvgl-rp-c203", {"detail_factor": 0.6}), ("Walker", {"gamma": 0.5}),
           ("walker", {"gamma": 0.75}), ("SWT", {}), ("smith-watson-topper", {}), ("goodman", {})]
DERIVED = ["total", "solved", "scaled", "corrected", "stored", "no-residuals", "scaled-total", "extremes", "rebinned",
           "rebinned", "coarse-total", "rest", "zero-mean", "zero-mean", "odd-total", "odd-total"]
REBINNED = {"range_bin_lower_bound": 2.0, "range_bin_width": 4.0, "mean_bin_lower_bound": -32.0, "mean_bin_width": 4.0}
COARSE = {"range_bin_lower_bound": 6.0, "range_bin_width": 8.0, "mean_bin_width": 7.0}
RULES = ["pavlou", "manson halford", "leve", "si jian"]


# ------------------------------------------------------------------ planning
def gen_pool(rng, n=(2, 5), size=(2, 12)):
    wins = F.gen_windows(rng, rng.randint(*n), size=size, stored=rng.choice([0, 0, 0.3]))
    geo = rng.choice([{"kind": "surface", "initial_depth": 1.0},
                      {"kind": "cylinder", "initial_depth": 2.0, "outer_diameter": 200.0, "thickness": 20.0, "height": 1000.0,
                       "width_to_depth_ratio": 2.0}])
    return {"windows": wins, "derived": rng.sample(DERIVED, rng.randint(1, 6)),
            "arrays": [F.changing(rng, F.signal(rng, rng.randint(2, 12))) for _ in range(rng.randint(1, 3))],
            "levels": [[rng.choice([0.25, 1.0, 3.0, 10.0, 30.0, 77.0, 200.0, 900.0]) for _ in range(rng.randint(1, 6))]
                       for _ in range(2)],
            "sn": rng.sample(range(len(c13.CURVES)), rng.randint(1, 3)),
            "paris": rng.sample(range(len(c11.CURVES)), rng.randint(1, 2)), "geo": geo, "unit2": rng.choice(["MPa", "MPa", "ksi"])}


TABLE = {"count": 3, "add": 4, "sum": 2, "scale": 3, "solve": 4, "correct": 4, "export": 4, "restore": 1, "table": 1, "read": 3,
         "pm": 3, "miner": 2, "gassner": 1, "des": 2, "dem": 1, "nonlinear": 2, "grow": 2, "sn": 3, "paris": 3, "aggregate": 1,
         "aggdamage": 1, "equal": 1, "miss": 1, "record": 2}


def gen_op(rng, table=None):
    k = weighted(rng, table or TABLE)
    op = {"op": k, "a": round(rng.random(), 4), "b": round(rng.random(), 4), "v": rng.randrange(64)}
    if k == "correct":
        op["kind"], op["kw"] = rng.choice(CORRECT)
    elif k == "export":
        op["kw"] = rng.choice([{}, {}, {"damage_tolerance_for_binning": 0.05}, {"max_consecutive_zeros": 1}, {"round_decimals": 2}, {"round_decimals": 1},
                               {"legacy_export": True}, {"damage_exponent": 3.0, "max_consecutive_zeros": 8}])
    return op


# ---------------------------------------------------------------------- pool
class Pool:
    def __init__(self, plan):
        import numpy as np
        import pandas as pd
        import py_fatigue as pf
        from py_fatigue.material.crack_growth_curve import ParisCurve
        from py_fatigue.material.sn_curve import SNCurve

        wins = [F.materialise(dict(w, unit="MPa"))[0] for w in plan["windows"]]
        self.windows = wins
        self.counts = list(wins)
        total = None
        for c in wins:
            total = c if total is None else total + c
        for d in plan["derived"]:
            if total is None:
                break
            if d == "total":
                self.counts.append(total)
            elif d == "solved":
                self.counts.append(total.solve_lffd())
            elif d == "extremes":
                self.counts.append(total.solve_lffd(solve_mode="min-max"))
            elif d in ("rebinned", "coarse-total"):
                bins = REBINNED if d == "rebinned" else COARSE
                ws = [F.count_window(w["data"], w["t"], bins=bins, utc=w["utc"]) for w in plan["windows"]]
                self.counts.append(functools.reduce(lambda x, y: x + y, ws))
            elif d == "rest":
                if len(wins) > 1:
                    self.counts.append(functools.reduce(lambda x, y: x + y, wins[1:]))
            elif d == "zero-mean":
                # a symmetric load: the corrections treat it apart
                top = max(abs(v) for v in plan["windows"][0]["data"]) or 1.0
                self.counts.append(F.count_window([top, -top] * (1 + len(plan["windows"][0]["data"]) // 2), plan["windows"][0]["t"],
                                                  utc=plan["windows"][0]["utc"]))
            elif d == "scaled":
                self.counts.append(wins[0] * 1.5)
            elif d == "scaled-total":
                self.counts.append(total * 2.0)
            elif d == "odd-total":
                self.counts.append(total * 0.3712391)  # values no rounding leaves alone
            elif d == "corrected":
                try:
                    self.counts.append(total.mean_stress_correction("DNVGL-RP-C203", detail_factor=0.8))
                except ValueError:
                    pass
            else:
                rec = json.loads(json.dumps(wins[-1].as_dict()))
                if d == "no-residuals":
                    rec.pop("res_sig", None)
                try:
                    self.counts.append(pf.CycleCount.from_rainflow(rec, timestamp=wins[-1].timestamp, name="strain"))
                except (ValueError, IndexError, KeyError):
                    pass
        self.arrays = [np.array(a, dtype=float) for a in plan["arrays"]]
        self.levels = [np.array(a, dtype=float) for a in plan["levels"]]
        self.sn = [SNCurve(unit_string="MPa", curve=f"c{k}", color="#123456", **c13.CURVES[k]) for k in plan["sn"]]
        self.paris = [ParisCurve(curve=f"p{k}", color="#123456", **c11.CURVES[k]) for k in plan["paris"]]
        self.geo = c11.geometry(plan["geo"], plan["geo"]["initial_depth"])
        self.tables = [c.to_df() for c in self.counts]
        self.frames = []
        idx = pd.DatetimeIndex([stamp(w["t"], w["utc"]) for w in plan["windows"]])
        if len(idx) and idx.is_unique:
            cells = [None if i % 3 == 2 else c for i, c in enumerate(wins)]
            self.frames.append(pd.DataFrame({"CC_a": pd.Series(cells, dtype=object, index=idx),
                                             "temp": pd.Series(range(len(cells)), dtype=float, index=idx)}))
            # a second one: named index, named columns, gaps, a sensor that changed its unit
            idx = idx.rename("time")
            other = [F.materialise(dict(w, unit="MPa" if i % 2 == 0 else plan.get("unit2", "MPa")))[0]
                     for i, w in enumerate(plan["windows"])]
            f = pd.DataFrame({"speed": [1.5 if i % 2 else float("nan") for i in range(len(wins))], "CC_a": [w * 2.0 for w in wins],
                              7: list(range(len(wins))), "CC_b": other}, index=idx)
            f.columns.name = "channel"
            f.attrs["site"] = "north"
            self.frames.append(f)

    def fingerprint(self, skip=()):
        """Value of everything in the pool; result columns of tables left out."""
        out = {}
        for i, c in enumerate(self.counts):
            out[f"count {i}"] = F.fingerprint(c)
        for i, a in enumerate(self.arrays + self.levels):
            out[f"array {i}"] = tuple(a.tolist())
        for i, c in enumerate(self.sn):
            out[f"S-N curve {i}"] = (tuple(c.slope.tolist()), tuple(c.intercept.tolist()), c.endurance, c.unit, c.name, c.color,
                                     c.linear, c.curve)
        for i, c in enumerate(self.paris):
            out[f"growth curve {i}"] = (tuple(c.slope.tolist()), tuple(c.intercept.tolist()), c.threshold, c.critical, c.unit,
                                        c.name, c.color, c.linear)
        g = self.geo
        out["geometry"] = (type(g).__name__, tuple((k, getattr(g, k)) for k in
                                                   ("initial_depth", "outer_diameter", "thickness", "height", "crack_position",
                                                    "width_to_depth_ratio") if hasattr(g, k)), str(g))
        for i, t in enumerate(self.tables):
            meta = getattr(t, "_metadata", None)
            unit = meta.get("unit") if isinstance(meta, dict) else None
            out[f"table {i}"] = (tuple(map(str, t.index)), t.index.name, unit) + tuple(
                tuple(map(float, t[c])) for c in ("count_cycle", "mean_stress", "stress_range"))
        for i, f in enumerate(self.frames):
            out[f"time table {i}"] = (tuple(map(str, f.index)), f.index.name, tuple(map(repr, f.columns)), f.columns.name,
                                      sorted(map(repr, f.attrs.items())), tuple(map(str, f.dtypes)),
                                      tuple(tuple(plain(x) for x in f[c].tolist()) for c in f.columns))
        return {k: repr(v) for k, v in out.items()}

    # -- picking -----------------------------------------------------------
    @staticmethod
    def pick(xs, x):
        return xs[min(int(x * len(xs)), len(xs) - 1)] if xs else None


def diff(a, b):
    out = []
    for k in a:
        if a[k] != b.get(k):
            x, y = a[k], b.get(k, "gone")
            i = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            out.append(f"{k}: ...{x[max(0, i - 30):i + 60]}... became ...{y[max(0, i - 30):i + 60]}...")
    return "; ".join(out)[:600]


# ---------------------------------------------------------------- operations
class Skip(Exception):
    """The operation does not apply to this pool."""


def run(pool, op, mine=()):
    """Execute one operation; `mine` are counts earlier operations of the same
    user returned.  Returns the library's own result."""
    import numpy as np
    import py_fatigue as pf
    from py_fatigue.cycle_count.cycle_count import pbar_sum
    from py_fatigue.cycle_count.histogram import binned_rainflow
    from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.damage.crack_growth import get_crack_growth

    k, a, b, v = op["op"], op["a"], op["b"], op["v"]
    counts = pool.counts + list(mine)
    pick = pool.pick
    cc = pick(counts, a)
    if cc is None:
        raise Skip()
    sn = pick(pool.sn, b)
    pc = pick(pool.paris, b)
    if k == "count":
        arr = pick(pool.arrays, b)
        if arr is None:
            raise Skip()
        bins = [{}, F.BINS_EXACT, {"range_bin_width": 2.0}][v % 3]
        return pf.CycleCount.from_timeseries(arr, timestamp=stamp(v * 60), name="n", **bins)
    if k == "record":
        arr = pick(pool.arrays, b)
        if arr is None:
            raise Skip()
        bins = [{}, F.BINS_EXACT, {"range_bin_width": 2.0}][v % 3]
        return binned_rainflow(arr, **dict(bins, time=0.5 * np.arange(len(arr))) if v & 8 else bins)
    if k == "add":
        return cc + pick(counts, b)
    if k == "miss":
        return [lambda: cc + None, lambda: 0 + cc, lambda: cc + float("nan"), lambda: cc + 0.0][v % 4]()
    if k == "sum":
        ws = pool.windows
        part = [w for i, w in enumerate(ws) if not (v >> i) & 1]
        if not part:
            raise Skip()
        if v % 3 == 0:
            return sum(part)
        return pbar_sum(part + [None] * (v % 2))
    if k == "scale":
        f = [0.5, 2, 1.25, 3.0][v % 4]
        return cc * f if v & 4 else f * cc
    if k == "solve":
        return cc.solve_lffd(solve_mode=["Residuals", "residuals", "min-max", "Min/Max"][v % 4])
    if k == "correct":
        return cc.mean_stress_correction(op["kind"], enforce_pulsating_load=v % 3 == 0, **op["kw"])
    if k == "export":
        return cc.as_dict(**op["kw"])
    if k == "restore":
        return pf.CycleCount.from_rainflow(json.loads(json.dumps(cc.as_dict())), timestamp=stamp(v), name="n")
    if k == "table":
        return cc.to_df()
    if k == "read":
        return reading(cc)
    if k == "equal":
        return bool(cc == pick(counts, b))
    if k == "pm":
        return sl.get_pm(cc, sn)
    if k == "miner":
        return cc.to_df().miner.damage(sn)
    if k == "gassner":
        return cc.to_df().gassner.g(sn)
    if k == "des":
        return sl.get_des(cc, [3, 4.5, 5.0, 1][v % 4], [1e7, 1e6][v % 2])
    if k == "dem":
        return sl.get_dem(2.0, 1.5, cc, [3, 4.5, 5.0, 1][v % 4], [1e7, 1e6][v % 2])
    if k == "nonlinear":
        return sl.get_nonlinear_damage(RULES[v % 4], cc, sn)
    if k == "grow":
        if pc is None:
            raise Skip()
        return get_crack_growth(cc, pc, pool.geo, express_mode=False)
    if k == "sn":
        x = pick(pool.levels, a)
        if x is None or sn is None:
            raise Skip()
        return [lambda: sn.get_cycles(x), lambda: sn.get_stress(x * 1e4), lambda: sn.get_knee_cycles(),
                lambda: sn.get_knee_stress(), lambda: sn.endurance_stress, lambda: sn.get_cycles(float(x[0])),
                lambda: sn.get_cycles(x.tolist())][v % 7]()
    if k == "paris":
        x = pick(pool.levels, a)
        if x is None or pc is None:
            raise Skip()
        return [lambda: pc.get_growth_rate(x), lambda: pc.get_sif(x * 1e-9), lambda: pc.get_knee_sif(),
                lambda: pc.get_knee_growth_rate(), lambda: pc.get_growth_rate(float(x[0])),
                lambda: pc.threshold_growth_rate][v % 6]()
    if k == "aggregate":
        f = pick(pool.frames, a)
        if f is None:
            raise Skip()
        return aggregate_cc(f, ["D", "h", "all", "M"][v % 4], save_residuals=v % 5 == 0)
    if k == "aggdamage":
        f = pick(pool.frames, a)
        if f is None or sn is None:
            raise Skip()
        return calc_aggregated_damage(f, [sn, list(pool.sn), {str(i): c for i, c in enumerate(pool.sn)}][v % 3])
    if k == "table-damage":  # on a shared table: adds result columns
        t = pick(pool.tables, a)
        return t.miner.damage(sn)
    if k == "table-g":
        t = pick(pool.tables, a)
        return t.gassner.g(sn)
    if k == "table-des":
        t = pick(pool.tables, a)
        return [lambda: t.miner.des([3, 5][v % 2], 1e6), lambda: t.miner.dem(2.0, 1.5, 3, 1e6)][v // 2 % 2]()
    raise ValueError(k)


def reading(cc):
    """Everything derived that can be read off a count."""
    out = {}
    for name in ("min_max_sequence", "residuals", "full_cycles", "half_cycles", "stress_amplitude", "min_stress", "max_stress",
                 "statistical_moments", "bin_centers", "bin_edges", "mean_bin_upper_bound", "range_bin_upper_bound",
                 "time_sequence"):
        try:
            out[name] = getattr(cc, name)
        except Exception as e:  # pylint: disable=broad-except
            out[name] = type(e).__name__
    out["text"] = str(cc)
    return out


# -------------------------------------------------------------- plain values
def is_count(x):
    return hasattr(x, "count_cycle") and hasattr(x, "lffd_solved")


def plain(x):
    """A library result as plain comparable values."""
    import numpy as np
    import pandas as pd

    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (int, float, np.integer, np.floating, np.bool_)):
        return repr(float(x))
    if isinstance(x, BaseException):
        return ("error", type(x).__name__)
    if is_count(x):
        return ("count", repr(F.fingerprint(x)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("array", [plain(i) for i in x.ravel().tolist()])
        return ("array", x.shape, repr(x.astype(float).ravel().tolist()))
    if isinstance(x, pd.DataFrame):
        return ("table", list(map(str, x.columns)), list(map(str, x.index)), list(map(str, x.index.names)),
                [[plain(i) for i in x[c].tolist()] for c in x.columns])
    if isinstance(x, pd.Series):
        return ("series", [plain(i) for i in x.tolist()])
    if isinstance(x, dict):
        return ("dict", [(str(k), plain(v)) for k, v in sorted(x.items(), key=lambda i: str(i[0]))])
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if hasattr(x, "crack_depth") and hasattr(x, "final_cycles"):
        return ("growth", [plain(getattr(x, n)) for n in ("crack_depth", "sif", "geometry_factor", "final_cycles", "failure")])
    return str(x)


def attempt(pool, op, mine=()):
    """(plain result, library result) of one operation; errors are results."""
    try:
        r = run(pool, op, mine)
    except (Skip, Violation):
        raise
    except Exception as e:  # pylint: disable=broad-except
        return plain(e), None
    return plain(r), r
