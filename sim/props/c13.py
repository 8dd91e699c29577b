"""C13: Miner damage is additive over any split of the load history."""
import math

from .. import chain as C
from .. import farm as F
from .. import models as M
from ..core import Violation
from ..seams import quiet

RUNS = {"quick": 7000, "thorough": 90000}
JIT_WORKERS = (6, 7)
LISTS = ("ops",)
RULE = ("one run = a history of additions, groupings, missing entries, lossless saves with crashes, scalings, recoveries "
        "and corrections in which damage is asked for in every way the library offers, also in the wrong unit; "
        "non-trivial if damage of a sum of at least two windows was asked in two or more ways; distinct by event-log digest")
STATES = "hash of (operation word of the count, way of asking, curve)"
REAL = ["calc_pm, get_pm, table accessor, calc_aggregated_damage", "S-N curve kernels (compiled in 2 of 8 workers)",
        "CycleCount operations"]
STUB = ["loggers and clocks", "disk and process crash", "numba compilation in 6 of 8 workers"]
simplify = C.simplify_windows
CURVES = [
    {"slope": [3], "intercept": [12.449]},
    {"slope": [5], "intercept": [16.106]},
    {"slope": [3, 5], "intercept": [12.164, 16.106]},
    {"slope": [3, 5], "intercept": [8.0, 9.0], "endurance": 1e7},
    {"slope": [3], "intercept": [9.0], "endurance": 2e5},
    {"slope": [4, 5, 6], "intercept": [9.0, 10.0, 10.8], "endurance": 1e12},
    {"slope": [3.5, 9.25], "intercept": [10.3, 17.1]},
    {"slope": [1], "intercept": [4.0]},
]
WAYS = ["count", "arrays", "lists", "series", "table", "aggregated", "scalar"]


def gen(rng, tier, idx):
    unit = rng.choice(["MPa", "MPa", "MPa", "ksi", "Pa"])
    wins = F.gen_windows(rng, rng.randint(2, 7), size=(2, 16), stored=rng.choice([0, 0, 0.3]), nores=0.4, flat=rng.choice([0, 0, 0.3]), many=0.1, units=(unit,))
    ops = C.gen_ops(rng, {"window": 1, "add": 8, "missing": 1, "scale": 2, "solve": 2, "correct": 1, "store": 3},
                    rng.randint(2, 12))
    head = [{"op": "window", "i": (i + 0.5) / len(wins)} for i in range(len(wins))]
    out = []
    for op in head + ops:
        out.append(op)
        if rng.random() < 0.5:
            out.append({"op": "ask", "i": rng.random() if rng.random() < 0.4 else 1 - 1e-9,
                        "curves": [rng.randrange(len(CURVES)) for _ in range(rng.choice([1, 1, 2, 3]))],
                        "ways": rng.sample(WAYS, rng.randint(1, 4)),
                        "wrong": rng.choice(["MPa", "Pa", "kPa", "GPa", "ksi", "psi"]) if rng.random() < 0.2 else "", "form": rng.choice(["list", "dict", "single", "ddict"])})
    return {"windows": wins, "ops": out, "unit": unit, "alike": rng.random() < 0.4}


class Chain(C.Chain):
    def __init__(self, ctx, windows, unit, alike=False):
        self.alike = alike
        super().__init__(ctx, ("cycles",), windows)
        self.unit = unit
        self.curves = {}
        self.asked = 0

    def curve(self, k, unit=None):
        from py_fatigue.material.sn_curve import SNCurve

        unit = unit or self.unit
        if (k, unit) not in self.curves:
            with quiet():
                self.curves[k, unit] = SNCurve(unit_string=unit, curve="c" if self.alike else f"c{k}", norm="n", environment="e",
                                                color="#123456" if self.alike else None, **CURVES[k])
        return self.curves[k, unit]

    def add(self, a, b):
        it = super().add(a, b)
        # the damage of a total is the sum of the damages of its parts
        for k in range(0, len(CURVES), 3):
            sn = self.curve(k)
            if not self.safe(it, k):
                continue
            da, db, d = (self.total(x.cc, sn) for x in (a, b, it))
            self.ctx.check(math.isfinite(d) and abs(d - da - db) <= 1e-9 * (da + db) + 1e-300, "not-additive",
                           lambda: f"damage {da} + {db} but {d} for the total (curve {CURVES[k]})")
        return it

    @staticmethod
    def total(cc, sn):
        import numpy as np
        from py_fatigue.damage.stress_life import get_pm

        with quiet():
            return float(np.sum(get_pm(cc, sn)))

    def safe(self, it, k):
        m = M.SN(**CURVES[k])
        return not any(m.near_endurance(r / M.GRID, 1e-3 if it.fuzzy else 1e-9)
                       for c in (it.s.full, it.s.half) for r, _m in c)

    def model(self, it, k):
        m = M.SN(**CURVES[k])
        d = 0.0
        for c, w in ((it.s.full, 1.0), (it.s.half, 0.5)):
            for (r, _mean), n in c.items():
                if r > 0:
                    d += m.damage(r / M.GRID, n * w)
        return d

    def op_ask(self, op):
        it = self.pick(op["i"])
        if it is None:
            return None
        ctx = self.ctx
        for way in op["ways"]:
            ks = [k for k in op["curves"] if self.safe(it, k)]
            if not ks:
                continue
            if op["wrong"] not in ("", self.unit):
                self.refused(it, ks[0], way, op["wrong"])
            got = self.ask(it, ks, way, op["form"])
            for k, d in got:
                want = self.model(it, k)
                rel = 1e-4 if it.fuzzy else 1e-9
                ctx.check(math.isfinite(d) and abs(d - want) <= rel * want + 1e-25, "damage",
                          lambda: f"damage of {it.word} asked by {way} is {d}, its cycles have {want} (curve {CURVES[k]})")
                ctx.log("damage", way, k, d)
                ctx.state(it.word, way, k)
            if "+" in it.word:
                self.asked += 1
        self.untouched([it], "assessing damage")
        return None

    def ask(self, it, ks, way, form):
        import numpy as np
        import pandas as pd
        from collections import defaultdict
        from py_fatigue.cycle_count.utils import calc_aggregated_damage
        from py_fatigue.damage.stress_life import calc_pm, get_pm

        cc, out = it.cc, []
        if way == "aggregated":
            one = form == "single"
            ks = ks[:1] if one else list(dict.fromkeys(ks))
            curves = [self.curve(k) for k in ks]
            sn = curves[0] if one else curves
            if form in ("dict", "ddict"):
                sn = {f"curve {k}": c for k, c in zip(ks, curves)}
                if form == "ddict":
                    sn = defaultdict(None, sn)
            df = pd.DataFrame({"CC_x": [None, cc, float("nan")], "temp": [1.0, 2.0, 3.0], 5: [0, 0, 0]}, index=[10, 20, 30])
            with quiet():
                res = calc_aggregated_damage(df, sn)
            self.ctx.check(len(res) == 3 * len(ks), "aggregated-rows", f"{len(res)} rows for {len(ks)} curves and 3 periods")
            for j, k in enumerate(ks):
                row = res["CC_x"].iloc[3 * j: 3 * j + 3]
                self.ctx.check(float(row.iloc[0]) == 0 and float(row.iloc[2]) == 0, "damage-of-nothing",
                               f"a missing cell has damage {row.iloc[0]}")
                out.append((k, float(row.iloc[1])))
            return out
        for k in ks:
            sn = self.curve(k)
            r, n = np.array(cc.stress_range), np.array(cc.count_cycle)
            with quiet():
                if way == "count":
                    d = get_pm(cc, sn)
                elif way == "arrays":
                    d = calc_pm(r, n, sn)
                elif way == "lists":
                    d = calc_pm(r.tolist(), n.tolist(), sn)
                elif way == "series":
                    d = calc_pm(pd.Series(r), pd.Series(n), sn)
                elif way == "scalar":
                    d = [float(np.asarray(calc_pm(float(x), float(y), sn)).ravel()[0]) for x, y in zip(r, n)]
                else:
                    df = cc.to_df()
                    back = df.miner.damage(sn)
                    d = back["pm_damage"].to_numpy()
            d = np.asarray(d, dtype=float)
            self.ctx.check(d.shape == r.shape, "shape", f"{way}: {d.shape} damages for {r.shape} cycles")
            m = M.SN(**CURVES[k])
            for x, c, v in zip(r.tolist(), n.tolist(), d.tolist()):
                if m.near_endurance(x, 1e-9):
                    continue
                w = m.damage(x, c)
                self.ctx.check(abs(v - w) <= 1e-9 * w, "cycle-damage",
                               lambda: f"{way}: {c} cycles of {x} have damage {v}, expected {w} (curve {CURVES[k]})")
            out.append((k, float(d.sum())))
        return out

    def refused(self, it, k, way, unit):
        """Asking in the wrong unit."""
        import pandas as pd
        from py_fatigue.cycle_count.utils import calc_aggregated_damage
        from py_fatigue.damage.stress_life import get_nonlinear_damage, get_pm

        # plain numbers have no unit: ask the nonlinear rules instead
        rule = {"arrays": "pavlou", "lists": "manson", "series": "leve", "scalar": "si jian"}.get(way)
        way = "nonlinear" if rule else way
        if way not in ("count", "table", "aggregated", "nonlinear"):
            return
        sn = self.curve(k, unit)
        self.ctx.fault("wrong-unit:" + way)
        fn = {"count": lambda: get_pm(it.cc, sn), "table": lambda: it.cc.to_df().miner.damage(sn),
              "nonlinear": lambda: get_nonlinear_damage(rule, it.cc, sn),
              "aggregated": lambda: calc_aggregated_damage(pd.DataFrame({"CC_x": [it.cc]}), sn)}[way]
        res, err = C.raised(fn)
        if err is None:
            raise Violation("wrong-unit-accepted", f"{way}: a count in {self.unit} was assessed with a curve in {unit}: {res!r:.80}")
        self.ctx.check(isinstance(err, (ValueError, TypeError)), "wrong-unit-error",
                       f"{way}: asking in the wrong unit raised {type(err).__name__}: {err}")


def execute(plan, ctx):
    ch = Chain(ctx, plan["windows"], plan["unit"], plan.get("alike"))
    for op in plan["ops"]:
        ch.apply(op)
    ch.untouched(ch.items, "the history")
    ts = [w["t"] for w in plan["windows"]] or [0]
    ctx.sim_s += max(ts) - min(ts)
    ctx.nontrivial = ch.asked >= 2
