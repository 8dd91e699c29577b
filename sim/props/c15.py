"""C15: repeated damage assessments of one table do not contaminate each other."""
import math

from .. import chain as C
from .. import farm as F
from .. import models as M
from ..core import Violation
from ..seams import quiet
from .c13 import CURVES

RUNS = {"quick": 5000, "thorough": 70000}
JIT_WORKERS = (7,)
LISTS = ("ops",)
RULE = ("one run = a sequence of damage, shift-factor, equivalent-stress and equivalent-moment assessments with different "
        "curves on shared cycle tables, with failing calls (wrong unit, unsuitable curve, curve that runs out of memory) in "
        "between; non-trivial if at least two assessments of one table succeeded and one failed; distinct by event-log digest")
STATES = "hash of (last successful assessment of each kind, operation, outcome)"
REAL = ["pandas accessors miner and gassner", "S-N curves", "CycleCount.to_df"]
STUB = ["analysts (order of calls)", "memory exhaustion inside a curve", "numba compilation in 7 of 8 workers"]
LINEAR = [i for i, c in enumerate(CURVES) if len(c["slope"]) == 1]
BENT = [i for i, c in enumerate(CURVES) if len(c["slope"]) > 1]


def gen(rng, tier, idx):
    wins = F.gen_windows(rng, rng.randint(1, 3), size=(3, 14), stored=rng.choice([0, 0.3]), nores=0.4, many=0.1)
    n = rng.choice([1, 1, 2])
    ops = []
    for _ in range(rng.randint(2, 12)):
        k = rng.choice(["damage", "damage", "damage", "g", "g", "des", "dem", "fail", "fail", "fail"])
        op = {"op": k, "t": rng.randrange(n), "curve": rng.randrange(len(CURVES)), "slope": rng.choice([3, 4.5, 5, 10, 1]),
              "neq": rng.choice([1e7, 1e6, 2e6, 1.0]), "radii": rng.choice([[2.0, 1.5], [1.0, 0.0], [0.31, 0.3]])}
        if k == "g":
            op["curve"] = rng.choice(LINEAR)
        if k == "fail":
            op["how"] = rng.choice(["damage-unit", "damage-memory", "damage-memory", "damage-none", "g-bent", "g-none", "dem-radii"])
            if op["how"] == "g-bent":
                op["curve"] = rng.choice(BENT)
        ops.append(op)
    return {"windows": wins, "tables": n, "ops": ops, "alike": rng.random() < 0.4}


simplify = C.simplify_windows


def flaky(k):
    """A curve that runs out of memory when it is evaluated."""
    from py_fatigue.material.sn_curve import SNCurve

    class Flaky(SNCurve):
        def get_cycles(self, stress_range):
            raise MemoryError("injected")

    return Flaky(unit_string="MPa", curve="flaky", **CURVES[k])


class Table:
    def __init__(self, cc):
        self.df = cc.to_df()
        self.cycles = self.look()
        self.damage = self.shift = None
        self.ok = self.bad = 0

    def look(self):
        return tuple(tuple(map(float, self.df[c])) for c in ("count_cycle", "mean_stress", "stress_range"))


def execute(plan, ctx):
    from py_fatigue.material.sn_curve import SNCurve

    if not plan["windows"]:
        return
    cc = None
    for w in plan["windows"]:
        c, _s = F.materialise(dict(w, unit="MPa"))
        with quiet():
            cc = c if cc is None else cc + c
    fp = F.fingerprint(cc)
    with quiet():
        alike = {"curve": "c", "norm": "n", "color": "#123456"}
        curves = [SNCurve(unit_string="MPa", **(alike if plan.get("alike") else {"curve": f"c{k}"}), **c) for k, c in enumerate(CURVES)]
        tabs = [Table(cc) for _ in range(plan["tables"])]
    for op in plan["ops"]:
        t = tabs[min(op["t"], len(tabs) - 1)]
        sn = curves[op["curve"]]
        k = op["op"]
        if k == "fail":
            fail(ctx, t, op, sn)
        else:
            with quiet():
                if k == "damage":
                    back = t.df.miner.damage(sn)
                    ctx.check(back is t.df or same_results(back, t.df), "other-table", "damage returned something else than the table's results")
                    t.damage = op["curve"]
                elif k == "g":
                    t.df.gassner.g(sn)
                    t.shift = op["curve"]
                elif k == "des":
                    value(ctx, t, "des", t.df.miner.des(op["slope"], op["neq"]), op, cc)
                else:
                    value(ctx, t, "dem", t.df.miner.dem(op["radii"][0], op["radii"][1], op["slope"], op["neq"]), op, cc)
            t.ok += 1
        for x in tabs:
            verify(ctx, x, cc, curves, op)
        after = F.fingerprint(cc)
        ctx.check(F.same_fp(fp, after), "count-changed", lambda: f"assessing its table changed the count: {F.fp_diff(fp, after)}")
        ctx.state([(x.damage, x.shift) for x in tabs], k, op.get("how"))
        ctx.log(k, op.get("how"), op["curve"], sorted(map(str, t.df.columns)))
    ctx.sim_s += plan["windows"][-1]["t"] - plan["windows"][0]["t"]
    ctx.nontrivial = any(t.ok >= 2 for t in tabs) and any(t.bad for t in tabs)


def col(df, c):
    return tuple(map(float, df[c])) if c in df.columns else None


def same_results(a, b):
    return all(repr(col(a, c)) == repr(col(b, c)) for c in ("cycles_to_failure", "pm_damage", "shift_factor"))


def verify(ctx, t, cc, curves, op):
    now = t.look()
    ctx.check(now == t.cycles, "cycles-changed", lambda: f"{op['op']} {op.get('how', '')} changed the cycles of the table")
    got = (col(t.df, "cycles_to_failure"), col(t.df, "pm_damage"))
    if t.damage is None:
        ctx.check(got == (None, None), "damage-from-nowhere",
                  f"no damage assessment has succeeded but the table has {[c for c, v in zip(('cycles_to_failure', 'pm_damage'), got) if v]}")
    else:
        with quiet():
            fresh = cc.to_df()
            fresh.miner.damage(curves[t.damage])
        want = (col(fresh, "cycles_to_failure"), col(fresh, "pm_damage"))
        # after a failure the previous results may also be gone, together
        gone = op["op"] == "fail" and got == (None, None)
        ctx.check(repr(got) == repr(want) or gone, "damage-mixed",
                  lambda: f"after {op['op']} {op.get('how', '')}: damage columns are not those of the last assessment (curve {CURVES[t.damage]})")
        if gone:
            t.damage = None
        else:
            law(ctx, t, got)
            ctx.check(t.df.miner.sn_curve is curves[t.damage], "curve-mixed",
                      lambda: f"after {op['op']} {op.get('how', '')}: the table's damage belongs to {CURVES[t.damage]}, "
                      "its accessor names another curve")
    shift = col(t.df, "shift_factor")
    if t.shift is None:
        ctx.check(shift is None, "shift-from-nowhere", "no shift-factor assessment has succeeded but the table has one")
        return
    with quiet():
        fresh = cc.to_df()
        fresh.gassner.g(curves[t.shift])
    if op["op"] == "fail" and shift is None:
        t.shift = None
        return
    ctx.check(repr(shift) == repr(col(fresh, "shift_factor")), "shift-mixed",
              lambda: f"after {op['op']}: shift factors are not those of the last assessment")
    n, _m, r = t.cycles
    top, tot, m = max(r), sum(n), CURVES[t.shift]["slope"][0]
    for v, x, y in zip(shift, n, r):
        w = x / tot * (y / top) ** m
        ctx.check(abs(v - w) <= 1e-9 * w + 1e-300, "shift-factor", lambda: f"shift factor {v} of a cycle, expected {w}")


def law(ctx, t, got):
    m = M.SN(**CURVES[t.damage])
    for x, y, c, d in zip(t.cycles[0], t.cycles[2], *got):
        if m.near_endurance(y):
            continue
        w = m.damage(y, x)
        ctx.check(abs(d - w) <= 1e-9 * w, "damage", lambda: f"{x} cycles of {y}: damage {d} expected {w}")


def value(ctx, t, kind, got, op, cc):
    n, _m, r = t.cycles
    des = (sum(c * s ** op["slope"] for c, s in zip(n, r)) / op["neq"]) ** (1 / op["slope"])
    if kind == "dem":
        a, b = op["radii"]
        des *= math.pi / 4 * (a ** 4 - b ** 4) * 1e6 / a
    ctx.check(abs(float(got) - des) <= 1e-9 * des, "equivalent-" + kind, lambda: f"{kind} {got}, expected {des}")


def fail(ctx, t, op, sn):
    from py_fatigue.material.sn_curve import SNCurve

    how = op["how"]
    ctx.fault("failing-" + how)
    with quiet():
        if how == "damage-unit":
            bad = SNCurve(unit_string=("ksi", "Pa", "kPa", "GPa")[op["curve"] % 4], **CURVES[op["curve"]])
        elif how == "damage-memory":
            bad = flaky(op["curve"])
        elif how in ("damage-none", "g-none"):
            bad = None
        else:
            bad = sn
    df = t.df
    fn = {"damage-unit": lambda: df.miner.damage(bad), "damage-memory": lambda: df.miner.damage(bad),
          "damage-none": lambda: df.miner.damage(bad), "g-none": lambda: df.gassner.g(bad),
          "g-bent": lambda: df.gassner.g(bad), "dem-radii": lambda: df.miner.dem(1.0, 1.5, op["slope"], op["neq"])}[how]
    _res, err = C.raised(fn)
    t.bad += 1
    if err is None:
        raise Violation("bad-assessment-accepted", f"{how} was accepted")
