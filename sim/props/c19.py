"""C19: using the library leaves the rest of the program's settings alone."""
from .. import farm as F
from .. import ops as O
from .. import program as P
from .. import seams
from .. import threads as T
from ..core import Violation, weighted
from ..seams import quiet, stamp
from . import c11, c13, c18

RUNS = {"quick": 3000, "thorough": 40000}
LISTS = ("steps",)
RULE = ("one run = a program with settings of its own using the library for a list of operations, each of them completed, refused "
        "or aborted at planned places, with the process-wide settings compared after every one of them; non-trivial if an "
        "operation ended in an error or was aborted; distinct by event-log digest")
STATES = "hash of (operation, how it ended, function in which the abort struck)"
REAL = ["counting, adding, scaling, recovering, correcting, exporting, aggregating, damage, crack growth, drawing, sample signals",
        "numpy, pandas, matplotlib, warnings"]
STUB = ["the program around the library (its settings)", "Ctrl-C and memory exhaustion", "warnings and numpy errors raised", "stdout",
        "time.sleep", "numba compilation"]
TABLE = dict({k: 1 for k in O.TABLE}, **{"table-damage": 1, "table-g": 1, "table-des": 1, "signal": 2, "time": 1, "draw": 4,
                                         "sn-curve": 2, "growth-curve": 1, "geometry": 1, "wrong": 4, "more": 6, "solve": 2, "add": 2,
                                         "correct": 2, "nonlinear": 2, "export": 2, "show": 2})


def gen(rng, tier, idx):
    program = {"seed": rng.randrange(1000)}
    if rng.random() < 0.4:
        program["np"] = {k: rng.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")}
        if rng.random() < 0.2:
            program["np"]["divide"] = "raise"
    if rng.random() < 0.3:
        program["print"] = rng.choice([{"precision": 3}, {"suppress": True}, {"threshold": 5, "linewidth": 40}])
    if rng.random() < 0.3:
        program["pd"] = rng.choice([{"display.max_rows": 7}, {"mode.chained_assignment": None}, {"display.precision": 2},
                                    {"mode.chained_assignment": "raise"}])
    if rng.random() < 0.5:
        program["warn"] = [[rng.choice(["ignore", "always", "once"]), rng.choice(["", "abc", "Residuals"]),
                            rng.choice(["user", "future", "any"])] for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.3:
            program["warn"].append(["error", "", rng.choice(["user", "user", "future"])])
    if rng.random() < 0.5:
        program["format"] = True
    if rng.random() < 0.3:
        program["rc"] = rng.choice([{"font.size": 7.0}, {"axes.grid": True}, {"lines.linewidth": 3.0}])
    if rng.random() < 0.2:
        program["prec"] = rng.choice([6, 50])
    table = {k: w for k, w in TABLE.items() if rng.random() < 0.7} or dict(TABLE)
    steps = []
    for _ in range(rng.randint(2, 8)):
        k = weighted(rng, table)
        s = O.gen_op(rng, {k: 1}) if k in O.TABLE else {"op": k, "a": round(rng.random(), 4), "b": round(rng.random(), 4),
                                                       "v": rng.randrange(256)}
        if k == "draw":
            s["what"] = rng.choice(["hist", "hist", "residuals", "table", "sn", "paris", "geo", "msc", "svg"])
        if rng.random() < 0.5:
            s["faults"] = [{"kind": rng.choice(["interrupt", "memory"]), "x": round(rng.random(), 5),
                            "mode": rng.choice(["any", "hot", "site"])} for _ in range(rng.choice([1, 1, 2, 4]))]
        steps.append(s)
    return {"program": program, "pool": O.gen_pool(rng, n=(1, 3), size=(2, 10)), "steps": steps}


def simplify(plan):
    for k in list(plan["program"]):
        yield dict(plan, program={x: v for x, v in plan["program"].items() if x != k})
    for i, s in enumerate(plan["steps"]):
        f = s.get("faults") or []
        for j in range(len(f)):
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, faults=f[:j] + f[j + 1:])] + plan["steps"][i + 1:])
    p = plan["pool"]
    for key in ("derived", "windows", "arrays", "sn", "paris"):
        for i in range(len(p[key])):
            if len(p[key]) > 1 or key == "derived":
                yield dict(plan, pool=dict(p, **{key: p[key][:i] + p[key][i + 1:]}))


def wrong(pool, s):
    """Calls the library refuses."""
    import py_fatigue as pf
    from py_fatigue.cycle_count.utils import aggregate_cc, calc_aggregated_damage
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.damage.crack_growth import get_crack_growth
    from py_fatigue.testing import get_random_data

    cc, sn = pool.pick(pool.counts, s["a"]), pool.pick(pool.sn, s["b"])
    pc, f = pool.pick(pool.paris, s["b"]), pool.pick(pool.frames, s["a"])
    calls = [lambda: cc + "count", lambda: cc * "two", lambda: cc * [1, 2], lambda: cc.mean_stress_correction("no such rule"),
             lambda: cc.solve_lffd(solve_mode="guess"), lambda: pf.CycleCount.from_rainflow({}, timestamp=stamp(0)),
             lambda: pf.CycleCount.from_rainflow({"nr_small_cycles": 3}, timestamp=stamp(0)),
             lambda: pf.CycleCount.from_timeseries([], timestamp=stamp(0)),
             lambda: pf.CycleCount.from_timeseries([1.0, float("nan")], timestamp=stamp(0)),
             lambda: pf.CycleCount.from_timeseries([1.0, 2.0, 1.0], timestamp="today"),
             lambda: cc + F.count_window([1.0, 5.0, 2.0], 0.0, name="other"), lambda: sl.get_pm(cc, "curve"),
             lambda: sl.get_nonlinear_damage("no such rule", cc, sn), lambda: sl.get_nonlinear_damage("pavlou", cc, 3),
             lambda: sn.get_cycles("ten"), lambda: sn.get_stress([]), lambda: pc.get_sif("ten"), lambda: pc.get_growth_rate(None),
             lambda: get_crack_growth(cc, pc, None), lambda: aggregate_cc(f, "no such period"), lambda: aggregate_cc(None, "D"),
             lambda: calc_aggregated_damage(f, 5), lambda: cc.to_df().miner.damage(None), lambda: cc.to_df()[["mean_stress"]].miner.damage(sn),
             lambda: cc.plot_histogram(plot_type="pie"), lambda: get_random_data([0, 1], random_type="no such distribution"),
             lambda: cc.as_dict(damage_tolerance_for_binning="half"), lambda: get_random_data(None),
             lambda: sl.get_des(cc, "three", 1e6), lambda: cc.to_df().gassner.g(None)]
    return calls[s["v"] % len(calls)]()


def more(pool, s):
    """The less used parts of the library."""
    import numpy as np
    import py_fatigue as pf
    from py_fatigue.cycle_count import rainflow as R
    from py_fatigue.damage import stress_life as sl
    from py_fatigue.damage.crack_growth import get_crack_growth
    from py_fatigue.geometry.cylinder import HollowCylinder

    cc, sn = pool.pick(pool.counts, s["a"]), pool.pick(pool.sn, s["b"])
    pc, arr = pool.pick(pool.paris, s["b"]), pool.pick(pool.arrays, s["a"])
    if arr is None or sn is None or pc is None:
        raise O.Skip()
    data = {"nr_small_cycles": 3, "range_bin_lower_bound": 0.5, "range_bin_width": 1.0, "hist": [1.0, 0.0, 2.5], "lg_c": [7.0, 9.0],
            "res": [3.0], "res_sig": [1.0, 4.0]}
    two = {"nr_small_cycles": 3, "range_bin_lower_bound": 0.5, "range_bin_width": 1.0, "mean_bin_lower_bound": 0.0, "mean_bin_width": 1.0,
           "hist": [[1.0, 0.0], [2.0]], "lg_c": [[1.0, 7.0]], "res": [[0.5, 3.0]]}
    old = {"no_sm_c": 3, "bin_lb": 0.5, "bin_width": 1.0, "hist": [1.0, 2.0], "lg_c": [], "res": []}
    bare = [pf.CycleCount.from_rainflow(dict(two), timestamp=stamp(60 * i), name="n") for i in range(2)] if s["v"] % 41 < 4 else None
    calls = [lambda: bare[0] + bare[1], lambda: bare[0] + cc, lambda: cc + bare[0], lambda: bare[0].solve_lffd(),
             lambda: sn.n(arr ** 2 + 1), lambda: sn.sigma([1e5, 1e6]), lambda: sn.plotly(), lambda: sn.plotly([1e5], [60.0], "data"),
             lambda: sn == pool.sn[0], lambda: sn == pc, lambda: pc == pool.paris[0], lambda: sn.get_knee_stress(check_knee=[1e6]),
             lambda: sn.get_knee_cycles(check_knee=[1e6]), lambda: sn.get_knee_stress(check_knee=sn.get_knee_cycles()),
             lambda: sn.get_knee_cycles(check_knee=sn.get_knee_cycles()), lambda: pc.get_knee_sif(check_knee=pc.get_knee_sif()),
             lambda: pc.get_knee_growth_rate(check_knee=pc.get_knee_sif()), lambda: pc.get_knee_sif(check_knee=7.0),
             lambda: pc.get_knee_growth_rate(check_knee=7.0), lambda: R.findcross(arr, float(arr.mean()), "d"),
             lambda: R.findcross(arr, float(arr.mean()), "u"), lambda: R.findcross(arr, 1e9), lambda: R.findcross(arr, float(arr.mean()), "x"),
             lambda: R.rainflow(arr.tolist(), time=list(range(len(arr)))), lambda: R.findrfc_astm(arr), lambda: R.findrfc_astm(arr, np.arange(len(arr))),
             lambda: pf.CycleCount.from_rainflow(dict(data), timestamp=stamp(0), name="n"),
             lambda: pf.CycleCount.from_rainflow(dict(two), timestamp=stamp(0), name="n"),
             lambda: pf.CycleCount.from_rainflow(dict(old), timestamp=stamp(0), name="n"),
             lambda: pf.CycleCount.from_rainflow(dict(old, range_bin_lower_bound=1.0), timestamp=stamp(0), name="n"),
             lambda: pf.CycleCount.from_rainflow(dict(data, other=1), timestamp=stamp(0), name="n"),
             lambda: cc.mean_stress_correction("DNVGL-RP-C203"), lambda: cc.mean_stress_correction("walker"),
             lambda: cc.to_df().cg.calc_growth(pc, pool.geo), lambda: (cc + cc).to_df().cg.calc_growth(pc, pool.geo, express_mode=True),
             lambda: c11.count([[5.0, 3.0], [2.0, 1.5]]).to_df().cg.calc_growth(pc, pool.geo), lambda: cc == 5, lambda: 5 + cc,
             lambda: get_crack_growth(c11.count([[900.0, 40.0]]), pc, pool.geo), lambda: get_crack_growth(c11.count([[5e4, 3.0]]), pc, pool.geo),
             lambda: get_crack_growth(c11.count([[90.0, 120.0]]), pc, pool.geo, express_mode=True),
             lambda: get_crack_growth(c11.count([[90.0, 2.0]], unit="ksi"), pc, pool.geo),
             lambda: HollowCylinder(crack_position="inside", initial_depth=1.0, outer_diameter=9.0, thickness=2.0, height=5.0,
                                    width_to_depth_ratio=2.0),
             lambda: [sn.format_name(True), sn.format_name(), pc.format_name(True), pc.format_name()],
             lambda: sl.get_nonlinear_damage("pavlou", cc, sn, base_exponent=-0.5, ultimate_stress=700)]
    return calls[s["v"] % len(calls)]()


def perform(pool, s, mine):
    import matplotlib.pyplot as plt
    import numpy as np
    import py_fatigue as pf
    from py_fatigue.testing import get_random_data, get_sampled_time

    k, v = s["op"], s["v"]
    if k == "wrong":
        return wrong(pool, s)
    if k == "more":
        return more(pool, s)
    if k == "signal":
        kind, kw = [("normal", {}), ("weibull", {"a": 2.0}), ("uniform", {})][v % 3]
        if v & 8:
            kw = dict(kw, seed=v)
        if v & 16:
            kw = dict(kw, min_=0.0, range_=5.0)
        return get_random_data(np.arange(2 + v % 7, dtype=float), random_type=kind, **kw)
    if k == "time":
        return get_sampled_time([10.0, 7.05, 0.01][v % 3], [10.0, 3.0][v // 3 % 2], start=float(v))
    if k == "sn-curve":
        c = dict(c13.CURVES[v % len(c13.CURVES)])
        if v & 64:
            c["slope"] = [-1.0] if v & 128 else c["slope"] + [3, 4]
        return pf.SNCurve(unit_string="MPa", curve=f"c{v}", **c).name
    if k == "growth-curve":
        c = dict(c11.CURVES[v % len(c11.CURVES)])
        if v & 64:
            c["threshold"] = -5
        return pf.ParisCurve(curve=f"c{v}", **c).name
    if k == "geometry":
        return str(c11.geometry({"kind": "cylinder", "initial_depth": [1.0, 30.0, -1.0][v % 3], "outer_diameter": 200.0, "thickness": 20.0,
                                 "height": 1000.0, "width_to_depth_ratio": 2.0}, [1.0, 30.0, -1.0][v % 3]))
    if k == "show":
        x = pool.pick(list(pool.counts) + pool.sn + pool.paris + [pool.geo], s["a"])
        return [str, repr][v % 2](x)
    if k == "draw":
        if s["what"] == "svg":
            x = pool.pick(pool.sn + pool.paris, s["a"])
            return len(x._repr_svg_()) > 0 if hasattr(x, "_repr_svg_") else None
        p = c18.Picked(pool, {"do": s["what"], "v": v, "a": s["a"], "b": s["b"]})
        fig, ax = plt.subplots()
        if s["what"] == "msc":
            p.call()
        else:
            p.call(fig=fig, ax=ax, **p.kw)
        return None
    return O.run(pool, s, mine)


def execute(plan, ctx):
    import matplotlib.pyplot as plt

    ctx.check(seams._modules["imported"] is None, "import-changed-settings",
              lambda: f"importing py_fatigue changed {seams._modules['imported']}")
    shared = P.Modules()
    try:
        with quiet():
            was = P.settings()
            pool = O.Pool(plan["pool"])
            bad = P.differ(was, P.settings()) or shared.changed()
            ctx.check(bad is None, "settings-changed", lambda: f"preparing the objects: {bad}")
            with P.SetUp(plan["program"]):
                _execute(plan, ctx, pool, shared)
    finally:
        shared.restore()
        plt.close("all")


def _execute(plan, ctx, pool, shared):
    mine, was, loaded = [], P.settings(), P.packages()

    def compare(what):
        nonlocal loaded
        now = P.settings()
        if P.packages() != loaded:  # a library imported for the first time may add filters
            loaded, was["warning filters"] = P.packages(), now["warning filters"]
        bad = P.differ(was, now) or shared.changed()
        ctx.check(bad is None, "settings-changed", lambda: f"{what}: {bad}")

    for i, s in enumerate(plan["steps"]):
        r, e, st = T.interrupted(lambda s=s: perform(pool, s, mine))
        if isinstance(e, O.Skip):
            continue
        if isinstance(e, Violation):
            raise e
        how = type(e).__name__ if e is not None else "done"
        if e is not None:
            ctx.fault("refused")
            ctx.nontrivial = True
        elif O.is_count(r):
            mine.append(r)
        ctx.log(i, s["op"], how)
        ctx.state(s["op"], how)
        compare(f"step {i}, {s['op']} ({how})")
        for f in s.get("faults") or []:
            places = range(1, st.n + 1)
            if f["mode"] == "hot" and st.hot:
                places = st.hot
            elif f["mode"] == "site":
                places = sorted(st.sites.values())
            if not places:
                continue
            exc = T.Interrupt() if f["kind"] == "interrupt" else T.Exhausted()
            at = places[min(int(f["x"] * len(places)), len(places) - 1)]
            _r, e, got = T.interrupted(lambda s=s: perform(pool, s, mine), at, exc)
            if got.where is None:
                continue
            ctx.fault(f"{f['kind']}:{s['op']}")
            ctx.nontrivial = True
            ctx.state(s["op"], f["kind"], got.where)
            ctx.log(i, s["op"], f["kind"], got.where, e is exc)
            compare(f"step {i}, {s['op']} aborted by {f['kind']} in {got.where}")
