"""C11: crack growth can be stopped and resumed at any cycle."""
import math

from .. import farm as F
from .. import models as M
from ..seams import quiet, stamp

RUNS = {"quick": 10000, "thorough": 150000}
JIT_WORKERS = (5, 6, 7)
LISTS = ("blocks",)
RULE = ("one run = a load history grown in one go, listed cycle by cycle, as a table, and in pieces by a process that "
        "crashes between pieces and resumes from the newest readable checkpoint of the crack depth; non-trivial if the "
        "crack grew and at least one resume happened; distinct by event-log digest")
STATES = "hash of (cycles, pieces, cycle of failure, form)"
REAL = ["CalcCrackGrowth (compiled in 3 of 8 workers)", "get_crack_growth, table accessor", "geometries and Paris curves"]
STUB = ["disk", "process crash", "numba compilation in 5 of 8 workers"]
CURVES = [
    {"slope": [2.88], "intercept": [1.1e-10], "threshold": 20, "critical": 2000},
    {"slope": [2.88], "intercept": [1.1e-8], "threshold": 60.0, "critical": 600.0},
    {"slope": [5.1, 2.88], "intercept": [1.0e-16, 1.5e-11], "threshold": 63, "critical": 1500},
    {"slope": [2.88, 5.1, 8.16, 5.1, 2.88], "intercept": [1e-16, 1e-20, 1e-27, 1e-19, 1e-13], "threshold": 20, "critical": 2000},
    {"slope": [3.0], "intercept": [3e-9], "threshold": 0, "critical": math.inf},
    {"slope": [2.0, 3.0], "intercept": [2e-7, 2e-9], "threshold": 0.0, "critical": 900.0},
]


def gen(rng, tier, idx):
    curve = rng.randrange(len(CURVES))
    if rng.random() < 0.5:
        t, ratio = rng.choice([8.0, 20.0, 60.0]), rng.choice([1.5, 2.0, 5.0])
        # the closed form is meant for cracks that span less than a radian
        sizes = [d for d in (100.0, 200.0, 1000.0, 5000.0) if t * ratio <= 0.4 * d]
        geo = {"kind": "cylinder", "initial_depth": round(t * rng.choice([0.02, 0.1, 0.5, 0.9, 0.99]), 3),
               "outer_diameter": rng.choice(sizes), "thickness": t, "height": 1000.0,
               "width_to_depth_ratio": ratio}
    else:
        geo = {"kind": "surface", "initial_depth": rng.choice([0.05, 0.5, 1.0, 5.0, 20.0])}
    style = rng.choice(["steady", "noise", "spike", "low"])
    top = rng.choice([20.0, 100.0, 300.0])
    if style == "spike":
        top /= 3
    many = rng.choice([1, 1, 3, 20, 60])
    half, part = rng.random() < 0.3, rng.choice([0.5, 0.5, 0.25, 0.9])
    blocks = []
    for _ in range(rng.randint(1, 25)):
        s = {"steady": top, "noise": round(top * rng.random(), 3), "low": round(top * 0.1 * rng.random(), 3),
             "spike": top * (1 if rng.random() < 0.9 else 4)}[style]
        blocks.append([s, 0.5 if rng.random() < 0.15 else float(rng.randint(1, many))])
        if half and rng.random() < 0.3:
            blocks[-1][1] += part
    if rng.random() < 0.01:
        blocks[rng.randrange(len(blocks))][1] = float(rng.choice([257, 1000, 1001, 2500]))
    if rng.random() < 0.03:
        blocks[rng.randrange(len(blocks))][0] = 0.0
    return {"curve": curve, "geo": geo, "blocks": blocks, "cuts": [rng.random() for _ in range(rng.randint(0, 6))],
            "faults": [rng.choice([None, None, None, "lost", "torn", "flip"]) for _ in range(8)],
            "accel": rng.choice([1.0, 1.0, 1e3, 1e5]), "express": rng.random() < 0.2,
            "wrong": rng.choice(["Pa", "kPa", "ksi", "GPa", "a"]) if rng.random() < 0.1 else None}


def simplify(plan):
    if plan["cuts"]:
        for i in range(len(plan["cuts"])):
            yield dict(plan, cuts=plan["cuts"][:i] + plan["cuts"][i + 1:])
    for i, b in enumerate(plan["blocks"]):
        if b[1] > 1:
            yield dict(plan, blocks=plan["blocks"][:i] + [[b[0], 1.0]] + plan["blocks"][i + 1:])


def geometry(geo, depth):
    from py_fatigue.geometry.cylinder import HollowCylinder
    from py_fatigue.geometry.generic import InfiniteSurface

    g = {k: v for k, v in geo.items() if k != "kind"}
    g["initial_depth"] = depth
    if geo["kind"] == "cylinder":
        return HollowCylinder(crack_position="external", **g)
    return InfiniteSurface(**g)


def count(blocks, unit="MPa"):
    import numpy as np
    import py_fatigue as pf

    s = np.array([b[0] for b in blocks], dtype=float)
    n = np.array([b[1] for b in blocks], dtype=float)
    return pf.CycleCount(count_cycle=n, stress_range=s, mean_stress=np.zeros(len(s)), timestamp=stamp(0), unit=unit)


def grow(blocks, pc, geo, depth):
    from py_fatigue.damage.crack_growth import get_crack_growth

    cc = count(blocks)
    g = geometry(geo, depth)
    before, gb = F.fingerprint(cc), str(g)
    with quiet():
        r = get_crack_growth(cc, pc, g)
    out = [[float(v) for v in a] for a in (r.crack_depth, r.sif, r.geometry_factor)]
    return out, bool(r.failure), float(r.final_cycles), F.same_fp(before, F.fingerprint(cc)) and str(g) == gb


def close(a, b, rel=1e-9):
    return len(a) == len(b) and all(abs(x - y) <= rel * abs(y) + 1e-300 for x, y in zip(a, b))


def agree(ctx, got, want, what, rel=1e-9):
    names = ("crack depth", "stress intensity", "geometry factor")
    for n, a, b in zip(names, got[0], want[0]):
        ctx.check(close(a, b, rel), "history", lambda: f"{what}: {n} {first(a, b, rel)}")
    ctx.check(got[1] == want[1], "failure-verdict", lambda: f"{what}: failure {got[1]}, expected {want[1]}")
    ctx.check(abs(got[2] - want[2]) < 1e-9 * max(1, want[2]), "life", lambda: f"{what}: life {got[2]} cycles, expected {want[2]}")


def first(a, b, rel):
    if len(a) != len(b):
        return f"has {len(a)} values, expected {len(b)}"
    for i, (x, y) in enumerate(zip(a, b)):
        if not abs(x - y) <= rel * abs(y):
            return f"at cycle {i} is {x!r}, expected {y!r}"
    return "?"


def expand(blocks):
    out = []
    for s, n in blocks:
        out += [[s, 1.0]] * int(n) + ([[s, n % 1]] if n % 1 else [])
    return out


def execute(plan, ctx):
    from py_fatigue.material.crack_growth_curve import ParisCurve

    blocks = plan["blocks"]
    if not blocks:
        return
    c = dict(CURVES[plan["curve"]])
    c["intercept"] = [v * plan["accel"] for v in c["intercept"]]
    with quiet():
        pc = ParisCurve(slope=c["slope"], intercept=c["intercept"], threshold=c["threshold"], critical=c["critical"])
    geo, d0 = plan["geo"], plan["geo"]["initial_depth"]
    cycles = expand(blocks)
    # one go, from the clustered history
    got, failed, life, same = grow(blocks, pc, geo, d0)
    ctx.check(same, "input-changed", "growing a crack changed its count or geometry")
    whole = (got, failed, life)
    ctx.log("whole", len(got[0]), failed, life, got[0][-1:])
    ctx.sim_s += sum(n for _s, n in blocks) * 5.0  # one load cycle takes about five seconds
    # the law, cycle by cycle
    ref = M.grow(cycles, d0, M.Paris(c["slope"], c["intercept"], float(c["threshold"]), float(c["critical"])),
                 M.cylinder_factor if geo["kind"] == "cylinder" else M.surface_factor, geo)
    if not ref[4]:
        agree(ctx, whole, (ref[:3], ref[3], sum(n for _s, n in cycles[: len(ref[0])])), "against the growth law", 1e-6)
    else:
        ctx.probe("too-close-to-call")
    # listed one by one
    one, f1, l1, _ = grow(cycles, pc, geo, d0)
    agree(ctx, (one, f1, l1), whole, "listed cycle by cycle")
    table(ctx, plan, pc, whole)
    if plan.get("express"):
        express(ctx, plan, pc)
    if plan.get("wrong"):
        refused(ctx, plan, pc)
    resumes = pieces(ctx, plan, pc, cycles, whole)
    ctx.state(len(cycles), len(plan["cuts"]), len(got[0]) if failed else -1, geo["kind"])
    if failed:
        ctx.probe("failed")
    grew = len(got[0]) > 1 and got[0][-1] > got[0][0]
    if grew:
        ctx.probe("grew")
    ctx.nontrivial = resumes > 0 and grew


def table(ctx, plan, pc, whole):
    """The table form: one row per block, values at its last cycle."""
    with quiet():
        df = count(plan["blocks"]).to_df()
        before = [tuple(map(float, df[k])) for k in ("count_cycle", "mean_stress", "stress_range")]
        out = df.cg.calc_growth(pc, geometry(plan["geo"], plan["geo"]["initial_depth"]))
    after = [tuple(map(float, out[k])) for k in ("count_cycle", "mean_stress", "stress_range")]
    ctx.check(before == after, "table-cycles-changed", "growing a crack changed the cycles of the table")
    (depth, sif, fac), _failed, life = whole
    ctx.check(abs(float(df.cg.final_cycles) - life) <= 1e-9 * max(1, life), "table-life",
              lambda: f"table life {df.cg.final_cycles}, expected {life}")
    end, cum = 0, 0.0
    cols = {k: [float(v) for v in out[k]] for k in ("crack_depth", "sif", "geometry_factor", "cumul_cycle")}
    for row, (_s, n) in enumerate(plan["blocks"]):
        end += math.ceil(n)
        cum += n
        alive = end <= len(depth)
        want = {"crack_depth": depth, "sif": sif, "geometry_factor": fac}
        for k, v in cols.items():
            x = v[row]
            if not alive:
                ctx.check(x != x, "not-blank", lambda: f"row {row} after failure has {k} {x}")
                continue
            w = cum if k == "cumul_cycle" else want[k][end - 1]
            ctx.check(abs(x - w) <= 1e-9 * abs(w) + 1e-300, "table-row", lambda: f"row {row}: {k} {x}, expected {w}")


def express(ctx, plan, pc):
    """The coarse mode is less accurate, but it applies every cycle of the
    history and its two forms agree."""
    from py_fatigue.damage.crack_growth import get_crack_growth

    g = geometry(plan["geo"], plan["geo"]["initial_depth"])
    with quiet():
        r = get_crack_growth(count(plan["blocks"]), pc, g, express_mode=True)
        df = count(plan["blocks"]).to_df()
        out = df.cg.calc_growth(pc, g, express_mode=True)
    life, total = float(r.final_cycles), sum(n for _s, n in plan["blocks"])
    ctx.probe("express")
    ctx.check(abs(float(df.cg.final_cycles) - life) <= 1e-9 * max(1, life), "table-life",
              lambda: f"express: table life {df.cg.final_cycles}, expected {life}")
    rows = [float(v) for v in out["crack_depth"]]
    if r.failure:
        ctx.check(rows[-1] != rows[-1], "not-blank", lambda: f"express: the last row after failure has depth {rows[-1]}")
        return
    ctx.check(abs(life - total) <= 1e-9 * total, "life", lambda: f"express: {life} of {total} cycles applied without failure")
    last = float(r.crack_depth[-1])
    ctx.check(abs(rows[-1] - last) <= 1e-9 * last, "table-row", lambda: f"express: last row has depth {rows[-1]}, expected {last}")


def refused(ctx, plan, pc):
    """A history in another stress unit than the curve's."""
    from py_fatigue.damage.crack_growth import get_crack_growth

    g = geometry(plan["geo"], plan["geo"]["initial_depth"])
    for way in ("count", "table"):
        with quiet():
            cc = count(plan["blocks"], unit=plan["wrong"])
            df = cc.to_df()
        before = {k: list(map(float, df[k])) for k in df.columns}
        ctx.fault("wrong-unit:" + way)
        err = None
        try:
            with quiet():
                get_crack_growth(cc, pc, g) if way == "count" else df.cg.calc_growth(pc, g)
        except Exception as e:  # pylint: disable=broad-except
            err = e
        ctx.check(isinstance(err, ValueError), "wrong-unit-accepted",
                  lambda: f"{way}: a history in {plan['wrong']} and a curve in {pc.unit} gave {err!r}")
        after = {k: list(map(float, df[k])) for k in df.columns}
        ctx.check(after == before, "table-changed", lambda: f"{way}: a refused growth changed the table, columns {sorted(after)}")


def pieces(ctx, plan, pc, cycles, whole):
    """A process that grows the crack piece by piece and checkpoints (cycle,
    depth).  A piece ends with the first cycle of the next one, whose depth
    before loading is the checkpoint."""
    disk = F.Disk(ctx)
    (depth, sif, fac), failed, life = whole
    cuts = sorted({int(x * len(cycles)) for x in plan["cuts"]} - {0})
    at, d, k = 0, plan["geo"]["initial_depth"], 0
    done = {}
    n = 0
    guard = 0
    stops = list(cuts) + [len(cycles)]
    while at < len(cycles):
        guard += 1
        if guard > 40:
            break
        stop = next((c for c in stops if c > at), len(cycles))
        last = stop >= len(cycles)
        part = cycles[at:] if last else cycles[at:stop + 1]
        got, bad, cyc, same = grow(part, pc, plan["geo"], d)
        ctx.check(same, "input-changed", "growing a crack changed its count or geometry")
        for j, row in enumerate(zip(*got)):
            done[at + j] = row
        if bad:
            end = at + len(got[0])
            cuts_from = [i for i in done if i >= end]
            for i in cuts_from:
                del done[i]
            agree(ctx, ([list(v) for v in zip(*[done[i] for i in sorted(done)])] or [[], [], []], True,
                        sum(c[1] for c in cycles[:end])), whole, f"in pieces cut at {cuts}")
            ctx.probe("failed-in-a-piece")
            return n
        ctx.check(abs(cyc - sum(c[1] for c in part)) < 1e-9 * max(1, cyc), "piece-life",
                  f"a piece of {sum(c[1] for c in part)} cycles without failure reports {cyc}")
        if last:
            break
        # checkpoint the depth before the first cycle of the next piece
        fault = plan["faults"][k % len(plan["faults"])] if k < len(plan["faults"]) else None
        k += 1
        disk.write(f"ck{stop}", F.seal([stop, got[0][-1]]), fault)
        ctx.fault("crash-between-pieces")
        n += 1
        rec = None
        for c in reversed([0] + cuts):
            rec = F.unseal(disk.read(f"ck{c}"))
            if rec is not None:
                break
        at, d = (rec[0], rec[1]) if rec else (0, plan["geo"]["initial_depth"])
        stops = [s for s in stops if s > stop or s > at]
        if fault and rec is None or (rec and rec[0] < stop):
            # the checkpoint was lost: this stretch is grown again in one piece
            stops = [s for s in stops if s > stop]
            ctx.probe("resumed-from-older-checkpoint")
    agree(ctx, ([list(v) for v in zip(*[done[i] for i in sorted(done)])] or [[], [], []], False,
                sum(c[1] for c in cycles)), whole, f"in pieces cut at {cuts}")
    return n
