"""C01: windowed counting plus recovery equals counting the uncut record."""
import pickle
import zlib
from collections import Counter

from .. import farm as F
from .. import models as M
from ..core import weighted
from ..seams import quiet, stamp

RUNS = {"quick": 40000, "thorough": 400000}
JIT_WORKERS = (7,)
LISTS = ("ops", "windows")
RULE = ("one run = one record, its cuts, one order of merging partial totals, placeholders for lost windows, "
        "intermediate recoveries, checkpoints with disk faults and crashes; non-trivial if at least two windows "
        "were merged and the record has a residual sequence of three or more points; distinct by event-log digest")
STATES = "hash of (windows, merge order so far, recoveries, crashes, residual length) after each step"
REAL = ["rainflow counting", "CycleCount construction, addition, recovery", "export and import"]
STUB = ["logger and its clock", "disk", "process crash", "numba compilation (plain Python instead)"]

STEP, LIM = 1.0, 24
BINS = {"range_bin_lower_bound": 0.5, "range_bin_width": 1.0,
        "mean_bin_lower_bound": -24.25, "mean_bin_width": 0.5}


def gen(rng, tier, idx):
    big = rng.random() < (0.02 if tier == "quick" else 0.04)
    n = rng.randint(200, 1500) if big else rng.choice([rng.randint(2, 8), rng.randint(5, 30), rng.randint(20, 120)])
    sig = F.changing(rng, F.signal(rng, n, lim=LIM, step=STEP))
    nw = rng.choice([rng.randint(1, 40), rng.randint(1, 40), rng.randint(40, 160)]) if big else rng.randint(1, min(12, max(1, n // 2)))
    wins = F.cut(rng, sig, nw)
    gap = rng.choice([1, 60, 600, 3600, 86400])
    t, times = rng.randint(0, 10 ** 6), []
    for _ in wins:
        times.append(t)
        t += gap * rng.choice([1, 1, 1, 2, 7]) if rng.random() > 0.03 else 0
    utc = rng.random() < 0.3
    clocks, forms, names = F.gen_style(rng, 0.1)
    table = {"merge": 10}
    for k, w in (("solve", 3), ("lost", 2), ("save", 3), ("crash", 1)):
        if rng.random() < 0.6:
            table[k] = w
    ops = []
    for _ in range(rng.randint(0, 3 * len(wins))):
        k = weighted(rng, table)
        op = {"op": k, "i": rng.random()}
        if k == "lost":
            op.update(what=rng.choice(["None", "zero", "zerof", "nan"]), side=rng.choice("lr"))
        if k == "save":
            op.update(fmt=rng.choice(["json", "json", "pickle"]), flag=rng.random() < 0.5,
                      fault=rng.choice([None, None, None, "torn", "lost", "flip", "full"]),
                      tol=rng.choice([1e-3, 0.0, 0.3]), zeros=rng.choice([0, 1, 8, 32]))
        ops.append(op)
    return {"windows": wins, "times": times, "ops": ops, "utc": rng.choice(clocks) if clocks else utc, "forms": forms,
            "name": rng.choice(names) if names else "strain",
            "alias": rng.random() < 0.5, "final": rng.choice(["left", "right", "sum"])}


def simplify(plan):
    for i, w in enumerate(plan["windows"]):
        for j in range(len(w)):
            if len(w) > 2 and M.changes(w[:j] + w[j + 1:]):
                yield dict(plan, windows=plan["windows"][:i] + [w[:j] + w[j + 1:]] + plan["windows"][i + 1:])


def execute(plan, ctx):
    wins = [w for w in plan["windows"] if len(w) >= 2 and M.changes(w)]
    if not wins:
        return
    utc = plan["utc"]
    record = [v for w in wins for v in w]
    times = plan["times"][: len(wins)]
    ctx.sim_s += times[-1] - times[0]
    disk = F.Disk(ctx)
    forms = plan.get("forms")

    def count(k):
        form = forms[(k * 7 + len(wins[k])) % len(forms)] if forms else None
        return F.count_window(wins[k], times[k], bins=BINS, name=plan.get("name", "strain"), utc=utc, form=form)

    part = [[(k, k + 1), count(k), False] for k in range(len(wins))]  # span, count, recovered?
    crashes = solves = 0
    for op in plan["ops"]:
        k = op["op"]
        if k == "crash":
            ctx.fault("crash-restart")
            crashes += 1
            part = restart(disk, wins, times, count, utc, ctx)
            continue
        i = min(int(op["i"] * len(part)), len(part) - 1)
        if k == "merge":
            if len(part) < 2:
                continue
            i = min(i, len(part) - 2)
            a, b = part[i], part[i + 1]
            with quiet():
                c = a[1] + b[1]
            part[i:i + 2] = [[(a[0][0], b[0][1]), c, False]]
            ctx.log("merge", a[0], b[0])
        elif k == "solve":
            with quiet():
                part[i][1] = part[i][1].solve_lffd()
            part[i][2] = True
            solves += 1
            ctx.log("solve", part[i][0])
        elif k == "lost":
            ctx.fault("window-lost:" + op["what"])
            x = F.missing(op["what"])
            with quiet():
                part[i][1] = part[i][1] + x if op["side"] == "r" else x + part[i][1]
        elif k == "save":
            save(disk, part[i], op)
            ctx.log("save", part[i][0], op["fmt"], op["fault"])
        r = F.residuals(part[min(i, len(part) - 1)][1])
        ctx.state(len(wins), [p[0] for p in part], solves, crashes, len(r or ()))
    # settle: no more faults, merge what is left and recover
    with quiet():
        cs = [p[1] for p in part]
        if plan["final"] == "sum":
            total = sum(cs)
        elif plan["final"] == "left":
            total = cs[0]
            for c in cs[1:]:
                total = total + c
        else:
            total = cs[-1]
            for c in cs[-2::-1]:
                total = c + total
        if len(wins) > 1 or not part[0][2]:
            total = total.resolve_residuals() if plan["alias"] else total.solve_lffd()
    full, half, res = M.rainflow(record)
    gf, gh = F.spectrum(total)
    wf, wh = M.as_counter(full), M.as_counter(half)
    ctx.log("total", sorted(gf.items()), sorted(gh.items()))
    ctx.check(M.same(gf, wf), "full-cycles", lambda: "recovered total against the uncut record, full cycles " + M.diff_txt(gf, wf))
    ctx.check(M.same(gh, wh), "half-cycles", lambda: "recovered total against the uncut record, half cycles " + M.diff_txt(gh, wh))
    gr, wr = F.residuals(total), [M.q(v) for v in res]
    ctx.check(gr == wr, "residual-sequence",
              lambda: f"residuals {[v / M.GRID for v in gr or []]} expected {[v / M.GRID for v in wr]}")
    bare(ctx, record, wf, wh)
    ctx.nontrivial = len(wins) > 1 and len(res) >= 3
    if solves:
        ctx.probe("intermediate-recovery")
    if len(full) > sum(len(M.rainflow(w)[0]) for w in wins):
        ctx.probe("low-frequency-cycle-recovered")


def bare(ctx, record, wf, wh):
    """The turning points of the record, counted without their positions."""
    import numpy as np
    from py_fatigue.cycle_count.rainflow import findrfc_astm

    tp = []
    for v in record:
        if tp and v == tp[-1]:
            continue
        if len(tp) > 1 and (tp[-1] - tp[-2]) * (v - tp[-1]) > 0:
            tp.pop()
        tp.append(v)
    with quiet():
        out = findrfc_astm(np.array(tp, dtype=float))
    for n, want in ((1.0, wf), (0.5, wh)):
        got = Counter((M.q(2 * a), M.q(m)) for a, m, c in out.tolist() if c == n)
        ctx.check(M.same(got, want), "bare-cycles", lambda: f"turning points counted alone, cycles of {n}: " + M.diff_txt(got, want))  # noqa: B023


def save(disk, p, op):
    name = f"{p[0][0]}-{p[0][1]}"
    if op["fmt"] == "pickle":
        body = pickle.dumps((p[1], p[2]))
        data = b"P%08x" % zlib.crc32(body) + body
    else:
        with quiet():
            d = p[1].as_dict(damage_tolerance_for_binning=op["tol"], max_consecutive_zeros=op["zeros"])
        data = b"J" + F.seal({"cc": d, "solved": bool(p[1].lffd_solved) and op["flag"], "done": p[2]})
    disk.write(name, data, op["fault"])


def load(data, t, utc):
    import py_fatigue as pf

    if not data:
        return None
    if data[:1] == b"P":
        if data[1:9] != b"%08x" % zlib.crc32(data[9:]):
            return None  # torn or flipped file: the aggregator falls back
        return pickle.loads(data[9:])
    rec = F.unseal(data[1:]) if data[:1] == b"J" else None
    if rec is None:
        return None
    with quiet():
        return pf.CycleCount.from_rainflow(rec["cc"], timestamp=stamp(t, utc), name="strain",
                                           lffd_solved=rec["solved"]), rec["done"]


def restart(disk, wins, times, count, utc, ctx):
    """Cover the history with durable partial totals, longest first, and count
    the rest again from the raw windows the loggers still hold."""
    part, k = [], 0
    while k < len(wins):
        for e in range(len(wins), k, -1):
            got = load(disk.read(f"{k}-{e}"), times[k], utc)
            if got is not None:
                part.append([(k, e), got[0], got[1]])
                ctx.probe("restored-partial-total")
                k = e
                break
        else:
            part.append([(k, k + 1), count(k), False])
            k += 1
    return part
