"""C12: period aggregation assigns every window to its period exactly once."""
import datetime as dt

from .. import farm as F
from .. import models as M
from ..core import Injected, Violation
from ..seams import CLOCK, EPOCH, STDOUT, quiet, stamp

RUNS = {"quick": 4000, "thorough": 60000}
JIT_WORKERS = (7,)
LISTS = ("calls", "rows")
RULE = ("one run = a time-indexed table of counts with outages, missing cells, missing periods and logger clock jumps, "
        "aggregated several times by different periods, some calls interrupted, some tables out of order; non-trivial if "
        "at least one aggregation with two or more windows in a period was judged; distinct by event-log digest")
STATES = "hash of (period, rows per period, missing pattern, kind of disturbance) of each aggregation"
REAL = ["aggregate_cc, pbar_sum, CycleCount addition and recovery", "pandas grouping"]
STUB = ["loggers and clocks", "stdout", "time.sleep, time.time", "numba compilation in 7 of 8 workers"]
FREQS = ["h", "D", "W", "M", "Q", "Y", "all", "ALL", "min"]


class Stop(Injected):
    pass


def gen(rng, tier, idx):
    n = rng.choice([rng.randint(1, 5), rng.randint(2, 14), rng.randint(10, 26)])
    ncc = rng.choice([1, 1, 2, 3])
    cols = [["CC_a", "CC_b", "CC_"][i] for i in range(ncc)]
    extra = [c for c in ["temp", 7, "cc_rate", "n", "CC", "CC-x", "aCC_"] if rng.random() < 0.25]
    # steps around period borders
    step = rng.choice([20, 600, 3600, 6 * 3600, 86400, 7 * 86400, 20 * 86400])
    t = rng.choice([0, 3600 - 5, 86400 - 5, 31 * 86400 - 10, 60 * 86400 - 3, 366 * 86400 - 7,
                    rng.randint(0, 10 ** 7), 6 * 86400 + 86399, 7 * 86400])
    jump = rng.random() < 0.3
    p_miss = rng.choice([0, 0.1, 0.4, 0.8])
    rows = []
    for _ in range(n):
        cells = {}
        for c in cols:
            if rng.random() < p_miss:
                cells[c] = {"missing": rng.choice(["None", "None", "nan", "zero"])}
            else:
                cells[c] = {"data": F.changing(rng, F.signal(rng, rng.randint(2, 10))),
                            "bins": rng.choice(["exact", "default"]), "stored": rng.random() < 0.1}
        for c in extra:
            cells[str(c)] = {"value": None if rng.random() < 0.3 else rng.randint(-50, 50) / 4}
        rows.append({"t": t, "cells": cells})
        d = step * rng.choice([1, 1, 1, 1, 2, 5]) if rng.random() < 0.9 else step * rng.randint(5, 40)
        if jump and rng.random() < 0.2:
            d = rng.choice([1, 60, 3599, 86399, 40 * 86400])  # the logger clock was set
        t += d
    calls = []
    for _ in range(rng.randint(1, 3)):
        c = {"by": rng.choice(FREQS), "save": rng.random() < 0.3}
        x = rng.random()
        if x < 0.2:
            c["spoil"] = rng.choice(["duplicate", "unsorted", "plain-index", "not-a-table"])
        elif x < 0.4:
            c["stop"] = rng.randint(1, 25)
            c["how"] = rng.choice(["stdout", "sleep"])
        elif x < 0.55:
            c["then"] = rng.choice(["M", "Q", "Y", "all"])
        calls.append(c)
    return {"rows": rows, "cols": cols, "extra": extra, "calls": calls, "utc": rng.random() < 0.3,
            # the table may be kept in local time, its counts in UTC
            "zone": rng.choice([0, 60, -300, 330, 720, -720]) if rng.random() < 0.4 else 0}


def simplify(plan):
    for c in plan["cols"]:
        if len(plan["cols"]) > 1:
            yield dict(plan, cols=[x for x in plan["cols"] if x != c])
    for c in plan["extra"]:
        yield dict(plan, extra=[x for x in plan["extra"] if x != c])
    rows = plan["rows"]
    for i, r in enumerate(rows):
        for c in plan["cols"]:
            d = r["cells"][c].get("data")
            if d and len(d) > 3:
                for j in range(len(d)):
                    e = d[:j] + d[j + 1:]
                    if M.changes(e):
                        cells = dict(r["cells"], **{c: dict(r["cells"][c], data=e)})
                        yield dict(plan, rows=rows[:i] + [dict(r, cells=cells)] + rows[i + 1:])


def period_key(t, by):
    d = EPOCH + dt.timedelta(seconds=t)
    by = by.lower() if by.lower() == "all" else by
    return {"min": lambda: (d.date(), d.hour, d.minute), "h": lambda: (d.date(), d.hour), "D": lambda: d.date(),
            "W": lambda: d.date() - dt.timedelta(days=d.weekday()), "M": lambda: (d.year, d.month),
            "Q": lambda: (d.year, (d.month - 1) // 3), "Y": lambda: d.year, "all": lambda: 0}[by]()


def table(plan):
    import pandas as pd

    rows, utc = plan["rows"], plan["utc"]
    names = plan["cols"] + plan["extra"]
    data, shadows = {}, {}
    for c in names:
        col = []
        for i, r in enumerate(rows):
            cell = r["cells"][str(c)]
            if "value" in cell:
                col.append(float("nan") if cell["value"] is None else cell["value"])
            elif "missing" in cell:
                col.append(F.missing(cell["missing"]))
            else:
                cc, s = F.materialise(dict(cell, t=r["t"], utc=utc, unit="MPa"))
                col.append(cc)
                shadows[i, c] = s
        data[c] = pd.Series(col, dtype=object if c in plan["cols"] else float)
    df = pd.DataFrame(data)
    df.index = pd.DatetimeIndex([stamp(r["t"], utc) for r in rows])
    if utc and plan.get("zone"):
        df.index = df.index.tz_convert(dt.timezone(dt.timedelta(minutes=plan["zone"])))
    return df, shadows


def snap(df):
    out = [tuple(map(str, df.columns)), tuple(map(str, df.index))]
    for c in df.columns:
        out.append(tuple(F.fingerprint(v) for v in df[c]))
    return out


def execute(plan, ctx):
    if not plan["rows"]:
        return
    df, shadows = table(plan)
    ts = [r["t"] for r in plan["rows"]]
    ctx.sim_s += ts[-1] - ts[0]
    for r in plan["rows"]:
        for c in plan["cols"]:
            if "missing" in r["cells"][c]:
                ctx.fault("missing-cell")
    before = snap(df)
    judged = 0
    for call in plan["calls"]:
        if call.get("spoil"):
            spoiled(ctx, df, call)
        elif call.get("stop"):
            stopped(ctx, df, call)
        after = snap(df)
        ctx.check(repr(before) == repr(after), "table-changed", lambda: f"aggregating by {call['by']} changed the table")
        out, res = run(df, call["by"], call["save"])
        judged += judge(ctx, out, plan, shadows, call["by"], call)
        if call["save"]:
            judge_residuals(ctx, res, plan, shadows, call["by"])
        after = snap(df)
        ctx.check(repr(before) == repr(after), "table-changed", lambda: f"aggregating by {call['by']} changed the table")
        if call.get("then") and call["by"] in ("h", "D", "min"):
            again(ctx, out, plan, shadows, call)
    ctx.nontrivial = judged > 0


def run(df, by, save):
    from py_fatigue.cycle_count.utils import aggregate_cc

    with quiet():
        out = aggregate_cc(df, by, save_residuals=save)
    if save:
        if not (isinstance(out, tuple) and len(out) == 2):
            raise Violation("no-residuals", f"asked for residual sequences, got {type(out).__name__}")
        return out
    return out, None


def local(plan, t):
    return t + 60 * plan["zone"] if plan["utc"] and plan.get("zone") else t


def groups(plan, by):
    g = {}
    for i, r in enumerate(plan["rows"]):
        g.setdefault(period_key(local(plan, r["t"]), by), []).append(i)
    return g


def want_cell(plan, shadows, idx, c):
    """Model of one aggregated cell: shadow (None for a missing one)."""
    parts = [shadows[i, c] for i in idx if (i, c) in shadows]
    if not parts:
        return None, 0
    s = parts[0]
    for p in parts[1:]:
        s = F.shadow_add(s, p)
    if len(parts) > 1:
        s = F.shadow_solve(s, "residuals") or s
    return s, len(parts)


def judge(ctx, out, plan, shadows, by, call):
    g = groups(plan, by)
    many = 0
    ctx.check(len(out) == len(g), "number-of-periods",
              lambda: f"by {by}: {len(out)} rows for {len(g)} periods with rows")
    for pos, (key, idx) in enumerate(g.items()):
        label = out.index[pos]
        if by.lower() != "all":
            for i in idx:
                t = stamp(local(plan, plan["rows"][i]["t"]))
                ctx.check(label.start_time.to_pydatetime(warn=False) <= t <= label.end_time.to_pydatetime(warn=False),
                          "wrong-period", f"by {by}: row {pos} is labelled {label} but its windows start at {t}")
        for c in plan["cols"]:
            got = out[c].iloc[pos]
            s, n = want_cell(plan, shadows, idx, c)
            where = f"by {by}, period {key}, {c}"
            if s is None:
                ctx.check(not hasattr(got, "count_cycle"), "count-from-nothing", f"{where}: a count without windows")
                continue
            ctx.check(hasattr(got, "count_cycle"), "period-lost", f"{where}: {n} windows, result {got!r}")
            F.compare(ctx, got, s, ("cycles", "res", "small", "times", "unit"), where)
            ctx.check(bool(got.lffd_solved) == s.solved, "recovered-flag",
                      f"{where}: {n} windows, recovered says {got.lffd_solved}")
            many += n > 1
        for c in plan["extra"]:
            vals = [plan["rows"][i]["cells"][str(c)]["value"] for i in idx]
            vals = [v for v in vals if v is not None]
            got = out[c].iloc[pos]
            ok = (got != got) if not vals else abs(got - sum(vals) / len(vals)) < 1e-9
            ctx.check(ok, "mean-of-column", f"by {by}, period {key}: mean of {c!r} {got}, values {vals}")
        ctx.state(by, len(idx), [(i, c) in shadows for i in idx for c in plan["cols"]], call.get("spoil"), call.get("how"))
    ctx.log("by", by, len(out), [str(i) for i in out.index])
    return many


def judge_residuals(ctx, res, plan, shadows, by):
    """The saved sequences hold, period after period, the reduced residuals."""
    for c in plan["cols"]:
        want = []
        for idx in groups(plan, by).values():
            parts = [shadows[i, c] for i in idx if (i, c) in shadows]
            if parts:
                seq = [v / M.GRID for p in parts for v in p.res]
                want += [M.q(v) for v in M.rainflow(seq)[2]]
        got = [M.q(v) for v in (res[c]["res"] if c in res else [])]
        ctx.check(got == want, "saved-residuals",
                  lambda: f"by {by}: saved residuals of {c} {[v / M.GRID for v in got]} expected {[v / M.GRID for v in want]}")
        idx = list(res[c]["idx"]) if c in res else []
        ctx.check(len(idx) == len(want) and all(a <= b for a, b in zip(idx, idx[1:])), "saved-residual-positions",
                  lambda: f"by {by}: positions of {c} {idx} for {len(want)} residuals")


def again(ctx, out, plan, shadows, call):
    """Aggregate the aggregated table once more, as a user who keeps daily
    tables and wants the month."""
    if call["by"] == call["then"]:
        return
    nxt = out.copy()
    nxt.index = nxt.index.to_timestamp()
    res, _ = run(nxt, call["then"], False)
    g = {}
    for key, idx in groups(plan, call["by"]).items():
        g.setdefault(period_key(local(plan, plan["rows"][idx[0]]["t"]), call["then"]), []).append(idx)
    ctx.check(len(res) == len(g), "number-of-periods", f"by {call['by']} then {call['then']}: {len(res)} rows for {len(g)} periods")
    for pos, (key, parts) in enumerate(g.items()):
        for c in plan["cols"]:
            ss = [want_cell(plan, shadows, idx, c)[0] for idx in parts]
            ss = [s for s in ss if s is not None]
            got = res[c].iloc[pos]
            where = f"by {call['by']} then {call['then']}, period {key}, {c}"
            if not ss:
                ctx.check(not hasattr(got, "count_cycle"), "count-from-nothing", f"{where}: a count without windows")
                continue
            ctx.check(hasattr(got, "count_cycle"), "period-lost", f"{where}: result {got!r}")
            s = ss[0]
            for x in ss[1:]:
                s = F.shadow_add(s, x)
            if len(s.times) > 1 and not s.solved:
                s = F.shadow_solve(s, "residuals") or s
            F.compare(ctx, got, s, ("cycles", "res", "small", "times"), where)
    ctx.probe("aggregated-twice")


def spoiled(ctx, df, call):
    """A table out of order is refused, and the good one is still accepted."""
    import pandas as pd
    from py_fatigue.cycle_count.utils import aggregate_cc

    how = call["spoil"]
    if how in ("duplicate", "unsorted") and len(df) < 2:
        return
    if how == "duplicate":
        bad = df.copy()
        i = list(bad.index)
        i[1] = i[0]
        bad.index = pd.DatetimeIndex(i)
    elif how == "unsorted":
        bad = df.iloc[::-1]
    elif how == "plain-index":
        bad = df.reset_index(drop=True)
    else:
        bad = [1, 2, 3]
    ctx.fault("table-" + how)
    try:
        with quiet():
            aggregate_cc(bad, call["by"], save_residuals=call["save"])
    except (TypeError, ValueError):
        return
    raise Violation("bad-table-accepted", f"a table with {how} was aggregated")


def stopped(ctx, df, call):
    """An aggregation that is interrupted by its output stream or its clock."""
    left = [call["stop"]]

    def stop(_x):
        left[0] -= 1
        if left[0] <= 0:
            ctx.fault("aggregation-interrupted-by-" + call["how"])
            raise Stop()

    if call["how"] == "stdout":
        STDOUT.on_write = stop
    else:
        CLOCK.on_sleep = stop
    try:
        run(df, call["by"], call["save"])
    except Stop:
        pass
    finally:
        STDOUT.on_write = None
        CLOCK.on_sleep = None
