"""C06: an operation interrupted at any instant leaves its inputs intact."""
import warnings

from .. import ops as O
from .. import threads as T
from ..core import HarnessError
from ..seams import CLOCK, STDOUT, quiet
from .c07 import short

RUNS = {"quick": 8000, "thorough": 60000}
LISTS = ("steps",)
RULE = ("one run = a list of operations on a pool of counts, curves, arrays and tables; before an operation succeeds it is "
        "aborted up to three times at planned places of py_fatigue's code, or given up after that; non-trivial if an operation that succeeds "
        "undisturbed was aborted; distinct by event-log digest")
STATES = "hash of (operation, kind of abort, function in which it struck)"
REAL = ["counting, adding, summing, scaling, recovering, correcting, exporting, aggregating, damage", "numpy, pandas"]
STUB = ["Ctrl-C (function entries, after calls, loop heads)", "memory exhaustion (same places)", "warnings as errors",
        "stdout, time.sleep", "numba compilation"]
TABLE = {k: w for k, w in O.TABLE.items() if k not in ("paris", "sn", "read", "equal")}
TABLE.update({"sum": 4, "aggregate": 3, "aggdamage": 2, "table-damage": 3, "table-g": 2, "table-des": 2})
KINDS = ["interrupt", "interrupt", "interrupt", "memory", "memory", "warning", "pipe", "sleep"]


def gen(rng, tier, idx):
    table = {k: w for k, w in TABLE.items() if rng.random() < 0.6} or dict(TABLE)
    steps = []
    for _ in range(rng.randint(1, 5)):
        op = O.gen_op(rng, table)
        faults = []
        if rng.random() < 0.8:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.choice(KINDS)
                if op["op"] in ("sum", "aggregate") and rng.random() < 0.3:
                    k = rng.choice(["pipe", "sleep"])
                faults.append({"kind": k, "x": round(rng.random(), 5), "mode": rng.choice(["any", "hot", "hot", "site"])})
        step = dict(op, faults=faults)
        if faults and not op["op"].startswith("table-") and rng.random() < 0.35:
            step["giveup"] = True  # the user goes on with something else
        steps.append(step)
    if steps[-1].get("giveup"):
        steps.append(dict(O.gen_op(rng, table), faults=[]))
        if rng.random() < 0.5:
            steps[-1]["a"] = steps[-2]["a"]
    return {"pool": O.gen_pool(rng, n=(1, 4)), "steps": steps}


def simplify(plan):
    for i, s in enumerate(plan["steps"]):
        if s.get("giveup"):
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, giveup=False)] + plan["steps"][i + 1:])
        for j in range(len(s["faults"])):
            f = s["faults"]
            yield dict(plan, steps=plan["steps"][:i] + [dict(s, faults=f[:j] + f[j + 1:])] + plan["steps"][i + 1:])
    p = plan["pool"]
    for key in ("derived", "windows", "arrays", "sn", "paris"):
        for i in range(len(p[key])):
            if len(p[key]) > 1 or key == "derived":
                yield dict(plan, pool=dict(p, **{key: p[key][:i] + p[key][i + 1:]}))


def settings():
    """Process-wide settings that later operations depend on."""
    import numpy as np
    import pandas as pd

    return (sorted(np.geterr().items()), [repr(f) for f in warnings.filters], pd.get_option("mode.chained_assignment"),
            sorted((k, repr(v)) for k, v in np.get_printoptions().items()))


def execute(plan, ctx):
    import numpy as np

    with quiet(), warnings.catch_warnings(), np.errstate(), np.printoptions():
        _execute(plan, ctx)


def undisturbed(plan):
    """Results of the operations one after the other, with the places each of
    them passes, on a pool of their own."""
    pool, mine, out = O.Pool(plan["pool"]), [], []
    for op in plan["steps"]:
        w, s0, before = STDOUT.writes, CLOCK.sleeps, settings()
        r, e, st = T.interrupted(lambda op=op: O.run(pool, op, mine))
        if isinstance(e, O.Skip):
            out.append(None)
            continue
        val = O.plain(e if e is not None else r)
        out.append((val, st, STDOUT.writes - w, CLOCK.sleeps - s0, e, settings() == before))
        if O.is_count(r) and not op.get("giveup"):
            mine.append(r)
    return out


def strike(ctx, pool, op, mine, f, ref):
    """Run the operation with one fault; (aborted, what struck, where)."""
    _val, st, writes, sleeps, _e, _same = ref
    kind = f["kind"]
    exc, at = None, None
    if kind in ("interrupt", "memory"):
        exc = T.Interrupt() if kind == "interrupt" else T.Exhausted()
        places = range(1, st.n + 1)
        if f["mode"] == "hot" and st.hot:
            places = st.hot
        elif f["mode"] == "site":
            places = sorted(st.sites.values())
        if not places:
            return None
        at = places[min(int(f["x"] * len(places)), len(places) - 1)]
    elif kind == "pipe":
        if not writes:
            return None
        exc, k = BrokenPipeError("injected"), [1 + int(f["x"] * writes)]

        def on_write(_s):
            k[0] -= 1
            if k[0] == 0:
                raise exc

        STDOUT.on_write = on_write
    elif kind == "sleep":
        if not sleeps:
            return None
        exc, k = T.Interrupt(), [1 + int(f["x"] * sleeps)]

        def on_sleep(_s):
            k[0] -= 1
            if k[0] == 0:
                raise exc

        CLOCK.on_sleep = on_sleep
    try:
        if kind == "warning":
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                _r, e, got = T.interrupted(lambda: O.run(pool, op, mine))
            if not isinstance(e, Warning):
                return None
            exc = e
        else:
            _r, e, got = T.interrupted(lambda: O.run(pool, op, mine), at, exc)
    finally:
        STDOUT.on_write = CLOCK.on_sleep = None
    if e is not exc:
        ctx.probe("fault-swallowed:" + kind)
        return kind, got.where, False
    return kind, got.where or op["op"], True


def _execute(plan, ctx):
    ref = undisturbed(plan)
    pool, mine, values = O.Pool(plan["pool"]), [], []
    before = pool.fingerprint()
    for i, op in enumerate(plan["steps"]):
        if ref[i] is None:
            continue
        for f in op["faults"]:
            was = settings()
            hit = strike(ctx, pool, op, mine, f, ref[i])
            if hit is None:
                continue
            kind, where, aborted = hit
            if aborted:
                ctx.fault(f"{kind}:{op['op']}")
                if ref[i][4] is None:
                    ctx.nontrivial = True
            ctx.state(op["op"], kind, where)
            ctx.log("abort", op["op"], kind, where, aborted)
            after = pool.fingerprint()
            ctx.check(after == before, "input-changed",
                      lambda: f"{op['op']} aborted by {kind} in {where}: {O.diff(before, after)}")
            now = [O.plain(m) for m in mine]
            ctx.check(now == values, "input-changed",
                      lambda: f"{op['op']} aborted by {kind} in {where} changed a count it was given: {short(now, values)}")
            if ref[i][5]:
                now = settings()
                ctx.check(now == was, "settings-changed",
                          lambda: f"{op['op']} aborted by {kind} in {where} left process-wide settings behind: {short(now, was)}")
        if op.get("giveup"):
            continue
        val, r = O.attempt(pool, op, mine)
        ctx.check(repr(val) == repr(ref[i][0]), "retry-differs",
                  lambda: f"step {i}, {op['op']} after {[f['kind'] for f in op['faults']]}: {short(val, ref[i][0])}")
        if O.is_count(r):
            mine.append(r)
            values.append(O.plain(r))
        ctx.log("done", op["op"], repr(val))
    after = pool.fingerprint()
    ctx.check(after == before, "input-changed", lambda: f"after all operations: {O.diff(before, after)}")
