"""C08: batch curve evaluation does not depend on how the work is split."""
import os

from .. import kernels as K
from ..seams import quiet
from . import c11, c13

RUNS = {"quick": 10000, "thorough": 200000}
JIT_WORKERS = (7,)
LISTS = ("batches",)
RULE = ("one run = batches of values evaluated on S-N and crack-growth curves, each batch under several divisions of the "
        "kernels' loops over workers and interleavings of the workers' steps (in 1 of 8 processes: the compiled kernels with "
        "planned chunk sizes), compared with evaluating every element alone; non-trivial if a batch of at least two values "
        "was divided over at least two workers; distinct by event-log digest")
STATES = "hash of (curve, quantity, batch size, division over workers)"
REAL = ["SNCurve.get_cycles/get_stress, ParisCurve.get_growth_rate/get_sif", "their kernels (compiled in 1 of 8 processes)"]
STUB = ["division of parallel loops over workers and the workers' interleaving", "numba compilation in 7 of 8 processes"]
ASSUMES = ["as numba does it, every worker has its own copy of scalars, arrays are shared between workers, and accumulated "
           "scalars are combined at the end of the loop"]
FORMS = ["array", "array", "array", "list", "tuple", "series", "strided", "reversed", "readonly", "ints"]


def gen(rng, tier, idx):
    batches = []
    vals = []
    for _ in range(rng.randint(1, 4)):
        q = rng.choice(["cycles", "stress", "growth", "sif"])
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 100])
        if rng.random() < 0.02:
            n = rng.choice([128, 129, 200, 255, 256, 257, 300, 512, 513, 700, 1000, 1024, 1025, 1500])
        curve = rng.randrange(len(c13.CURVES) if q in ("cycles", "stress") else len(c11.CURVES))
        style = rng.choice(["noise", "noise", "few", "sorted", "falling", "special", "extreme"])
        lo, hi = {"cycles": (0.0, 3.0), "stress": (2.0, 12.0), "growth": (0.0, 3.5), "sif": (-20.0, -2.0)}[q]
        if style == "few":
            lv = [10 ** rng.uniform(lo, hi) for _ in range(rng.randint(1, 3))]
            v = [rng.choice(lv) for _ in range(n)]
        else:
            v = [10 ** rng.uniform(lo, hi) for _ in range(n)]
        if style == "sorted":
            v.sort()
        elif style == "falling":
            v.sort(reverse=True)
        elif style == "extreme":
            for _ in range(1 + n // 8):
                v[rng.randrange(n)] = rng.choice([1e-12, 1e12, 1e-3, 1e6])
        elif style == "special":
            v = [["special", rng.randrange(12)] if rng.random() < 0.3 else x for x in v]
        if vals and rng.random() < 0.3:
            v = list(rng.choice(vals))
        vals.append(v)
        batches.append({"q": q, "curve": curve, "v": v, "form": rng.choice(FORMS), "scheds": [K.gen_schedule(rng) for _ in range(rng.randint(1, 3))],
                        "chunk": rng.choice([0, 1, 2, 3, 5, 8, 16, 50])})
    return {"batches": batches}


def simplify(plan):
    for i, b in enumerate(plan["batches"]):
        def put(**kw):
            return dict(plan, batches=plan["batches"][:i] + [dict(b, **kw)] + plan["batches"][i + 1:])
        if b["form"] != "array":
            yield put(form="array")
        for j in range(len(b["scheds"])):
            if len(b["scheds"]) > 1:
                yield put(scheds=b["scheds"][:j] + b["scheds"][j + 1:])
        n = len(b["v"])
        if n > 1:
            yield put(v=b["v"][:n // 2])
            yield put(v=b["v"][n // 2:])
            if n <= 12:
                for j in range(n):
                    yield put(v=b["v"][:j] + b["v"][j + 1:])
        for j, s in enumerate(b["scheds"]):
            if s["workers"] > 2:
                yield put(scheds=b["scheds"][:j] + [dict(s, workers=2)] + b["scheds"][j + 1:])
            if len(s["picks"]) > 1:
                yield put(scheds=b["scheds"][:j] + [dict(s, picks=s["picks"][:len(s["picks"]) // 2])] + b["scheds"][j + 1:])


def make(q, k):
    from py_fatigue.material.crack_growth_curve import ParisCurve
    from py_fatigue.material.sn_curve import SNCurve

    if q in ("cycles", "stress"):
        return SNCurve(curve=f"c{k}", color="#123456", **c13.CURVES[k])
    return ParisCurve(curve=f"p{k}", color="#123456", **c11.CURVES[k])


def specials(q, c):
    """Values at which the curve changes its law."""
    if q == "cycles":
        out = [0.0] + c.get_knee_stress().tolist() + ([float(c.get_stress(c.endurance))] if c.endurance < float("inf") else [])
    elif q == "stress":
        out = c.get_knee_cycles().tolist() + [float(c.endurance) if c.endurance < float("inf") else 1e7]
    elif q == "growth":
        out = [0.0, float(c.threshold), float(c.critical) if c.critical < float("inf") else 1e3] + c.get_knee_sif().tolist()
    else:
        out = [0.0] + c.get_knee_growth_rate().tolist() + [float(c.threshold_growth_rate)]
    return [x for x in out if x < float("inf") and (x > 0 or q != "stress")] or [1.0]


def batch(form, v):
    import numpy as np
    import pandas as pd

    if form == "ints":
        return np.array([max(1, min(10 ** 9, int(x))) for x in v])
    a = np.array(v, dtype=float)
    if form == "list":
        return a.tolist()
    if form == "tuple":
        return tuple(a.tolist())
    if form == "series":
        return pd.Series(a, index=range(len(a), 0, -1))
    if form == "strided":
        b = np.full(2 * len(a), 7.0)
        b[::2] = a
        return b[::2]
    if form == "reversed":
        return a[::-1].copy()[::-1]
    if form == "readonly":
        a.flags.writeable = False
    return a


def ask(c, q, x):
    return getattr(c, {"cycles": "get_cycles", "stress": "get_stress", "growth": "get_growth_rate", "sif": "get_sif"}[q])(x)


def look(c):
    return repr((c.slope.tolist(), c.intercept.tolist(), [getattr(c, k, None) for k in ("endurance", "threshold", "critical")],
                 c.name, c.color, c.id, c.unit, c.linear))


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * abs(b)


def execute(plan, ctx):
    import numpy as np

    jit = os.environ.get("NUMBA_DISABLE_JIT") == "0"
    shared, twins = {}, {}
    with quiet(), np.errstate(all="ignore"):
        for b in plan["batches"]:
            q, key = b["q"], (b["q"] in ("cycles", "stress"), b["curve"])
            if key[0]:
                key = (True, b["curve"] % len(c13.CURVES))
            else:
                key = (False, b["curve"] % len(c11.CURVES))
            if key not in shared:
                shared[key], twins[key] = make(q, key[1]), make(q, key[1])
            c, twin = shared[key], twins[key]
            sp = specials(q, twin)
            v = [sp[x[1] % len(sp)] if isinstance(x, list) else x for x in b["v"]]
            # every array type is compiled anew: the compiled kernels see two
            form = b["form"] if not jit or b["form"] in ("array", "list", "ints") else "array"
            arg = batch(form, v)
            vals = [float(x) for x in arg]
            memo = {}
            for x in vals:
                if x not in memo:
                    memo[x] = (float(ask(twin, q, x)), float(ask(make(q, key[1]), q, np.array([x]))[0]) if len(memo) < 3 else None)
                    ctx.check(memo[x][1] is None or close(*memo[x]), "alone-differs",
                              lambda: f"{q} of {x!r} alone is {memo[x][0]!r} as a number, {memo[x][1]!r} as an array of one")
            want = [memo[x][0] for x in vals]
            before = look(c)
            if jit:
                import numba

                old = numba.set_parallel_chunksize(b["chunk"])
                try:
                    judge(ctx, b, q, c, arg, vals, want, f"chunks of {b['chunk']}")
                finally:
                    numba.set_parallel_chunksize(old)
                ctx.faults["chunk-size"] += 1
                ctx.state(key, q, len(v), b["chunk"])
                if len(v) > max(1, b["chunk"]) > 0:
                    ctx.nontrivial = True
            else:
                judge(ctx, b, q, c, arg, vals, want, "one worker in order")
                for s in b["scheds"]:
                    with K.split(s) as sp_:
                        judge(ctx, b, q, c, arg, vals, want, f"{s['workers']} workers, {s['split']}")
                    for n, parts, sw in sp_.loops:
                        ctx.log("loop", n, parts, sw)
                        ctx.state(key, q, n, parts, sw)
                        ctx.faults["loop-divided"] += 1
                        ctx.faults["worker-switch"] += sw
                        if sum(1 for p in parts if p) > 1:
                            ctx.nontrivial = True
            after = look(c)
            ctx.check(before == after, "curve-changed", lambda: f"evaluating {q} changed the curve: {before} -> {after}")
            ctx.log(q, key, len(v), repr(want))


def judge(ctx, b, q, c, arg, vals, want, how):
    import numpy as np

    got = np.asarray(ask(c, q, arg), dtype=float)
    ctx.check(got.shape == (len(vals),), "shape", lambda: f"{q}, {how}: {len(vals)} values in, {got.shape} out")
    for i, (g, w) in enumerate(zip(got.tolist(), want)):
        ctx.check(close(g, w), "depends-on-split",
                  lambda: f"{q}, {how}: value {i} of {len(vals)} ({vals[i]!r}) gives {g!r}, alone {w!r}")
    now = [float(x) for x in arg]
    ctx.check(now == vals, "batch-changed", lambda: f"{q}, {how}: evaluating changed the batch")
