"""C10: mean-stress correction is applied exactly once, to the recovered spectrum."""
from .. import chain as C
from .. import farm as F
from ..seams import quiet

RUNS = {"quick": 14000, "thorough": 180000}
JIT_WORKERS = (7,)
LISTS = ("ops",)
RULE = ("one run = a history of additions, recoveries, scalings and corrections by several analysts on shared totals, "
        "with failing corrections and retries; non-trivial if a correction took effect and was requested again; "
        "distinct by event-log digest")
STATES = "hash of the operation word that produced each count"
REAL = ["CycleCount correction, recovery, scaling, addition", "correction formulas"]
STUB = ["loggers and clocks", "numba compilation in 7 of 8 workers"]
ASPECTS = ("cycles",)
simplify = C.simplify_windows


def gen(rng, tier, idx):
    wins = F.gen_windows(rng, rng.randint(1, 6), size=(2, 14), stored=rng.choice([0, 0, 0.3]), nores=0.4, flat=rng.choice([0, 0, 0.3]), many=0.1, zones=0.15)
    if rng.random() < 0.25:
        # windows that swing around zero: all means vanish
        for w in wins:
            a = rng.randint(1, 20)
            w["data"] = [float(a if i % 2 else -a) for i in range(rng.randint(2, 9))]
            w.pop("stored", None)
    ops = C.gen_ops(rng, {"window": 1, "add": 5, "missing": 1, "scale": 3, "solve": 3, "correct": 9}, rng.randint(4, 14))
    head = [{"op": "window", "i": (i + 0.5) / len(wins)} for i in range(len(wins))]
    head += [{"op": "add", "i": rng.random(), "j": rng.random()} for _ in range(rng.randint(0, len(wins)))]
    # retries: the same analyst asks again, or another one does
    out = []
    for op in ops:
        out.append(op)
        if op["op"] == "correct" and rng.random() < 0.5:
            kind, kw = rng.choice(C.CORRECTIONS)
            out.append(dict(op, kind=kind, kw=kw, i=op["i"] if rng.random() < 0.5 else 1 - 1e-9,
                            enforce=rng.random() < 0.5, bad=False))
    return {"windows": wins, "ops": head + out, "defaults": rng.random() < 0.1}


def execute(plan, ctx):
    ch = C.Chain(ctx, ASPECTS, plan["windows"])
    n = 0
    for op in plan["ops"]:
        it = ch.apply(op)
        if it is not None and op["op"] == "correct":
            n += 1
            # every analyst asking again gets the same corrected count
            with quiet():
                c = it.cc.mean_stress_correction(op["kind"], **op["kw"])
            fp = F.fingerprint(c)
            ctx.check(F.same_fp(fp, it.fp), "corrected-twice",
                      lambda: f"correcting again changed {F.fp_diff(it.fp, fp)}")
    ch.untouched(ch.items, "the history")
    ts = [w["t"] for w in plan["windows"]] or [0]
    ctx.sim_s += max(ts) - min(ts)
    ctx.nontrivial = n > 0
