"""C09: unit, time span, scale factor and bins survive every chain."""
from .. import chain as C
from .. import farm as F

RUNS = {"quick": 16000, "thorough": 200000}
JIT_WORKERS = (7,)
LISTS = ("ops",)
RULE = ("one run = a chain of windows, additions, scalings, recoveries, corrections and missing entries over counts in "
        "one unit; non-trivial if at least one addition, and one scaling, recovery or correction took effect; distinct "
        "by event-log digest")
STATES = "hash of the operation word that produced each count (e.g. R((w+w)*2))"
REAL = ["CycleCount addition, scaling, recovery, correction"]
STUB = ["loggers and clocks", "stdout", "numba compilation in 7 of 8 workers"]
ASPECTS = ("unit", "times", "scf", "bins", "cycles", "res", "small")
simplify = C.simplify_windows


def own_bins(rng):
    """Any bins a user may ask for, also ones that start at zero."""
    b = {"range_bin_lower_bound": rng.choice([0.0, 0.0, 0.2, 0.5, 1.0, 5.0]), "range_bin_width": rng.choice([0.05, 0.25, 1.0, 4.0]),
         "mean_bin_lower_bound": rng.choice([0.0, 0.0, -0.0, -30.0, 5.0, 0.25, -0.5]), "mean_bin_width": rng.choice([0.5, 1.0, 2.0, 10, 25.0])}
    return {k: v for k, v in b.items() if rng.random() < 0.8}


def gen(rng, tier, idx):
    wins = F.gen_windows(rng, rng.randint(1, 6), size=(2, 14), stored=rng.choice([0, 0, 0.5]), nores=0.4, flat=rng.choice([0, 0, 0.3]), many=0.1, zones=0.15,
                         units=("MPa", "kPa", "ksi", "N/mm2", "MPa"),
                         kinds=["exact", "default", "auto", own_bins(rng), own_bins(rng)] if rng.random() < 0.5 else ("exact", "exact", "default", "auto"))
    n = rng.randint(4, 14)
    ops = C.gen_ops(rng, {"window": 4, "add": 6, "missing": 1, "scale": 4, "solve": 3, "correct": 3}, n)
    # a workload needs windows first, and scaled partners for additions
    head = [{"op": "window", "i": (i + 0.5) / len(wins)} for i in range(len(wins))]
    if rng.random() < 0.4:
        k = rng.choice([2, 0.5, 3.0])
        head += [{"op": "scale", "i": (i + 0.5) / (2 * len(wins)), "k": k, "side": "r"} for i in range(len(wins))]
    return {"windows": wins, "ops": head + ops}


def execute(plan, ctx):
    ch = C.Chain(ctx, ASPECTS, plan["windows"])
    kinds = set()
    for op in plan["ops"]:
        if ch.apply(op) is not None:
            kinds.add(op["op"])
        for it in ch.items[-4:]:
            ch.untouched([it], op["op"])
    ch.untouched(ch.items, "the chain")
    ts = [w["t"] for w in plan["windows"]] or [0]
    ctx.sim_s += max(ts) - min(ts)
    ctx.nontrivial = "add" in kinds and bool(kinds & {"scale", "solve", "correct"})
