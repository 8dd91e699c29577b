"""C04: saving and restoring a count conserves its cycles."""
from .. import farm as F
from .. import models as M
from .. import store as S

RUNS = {"quick": 12000, "thorough": 160000}
JIT_WORKERS = (7,)
LISTS = ("ops",)
RULE = ("one run = a running total that is exported with varying settings, stored on a faulty disk, lost in crashes, "
        "restored, added to, recovered, scaled and corrected; non-trivial if at least one storage generation with a "
        "full cycle was judged; distinct by event-log digest")
STATES = "hash of (generation, windows in, operation, history flags, full cycles) after each step"
REAL = ["as_dict and rainflow binner", "from_rainflow", "CycleCount addition, recovery, scaling, correction"]
STUB = ["loggers and clocks", "disk", "process crash", "numba compilation in 7 of 8 workers"]
simplify = S.simplify


def gen(rng, tier, idx):
    table = {"add": 5, "save": 4, "reload": 4}
    for k, w in (("crash", 2), ("solve", 1), ("scale", 1), ("correct", 1)):
        if rng.random() < 0.4:
            table[k] = w
    if rng.random() < 0.03:
        table["swell"] = 2
    return S.gen_chain(rng, rng.random() < 0.5, table)


def execute(plan, ctx):
    ch = S.Chain(plan, ctx)
    seen = [0]
    ch.run(lambda c, op, before, back: judge(ctx, c, op, before, back, seen))
    if plan["windows"]:
        ctx.sim_s += plan["windows"][-1]["t"] - plan["windows"][0]["t"]
    ctx.nontrivial = seen[0] > 0
    if ch.clean and ch.total is not None:
        # nothing was recovered: the number of cycles is that of the windows
        want = 0
        for w in plan["windows"][: ch.upto]:
            full, half, _ = M.rainflow(w["data"])
            want += len(full) + len(half)
        full, half = S.entries(ch.total)
        got = sum(n for _r, _m, n in full) + len(half) + float(ch.total.nr_small_cycles)
        ctx.check(got == want, "total-cycles", f"{ch.upto} windows have {want} cycles, the restored total has {got}")


def judge(ctx, ch, op, before, back, seen):
    tol = 0.5 * 10.0 ** -op["dec"] + 1e-9
    lb = float(before.range_bin_lower_bound)
    f0, h0 = S.entries(before)
    f1, h1 = S.entries(back)
    where = f"generation {ch.gen}"
    n0 = sum(n for r, _m, n in f0 if r >= lb)
    n1 = sum(n for _r, _m, n in f1)
    if n0:
        seen[0] += 1
    ctx.check(n0 == n1, "number-of-full-cycles", lambda: f"{where}: {n0} full cycles above {lb} went in, {n1} came back")
    none = sum(1 for v in back.count_cycle if not v > 0)
    ctx.check(not none, "empty-entries", lambda: f"{where}: {none} of {len(back.count_cycle)} entries that came back count no cycle")
    keep = [(r, m) for r, m in h0 if r >= lb]
    ctx.check(len(keep) == len(h1), "number-of-half-cycles",
              lambda: f"{where}: {len(keep)} half cycles above {lb} went in, {len(h1)} came back")
    if op["legacy"]:
        a, b = [(r, 0.0, 1) for r, _m in keep], [(r, 0.0, 1) for r, _m in h1]
    else:
        a, b = [(r, m, 1) for r, m in keep], [(r, m, 1) for r, m in h1]
    bad = M.close_multiset(b, a, lambda v: tol)
    ctx.check(bad is None, "size-of-half-cycles", lambda: f"{where}: half cycles {bad}")
    small = float(before.nr_small_cycles) + sum(n for r, _m, n in f0 if r < lb) + sum(1 for r, _m in h0 if r < lb)
    ctx.check(float(back.nr_small_cycles) == small, "small-cycles",
              lambda: f"{where}: {small} cycles below the threshold expected, {back.nr_small_cycles} came back")
    r0, r1 = F._arr(before.residuals_sequence), F._arr(back.residuals_sequence)
    ctx.check((r0 is None) == (r1 is None) and (r0 is None or (
        len(r0) == len(r1) and all(abs(x - y) <= tol for x, y in zip(r0, r1)))), "residual-sequence",
        lambda: f"{where}: residual sequence {r0} came back as {r1}")
    full_kinds(ctx, ch, op)


def full_kinds(ctx, ch, op):
    if op["legacy"]:
        ctx.probe("record-without-means")
    if ch.gen > 1:
        ctx.probe("second-generation")
