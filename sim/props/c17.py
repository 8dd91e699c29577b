"""C17: min-max recovery uses every window's extremes once, in order."""
from .. import chain as C
from .. import farm as F

RUNS = {"quick": 16000, "thorough": 200000}
JIT_WORKERS = (7,)
LISTS = ("ops",)
RULE = ("one run = a history of additions in any bracketing, missing entries, scalings and recoveries in both modes; "
        "non-trivial if a min-max recovery took effect on a sum; distinct by event-log digest")
STATES = "hash of the operation word that produced each count"
REAL = ["CycleCount addition, scaling, recovery in both modes"]
STUB = ["loggers and clocks", "numba compilation in 7 of 8 workers"]
ASPECTS = ("cycles",)
simplify = C.simplify_windows


def gen(rng, tier, idx):
    wins = F.gen_windows(rng, rng.randint(1, 9), size=(2, 14), stored=rng.choice([0, 0.2, 0.5]), nores=0.4, flat=rng.choice([0, 0, 0.3]), many=0.1, zones=0.15)
    ops = C.gen_ops(rng, {"window": 2, "add": 8, "missing": 2, "scale": 3, "solve": 5}, rng.randint(3, 16))
    for op in ops:
        if op["op"] == "solve" and rng.random() < 0.7:
            op["mode"] = rng.choice(["min-max", "Min-Max", "min/max", "MIN MAX"])
    head = [{"op": "window", "i": (i + 0.5) / len(wins)} for i in range(len(wins))]
    if rng.random() < 0.5 and len(wins) > 1:
        # build the total step by step
        head += [{"op": "add", "i": 0.0 if j == 0 else 1 - 1e-9, "j": rng.random()} for j in range(len(wins))]
    return {"windows": wins, "ops": head + ops}


def execute(plan, ctx):
    ch = Extremes(ctx, ASPECTS, plan["windows"])
    hit = 0
    for op in plan["ops"]:
        it = ch.apply(op)
        if it is not None and op["op"] == "solve" and op["mode"].lower().startswith("min") and "+" in it.word:
            hit += 1
    ch.untouched(ch.items, "the history")
    ts = [w["t"] for w in plan["windows"]] or [0]
    ctx.sim_s += max(ts) - min(ts)
    ctx.nontrivial = hit > 0


class Extremes(C.Chain):
    def op_solve(self, op):
        a = self.pick(op["i"])
        if a is None:
            return None
        if a.lost and not a.s.solved and op["mode"].lower().startswith("min"):
            # what was recovered from extremes before it was added counts as
            # one window
            self.ctx.probe("recovered-again-from-extremes")
        it = super().op_solve(op)
        if it is not None:
            # a second recovery, in either mode, changes nothing
            for mode in ("Residuals", "min-max"):
                from ..seams import quiet

                with quiet():
                    c = it.cc.solve_lffd(solve_mode=mode)
                fp = F.fingerprint(c)
                self.ctx.check(F.same_fp(fp, it.fp), "second-recovery",
                               lambda: f"recovering again ({mode}) changed {F.fp_diff(it.fp, fp)}")
        return it
