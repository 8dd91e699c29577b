"""C16: sample signals are reproducible and leave the program's randomness alone."""
import hashlib
import random

from .. import threads as T
from ..core import Violation
from ..seams import quiet

RUNS = {"quick": 20000, "thorough": 200000}
LISTS = ("threads",)
DET_SAMPLE = 96
DIGEST_IS_PROPERTY = True  # the same run in another process must see the same signals
RULE = ("one run = threads generating sample signals while other threads draw from, reseed and save or restore the "
        "process-wide random states (numpy's and Python's), pre-empted at planned bytecodes, some calls interrupted or "
        "failing; non-trivial if a signal was generated and a neighbour drew a number; distinct by event-log digest")
STATES = "hash of the switch sequence (from, to, function reached)"
REAL = ["get_random_data", "numpy's and Python's generators", "threads"]
STUB = ["thread scheduler", "Ctrl-C and memory exhaustion"]
TYPES = [("normal", {}), ("uniform", {}), ("weibull", {"a": 2.0}), ("exponential", {"scale": 3.0}), ("rayleigh", {}),
         ("standard_t", {"df": 4}), ("poisson", {"lam": 5.0}), ("gumbel", {"loc": 1.0}), ("normal", {"loc": 3.0, "scale": 2.0}),
         ("random", {}), ("lognormal", {}), ("triangular", {"left": 0.0, "mode": 1.0, "right": 4.0})]
SEEDS = [0, 1, 2, 3, 42, 2 ** 31, 2 ** 40 + 7, [1, 2], [0]]


def gen_call(rng):
    k, kw = rng.choice(TYPES)
    op = {"op": "signal", "n": rng.choice([2, 3, 10, 64, 300]), "type": k, "kw": kw, "form": rng.choice(["array", "list", "int", "series", "column"])}
    if rng.random() < 0.85:
        op["seed"] = rng.choice(SEEDS)
        if rng.random() < 0.2:
            op["np"] = True
    if rng.random() < 0.4:
        op["min"], op["range"] = rng.choice([(-10.0, 50.0), (0.0, 1.0), (5.0, -3.0), (-100.0, 1e3)])
    x = rng.random()
    if x < 0.1:
        op["hit"] = rng.randint(1, 8)
    elif x < 0.15:
        op["type"] = "no_such_distribution"
    return op


def gen_draw(rng):
    return {"op": rng.choice(["np-random", "np-normal", "np-int", "np-seed", "np-shuffle", "np-save", "np-restore", "py-random",
                              "py-gauss", "py-seed", "py-shuffle", "gen-normal", "np-random", "py-random"]),
            "v": rng.randint(0, 50)}


def gen(rng, tier, idx):
    threads = []
    pool = [gen_call(rng) for _ in range(rng.randint(1, 3))]
    for _ in range(rng.randint(1, 3)):
        threads.append([dict(rng.choice(pool)) if rng.random() < 0.6 else gen_call(rng) for _ in range(rng.randint(1, 5))])
        if rng.random() < 0.4:
            threads[-1] = [y for x in threads[-1] for y in ([gen_draw(rng)] * (rng.random() < 0.5) + [x])]
    for _ in range(rng.randint(1, 3)):
        threads.append([gen_draw(rng) for _ in range(rng.randint(2, 10))])
    rng.shuffle(threads)
    return {"threads": threads, "start": rng.randint(0, 10 ** 6), "sched": T.gen_schedule(rng, len(threads), 200)}


def simplify(plan):
    for i, ops in enumerate(plan["threads"]):
        for j in range(len(ops)):
            yield dict(plan, threads=plan["threads"][:i] + [ops[:j] + ops[j + 1:]] + plan["threads"][i + 1:])
    for s in T.simplify_schedule(plan["sched"]):
        yield dict(plan, sched=s)


class Program:
    """The rest of the program: everything random that is not the library's."""

    def __init__(self, start):
        import numpy as np

        self.np = np
        np.random.seed(start)
        random.seed(start)
        self.gen = np.random.default_rng(start)
        self.saved = np.random.get_state()

    def draw(self, op):
        np, k, v = self.np, op["op"], op["v"]
        if k == "np-random":
            return float(np.random.random())
        if k == "np-normal":
            return float(np.random.normal())
        if k == "np-int":
            return int(np.random.randint(0, 1000 + v))
        if k == "np-seed":
            return np.random.seed(v)
        if k == "np-shuffle":
            return [int(x) for x in np.random.permutation(5)]
        if k == "np-save":
            self.saved = np.random.get_state()
        elif k == "np-restore":
            np.random.set_state(self.saved)
        elif k == "py-random":
            return random.random()
        elif k == "py-gauss":
            return random.gauss(0, 1)
        elif k == "py-seed":
            return random.seed(v)
        elif k == "py-shuffle":
            return random.sample(range(100), 3)
        else:
            return float(self.gen.normal())
        return None

    def end(self):
        return repr((self.np.random.get_state(), random.getstate(), self.gen.bit_generator.state))


def call(op):
    import numpy as np
    import pandas as pd
    from py_fatigue.testing import get_random_data

    kw = dict(op["kw"])
    if "seed" in op:
        kw["seed"] = op["seed"] if not op.get("np") else np.uint64(op["seed"]) if isinstance(op["seed"], int) else np.array(op["seed"])
    if "min" in op:
        kw["min_"], kw["range_"] = op["min"], op["range"]
    t = {"array": lambda: np.arange(op["n"], dtype=float), "list": lambda: [0.1 * i for i in range(op["n"])],
         "int": lambda: np.arange(op["n"]), "series": lambda: pd.Series(np.arange(op["n"]) / 7, index=range(op["n"], 0, -1)),
         "column": lambda: np.arange(op["n"]).reshape(-1, 1)}[op["form"]]()
    y = np.asarray(get_random_data(t, random_type=op["type"], **kw), dtype=float)
    lo, span = (op["min"], op["range"]) if "min" in op else (-10.0, 50.0)
    if np.isfinite(y).all():
        got, want = (y.min(), y.max()), (min(lo, lo + span), max(lo, lo + span))
        if max(abs(a - b) for a, b in zip(got, want)) > 1e-9 * (abs(lo) + abs(span)):
            raise Violation("span", f"{op['type']} signal from {got[0]} to {got[1]}, asked for {want}")
    return hashlib.sha256(y.tobytes()).hexdigest()[:16] + f":{y.shape}"


def execute(plan, ctx):
    import numpy as np

    if not plan["threads"]:
        return
    keep = (np.random.get_state(), random.getstate())
    try:
        with quiet():
            _execute(plan, ctx)
    finally:
        np.random.set_state(keep[0])
        random.setstate(keep[1])


def _execute(plan, ctx):
    calls = [op for ops in plan["threads"] for op in ops if op["op"] == "signal" and op["type"] != "no_such_distribution"]
    want = {}
    for op in calls:
        key = repr(sorted((k, str(v)) for k, v in op.items() if k != "hit"))
        if key not in want:
            want[key] = call(op)
            ctx.log("signal", key, want[key])
    prog = Program(plan["start"])
    order, drawn = [], []
    sch = T.Scheduler(ctx, plan["sched"])
    n = {"signals": 0, "draws": 0}

    def signal(op):
        exc = None
        if op.get("hit"):
            exc = T.Interrupt()
            sch.arm(op["hit"], exc, lambda _f: ctx.fault("signal-interrupted"))
        try:
            got = call(op)
        except (T.Interrupt, Exception) as e:  # pylint: disable=broad-except
            if exc is not None and e is exc:
                return
            if op["type"] == "no_such_distribution":
                ctx.fault("signal-failed")
                return
            raise
        finally:
            if exc is not None:
                sch.disarm()
        if op["type"] == "no_such_distribution":
            raise Violation("bad-distribution-accepted", "a distribution that does not exist gave a signal")
        n["signals"] += 1
        key = repr(sorted((k, str(v)) for k, v in op.items() if k != "hit"))
        ctx.check(got == want[key], "signal-differs",
                  lambda: f"{op['type']} with seed {op.get('seed', 'default')}: another signal than the one generated alone")

    def program(ops):
        def run():
            for op in ops:
                if op["op"] == "signal":
                    signal(op)
                else:
                    order.append(op)
                    drawn.append(prog.draw(op))
                    n["draws"] += 1
                    ctx.faults["neighbour-" + op["op"]] += 1
                sch.pause()

        return run

    for _v, e in sch.run([program(ops) for ops in plan["threads"]]):
        if e is not None:
            raise e
    end = prog.end()
    # the same neighbours, in the same order, without the library
    alone = Program(plan["start"])
    for i, op in enumerate(order):
        w = alone.draw(op)
        ctx.check(w == drawn[i], "neighbour-disturbed",
                  lambda: f"draw {i} ({op['op']}) gave {drawn[i]!r}, without sample signals it gives {w!r}")
    ctx.check(alone.end() == end, "random-state-changed", "generating sample signals left the process-wide random state changed")
    ctx.log("drawn", drawn)
    ctx.state(sch.path)
    ctx.nontrivial = n["signals"] > 0 and n["draws"] > 0
