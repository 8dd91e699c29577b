"""C07: shared counts and curves give every thread the answer it would get alone."""
import sys

from .. import ops as O
from .. import threads as T
from ..seams import quiet

RUNS = {"quick": 6000, "thorough": 50000}
LISTS = ("scheds", "threads")
RULE = ("one run = 2-4 threads, each with its own program of operations on the same counts, curves, geometry, arrays and "
        "tables, pre-empted at planned bytecodes of py_fatigue; non-trivial if a thread was pre-empted inside an operation"
        "; distinct by event-log digest")
STATES = "hash of the switch sequence (from, to, function reached)"
REAL = ["counting, adding, scaling, recovering, correcting, exporting, damage, crack growth, curve evaluation, aggregation",
        "threads, numpy, pandas"]
STUB = ["thread scheduler", "locks made by py_fatigue", "time.sleep, stdout", "numba compilation"]


def gen(rng, tier, idx):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    table = {k: w for k, w in O.TABLE.items() if rng.random() < 0.6} or dict(O.TABLE)
    x = rng.random()
    if x < 0.35:
        # everyone does the same kind of thing, with things of their own
        kind = rng.choice(sorted(O.TABLE))
        threads = [[O.gen_op(rng, {kind: 1}) for _ in range(rng.randint(1, 2))] for _ in range(n)]
    elif x < 0.55:
        # everyone does the same things
        ops = [O.gen_op(rng, table) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.5:
            threads = [[dict(o) for o in ops] for _ in range(n)]
        else:
            threads = [[dict(o, a=round(rng.random(), 4), v=rng.randrange(64)) for o in ops] for _ in range(n)]
    else:
        threads = [[O.gen_op(rng, table) for _ in range(rng.randint(1, 4))] for _ in range(n)]
    return {"pool": O.gen_pool(rng, n=(1, 3)), "threads": threads,
            "scheds": [T.gen_site(rng) for _ in range(8)] if rng.random() < 0.5 else [T.gen_schedule(rng, n, 8000)]}


def simplify(plan):
    for i, ops in enumerate(plan["threads"]):
        for j in range(len(ops)):
            yield dict(plan, threads=plan["threads"][:i] + [ops[:j] + ops[j + 1:]] + plan["threads"][i + 1:])
    for i, s in enumerate(plan["scheds"]):
        for x in T.simplify_schedule(s):
            yield dict(plan, scheds=plan["scheds"][:i] + [x] + plan["scheds"][i + 1:])
    p = plan["pool"]
    for key in ("derived", "windows", "arrays", "sn", "paris"):
        for i in range(len(p[key])):
            if len(p[key]) > 1 or key == "derived":
                yield dict(plan, pool=dict(p, **{key: p[key][:i] + p[key][i + 1:]}))


def program(pool, ops, res, mark=None):
    """A user who works through a list, keeping the counts they got."""
    mine = []
    for op in ops:
        try:
            val, r = O.attempt(pool, op, mine)
        except O.Skip:
            val, r = "skipped", None
        res.append(val)
        if O.is_count(r):
            mine.append(r)
        if mark:
            mark()


def alone(plan, codes=None):
    want = []
    for ops in plan["threads"]:
        pool, res = O.Pool(plan["pool"]), []
        sys.settrace(codes)
        try:
            program(pool, ops, res)
        finally:
            sys.settrace(None)
        want.append(res)
    return want


def execute(plan, ctx):
    if not plan["threads"] or not plan["scheds"]:
        return
    with quiet():
        want, sites = None, ()
        if plan["scheds"][0]["kind"] == "site":
            codes = T.Codes()
            want = alone(plan, codes)
            sites = codes.sites()
        shared = O.Pool(plan["pool"])
        rounds = []
        for sched in plan["scheds"]:
            got = [[] for _ in plan["threads"]]
            sch = T.Scheduler(ctx, sched, sites)
            fns = [lambda t=t, ops=ops: program(shared, ops, got[t], sch.pause) for t, ops in enumerate(plan["threads"])]
            for _v, e in sch.run(fns):
                if e is not None:
                    raise e
            rounds.append(got)
            ctx.state(sch.path)
            ctx.nontrivial = ctx.nontrivial or any(p[2] not in ("end", "lock") for p in sch.path)
        if want is None:
            want = alone(plan)
        for got in rounds:
            for t, ops in enumerate(plan["threads"]):
                for j, op in enumerate(ops):
                    ctx.check(repr(got[t][j]) == repr(want[t][j]), "other-answer",
                              lambda: f"thread {t}, operation {j} ({op['op']}): {short(got[t][j], want[t][j])}")
        before, after = O.Pool(plan["pool"]).fingerprint(), shared.fingerprint()
        ctx.check(before == after, "shared-object-changed", lambda: O.diff(before, after))
    for ops, w in zip(plan["threads"], want):
        for op, x in zip(ops, w):
            ctx.probe(op["op"] + (":error" if isinstance(x, tuple) and x[0] == "error" else ":skipped" if x == "skipped" else ""))
    ctx.log("results", repr(want))


def short(a, b):
    a, b = repr(a), repr(b)
    i = next((j for j, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return f"...{a[max(0, i - 60):i + 100]}... but alone ...{b[max(0, i - 60):i + 100]}..."
