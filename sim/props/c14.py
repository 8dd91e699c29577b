"""C14: curves created concurrently get distinct ids and the colours in order."""
from .. import threads as T
from ..core import Violation
from ..seams import quiet

RUNS = {"quick": 20000, "thorough": 200000}
LISTS = ("threads", "late")
RULE = ("one run = 1-5 threads creating S-N and crack-growth curves, with and without an explicit colour, pre-empted at "
        "planned bytecodes, some creations failing on their arguments or interrupted inside py_fatigue; non-trivial if at "
        "least two threads overlapped in creating curves or a creation was interrupted; distinct by event-log digest")
STATES = "hash of the switch sequence (from, to, function reached)"
REAL = ["SNCurve and ParisCurve construction, the process-wide id and colour counter", "threads"]
STUB = ["thread scheduler", "locks made by py_fatigue", "Ctrl-C and memory exhaustion", "numba compilation"]
COLOURS = ["#AA0DFE", "#123456", "red", "rgba(1, 2, 3, 0.5)", "#000"]
BAD = ["lengths", "endurance", "slope-text", "empty"]


def gen_op(rng, p_hit, p_bad):
    op = {"kind": rng.choice(["sn", "sn", "sn2", "paris", "paris2"]),
          "color": rng.choice(COLOURS) if rng.random() < 0.25 else None}
    x = rng.random()
    if x < p_bad:
        op["bad"] = rng.choice(BAD)
    elif x < p_bad + p_hit:
        op["hit"] = rng.randint(1, rng.choice([6, 25]))
        op["exc"] = rng.choice(["interrupt", "interrupt", "memory"])
    return op


def gen(rng, tier, idx):
    n = rng.choice([1, 2, 2, 2, 3, 3, 4, 5])
    p_hit = rng.choice([0, 0, 0.15, 0.4])
    p_bad = rng.choice([0, 0, 0.2])
    threads = [[gen_op(rng, p_hit, p_bad) for _ in range(rng.randint(1, 6))] for _ in range(n)]
    return {"threads": threads, "late": [gen_op(rng, 0, p_bad) for _ in range(rng.randint(1, 4))],
            "sched": T.gen_schedule(rng, n, 1500)}


def simplify(plan):
    for i, ops in enumerate(plan["threads"]):
        for j in range(len(ops)):
            yield dict(plan, threads=plan["threads"][:i] + [ops[:j] + ops[j + 1:]] + plan["threads"][i + 1:])
    for s in T.simplify_schedule(plan["sched"]):
        yield dict(plan, sched=s)


def make(op):
    from py_fatigue.material.crack_growth_curve import ParisCurve
    from py_fatigue.material.sn_curve import SNCurve

    kw = {"color": op["color"]} if op["color"] is not None else {}
    bad, kind = op.get("bad"), op["kind"]
    if kind.startswith("sn"):
        a = {"slope": [3.0, 5.0], "intercept": [10.97, 13.617]} if kind == "sn2" else {"slope": 3, "intercept": 10.97}
        if bad == "endurance":
            a = {"slope": [3.0, 5.0], "intercept": [10.97, 13.617], "endurance": 10}
        cls = SNCurve
    else:
        a = {"slope": [2.88, 5.1], "intercept": [1e-16, 1e-20]} if kind == "paris2" else {"slope": 3.0, "intercept": 1e-10}
        cls = ParisCurve
    if bad in ("lengths", "empty"):
        a = dict(a, slope=[1.0, 2.0, 3.0] if bad == "lengths" else [])
    elif bad == "slope-text":
        a = dict(a, slope="steep")
    return cls(curve="c", norm="n", environment="e", **a, **kw)


def colour_position(c):
    from plotly.express import colors

    pal = list(colors.qualitative.Alphabet)
    if c.color not in pal:
        raise Violation("not-in-palette", f"a curve without explicit colour got {c.color!r}")
    return pal.index(c.color), len(pal)


def execute(plan, ctx):
    if not plan["threads"]:
        return
    done = []  # (start, end, thread, curve, op) of finished creations
    tick = [0]
    calls = [0]
    hits = [0]
    sch = T.Scheduler(ctx, plan["sched"])

    def now():
        tick[0] += 1
        return tick[0]

    def create(t, op):
        calls[0] += 1
        a = now()
        exc = None
        if op.get("hit"):
            exc = T.Interrupt() if op["exc"] == "interrupt" else T.Exhausted()

            def fired(frame):
                hits[0] += 1
                ctx.fault("creation-interrupted:" + op["exc"])

            sch.arm(op["hit"], exc, fired)
        try:
            c = make(op)
        except (T.Interrupt, Exception) as e:  # pylint: disable=broad-except
            if exc is not None and e is exc:
                return
            if not op.get("bad"):
                raise
            ctx.fault("creation-failed:" + op["bad"])
            return
        finally:
            if exc is not None:
                sch.disarm()
        done.append((a, now(), t, c, op))

    def program(t, ops):
        def run():
            for op in ops:
                create(t, op)
                sch.pause()

        return run

    plain = {"kind": "sn", "color": None}
    with quiet():
        first = make(plain)
        p0, size = colour_position(first)
        out = sch.run([program(t, ops) for t, ops in enumerate(plan["threads"])])
        for _v, e in out:
            if e is not None:
                raise e
        for op in plan["late"]:
            try:
                done.append((now(), now(), -1, make(op), op))
            except Exception:  # pylint: disable=broad-except
                if not op.get("bad"):
                    raise
        before = make(plain)
        after = make(plain)
    done.append((now(), now(), -1, before, plain))
    done.append((now(), now(), -1, after, plain))
    ctx.state(sch.path)
    judge(ctx, first, p0, size, done, calls[0] + len(plan["late"]) + 2, hits[0])
    a, b = colour_position(before)[0], colour_position(after)[0]
    ctx.check((b - a) % size == 1, "colours-not-in-order", f"two curves made one after the other have colours {a} and {b} of {size}")
    ctx.nontrivial = hits[0] > 0 or (sch.switches > 0 and len({d[2] for d in done}) > 2)


def judge(ctx, first, p0, size, done, calls, hits):
    auto = [d for d in done if d[4]["color"] is None]
    seen = {first.id: "the first curve"}
    for a, b, t, c, op in done:
        if op["color"] is not None:
            ctx.check(c.color == op["color"], "explicit-colour", f"asked for colour {op['color']!r}, got {c.color!r}")
    for a, b, t, c, op in auto:
        ctx.check(isinstance(c.id, int) and c.id > first.id, "id-not-increasing",
                  f"a curve got id {c.id!r} after id {first.id} was given")
        ctx.check(c.id not in seen, "shared-id", lambda: f"two curves have id {c.id - first.id} past the first")
        seen[c.id] = t
        ctx.check(c.id <= first.id + calls, "id-skipped", lambda: f"{calls} creations, but an id {c.id - first.id} past the first")
        if not hits:
            k, _ = colour_position(c)
            ctx.check((k - p0 - (c.id - first.id)) % size == 0, "wrong-colour",
                      lambda: f"the curve {c.id - first.id} places after one with palette colour {p0} has colour {k}")
        ctx.log("curve", t, c.id - first.id)
    # what was finished before another began has the smaller id
    for x in auto:
        for y in auto:
            if x[1] < y[0]:
                ctx.check(x[3].id < y[3].id, "id-order",
                          lambda: f"a curve made later has id {y[3].id - first.id}, the earlier one {x[3].id - first.id}")
