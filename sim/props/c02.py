"""C02: adding counts conserves every cycle whatever the grouping."""
from .. import farm as F
from .. import models as M
from ..core import Injected
from ..seams import CLOCK, STDOUT, quiet

RUNS = {"quick": 24000, "thorough": 240000}
JIT_WORKERS = (7,)
LISTS = ("ways", "entries")
RULE = ("one run = a series of windows with missing entries, delivered out of order and duplicated, summed in several "
        "ways, some of them abandoned midway; non-trivial if at least three counts are summed and at least one way "
        "completed; distinct by event-log digest")
STATES = "hash of (entries, missing pattern, way of summing, shape of the tree)"
REAL = ["CycleCount addition, built-in sum, progress-reporting sum"]
STUB = ["loggers and clocks", "network delivery", "stdout", "time.sleep", "numba compilation in 7 of 8 workers"]
ASPECTS = ("cycles", "res", "small")


class Stop(Injected):
    pass


def gen(rng, tier, idx):
    big = rng.random() < 0.03
    n = rng.randint(15, 45) if big else rng.randint(1, 12)
    if big and rng.random() < 0.08:
        n = rng.choice([100, 144, 145, 257, 300])
    wins = F.gen_windows(rng, n, size=(2, 8) if big else (2, 20), stored=rng.choice([0, 0, 0.4]), nores=0.4, flat=rng.choice([0, 0, 0.3]), many=0.1, zones=0.15)
    p_miss = rng.choice([0, 0, 0.15, 0.4])
    p_again = rng.choice([0, 0, 0, 0, 0.1])
    entries = []
    for w in wins:
        while rng.random() < p_miss and len(entries) < 400:
            entries.append({"missing": rng.choice(["None", "None", "zero", "zerof", "nan"])})
        entries.append(w)
        if rng.random() < p_again:
            entries.append({"again": True})
    while rng.random() < p_miss and len(entries) < 400:
        entries.append({"missing": rng.choice(["None", "zero", "nan"])})
    ways = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["tree", "tree", "sum", "pbar", "pbar", "left", "right"])
        way = {"way": k}
        if k == "tree":
            way["order"] = [rng.random() for _ in entries]
        if k == "pbar":
            way["as"] = rng.choice(["list", "tuple", "series"])
        if rng.random() < 0.2:
            way["abandon"] = rng.randint(1, 6)
        ways.append(way)
    arr = list(range(len(entries)))
    net = rng.choice(["ordered", "shuffled", "bursts"])
    if net == "shuffled":
        rng.shuffle(arr)
    elif net == "bursts":
        arr.sort(key=lambda i: i + rng.random() * 5)
    arr += [rng.randrange(len(entries)) for _ in range(rng.randint(0, 3))]
    return {"entries": entries, "ways": ways, "arrivals": arr}


def simplify(plan):
    for i, e in enumerate(plan["entries"]):
        if "data" in e:
            for j in range(len(e["data"])):
                d = e["data"][:j] + e["data"][j + 1:]
                if len(d) >= 2 and M.changes(d):
                    yield dict(plan, entries=plan["entries"][:i] + [dict(e, data=d)] + plan["entries"][i + 1:])
            if e["bins"] != "exact":
                yield dict(plan, entries=plan["entries"][:i] + [dict(e, bins="exact")] + plan["entries"][i + 1:])


def execute(plan, ctx):
    import pandas as pd

    entries = plan["entries"]
    if not entries:
        return
    # delivery: the aggregator drops duplicates and orders by sequence number
    inbox = {}
    last = -1
    for k in plan["arrivals"]:
        if k >= len(entries):
            continue
        if k in inbox:
            ctx.fault("duplicate-delivery")
            continue
        if k < last:
            ctx.fault("reordered-delivery")
        last = max(last, k)
        e = entries[k]
        if "again" not in e:
            inbox[k] = (F.missing(e["missing"]), None) if "missing" in e else F.materialise(e)
    items = []
    for k, e in enumerate(entries):
        if "again" in e:
            # the same object a second time
            items.append(items[-1] if items and items[-1][1] is not None else (None, None))
            ctx.fault("same-count-twice")
        else:
            items.append(inbox[k] if k in inbox else ((None, None) if "missing" in e else F.materialise(e)))
    counts = [c for c, _s in items]
    shadows = [s for _c, s in items if s is not None]
    ts = [s.times[0].timestamp() for s in shadows]
    if ts:
        ctx.sim_s += ts[-1] - ts[0]
    for e in entries:
        if "missing" in e:
            ctx.fault("missing-entry:" + e["missing"])
    before = [F.fingerprint(c) for c in counts]
    want = None
    for s in shadows:
        want = s if want is None else F.shadow_add(want, s)
    done = 0
    for way in plan["ways"]:
        given = list(counts)
        if way["way"] == "sum" and not any(s is not None for _c, s in items):
            continue
        seq = given
        if way["way"] == "pbar":
            seq = {"list": list, "tuple": tuple, "series": lambda x: pd.Series(x, dtype=object)}[way["as"]](given)
        try:
            with quiet():
                total = form(way, seq, items, ctx)
        except Stop:
            total = Stop
        finally:
            CLOCK.on_sleep = None
            STDOUT.on_write = None
        after = [F.fingerprint(c) for c in counts]
        bad = [i for i, (a, b) in enumerate(zip(before, after)) if not F.same_fp(a, b)]
        ctx.check(not bad, "input-changed",
                  lambda: f"{way['way']} changed input {bad[0]}: {F.fp_diff(before[bad[0]], after[bad[0]])}")
        ctx.check(len(seq) == len(counts) and all(x is y for x, y in zip(seq, counts)), "list-changed",
                  f"{way['way']} changed the list it was given")
        ctx.state(len(entries), [type(c).__name__ for c in counts], way["way"], way.get("order"), way.get("abandon"))
        if total is Stop:
            ctx.log("abandoned", way["way"])
            continue
        if want is None:
            ctx.check(not hasattr(total, "count_cycle"), "total-of-nothing", f"{way['way']} made a count out of missing entries")
            continue
        ctx.check(hasattr(total, "count_cycle"), "no-total", f"{way['way']} returned {total!r}")
        F.compare(ctx, total, want, ASPECTS, way["way"])
        ctx.log("total", way["way"], F.fingerprint(total)[:4])
        done += 1
    ctx.nontrivial = done > 0 and len(shadows) >= 3


def form(way, seq, items, ctx):
    from py_fatigue.cycle_count.cycle_count import pbar_sum

    k = way["way"]
    if k == "pbar":
        if "abandon" in way:
            left = [way["abandon"]]

            def stop(_x):
                left[0] -= 1
                if left[0] <= 0:
                    ctx.fault("progress-sum-interrupted")
                    raise Stop()

            CLOCK.on_sleep = stop
            STDOUT.on_write = stop
        return pbar_sum(seq)
    if k == "sum":
        # Python's sum starts from 0 and cannot add None to it
        lst = [0 if c is None else c for c in seq]
        n = len(lst)
        if "abandon" in way:
            ctx.fault("partial-sum-abandoned")
            sum(lst[: max(1, n // 2)])
            raise Stop()
        return sum(lst)
    lst = list(seq)
    # a leading missing entry meets its successor from the left
    if k == "left":
        acc, rest = lst[0], lst[1:]
        for j, c in enumerate(rest):
            if way.get("abandon") == j + 1:
                ctx.fault("partial-sum-abandoned")
                raise Stop()
            acc = join(acc, c)
        return acc
    if k == "right":
        acc = lst[-1]
        for j, c in enumerate(lst[-2::-1]):
            if way.get("abandon") == j + 1:
                ctx.fault("partial-sum-abandoned")
                raise Stop()
            acc = join(c, acc)
        return acc
    for j, x in enumerate(way["order"]):
        if len(lst) < 2:
            break
        if way.get("abandon") == j + 1:
            ctx.fault("partial-sum-abandoned")
            raise Stop()
        i = min(int(x * (len(lst) - 1)), len(lst) - 2)
        lst[i:i + 2] = [join(lst[i], lst[i + 1])]
    while len(lst) > 1:
        lst[0:2] = [join(lst[0], lst[1])]
    return lst[0]


def join(a, b):
    """a + b; two missing entries are one missing entry."""
    if not hasattr(a, "count_cycle") and not hasattr(b, "count_cycle"):
        return a
    return a + b
