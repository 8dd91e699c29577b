"""C05: damage-critical cycles survive storage exactly, the others stay in their bin."""
import math

from .. import farm as F
from .. import store as S

RUNS = {"quick": 9000, "thorough": 160000}
JIT_WORKERS = (7,)
LISTS = ("ops",)
RULE = ("one run = a running total with fixed bins that is exported with varying tolerance, exponent, gap and rounding, "
        "stored on a faulty disk, lost in crashes, restored and added to over several generations; non-trivial if a "
        "generation held both a cycle that must survive exactly and one that may be binned, or a second generation "
        "was judged; distinct by event-log digest")
STATES = "hash of (generation, windows in, operation, history flags, full cycles) after each step"
REAL = ["as_dict and rainflow binner", "from_rainflow", "CycleCount addition"]
STUB = ["loggers and clocks", "disk", "process crash", "numba compilation in 7 of 8 workers"]
simplify = S.simplify


def gen(rng, tier, idx):
    table = {"add": 5, "save": 3, "reload": 5}
    if rng.random() < 0.5:
        table["crash"] = 2
    return S.gen_chain(rng, True, table, legacy=False)


class Chain(S.Chain):
    """Also remembers the true full cycles of the windows in the total."""

    def truth(self):
        out = []
        for w in [self.direct] if self.direct else self.wins[: self.upto]:
            b = {k: v for k, v in w["bins"].items() if v is not None}
            cc = F.count_window(w["data"], w["t"], bins=b)
            lb = float(cc.range_bin_lower_bound)
            for r, m, n in S.entries(cc)[0]:
                if r >= lb:
                    out += [(r, m)] * n
        return out


def execute(plan, ctx):
    ch = Chain(plan, ctx)
    seen = [0]
    ch.run(lambda c, op, before, back: judge(ctx, c, op, before, back, seen))
    if plan["windows"]:
        ctx.sim_s += plan["windows"][-1]["t"] - plan["windows"][0]["t"]
    ctx.nontrivial = seen[0] > 0


def centres(v, lb, w):
    """Centres of the bins v may belong to (two when it sits on an edge)."""
    x = (v - lb) / w
    k = max(0, math.ceil(x) - 1)
    out = [lb + (k + 0.5) * w]
    if abs(x - round(x)) * w < 2e-5:
        out += [lb + (round(x) + 0.5) * w, lb + (max(0, round(x) - 1) + 0.5) * w]
    return out


def judge(ctx, ch, op, before, back, seen):
    rnd = 0.5 * 10.0 ** -op["dec"] + 1e-9
    lb, w, mw = float(before.range_bin_lower_bound), float(before.range_bin_width), float(before.mean_bin_width)
    f0 = [(r, m) for r, m, n in S.entries(before)[0] for _ in range(n) if r >= lb]
    f1 = [(r, m) for r, m, n in S.entries(back)[0] for _ in range(n)]
    ctx.check(len(f0) == len(f1), "number-of-full-cycles", f"{len(f0)} full cycles went in, {len(f1)} came back")
    if not f0:
        return
    top = max(r for r, _m in f0) ** op["exp"]
    tol = op["tol"]
    exact = []
    for r, m in f0:
        d = r ** op["exp"]
        crit = d > 0 and d / top > tol * (1 + 1e-6) + 1e-12 and all(
            abs(d - c ** op["exp"]) / d > tol * (1 + 1e-4) + 1e-6 for c in centres(r, lb, w))
        exact.append(crit)
    hw, hm = w / 2 + rnd + 2e-5, mw / 2 + rnd + 2e-5

    def fits(i, j):
        (r, m), (x, y) = f0[i], f1[j]
        if exact[i]:
            return abs(r - x) <= rnd and abs(m - y) <= rnd
        return abs(r - x) <= hw and abs(m - y) <= hm

    i = unmatched(len(f0), len(f1), fits)
    where = f"generation {ch.gen}, tolerance {tol}, exponent {op['exp']}"
    if i is not None:
        kind = "critical-cycle-not-exact" if exact[i] else "cycle-left-its-bin"
        ctx.check(False, kind, f"{where}: full cycle (range {f0[i][0]}, mean {f0[i][1]}) has no image among "
                  f"{sorted(f1)[:20]}")
    ctx.check(True, "generation")
    # against the windows themselves: no drift over the generations
    t = ch.truth()
    ctx.check(len(t) == len(f1), "cycles-over-generations", f"{where}: the windows have {len(t)} full cycles, the record {len(f1)}")
    far_r, far_m = w / 2 + ch.tol + rnd + 4e-5, mw / 2 + ch.tol + rnd + 4e-5
    i = unmatched(len(t), len(f1), lambda a, b: abs(t[a][0] - f1[b][0]) <= far_r and abs(t[a][1] - f1[b][1]) <= far_m)
    ctx.check(i is None, "cycle-drifted",
              lambda: f"{where}: full cycle (range {t[i][0]}, mean {t[i][1]}) of the windows has no image within half a "
              f"bin ({w / 2}, {mw / 2}) among {sorted(f1)[:20]}")
    ctx.probe("must-be-exact" if all(exact) else "mixed" if any(exact) else "may-be-binned")
    if (any(exact) and not all(exact)) or ch.gen > 1:
        seen[0] += 1


def unmatched(n, m, fits):
    """An index of the left side that cannot be matched one to one, or None."""
    owner = [None] * m
    adj = {}

    def edges(i):
        if i not in adj:
            adj[i] = [j for j in range(m) if fits(i, j)]
        return adj[i]

    for start in range(n):
        # breadth-first search for an augmenting path
        parent, queue, end = {}, [start], None
        while queue and end is None:
            i = queue.pop(0)
            for j in edges(i):
                if j in parent:
                    continue
                parent[j] = i
                if owner[j] is None:
                    end = j
                    break
                queue.append(owner[j])
        if end is None:
            return start
        j = end
        while True:
            i = parent[j]
            nxt = next((k for k, o in enumerate(owner) if o == i), None)
            owner[j] = i
            if i == start:
                break
            j = nxt
    return None
