"""C03: unusable windows are refused and leave the running total untouched."""
import json

from .. import chain as C
from .. import farm as F
from .. import models as M
from ..core import weighted
from ..seams import quiet, seconds, stamp

RUNS = {"quick": 14000, "thorough": 180000}
JIT_WORKERS = (7,)
LISTS = ("ops",)
RULE = ("one run = a running total fed by loggers with skewed clocks over a faulty network, transformed by analysts "
        "(scaled, recovered, corrected, saved and restored) between deliveries; non-trivial if at least one unusable "
        "and one usable delivery was offered to a total of two or more windows; distinct by event-log digest")
STATES = "hash of (operation word of the total, kind of delivery offered)"
REAL = ["CycleCount addition and its checks", "rainflow NaN check", "record field check"]
STUB = ["loggers and clocks", "network", "disk", "numba compilation in 7 of 8 workers"]
ASPECTS = ("cycles", "res", "unit", "times")
UNITS = ("MPa", "kPa", "ksi")


def gen(rng, tier, idx):
    wins = F.gen_windows(rng, rng.randint(2, 8), size=(2, 10), stored=rng.choice([0, 0, 0.3]), nores=0.4, zones=0.15, units=UNITS)
    ops = []
    faults = [k for k in ("late", "duplicate", "foreign", "notcount", "nan", "record", "left") if rng.random() < 0.6]
    hist = [k for k in ("scale", "solve", "correct", "store", "missing") if rng.random() < 0.5]
    for i in range(len(wins)):
        ops.append({"op": "good", "w": i})
        for _ in range(rng.randint(0, 2)):
            if hist and rng.random() < 0.5:
                ops += history(rng, rng.choice(hist))
            if faults and rng.random() < 0.7:
                ops.append(offer(rng, rng.choice(faults), i, len(wins), wins))
    return {"windows": wins, "ops": ops}


def history(rng, k):
    return C.gen_ops(rng, {k: 1.0}, 1, swarm=False)


def offer(rng, k, i, n, wins):
    op = {"op": k, "seed": rng.randrange(1 << 30)}
    if k == "late":
        # a clock jump: the window is stamped before the end of the total
        op["back"] = rng.choice([1, 1, 60, 3600, 86400 * 400, 0.001, 1e-6])
        op["w"] = rng.randrange(n)
    elif k == "duplicate":
        op["w"] = rng.randint(0, i)
    elif k == "foreign":
        op["w"] = rng.randrange(n)
        op["unit"] = rng.choice(["MPa", "kPa", "ksi", "mpa", "", "MPa ", "Pa"])
    elif k == "notcount":
        op["what"] = rng.choice(C.NOT_COUNTS)
    elif k == "nan":
        op["w"] = rng.randrange(n)
        op["pos"] = [rng.random() for _ in range(rng.randint(1, 3))]
        op["how"] = rng.choice(["array", "list"])
    elif k == "record":
        op["w"] = rng.randrange(n)
        op["bad"] = rng.choice(["unknown", "renamed", "both"])
        op["twice"] = rng.choice([["bin_lb", "bin_width"], ["bin_lb"], ["bin_width"], ["no_sm_c"], list(OLD_FIELDS)])
        op["off"] = rng.choice([0, 0.5, 1])
        op["key"] = rng.choice(["hists", "resid", "unit", "timestamp", "lg-c", "Hist", "name", "scf"]) \
            if rng.random() < 0.4 else misspell(rng)
    elif k == "left":
        op["w"] = rng.randint(0, i)  # total offered to an older window
    return op


simplify = C.simplify_windows
KNOWN_FIELDS = ("bin_lb", "range_bin_lower_bound", "bin_width", "range_bin_width", "mean_bin_lower_bound", "mean_bin_width",
                "res", "no_sm_c", "nr_small_cycles", "res_sig", "hist", "lg_c", "as_dur")

OLD_FIELDS = {"bin_lb": "range_bin_lower_bound", "bin_width": "range_bin_width", "no_sm_c": "nr_small_cycles"}


def misspell(rng):
    """A field name that is almost a known one."""
    while True:
        k = rng.choice(KNOWN_FIELDS)
        i = rng.randrange(len(k))
        k = rng.choice([k[:i] + k[i + 1:], k[:i] + rng.choice("abcdfx_ ") + k[i:], k.upper(), k.title(), k + "s", "_" + k, k + "_",
                        k + "_2", "x_" + k, k.replace("_", "-"), k.replace("_", ""), k + " ", k[:i], k[i:], k + "_dur", "range_" + k, "res_" + k])
        if k not in KNOWN_FIELDS:
            return k


class Feed(C.Chain):
    """One running total (the last item)."""

    def total(self):
        return self.items[-1] if self.items else None

    def pick(self, x):
        return self.total()

    def op_good(self, op):
        if op["w"] >= len(self.windows):
            return None
        w = self.windows[op["w"]]
        cc, s = F.materialise(w)
        item = C.Item(cc, s, "w")
        tot = self.total()
        if tot is None:
            return self.keep(item, "first window")
        if not (tot.s.unit == s.unit and self.ordered(tot.s, s)):
            return None
        self.accepted += 1
        return self.add(tot, item)

    def refuse(self, tot, other, what, left=False):
        """Adding must raise a type error and change nothing."""
        fp_o = F.fingerprint(other) if hasattr(other, "count_cycle") else None
        res, err = C.raised(lambda: (other + tot.cc) if left else (tot.cc + other))
        self.ctx.fault("offered-" + what)
        self.refused += 1
        self.ctx.state(tot.word, what)
        self.ctx.check(isinstance(err, TypeError), "not-refused",
                       lambda: f"{what}: adding it to {tot.word} gave {'a result' if err is None else repr(err)}")
        self.untouched([tot], "refusing " + what)
        if fp_o is not None:
            fp = F.fingerprint(other)
            self.ctx.check(F.same_fp(fp, fp_o), "operand-changed",
                           lambda: f"refusing {what} changed it: {F.fp_diff(fp_o, fp)}")
        self.ctx.log("refused", what, type(err).__name__)

    def offer_count(self, cc, s, what):
        tot = self.total()
        if tot is None:
            return None
        item = C.Item(cc, s, "w")
        if tot.s.unit == s.unit and self.ordered(tot.s, s):
            # usable after all (e.g. duplicate of the newest window): accepted
            self.accepted += 1
            return self.add(tot, item)
        self.refuse(tot, cc, what)
        return None

    def op_late(self, op):
        tot = self.total()
        if tot is None or op["w"] >= len(self.windows):
            return None
        w = dict(self.windows[op["w"]])
        w["t"] = seconds(tot.s.times[-1]) - op["back"]
        w["unit"] = tot.s.unit
        cc, s = F.materialise(w)
        return self.offer_count(cc, s, "late-window")

    def op_duplicate(self, op):
        if op["w"] >= len(self.windows):
            return None
        cc, s = F.materialise(self.windows[op["w"]])
        return self.offer_count(cc, s, "duplicate-window")

    def op_foreign(self, op):
        tot = self.total()
        if tot is None or op["w"] >= len(self.windows):
            return None
        w = dict(self.windows[op["w"]], unit=op["unit"])
        cc, s = F.materialise(w)
        if op["unit"] == tot.s.unit:
            return self.offer_count(cc, s, "late-window")
        self.refuse(tot, cc, "foreign-unit")
        self.refuse(tot, cc, "foreign-unit-left", left=True)
        return None

    def op_left(self, op):
        """The total arrives where an older window is waiting for younger ones
        (wrong side): a total that begins before the window ends is refused."""
        tot = self.total()
        if tot is None or op["w"] >= len(self.windows):
            return None
        cc, s = F.materialise(self.windows[op["w"]])
        if s.unit == tot.s.unit and self.ordered(s, tot.s):
            return None
        self.refuse(tot, cc, "total-on-the-wrong-side", left=True)
        return None

    def op_notcount(self, op):
        tot = self.total()
        if tot is None:
            return None
        self.refuse(tot, C.not_a_count(op["what"]), "not-a-count:" + op["what"])
        return None

    def op_nan(self, op):
        if op["w"] >= len(self.windows):
            return None
        import numpy as np
        import py_fatigue as pf

        w = self.windows[op["w"]]
        data = list(w["data"])
        for x in op["pos"]:
            data[min(int(x * len(data)), len(data) - 1)] = float("nan")
        arg = np.array(data) if op["how"] == "array" else data
        res, err = C.raised(lambda: pf.CycleCount.from_timeseries(
            arg, timestamp=stamp(w["t"], w["utc"]), name="strain", unit=w["unit"]))
        self.ctx.fault("nan-samples")
        self.refused += 1
        self.ctx.check(err is not None, "nan-window-counted", lambda: f"window {data} was counted: {F.fingerprint(res)[:3]}")
        if self.total() is not None:
            self.untouched([self.total()], "a NaN window")
        return None

    def op_record(self, op):
        if op["w"] >= len(self.windows):
            return None
        import py_fatigue as pf

        w = dict(self.windows[op["w"]])
        w["bins"] = "exact"
        cc, s = F.materialise(w)
        with quiet():
            rec = json.loads(json.dumps(cc.as_dict()))
        if op["bad"] == "unknown":
            rec[op["key"]] = 1.0
        elif op["bad"] == "renamed":
            rec[op["key"]] = rec.pop("hist", [])
        else:
            # old and new name of one field side by side
            for old in op["twice"]:
                rec[old] = rec[OLD_FIELDS[old]] + op["off"]
        res, err = C.raised(lambda: pf.CycleCount.from_rainflow(rec, timestamp=stamp(w["t"], w["utc"])))
        self.ctx.fault("corrupt-record:" + op["bad"])
        self.refused += 1
        self.ctx.check(err is not None, "corrupt-record-accepted",
                       lambda: f"record with fields {sorted(rec)} was accepted: {F.fingerprint(res)[:3]}")
        if self.total() is not None:
            self.untouched([self.total()], "a corrupt record")
        return None


def execute(plan, ctx):
    ch = Feed(ctx, ASPECTS, plan["windows"])
    ch.accepted = ch.refused = 0
    for op in plan["ops"]:
        ch.apply(op)
    ch.untouched(ch.items, "the history")
    ts = [w["t"] for w in plan["windows"]] or [0]
    ctx.sim_s += max(ts) - min(ts)
    ctx.nontrivial = ch.accepted > 0 and ch.refused > 0
