"""Storage chains: a running total that is exported, stored as text on a faulty
disk, lost in crashes, restored and added to.  Shared by C04 and C05."""
import json

from . import farm as F
from . import models as M
from .core import Violation, weighted
from .seams import quiet, stamp

SWELL = {"tol": 1.0, "exp": 5.0, "zeros": 10 ** 6, "dec": 4}


def gen_bins(rng, lim):
    lb = rng.choice([0.0, 0.2, 0.2, 0.5, 1.0, 2.5, 3.0, 5.0])
    return {"range_bin_lower_bound": lb,
            "range_bin_width": rng.choice([0.05, 0.25, 0.3, 0.7, 1.0, 1.0, 2.0, 5.0]),
            "mean_bin_lower_bound": rng.choice([None, None, -lim - 0.25, -lim - 3.3, float(-lim - 10)]),
            "mean_bin_width": rng.choice([10.0, 10.0, 0.7, 1.0, 5.0, 2.5])}


def gen_export(rng):
    return {"tol": rng.choice([1e-3, 1e-3, 0.0, 0.05, 0.3, 1.0]), "exp": rng.choice([5.0, 5.0, 3.0, 1.0, 4.2]),
            "zeros": rng.choice([0, 1, 8, 8, 40, 10 ** 6]), "dec": rng.choice([4, 4, 4, 3, 6])}


def gen_chain(rng, same_bins, table, legacy=True):
    """A chain on a record whose stress stays within its limits."""
    lim = rng.choice([24, 24, 6, 60])
    off, fac = rng.choice([(0, 1.0), (0, 1.0), (0, 0.25), (0.137, 1.0), (-40.5, 0.37), (100.3, 1.0), (0, 0.1), (0, 1 / 3)])
    top = abs(off) + lim * fac
    bins = gen_bins(rng, top)
    if rng.random() < 0.5:
        bins["mean_bin_lower_bound"] = None if not same_bins else -top - bins["mean_bin_width"] * rng.choice([1, 0.5, 0.25])
    if same_bins and bins["mean_bin_lower_bound"] is None:
        bins["mean_bin_lower_bound"] = float(-top - 1)
    t, gap = rng.randint(0, 10 ** 6), rng.choice([60, 600, 86400])
    wins = []
    for _ in range(rng.randint(1, 7)):
        big = rng.random() < 0.05
        d = F.changing(rng, F.signal(rng, rng.randint(60, 300) if big else rng.randint(2, 24), lim=lim))
        wins.append({"data": [round(v * fac + off, 9) for v in d], "t": t,
                     "bins": bins if same_bins or rng.random() < 0.7 else gen_bins(rng, top)})
        t += gap
    if rng.random() < 0.35:
        # loggers that send binned records instead of samples
        share = rng.choice([0.3, 1.0])
        for w in wins:
            if rng.random() < share:
                w["record"] = dict(gen_export(rng), legacy=False, clock=rng.choice([None, None, "array", "list"]),
                                   form=rng.choice([None, "list", "readonly", "strided"]))
    ops = []
    for _ in range(rng.randint(2, 14)):
        k = weighted(rng, table)
        op = {"op": k}
        if k in ("save", "reload"):
            op.update(gen_export(rng), legacy=legacy and rng.random() < 0.15,
                      fault=rng.choice([None, None, None, "torn", "lost", "flip", "full"]) if k == "save" else None)
        elif k == "swell":
            op["k"] = rng.choice([2, 10, 130, 300, 300, 300, 1000, 3000 if rng.random() < 0.9 else 70000])
        elif k == "scale":
            op["k"] = rng.choice([0.5, 2.0, 1.25, 3.0, 1 / 3, 0.37123])
        elif k == "correct":
            op["kind"], op["kw"] = rng.choice([("DNVGL-RP-C203", {"detail_factor": 0.8}),
                                               ("DNVGL-RP-C203", {"detail_factor": 0.6}),
                                               ("walker", {"gamma": 0.5}), ("swt", {})])
        ops.append(op)
    old = {}
    if rng.random() < 0.25:
        if rng.random() < 0.7:
            old.update(range_bin_lower_bound="bin_lb", range_bin_width="bin_width")
        if not old or rng.random() < 0.5:
            old["nr_small_cycles"] = "no_sm_c"
    return {"windows": wins, "ops": ops, "old_names": old}


def simplify(plan):
    ws = plan["windows"]
    if plan.get("old_names"):
        yield dict(plan, old_names={})
    for i, w in enumerate(ws):
        if w.get("record"):
            yield dict(plan, windows=ws[:i] + [{k: v for k, v in w.items() if k != "record"}] + ws[i + 1:])
        for j in range(len(w["data"])):
            d = w["data"][:j] + w["data"][j + 1:]
            if len(d) >= 2 and M.changes(d):
                yield dict(plan, windows=ws[:i] + [dict(w, data=d)] + ws[i + 1:])
    for i in range(len(ws)):
        if len(ws) > 1:
            yield dict(plan, windows=ws[:i] + ws[i + 1:])


def entries(cc):
    """((full: range, mean, n), (half: range, mean)) as the count lists them."""
    full = [(float(r), float(m), int(round(n))) for r, m, n in F._guard(M.triples)(cc, False)]
    half = [(float(r), float(m)) for r, m, _n in F._guard(M.triples)(cc, True)]
    return full, half


def storable(cc):
    """Is anything above the threshold?  A record of small cycles only is
    refused by the loader; the aggregator does not store it."""
    lb = float(cc.range_bin_lower_bound)
    full, half = entries(cc)
    return any(r >= lb for r, _m, _n in full) or any(r >= lb for r, _m in half)


def binned_record(data, op, bins):
    """The record of a window, straight from its samples."""
    import inspect

    import numpy as np
    from py_fatigue.cycle_count.histogram import binned_rainflow

    kw = dict(bins, damage_tolerance_for_binning=op["tol"], damage_exponent=op["exp"], round_decimals=op["dec"])
    gap = [p for p in inspect.signature(binned_rainflow).parameters if p.startswith("max_cons")]
    if gap:
        kw[gap[0]] = op["zeros"]
    if op["clock"]:
        kw["time"] = [0.25 * i for i in range(len(data))]
        if op["clock"] == "array":
            kw["time"] = np.array(kw["time"])
    with quiet():
        d = binned_rainflow(F.as_given(data, op["form"]), **kw)
    return d


class Chain:
    """The aggregator: one running total, its checkpoints, its windows."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.disk = F.Disk(ctx)
        self.wins = plan["windows"]
        self.total, self.upto = None, 0
        self.gen = 0          # storage generations of the oldest part
        self.tol = 0.0        # rounding collected so far
        self.clean = True     # no recovery, scaling or correction so far
        self.corrected = False
        self.legacy = False
        self.direct = None    # the window whose record is judged
        self.on_save = None
        self.old_names = plan.get("old_names", {})

    # -- the machinery of the aggregator ---------------------------------
    def take(self):
        if self.upto >= len(self.wins):
            return False
        w = self.wins[self.upto]
        b = {k: v for k, v in w["bins"].items() if v is not None}
        cc = F.count_window(w["data"], w["t"], bins=b)
        if w.get("record") and storable(cc):
            cc = self.recorded(w, cc)
        if self.total is None:
            self.total = cc
        else:
            with quiet():
                self.total = self.total + cc
        self.upto += 1
        self.ctx.log("window", w["t"], F.fingerprint(self.total)[:4])
        return True

    def recorded(self, w, cc):
        """The window as its logger sent it: a binned record, no samples."""
        op = w["record"]
        b = {k: v for k, v in w["bins"].items() if v is not None}
        text = json.dumps(binned_record(w["data"], op, b), default=lambda x: x.tolist())
        total, self.total = self.total, None
        back = self.load(text, op["dec"], w["t"])
        self.total = total
        self.direct = w
        self.on_save(self, op, cc, back)
        self.direct = None
        self.tol += 10.0 ** -op["dec"]
        self.ctx.probe("recorded-window")
        return back

    def export(self, op):
        before = F.fingerprint(self.total)
        with quiet():
            d = self.total.as_dict(damage_tolerance_for_binning=op["tol"], damage_exponent=op["exp"],
                                   max_consecutive_zeros=op["zeros"], round_decimals=op["dec"],
                                   legacy_export=op["legacy"])
        after = F.fingerprint(self.total)
        self.ctx.check(F.same_fp(before, after), "export-changed-count",
                       lambda: f"exporting changed the count: {F.fp_diff(before, after)}")
        try:
            # records of an older release have other field names
            return json.dumps({self.old_names.get(k, k): v for k, v in d.items()})
        except (TypeError, ValueError) as e:
            raise Violation("record-not-plain", f"the exported record is not plain JSON: {e}") from e

    def load(self, text_or_dict, dec, t=None):
        import py_fatigue as pf

        d = json.loads(text_or_dict) if isinstance(text_or_dict, str) else text_or_dict
        with quiet():
            return pf.CycleCount.from_rainflow(
                d, timestamp=stamp(self.wins[0]["t"] if t is None else t), round_decimals=dec, name="strain",
                unit="MPa", lffd_solved=bool(self.total.lffd_solved) if self.total is not None else False,
                mean_stress_corrected=str(self.total.mean_stress_corrected) if self.total is not None else "No")


    # -- running ---------------------------------------------------------
    def run(self, on_save):
        """on_save(chain, op, before, restored) judges one storage generation."""
        self.on_save = on_save
        self.take()
        for op in self.plan["ops"]:
            k = op["op"]
            if k == "add":
                self.take()
            elif k in ("save", "reload"):
                if not storable(self.total):
                    continue
                self.gen += 1
                text = self.export(op)
                back = self.load(text, op["dec"])
                # loading it again, from text or from the very same dict
                d = json.loads(text)
                first, again = self.load(d, op["dec"]), self.load(d, op["dec"])
                for other in (first, again):
                    a, b = F.fingerprint(back), F.fingerprint(other)
                    self.ctx.check(F.same_fp(a, b), "loads-differ",
                                   lambda: f"two loads of one record differ: {F.fp_diff(a, b)}")
                    self.ctx.check(back == other, "loads-not-equal", "two loads of one record do not compare equal")
                on_save(self, op, self.total, back)
                self.ctx.probe("generation")
                self.ctx.log("save", len(text), F.fingerprint(back)[:4])
                if k == "reload":
                    self.ctx.fault("crash-restore")
                    self.restored(back, op)
                else:
                    self.disk.write(f"ck{self.upto}", F.seal(
                        {"text": text, "upto": self.upto, "dec": op["dec"], "legacy": op["legacy"],
                         "state": [self.gen, self.tol, self.clean, self.legacy]}), op["fault"])
            elif k == "swell":
                # a long record: the same cycles, many times over
                d = json.loads(self.export(dict(SWELL, legacy=False)))
                h = d.get("hist") or []
                n = sum(sum(x) if isinstance(x, list) else x for x in h)
                if not n or not storable(self.total) or not all(isinstance(x, list) for x in h) or n * op["k"] > 2e5:
                    continue
                d["hist"] = [[v * op["k"] for v in x] for x in h]
                self.total = self.load(d, 4)
                self.clean = False
                self.ctx.probe("many-cycles-per-row")
            elif k == "crash":
                self.ctx.fault("crash")
                self.crash()
            elif k == "solve":
                if len(F.residuals(self.total) or ()) >= 3:
                    with quiet():
                        self.total = self.total.solve_lffd()
                    self.clean = False
            elif k == "scale":
                with quiet():
                    self.total = self.total * op["k"]
                self.clean = False
            elif k == "correct":
                # a sum with corrected parts is not corrected again: adding
                # loses the label, and the aggregator knows it
                if not self.corrected and any(
                        m for _r, m, _n in entries(self.total)[0]) and any(m for _r, m in entries(self.total)[1]):
                    with quiet():
                        self.total = self.total.mean_stress_correction(op["kind"], **op["kw"])
                    self.clean = False
                    self.corrected = True
            self.ctx.state(self.gen, self.upto, k, self.clean, self.legacy, len(entries(self.total)[0]))

    def restored(self, back, op):
        self.total = back
        self.tol += 10.0 ** -op["dec"]
        self.legacy = self.legacy or op["legacy"]

    def crash(self):
        """Everything in memory is gone; take the newest readable checkpoint."""
        for k in range(len(self.wins), 0, -1):
            rec = F.unseal(self.disk.read(f"ck{k}"))
            if rec is None:
                continue
            self.total = None
            self.total = self.load(rec["text"], rec["dec"])
            self.upto = rec["upto"]
            self.gen, self.tol, self.clean, self.legacy = rec["state"]
            self.tol += 10.0 ** -rec["dec"]
            self.legacy = self.legacy or rec["legacy"]
            self.ctx.probe("restored-checkpoint")
            return
        self.total, self.upto = None, 0
        self.gen, self.tol, self.clean, self.legacy = 0, 0.0, True, False
        self.take()
