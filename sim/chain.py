"""Histories of operations on counts, each count paired with its shadow.

`Chain.apply(op)` executes one planned operation on the library and on the
reference model and compares the two in the aspects the property speaks of.
Operations that do not apply are skipped, so any part of a plan is a plan."""
import json

from . import farm as F
from . import models as M
from .core import Violation
from .seams import quiet, stamp

CORRECTIONS = [
    ("DNVGL-RP-C203", {"detail_factor": 0.8}),
    ("dnvgl-rp-c203", {"detail_factor": 0.6}),
    ("Walker", {"gamma": 0.5}),
    ("walker", {"gamma": 0.75}),
    ("SWT", {}),
    ("smith-watson-topper", {}),
    ("DNVGL-RP-C203", {}),
    ("walker", {}),
]
NOT_COUNTS = ["string", "int", "float", "list", "dict", "array", "object", "no text", "no list", "no dict", "no array", "negative",
              "tiny", "infinite", "true", "zeros", "text 0", "text nan", "nans", "zero list", "table", "series", "class"]


def not_a_count(what):
    import numpy as np
    import pandas as pd

    return {"string": "window", "int": 3, "float": 2.5, "list": [1.0, 2.0], "dict": {"a": 1},
            "array": np.array([1.0, 2.0]), "object": object(), "no text": "", "no list": [], "no dict": {},
            "no array": np.empty(0), "negative": -1, "tiny": 1e-12, "infinite": float("inf"), "true": True,
            "zeros": np.zeros(2), "text 0": "0", "text nan": "nan", "nans": np.full(3, np.nan), "zero list": [0],
            "table": pd.DataFrame({"a": [0.0]}), "series": pd.Series([0.0, 0.0]), "class": type("CycleCounts", (), {})()}[what]


def raised(fn):
    """(result, exception) of a library call; only ordinary errors count."""
    try:
        with quiet():
            return fn(), None
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        return None, e


class Item:
    __slots__ = ("cc", "s", "fp", "fuzzy", "word", "data", "mixed", "lost")

    def __init__(self, cc, s, word):
        self.cc, self.s, self.word = cc, s, word
        self.fp = F.fingerprint(cc)
        self.fuzzy = False  # values no longer on the dyadic grid
        self.mixed = False  # contains corrected parts
        self.lost = False  # extremes per window no longer defined


class Chain:
    def __init__(self, ctx, aspects, windows):
        self.ctx, self.aspects = ctx, aspects
        self.windows = windows
        self.items = []

    # -- helpers ----------------------------------------------------------
    def pick(self, x):
        if not self.items:
            return None
        return self.items[min(int(x * len(self.items)), len(self.items) - 1)]

    def keep(self, item, where):
        self.verify(item, where)
        self.items.append(item)
        self.ctx.state(item.word)
        self.ctx.log(where, item.word, item.fp[:4])
        return item

    def verify(self, item, where):
        c, s = item.cc, item.s
        asp = self.aspects
        if item.fuzzy and "cycles" in asp:
            for half, name in ((False, "full-cycles"), (True, "half-cycles")):
                got = F._guard(M.triples)(c, half)
                src = s.half if half else s.full
                w = 0.5 if half else 1.0
                want = [(k[0] / M.GRID, k[1] / M.GRID, n * w) for k, n in src.items()]
                bad = M.close_multiset(got, want, lambda v: 2e-5 + 1e-8 * abs(v))
                self.ctx.check(bad is None, name, lambda: f"{where}: {name}: {bad}")
            s.full, s.half = F.spectrum(c)
            asp = tuple(a for a in asp if a != "cycles")
        if item.lost:
            asp = tuple(a for a in asp if a != "ext")
        F.compare(self.ctx, c, s, asp, where)

    def untouched(self, items, where):
        for it in items:
            fp = F.fingerprint(it.cc)
            self.ctx.check(F.same_fp(fp, it.fp), "operand-changed",
                           lambda: f"{where} changed its operand: {F.fp_diff(it.fp, fp)}")

    # -- operations -------------------------------------------------------
    def apply(self, op):
        return getattr(self, "op_" + op["op"])(op)

    def op_window(self, op):
        w = self.windows[min(int(op["i"] * len(self.windows)), len(self.windows) - 1)]
        cc, s = F.materialise(w)
        return self.keep(Item(cc, s, "w"), "window")

    @staticmethod
    def ordered(a, b):
        return a.times[-1] <= b.times[0]

    def addable(self, a, b, need_scf):
        return (a.s.unit == b.s.unit and self.ordered(a.s, b.s)
                and not (need_scf and abs(a.s.scf - b.s.scf) > 1e-12))

    def op_add(self, op, need_scf=True):
        a = self.pick(op["i"])
        if a is None:
            return None
        cand = [b for b in self.items if self.addable(a, b, need_scf)]
        if not cand:
            return None
        b = cand[min(int(op["j"] * len(cand)), len(cand) - 1)]
        return self.add(a, b)

    def add(self, a, b):
        with quiet():
            c = a.cc + b.cc
        it = Item(c, F.shadow_add(a.s, b.s), f"({a.word}+{b.word})")
        it.fuzzy = a.fuzzy or b.fuzzy
        it.mixed = a.mixed or b.mixed or a.s.label != "No" or b.s.label != "No"
        it.lost = a.lost or b.lost
        self.untouched([a, b], "adding")
        return self.keep(it, "add")

    def op_missing(self, op):
        a = self.pick(op["i"])
        if a is None:
            return None
        self.ctx.fault("missing-entry:" + op["what"])
        x = F.missing(op["what"])
        with quiet():
            c = a.cc + x if op["side"] == "r" else x + a.cc
        it = Item(c, a.s.copy(), a.word + "+0")
        it.fuzzy, it.mixed, it.lost = a.fuzzy, a.mixed, a.lost
        self.untouched([a], "adding a missing entry")
        # adding nothing changes nothing
        self.ctx.check(F.same_fp(it.fp, a.fp), "missing-entry-changed-total",
                       lambda: f"adding {op['what']} gave {F.fp_diff(a.fp, it.fp)}")
        return self.keep(it, "missing")

    def op_scale(self, op):
        a = self.pick(op["i"])
        if a is None or not 1 / 64 <= a.s.scf * op["k"] <= 64:
            return None
        k = op["k"]
        with quiet():
            c = a.cc * k if op["side"] == "r" else k * a.cc
        it = Item(c, F.shadow_scale(a.s, k), f"{a.word}*{k}")
        it.fuzzy, it.mixed, it.lost = a.fuzzy, a.mixed, a.lost
        self.untouched([a], "scaling")
        return self.keep(it, "scale")

    def op_solve(self, op):
        a = self.pick(op["i"])
        if a is None:
            return None
        mode = op["mode"]
        if a.fuzzy and not a.s.solved:
            # the model cannot close cycles on rounded values
            if len(a.s.res) >= 3:
                return None
        with quiet():
            c = a.cc.solve_lffd(solve_mode=mode)
        s = F.shadow_solve(a.s, mode)
        self.untouched([a], "recovering")
        if s is None:
            fp = F.fingerprint(c)
            self.ctx.check(F.same_fp(fp, a.fp), "recovery-not-idle",
                           lambda: f"recovering ({mode}) a count with nothing to recover changed it: {F.fp_diff(a.fp, fp)}")
            self.ctx.probe("nothing-to-recover")
            return None
        it = Item(c, s, f"{mode[0]}({a.word})")
        it.mixed = a.mixed
        it.lost = a.lost or mode.lower().startswith("min")
        self.ctx.probe("recovered-" + ("extremes" if mode.lower().startswith("min") else "residuals"))
        return self.keep(it, "solve")

    def op_correct(self, op):
        a = self.pick(op["i"])
        if a is None or a.mixed:
            return None
        kind, kw = op["kind"], dict(op["kw"])
        res, err = raised(lambda: a.cc.mean_stress_correction(
            kind, enforce_pulsating_load=op["enforce"], **kw))
        self.untouched([a], "correcting")
        if a.s.label != "No" and kind.lower() in ("dnvgl-rp-c203", "walker", "swt", "smith-watson-topper"):
            self.ctx.check(err is None, "second-correction-failed", f"correcting a corrected count raised {err!r}")
            fp = F.fingerprint(res)
            self.ctx.check(F.same_fp(fp, a.fp), "corrected-twice",
                           lambda: f"correcting a corrected count changed it: {F.fp_diff(a.fp, fp)}")
            self.ctx.probe("second-correction-refused")
            return None
        if op.get("bad"):
            self.ctx.fault("failing-correction")
            self.ctx.check(err is not None and isinstance(err, (ValueError, TypeError, AttributeError, KeyError)),
                           "bad-correction-accepted", f"{kind} {kw} was accepted")
            return None
        if a.fuzzy and not a.s.solved and len(a.s.res) >= 3:
            return None
        base = a.s if a.s.solved else (F.shadow_solve(a.s, "residuals") or a.s)
        zero = all(k[1] == 0 for c in (base.full, base.half) for k in c)
        if zero and not op["enforce"]:
            self.ctx.fault("failing-correction")
            self.ctx.check(isinstance(err, ValueError), "zero-means-corrected",
                           f"correcting zero means without enforcing pulsating load gave {err!r}")
            return None
        if err is not None:
            raise Violation("correction-failed", f"{kind} {kw} raised {type(err).__name__}: {err}")
        s = base.copy()
        s.full, s.half = self._correct(base.full, kind, kw, zero), self._correct(base.half, kind, kw, zero)
        s.label = str(res.mean_stress_corrected)
        self.ctx.check(s.label != "No", "not-labelled", f"a {kind} corrected count is labelled {s.label!r}")
        it = Item(res, s, f"C({a.word})")
        it.fuzzy, it.lost = True, True
        self.ctx.probe("corrected:" + kind.lower())
        return self.keep(it, "correct")

    @staticmethod
    def _correct(c, kind, kw, zero):
        from collections import Counter

        kind = kind.lower()
        f = kw.get("detail_factor") if kind.startswith("dnv") else kw.get("gamma")
        if f is None:
            f = 0.8 if kind.startswith("dnv") else 0.5
        out = Counter()
        for (r, m), n in c.items():
            r, m = r / M.GRID, m / M.GRID
            if zero:
                m = r / 2
            rc = M.corrected_range(kind, m, r, f)
            out[(M.q(rc), M.q(rc / 2) if kind.startswith("dnv") else 0)] += n
        return out

    def op_store(self, op):
        """Save as JSON text, crash, restore.  Only counts whose cycles sit on
        bin centres: the stored image is then exact."""
        import py_fatigue as pf

        a = self.pick(op["i"])
        if a is None or a.fuzzy or not self.exact(a.s):
            return None
        with quiet():
            text = json.dumps(a.cc.as_dict())
        self.untouched([a], "exporting")
        t = a.s.times[-1] if op["stamp"] == "last" else a.s.times[0]
        flag = a.s.solved and op["flag"]
        with quiet():
            c = pf.CycleCount.from_rainflow(json.loads(text), timestamp=t, name="strain", unit=a.s.unit,
                                            lffd_solved=flag, mean_stress_corrected=a.s.label)
        self.ctx.fault("crash-restore")
        s = a.s.copy()
        F.drop_small(s)
        s.times = [t]
        s.scf = 1.0
        s.solved = flag
        it = Item(c, s, f"R({a.word})")
        it.mixed, it.lost = a.mixed, True
        return self.keep(it, "store")

    @staticmethod
    def exact(s):
        """Do all full cycles lie on the centres of the count's own bins, and is
        anything above the threshold?"""
        lb, w, mlb, mw = M.q(s.rlb), M.q(s.rw), M.q(s.mlb), M.q(s.mw)
        if w != M.GRID or mw != M.GRID // 2 or lb not in (M.GRID // 2, 5 * M.GRID // 2):
            return False
        if not any(k[0] >= lb for c in (s.full, s.half) for k in c):
            return False
        if not any(k[0] >= lb for k in s.half):
            return False
        for k in s.full:
            if k[0] < lb:
                continue
            if (k[0] - lb - w // 2) % w or (k[1] - mlb - mw // 2) % mw or k[1] < mlb:
                return False
        return all(k[0] % (M.GRID // 16) == 0 and k[1] % (M.GRID // 16) == 0 for k in s.half) and \
            all(v % (M.GRID // 16) == 0 for v in s.res)


def gen_ops(rng, table, n, swarm=True):
    """n operations with swarm-chosen kinds."""
    from .core import weighted

    keep = {k: w for k, w in table.items() if not swarm or k in ("window", "add") or rng.random() < 0.75}
    ops = []
    for _ in range(n):
        k = weighted(rng, keep)
        op = {"op": k, "i": rng.random() if rng.random() < 0.5 else 1 - rng.random() ** 2 * 0.3 - 1e-9}
        if k == "add":
            op["j"] = rng.random()
        elif k == "missing":
            op.update(what=rng.choice(["None", "zero", "zerof", "nan"]), side=rng.choice("lr"))
        elif k == "scale":
            op.update(k=rng.choice([0.5, 2, 1.5, 0.25, 4.0, 1, 3.0, 2.0]), side=rng.choice("lr"))
        elif k == "solve":
            op["mode"] = rng.choice(["residuals", "Residuals", "Residuals"])
        elif k == "correct":
            kind, kw = rng.choice(CORRECTIONS)
            op.update(kind=kind, kw=kw, enforce=rng.random() < 0.3)
            if rng.random() < 0.2:
                op.pop("kw")
                kind, kw = rng.choice([("goodman", {}), ("DNVGL-RP-C203", {"detail_factor": 0.7}),
                                       ("dnvgl-rp-c203", {"detail_factor": 1.0})])
                op.update(kind=kind, kw=kw, bad=True)
        elif k == "store":
            op.update(stamp=rng.choice(["first", "last"]), flag=rng.random() < 0.5)
        ops.append(op)
    return ops


def simplify_windows(plan):
    """Shrink window data; used by the properties' simplify()."""
    ws = plan["windows"]
    for i, w in enumerate(ws):
        for j in range(len(w["data"])):
            d = w["data"][:j] + w["data"][j + 1:]
            if len(d) >= 2 and M.changes(d):
                yield dict(plan, windows=ws[:i] + [dict(w, data=d)] + ws[i + 1:])
    for i in range(len(ws)):
        if len(ws) > 1:
            yield dict(plan, windows=ws[:i] + ws[i + 1:])
