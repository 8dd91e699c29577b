"""World A: the monitoring farm.

Signals, windows and the simulated surroundings (logger clocks, network, disk),
plus a library count paired with its shadow, the reference model's idea of it."""
import json
import math
from collections import Counter

from . import models as M
from .core import Violation
from .seams import quiet, stamp

NAN = float("nan")


# ---------------------------------------------------------------- signals
def signal(rng, n, style=None, lim=24, step=1.0):
    """A stress record of n samples on a dyadic grid of the given step."""
    style = style or rng.choice(
        ["noise", "walk", "saw", "two", "plateau", "spike", "few", "drift", "decay", "grow"])
    k = int(lim / step)
    out = []
    if style == "noise":
        out = [rng.randint(-k, k) for _ in range(n)]
    elif style == "few":
        lv = [rng.randint(-k, k) for _ in range(rng.randint(2, 4))]
        out = [rng.choice(lv) for _ in range(n)]
    elif style == "walk":
        v = rng.randint(-k // 2, k // 2)
        for _ in range(n):
            v = max(-k, min(k, v + rng.randint(-6, 6)))
            out.append(v)
    elif style == "saw":
        p = rng.randint(2, 7)
        out = [((i * rng.choice([1, 1, 2])) % p) * max(1, k // p) for i in range(n)]
    elif style == "two":
        p = rng.randint(max(3, n // 3), n + 2)
        out = [int(0.6 * k * math.sin(2 * math.pi * i / p)) + rng.randint(-k // 3, k // 3) for i in range(n)]
    elif style == "plateau":
        v = rng.randint(-k, k)
        while len(out) < n:
            out += [v] * rng.randint(1, 4)
            v = rng.randint(-k, k)
        out = out[:n]
    elif style == "spike":
        out = [rng.randint(-2, 2) for _ in range(n)]
        for _ in range(rng.randint(1, 3)):
            out[rng.randrange(n)] = rng.choice([-k, k])
    elif style == "drift":
        out = [int(-k + 2 * k * i / max(1, n - 1)) + rng.randint(-3, 3) for i in range(n)]
    elif style == "decay":
        out = [int((k - k * i / n) * (1 if i % 2 else -1)) for i in range(n)]
    else:
        out = [int((k * (i + 1) / n) * (1 if i % 2 else -1)) for i in range(n)]
    return [max(-k, min(k, v)) * step for v in out]


def changing(rng, sig, step=1.0):
    """Make sure that the stress changes somewhere in the window."""
    if len(sig) < 2:
        sig = sig + [0.0] * (2 - len(sig))
    if not M.changes(sig):
        sig = list(sig)
        d = step * rng.choice([1, 2, 3])
        sig[rng.randrange(len(sig))] += d if sig[0] <= 0 else -d
    return sig


def cut(rng, sig, n_windows):
    """Cut into consecutive windows, in each of which the stress changes.
    Falls back to fewer windows where the record does not change enough."""
    pts = sorted(rng.sample(range(1, len(sig)), min(n_windows - 1, len(sig) - 1))) if n_windows > 1 else []
    out, a = [], 0
    for b in pts + [len(sig)]:
        w = sig[a:b]
        if len(w) >= 2 and M.changes(w):
            out.append(w)
            a = b
    rest = sig[a:]
    if rest:
        if out:
            out[-1] = out[-1] + rest
        else:
            out = [rest]
    return out


# ----------------------------------------------------------------- windows
def as_given(data, form=None):
    """The samples in the form the caller has them in."""
    import numpy as np

    if form == "list":
        return list(data)
    a = np.array(data, dtype=float)
    if form == "int" and np.all(a == np.round(a)):
        return a.astype(int)
    if form == "f32":
        return a.astype(np.float32)
    if form == "strided":
        b = np.full(2 * len(a), 1e6)
        b[::2] = a
        return b[::2]
    if form == "backwards":
        return a[::-1].copy()[::-1]
    if form == "readonly":
        a.flags.writeable = False
    return a


def count_window(data, t, unit="MPa", bins=None, name="strain", utc=False, form=None):
    import py_fatigue as pf

    kw = {}
    if bins:
        kw = {k: bins[k] for k in ("range_bin_lower_bound", "range_bin_width",
                                   "mean_bin_lower_bound", "mean_bin_width") if k in bins}
    with quiet():
        return pf.CycleCount.from_timeseries(
            as_given(data, form), timestamp=stamp(t, utc), name=name, unit=unit, **kw)


def missing(what):
    return {"None": None, "zero": 0, "zerof": 0.0, "nan": NAN}[what]


# -------------------------------------------------------------- observation
def _guard(fn):
    def inner(*a, **k):
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:  # pylint: disable=broad-except
            raise Violation("unreadable-count", f"reading a count failed: {type(e).__name__}: {e}") from e

    return inner


def _arr(x):
    import numpy as np

    if x is None:
        return None
    return tuple(float(v) for v in np.atleast_1d(np.asarray(x, dtype=float)).ravel())


@_guard
def times(cc):
    import numpy as np

    return [t for t in np.atleast_1d(np.asarray(cc.time_sequence)).ravel().tolist()]


@_guard
def fingerprint(cc):
    """Everything a user can read off a count, as plain values."""
    if not hasattr(cc, "count_cycle"):
        return ("other", repr(cc))
    return (
        _arr(cc.count_cycle), _arr(cc.stress_range), _arr(cc.mean_stress),
        _arr(cc.residuals_sequence), _arr(cc.min_max_sequence), float(cc.nr_small_cycles),
        cc.unit, float(cc.stress_concentration_factor), tuple(map(str, times(cc))), str(cc.timestamp),
        float(cc.range_bin_lower_bound), float(cc.range_bin_width),
        None if cc.mean_bin_lower_bound is None else float(cc.mean_bin_lower_bound),
        None if cc.mean_bin_width is None else float(cc.mean_bin_width),
        bool(cc.lffd_solved), str(cc.mean_stress_corrected), cc.name,
    )


FIELDS = ("count_cycle", "stress_range", "mean_stress", "residuals_sequence", "min_max_sequence",
          "nr_small_cycles", "unit", "stress_concentration_factor", "time_sequence", "timestamp",
          "range_bin_lower_bound", "range_bin_width", "mean_bin_lower_bound", "mean_bin_width",
          "lffd_solved", "mean_stress_corrected", "name")


def fp_diff(a, b):
    return [f"{n}: {x!r} -> {y!r}"[:200] for n, x, y in zip(FIELDS, a, b) if x != y]


def same_fp(a, b):
    return repr(a) == repr(b)  # repr: NaN equals itself


@_guard
def spectrum(cc):
    return M.spectrum(cc)


@_guard
def residuals(cc):
    return M.residuals(cc)


# ------------------------------------------------------------------- shadow
class Shadow:
    """The reference model's idea of one count."""

    __slots__ = ("full", "half", "res", "small", "unit", "times", "scf", "rlb", "rw", "mlb", "mw",
                 "ext", "solved", "label")

    def copy(self):
        s = Shadow()
        for k in self.__slots__:
            v = getattr(self, k)
            s_v = v.copy() if isinstance(v, (list, Counter)) else v
            setattr(s, k, s_v)
        return s


def shadow_window(data, t, unit, cc, utc=False):
    """Model of a freshly counted window; bin geometry is what the count says
    (it is the starting point of the bookkeeping, not a result)."""
    full, half, res = M.rainflow(data)
    s = Shadow()
    s.full, s.half = M.as_counter(full), M.as_counter(half)
    s.res = [M.q(v) for v in res]
    s.small = 0
    s.unit = unit
    s.times = [stamp(t, utc)]
    s.scf = 1.0
    s.rlb, s.rw = float(cc.range_bin_lower_bound), float(cc.range_bin_width)
    s.mlb, s.mw = float(cc.mean_bin_lower_bound), float(cc.mean_bin_width)
    s.ext = [min(s.res), max(s.res)]
    s.solved, s.label = False, "No"
    return s


def shadow_add(a, b):
    s = Shadow()
    s.full, s.half = a.full + b.full, a.half + b.half
    s.res = a.res + b.res
    s.small = a.small + b.small
    s.unit = a.unit
    s.times = sorted(set(a.times) | set(b.times))
    s.scf = (a.scf + b.scf) / 2
    s.rlb, s.rw = min(a.rlb, b.rlb), max(a.rw, b.rw)
    s.mlb, s.mw = min(a.mlb, b.mlb), max(a.mw, b.mw)
    s.ext = a.ext + b.ext
    s.solved, s.label = False, "No"
    return s


def _scale_counter(c, k):
    out = Counter()
    for (r, m), n in c.items():
        out[(int(round(r * k)), int(round(m * k)))] += n
    return out


def shadow_scale(a, k):
    s = a.copy()
    s.full, s.half = _scale_counter(a.full, k), _scale_counter(a.half, k)
    s.res = [int(round(v * k)) for v in a.res]
    s.ext = [int(round(v * k)) for v in a.ext]
    s.scf = a.scf * k
    s.rlb, s.rw, s.mlb, s.mw = a.rlb * k, a.rw * k, a.mlb * k, a.mw * k
    return s


def shadow_solve(a, mode):
    seq = a.ext if mode.lower().startswith("min") else a.res
    if a.solved or len(seq) < 3:
        return None  # unchanged
    full, half, res = M.rainflow([v / M.GRID for v in seq])
    s = a.copy()
    s.full = a.full + M.as_counter(full)
    s.half = M.as_counter(half)
    s.res = [M.q(v) for v in res]
    s.solved = True
    if mode.lower().startswith("min"):
        s.ext = [min(s.res), max(s.res)]
    return s


def compare(ctx, cc, s, aspects, where):
    """Compare a library count with its shadow in the given aspects."""
    if "cycles" in aspects:
        full, half = spectrum(cc)
        none = sum(1 for v in cc.count_cycle if not v > 0)
        ctx.check(not none, "empty-cycles", lambda: f"{where}: {none} entries that count no cycle")
        ctx.check(M.same(full, s.full), "full-cycles", lambda: f"{where}: full cycles {M.diff_txt(full, s.full)}")
        ctx.check(M.same(half, s.half), "half-cycles", lambda: f"{where}: half cycles {M.diff_txt(half, s.half)}")
    if "res" in aspects:
        r = residuals(cc) or []
        ctx.check(r == s.res, "residual-sequence",
                  lambda: f"{where}: residual sequence {[v / M.GRID for v in r or []]} expected {[v / M.GRID for v in s.res]}")
    if "small" in aspects:
        ctx.check(float(cc.nr_small_cycles) == s.small, "small-cycles",
                  lambda: f"{where}: small cycles {cc.nr_small_cycles} expected {s.small}")
    if "ext" in aspects:
        x = [M.q(v) for v in (_arr(cc.min_max_sequence) or ())]
        ctx.check(x == s.ext, "min-max-sequence",
                  lambda: f"{where}: min-max sequence {[v / M.GRID for v in x]} expected {[v / M.GRID for v in s.ext]}")
    if "unit" in aspects:
        ctx.check(cc.unit == s.unit, "unit", lambda: f"{where}: unit {cc.unit!r} expected {s.unit!r}")
    if "times" in aspects:
        t = times(cc)
        ctx.check(t == s.times, "time-stamps", lambda: f"{where}: time stamps {list(map(str, t))} expected {list(map(str, s.times))}")
        ctx.check(cc.timestamp == s.times[0], "time-stamp",
                  lambda: f"{where}: own time stamp {cc.timestamp} expected {s.times[0]}")
    if "scf" in aspects:
        ctx.check(abs(cc.stress_concentration_factor - s.scf) <= 1e-9 * abs(s.scf), "scale-factor",
                  lambda: f"{where}: scale factor {cc.stress_concentration_factor} expected {s.scf}")
    if "bins" in aspects:
        got = [float(cc.range_bin_lower_bound), float(cc.range_bin_width),
               float(cc.mean_bin_lower_bound), float(cc.mean_bin_width)]
        want = [s.rlb, s.rw, s.mlb, s.mw]
        ctx.check(all(abs(g - w) <= 1e-9 * max(1.0, abs(w)) for g, w in zip(got, want)), "bins",
                  lambda: f"{where}: bins (range bound, width, mean bound, width) {got} expected {want}")


# --------------------------------------------------------------------- disk
class Disk:
    """Virtual disk: named byte files; a write becomes durable only if no
    fault hits it."""

    def __init__(self, ctx):
        self.files = {}
        self.ctx = ctx

    def write(self, name, data, fault=None):
        if fault == "lost":
            self.ctx.fault("write-lost")
            return
        if fault == "torn":
            self.ctx.fault("write-torn")
            data = data[: max(1, len(data) // 2)]
        elif fault == "flip":
            self.ctx.fault("stored-byte-flipped")
            i = len(data) // 3
            data = data[:i] + bytes([data[i] ^ 0x10]) + data[i + 1:]
        elif fault == "full":
            self.ctx.fault("disk-full")
            data = b""
        self.files[name] = data

    def read(self, name):
        return self.files.get(name)


def seal(obj):
    """Record text with a checksum, as the aggregator stores it."""
    import zlib

    body = json.dumps(obj)
    return json.dumps({"crc": zlib.crc32(body.encode()), "body": body}).encode()


def unseal(data):
    """The stored record, or None if the file is torn, flipped or absent."""
    import zlib

    if data is None:
        return None
    try:
        env = json.loads(data.decode())
        body = env["body"]
        if zlib.crc32(body.encode()) != env["crc"]:
            return None
        return json.loads(body)
    except (ValueError, KeyError, TypeError):
        return None


# ---------------------------------------------------------- windows in plans
BINS_EXACT = {"range_bin_lower_bound": 0.5, "range_bin_width": 1.0,
              "mean_bin_lower_bound": -24.25, "mean_bin_width": 0.5}
BINS_SMALL = {"range_bin_lower_bound": 2.5, "range_bin_width": 1.0,
              "mean_bin_lower_bound": -24.25, "mean_bin_width": 0.5}


def gen_windows(rng, n, size=(2, 20), stored=0.0, lim=24, units=("MPa",), same_time=0.03, nores=0.0, many=0.0, zones=0.0, flat=0.0,
                kinds=("exact", "exact", "default", "auto")):
    """n time-ordered windows; a `stored` share went through a record that
    dropped small cycles (so they carry a small-cycle tally)."""
    t = rng.randint(0, 10 ** 6)
    gap = rng.choice([1, 60, 600, 3600, 86400])
    utc = rng.random() < 0.3
    clocks, forms, names = gen_style(rng, zones)
    if clocks:
        gap = rng.choice([0.001, 0.25, 1.5, gap])
    unit = rng.choice(units)
    out = []
    for _ in range(n):
        lo, hi = size if rng.random() > 0.004 else (100, 400)
        data = changing(rng, signal(rng, rng.randint(lo, hi), lim=lim))
        w = {"data": data, "t": t, "utc": utc, "unit": unit,
             "bins": rng.choice(kinds)}
        if clocks:
            w["utc"] = rng.choice(clocks)
        if forms:
            w["form"] = rng.choice(forms)
        if names:
            w["name"] = rng.choice(names)
        if rng.random() < stored:
            w["stored"] = True
            if rng.random() < nores:
                w["nores"] = True
            if rng.random() < many:
                w["many"] = rng.choice([2, 3, 40, 260, 2051, 70001])
        if flat and rng.random() < flat:
            w["flat"] = rng.choice(["new", "old", "large"])
        out.append(w)
        if rng.random() >= same_time:
            t += gap * rng.choice([1, 1, 1, 2, 7])
    return out


FORMS = ["list", "int", "f32", "strided", "backwards", "readonly"]


def gen_style(rng, p):
    """(clocks, forms of the samples, names) of unusual loggers, or nothing."""
    clocks = rng.choice([[True, 2.0, -5.5, 9.0], ["pd"], ["pd-utc"], [False], [True]]) if rng.random() < p else None
    forms = rng.choice([FORMS, [rng.choice(FORMS)]]) if rng.random() < p else None
    names = rng.choice([[None], [""], ["a", "b"], ["CC_x"]]) if rng.random() < p else None
    return clocks, forms, names


def materialise(w):
    """(library count, shadow) of a planned window."""
    import py_fatigue as pf

    data, t, utc, unit = w["data"], w["t"], w["utc"], w["unit"]
    name, form = w.get("name", "strain"), w.get("form")
    if w.get("flat"):
        scaled = [v * 0.75 for v in data] if w["flat"] == "large" else data
        if try_restore_ok(scaled):
            return materialise_flat(w, scaled, t, utc, unit, name)
    if w.get("stored") and max(data) - min(data) > BINS_SMALL["range_bin_lower_bound"]:
        cc = count_window(data, t, unit, BINS_SMALL, name, utc, form)
        with quiet():
            rec = json.loads(json.dumps(cc.as_dict(max_consecutive_zeros=10 ** 6) if w.get("many") else cc.as_dict()))
            if w.get("nores"):
                del rec["res_sig"]
            k = w.get("many", 1)
            if k > 1 and not rec.get("lg_c") and all(isinstance(x, list) for x in rec.get("hist") or [0]):
                rec["hist"] = [[v * k for v in x] for x in rec["hist"]]
            else:
                k = 1
            cc = pf.CycleCount.from_rainflow(rec, timestamp=stamp(t, utc), name=name, unit=unit)
        s = shadow_window(data, t, unit, cc, utc)
        drop_small(s)
        s.full = Counter({c: n * k for c, n in s.full.items()})
        if w.get("nores"):
            s.res, s.ext = [], []
        return cc, s
    bins = w["bins"] if isinstance(w["bins"], dict) else \
        {"exact": BINS_EXACT, "default": None, "auto": {"mean_bin_width": 2.0, "range_bin_width": 0.5}}[w["bins"]]
    cc = count_window(data, t, unit, bins, name, utc, form)
    return cc, shadow_window(data, t, unit, cc, utc)


def without_means(c):
    out = Counter()
    for (r, _m), n in c.items():
        out[(r, 0)] += n
    return out


def materialise_flat(w, data, t, utc, unit, name):
    """A window recorded by an older logger: ranges only, no means."""
    import py_fatigue as pf

    full, half, res = M.rainflow(data)
    lb, g = M.q(BINS_SMALL["range_bin_lower_bound"]), M.GRID
    full, half = without_means(M.as_counter(full)), without_means(M.as_counter(half))
    small = sum(n for c in (full, half) for k, n in c.items() if k[0] < lb)
    full, half = (Counter({k: n for k, n in c.items() if k[0] >= lb}) for c in (full, half))
    hist, large = [], []
    for (r, _m), n in sorted(full.items()):
        i, rest = divmod(r - lb - g // 2, g)
        if rest or w["flat"] == "large":
            large += [r / g] * n
            continue
        hist += [0.0] * (i + 1 - len(hist))
        hist[i] += n
    rec = {"range_bin_lower_bound": 2.5, "range_bin_width": 1.0, "nr_small_cycles": small, "hist": hist, "lg_c": large,
           "res": [k[0] / g for k, n in sorted(half.items()) for _ in range(n)], "res_sig": [float(v) for v in res]}
    if w["flat"] == "old":
        for new, old in (("range_bin_lower_bound", "bin_lb"), ("range_bin_width", "bin_width"), ("nr_small_cycles", "no_sm_c")):
            rec[old] = rec.pop(new)
    if w.get("nores"):
        del rec["res_sig"]
    with quiet():
        cc = pf.CycleCount.from_rainflow(json.loads(json.dumps(rec)), timestamp=stamp(t, utc), name=name, unit=unit)
    s = shadow_window(data, t, unit, cc, utc)
    s.full, s.half, s.small = full, half, small
    s.rlb, s.rw = 2.5, 1.0
    if w.get("nores"):
        s.res, s.ext = [], []
    return cc, s


def drop_small(s):
    """Model of the threshold: cycles below the range bound become a tally."""
    lb = M.q(s.rlb)
    for c in (s.full, s.half):
        for k in [k for k in c if k[0] < lb]:
            s.small += c.pop(k)


def try_restore_ok(data):
    return max(data) - min(data) > BINS_SMALL["range_bin_lower_bound"]
