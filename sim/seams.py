"""Everything the simulator owns of the process around py_fatigue.

`boot(jit)` must run before py_fatigue, numba or numpy are imported."""
import datetime as _dt
import io
import os
import sys
import time as _time

REPO = os.environ.get("VERIF_REPO", "/repo")
_real_sleep = _time.sleep
_real_time = _time.time


class Clock:
    """Virtual wall clock.  The library sees it through time.time/time.sleep."""

    def __init__(self):
        self.now = 1_700_000_000.0
        self.slept = 0.0
        self.sleeps = 0
        self.on_sleep = None  # hook(seconds): may raise an injected fault

    def time(self):
        return self.now

    def sleep(self, seconds):
        self.sleeps += 1
        if self.on_sleep is not None:
            self.on_sleep(seconds)
        self.now += seconds
        self.slept += seconds


CLOCK = Clock()


class Stdout(io.TextIOBase):
    """Stdout stub: swallows the library's progress output, and can fail."""

    def __init__(self):
        self.chars = 0
        self.writes = 0
        self.on_write = None

    def writable(self):
        return True

    def write(self, s):
        self.writes += 1
        if self.on_write is not None:
            self.on_write(s)
        self.chars += len(s)
        return len(s)

    def flush(self):
        return None


STDOUT = Stdout()
_booted = False
_modules = {}


def boot(jit=False):
    """Install the seams and import py_fatigue from the working tree."""
    global _booted
    if _booted:
        return _modules
    os.environ["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    os.environ.setdefault("NUMBA_NUM_THREADS", "1")
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    # time: the library sleeps in its progress-reporting sum and times the
    # aggregation; both go to the virtual clock.
    _time.sleep = CLOCK.sleep
    _time.time = CLOCK.time
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    from . import threads

    threads.install(os.path.realpath(os.path.join(REPO, "py_fatigue")))
    import matplotlib.pyplot  # noqa: F401
    import numba.experimental  # noqa: F401
    import pandas  # noqa: F401
    import plotly.express  # noqa: F401
    import plotly.io  # noqa: F401
    import pydantic  # noqa: F401

    from . import program

    shared, before = program.Modules(), program.settings()
    import py_fatigue  # noqa: F401
    import py_fatigue.cycle_count.cycle_count
    import py_fatigue.cycle_count.utils
    import py_fatigue.damage.crack_growth
    import py_fatigue.damage.stress_life
    import py_fatigue.material.crack_growth_curve
    import py_fatigue.material.sn_curve
    import py_fatigue.testing

    root = os.path.realpath(os.path.dirname(py_fatigue.__file__))
    if root != os.path.realpath(os.path.join(REPO, "py_fatigue")):
        raise RuntimeError(f"py_fatigue comes from {root}")
    # what the import changed of the process (filters aside: libraries that
    # are imported for the first time add theirs)
    now = program.settings()
    before.pop("warning filters")
    _modules["imported"] = program.differ(before, now) or shared.changed()
    shared.restore()
    _modules["root"] = root
    _booted = True
    return _modules


class quiet:
    """Route stdout to the stub while library code runs."""

    def __enter__(self):
        self.saved = sys.stdout
        sys.stdout = STDOUT
        return STDOUT

    def __exit__(self, *exc):
        sys.stdout = self.saved
        return False


def reset():
    """Bring every seam back to its quiet initial state."""
    CLOCK.now = 1_700_000_000.0
    CLOCK.slept = 0.0
    CLOCK.sleeps = 0
    CLOCK.on_sleep = None
    STDOUT.writes = 0
    STDOUT.chars = 0
    STDOUT.on_write = None
    import warnings

    warnings.resetwarnings()
    warnings.simplefilter("ignore")


EPOCH = _dt.datetime(2024, 1, 1)


def stamp(seconds, utc=False):
    """A logger's time stamp: naive, in UTC (True), in a zone that many hours
    off UTC, or as a pandas time stamp ("pd", "pd-utc")."""
    t = EPOCH + _dt.timedelta(microseconds=round(seconds * 1e6))
    if isinstance(utc, str):
        import pandas as pd

        return pd.Timestamp(t, tz="UTC") if utc == "pd-utc" else pd.Timestamp(t)
    if utc is True:
        return t.replace(tzinfo=_dt.timezone.utc)
    if utc:
        return t.replace(tzinfo=_dt.timezone.utc).astimezone(_dt.timezone(_dt.timedelta(hours=utc)))
    return t


def seconds(t):
    """The other way round."""
    if t.tzinfo is not None:
        t = t.astimezone(_dt.timezone.utc).replace(tzinfo=None)
    return (t - EPOCH).total_seconds()


def quiet_fd():
    """From here on the process prints nothing to the real stdout."""
    sys.stdout = STDOUT
