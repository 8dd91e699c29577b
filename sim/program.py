"""The program around the library: the process-wide settings it has chosen."""
import builtins
import decimal
import gc
import json
import locale
import logging
import math
import os
import random
import signal
import sys
import threading
import time
import warnings


def options(tree=None, at=""):
    """All pandas options by name."""
    import pandas as pd

    out = {}
    for k, v in (pd.options.d if tree is None else tree).items():
        if isinstance(v, dict):
            out.update(options(v, f"{at}{k}."))
        else:
            out[at + k] = v
    return out


def _random(np):
    s = np.random.get_state()
    return s[0], hash(s[1].tobytes()), s[2:]


def _plotly():
    """Default look and display of the interactive plots."""
    pio = sys.modules.get("plotly.io")
    return None if pio is None else (pio.templates.default, pio.renderers.default)


def settings():
    """Everything process-wide that the rest of the program relies on, as plain
    comparable values by name."""
    import matplotlib as mpl
    import numpy as np

    out = {
        "numpy error handling": (sorted(np.geterr().items()), repr(np.geterrcall()), np.getbufsize()),
        "numpy print options": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
        "numpy random state": _random(np),
        "random state": hash(random.getstate()),
        "pandas options": {k: repr(v) for k, v in options().items()},
        "warning filters": [repr(f) for f in warnings.filters],
        "display of warnings": (repr(warnings.showwarning), repr(warnings.formatwarning)),
        "matplotlib settings": {k: repr(v) for k, v in dict.items(mpl.rcParams)},
        "plotly settings": _plotly(),
        "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "time zone": (time.tzname, time.timezone),
        "standard streams": [id(s) for s in (sys.stdin, sys.stdout, sys.stderr)],
        "hooks": [id(h) for h in (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook)],
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "import path": list(sys.path),
        "signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)],
        "logging": (logging.root.level, logging.root.disabled, logging.root.manager.disable,
                    [repr(h) for h in logging.root.handlers], id(logging.getLoggerClass())),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "threads": sorted(t.name for t in threading.enumerate()),
    }
    return out


def packages():
    """Libraries other than py_fatigue that are loaded."""
    return {m.split(".")[0] for m in list(sys.modules)} - {"py_fatigue"}


class Modules:
    """Functions, classes and constants of modules everybody shares."""

    def __init__(self):
        import numpy as np
        import pandas as pd

        self.owners = [("builtins", builtins), ("numpy", np), ("numpy.ndarray", np.ndarray), ("pandas", pd),
                       ("pandas.DataFrame", pd.DataFrame), ("pandas.Series", pd.Series), ("json", json), ("math", math),
                       ("time", time), ("random", random), ("os", os)]
        self.was = [{k: v for k, v in vars(o).items() if self.counts(k, v)} for _n, o in self.owners]
        self.lists = self.inherited()

    @staticmethod
    def counts(k, v):
        return not k.startswith("__") and k != "_" and type(v).__name__ not in ("module", "CachedAccessor")

    @staticmethod
    def inherited():
        import pandas as pd

        return [(list(c._metadata), sorted(c._internal_names)) for c in (pd.DataFrame, pd.Series)]

    def changed(self):
        for (name, o), was in zip(self.owners, self.was):
            now = vars(o)
            for k, v in was.items():
                if now.get(k) is not v:
                    return f"{name}.{k}"
        return "pandas class attributes" if self.inherited() != self.lists else None

    def restore(self):
        for (_name, o), was in zip(self.owners, self.was):
            for k, v in was.items():
                if vars(o).get(k) is not v:
                    setattr(o, k, v)


def differ(was, now):
    """Text naming what changed, or None."""
    for k, v in was.items():
        if now[k] != v:
            if isinstance(v, dict):
                keys = sorted(x for x in set(v) | set(now[k]) if v.get(x) != now[k].get(x))
                return f"{k}: {keys[0]} was {v.get(keys[0])}, now {now[k].get(keys[0])}"
            a, b = repr(v), repr(now[k])
            i = next((j for j, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
            return f"{k}: was ...{a[max(0, i - 30):i + 50]}..., now ...{b[max(0, i - 30):i + 50]}..."
    return None


class SetUp:
    """Choose the settings of a plan for the duration of a run."""

    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        import matplotlib as mpl
        import numpy as np
        import pandas as pd

        self.keep = {"np": np.geterr(), "call": np.geterrcall(), "print": np.get_printoptions(),
                     "rng": (np.random.get_state(), random.getstate()), "pd": options(),
                     "warn": (warnings.filters[:], warnings.showwarning, warnings.formatwarning), "rc": dict(mpl.rcParams), "plotly": _plotly(),
                     "ctx": decimal.getcontext().copy(), "cwd": os.getcwd(), "env": dict(os.environ), "path": list(sys.path),
                     "limit": sys.getrecursionlimit(), "interval": sys.getswitchinterval(),
                     "hooks": (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook),
                     "streams": (sys.stdin, sys.stdout, sys.stderr), "locale": locale.setlocale(locale.LC_ALL, None),
                     "log": (logging.root.level, logging.root.manager.disable, logging.root.handlers[:]),
                     "gc": (gc.isenabled(), gc.get_threshold()),
                     "signals": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)}}
        p = self.plan
        sys.stderr = sys.stdout  # warnings go where the library's messages go
        np.seterr(**p.get("np", {}))
        np.set_printoptions(**p.get("print", {}))
        np.random.seed(p.get("seed", 0))
        random.seed(p.get("seed", 0))
        for k, v in p.get("pd", {}).items():
            pd.set_option(k, v)
        for f in p.get("warn", []):
            warnings.filterwarnings(f[0], f[1], {"user": UserWarning, "future": FutureWarning, "any": Warning}[f[2]])
        if p.get("format"):
            warnings.formatwarning = own_format
        mpl.rcParams.update(p.get("rc", {}))
        if p.get("prec"):
            decimal.getcontext().prec = p["prec"]
        return self

    def __exit__(self, *exc):
        import matplotlib as mpl
        import numpy as np
        import pandas as pd

        k = self.keep
        if k["plotly"] and k["plotly"] != _plotly():
            import plotly.io as pio

            pio.templates.default, pio.renderers.default = k["plotly"]
        np.seterr(**k["np"])
        np.seterrcall(k["call"])
        np.set_printoptions(**k["print"])
        np.random.set_state(k["rng"][0])
        random.setstate(k["rng"][1])
        for o, v in options().items():
            if repr(v) != repr(k["pd"][o]):
                pd.set_option(o, k["pd"][o])
        warnings.filters[:], warnings.showwarning, warnings.formatwarning = k["warn"]
        warnings._filters_mutated()
        dict.update(mpl.rcParams, k["rc"])
        decimal.setcontext(k["ctx"])
        if os.getcwd() != k["cwd"]:
            os.chdir(k["cwd"])
        if dict(os.environ) != k["env"]:
            os.environ.clear()
            os.environ.update(k["env"])
        sys.path[:] = k["path"]
        sys.setrecursionlimit(k["limit"])
        sys.setswitchinterval(k["interval"])
        sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook = k["hooks"]
        sys.stdin, sys.stdout, sys.stderr = k["streams"]
        locale.setlocale(locale.LC_ALL, k["locale"])
        logging.root.setLevel(k["log"][0])
        logging.root.manager.disable = k["log"][1]
        logging.root.handlers[:] = k["log"][2]
        (gc.enable if k["gc"][0] else gc.disable)()
        gc.set_threshold(*k["gc"][1])
        for s, h in k["signals"].items():
            if signal.getsignal(s) is not h:
                signal.signal(s, h)
        return False


def own_format(message, category, filename, lineno, line=None):
    """How the program shows warnings."""
    return f"program: {category.__name__} {message}\n"
