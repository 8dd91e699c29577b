"""One simulated run: plan in, outcome out."""
import importlib
import json
import signal
import sys
import traceback

from . import seams
from .core import Ctx, HarnessError, Injected, Violation, rng_for

HANG_S = 120


class _Hang(BaseException):
    pass


def _on_alarm(_sig, _frame):
    raise _Hang()


def module(pid):
    return importlib.import_module("sim.props." + pid.lower())


def make_plan(mod, seed, pid, tier, idx):
    plan = mod.gen(rng_for(seed, pid, idx), tier, idx)
    # a plan must be its own JSON image, or a replay file could differ
    return json.loads(json.dumps(plan))


def from_library(exc):
    """Did this exception pass through py_fatigue code?"""
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(seams._modules["root"]):
                return True
            tb = tb.tb_next
        todo += [e.__cause__, e.__context__]
    return False


def execute(mod, plan, trace=False):
    """Returns (ctx, outcome); outcome is None, ("violation", kind, detail) or
    ("harness", text)."""
    ctx = Ctx()
    if trace:
        ctx.trace = []
    seams.reset()
    out = None
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S)
    saved = sys.stdout
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        out = ("violation", v.kind, v.detail)
    except _Hang:
        out = ("violation", "no-termination",
               f"a run that takes milliseconds was still busy after {HANG_S} s")
    except HarnessError:
        out = ("harness", traceback.format_exc())
    except Injected:
        out = ("harness", "injected fault leaked\n" + traceback.format_exc())
    except Exception as e:  # pylint: disable=broad-except
        if from_library(e):
            out = ("violation", "unexpected-" + type(e).__name__,
                   f"py_fatigue raised where it may not: {type(e).__name__}: {e}"[:400])
        else:
            out = ("harness", traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.settrace(None)
        sys.stdout = saved
        seams.reset()
    ctx.sim_s += seams.CLOCK.slept
    if out is not None:
        ctx.log("OUTCOME", out[0], out[1] if out[0] == "violation" else "")
    return ctx, out
