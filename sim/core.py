"""Simulation core: seeded choices, event log, fault accounting, violations."""
import hashlib
import json
import random
from collections import Counter


class Violation(Exception):
    """A property was broken.  `kind` names the class of failure (stable under
    minimisation); `detail` says what was expected and what was seen."""

    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    """The harness itself could not do its job (never a property violation)."""


class Injected(BaseException):
    """Base of exceptions that the simulator throws into library code."""


def derive(*parts):
    """One 64-bit seed from any tuple of printable parts."""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


class Ctx:
    """Bookkeeping of one run.  Nothing here draws random numbers or reads a
    clock, so logging cannot perturb a run."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.events = 0
        self.faults = Counter()
        self.probes = Counter()
        self.oracle = 0
        self.sim_s = 0.0
        self.states = set()
        self.nontrivial = False
        self.trace = None  # list when a replay wants to show the event log

    def log(self, *items):
        text = " ".join(_txt(i) for i in items)
        self.h.update(text.encode())
        self.h.update(b"\n")
        self.events += 1
        if self.trace is not None:
            self.trace.append(text)

    def fault(self, kind):
        self.faults[kind] += 1
        self.log("FAULT", kind)

    def probe(self, name):
        self.probes[name] += 1

    def state(self, *parts):
        self.states.add(derive(*parts) & 0xFFFFFFFF)

    def check(self, ok, kind, detail=""):
        """One oracle evaluation."""
        self.oracle += 1
        if not ok:
            raise Violation(kind, detail() if callable(detail) else detail)

    def digest(self):
        return self.h.hexdigest()


def _txt(i):
    if isinstance(i, float):
        return repr(i)
    if isinstance(i, dict):
        return json.dumps(i, sort_keys=True, default=str)
    return str(i)


def weighted(rng, table):
    """Pick a key of {key: weight}; insertion order decides, not hashing."""
    total = sum(table.values())
    x = rng.random() * total
    for k, w in table.items():
        x -= w
        if x < 0:
            return k
    return k
