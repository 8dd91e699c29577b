"""World B: real threads, one runnable at a time.

Every thread parks on its own gate.  The running thread executes with a trace
function that counts the bytecodes of py_fatigue; the plan's schedule says at
which of them the baton goes to which other thread.  Locks that py_fatigue
creates are simulated, so that a thread waiting for one hands the baton on."""
import _thread
import dis
import sys
import threading

from .core import Injected, Violation

_real_lock = threading.Lock
_real_rlock = threading.RLock
_here = threading.get_ident
ACTIVE = None  # the running scheduler
ROOT = None

_HOT_NAMES = ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "INPLACE_ADD",
              "INPLACE_SUBTRACT", "INPLACE_MULTIPLY", "INPLACE_TRUE_DIVIDE", "CALL_METHOD", "STORE_DEREF")
HOT = frozenset(dis.opmap[n] for n in _HOT_NAMES if n in dis.opmap)
WRITES = frozenset(dis.opmap[n] for n in _HOT_NAMES if n in dis.opmap and n != "CALL_METHOD")
CALLS = frozenset(v for k, v in dis.opmap.items() if k.startswith("CALL"))
WEIGHTS = {dis.opmap[n]: w for n, w in (("STORE_GLOBAL", 30), ("STORE_ATTR", 4), ("DELETE_ATTR", 10), ("DELETE_SUBSCR", 10))}
_POP, _SETUP = dis.opmap["POP_TOP"], dis.opmap["SETUP_FINALLY"]


class Abort(Injected):
    """Ends the threads of a run that is over (deadlock)."""


class Interrupt(Injected):
    """Ctrl-C, as the simulator delivers it."""


class Exhausted(MemoryError):
    """Memory exhaustion, as the simulator delivers it."""


class SimLock:
    """Stands for a lock the library made."""

    reentrant = False

    def __init__(self):
        self._lock = _thread.allocate_lock()
        self._owner, self._depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _here()
        if self.reentrant and self._owner == me:
            self._depth += 1
            return True
        s = ACTIVE
        if s is None or me not in s.ids:
            ok = self._lock.acquire(blocking, timeout)
        else:
            ok = self._lock.acquire(False)
            while not ok and blocking:
                if not s.wait_for(self, timeout >= 0):
                    break
                ok = self._lock.acquire(False)
        if ok:
            self._owner, self._depth = me, 1
        return ok

    def release(self):
        if self.reentrant:
            self._depth -= 1
            if self._depth:
                return
        self._owner = None
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._owner == _here()


class SimRLock(SimLock):
    reentrant = True


def _from_library():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == threading.__file__:
        f = f.f_back
    name = f.f_code.co_filename if f is not None else ""
    return name.startswith(ROOT) or name == "<string>"


def install(root):
    """Before py_fatigue is imported: locks it creates become simulated."""
    global ROOT
    ROOT = root

    def lock():
        return SimLock() if _from_library() else _real_lock()

    def rlock(*a, **k):
        return SimRLock() if _from_library() else _real_rlock(*a, **k)

    threading.Lock = lock
    threading.RLock = rlock


# ------------------------------------------------------------ interruption
_points = {}


def points(code):
    """Offsets at which CPython delivers signals: function entry, after a call,
    at the target of a backward jump.  The place between `lock.acquire()` and
    its `try:` is left out, as no program can protect it."""
    p = _points.get(code)
    if p is None:
        b = code.co_code
        p = {0}
        for i in range(0, len(b) - 2, 2):
            if b[i] in CALLS:
                if b[i + 2] == _POP and i + 4 < len(b) and b[i + 4] == _SETUP:
                    continue
                p.add(i + 2)
        for ins in dis.get_instructions(code):
            if ins.opcode in dis.hasjabs or ins.opcode in dis.hasjrel:
                if ins.argval <= ins.offset:
                    p.add(ins.argval)
        _points[code] = p
    return p


class Steps:
    """Trace function for one thread without scheduling: counts the places at
    which an interruption can happen, and at place number `at` raises `exc`, or
    calls it where it is what somebody else does at that moment."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc, self.n = at, exc, 0
        self.where = None
        self.hot, self.wrote = [], False  # places right after a write to an object
        self.sites = {}  # place in the code: the first time it was passed

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        frame.f_trace_opcodes, frame.f_trace_lines = True, False
        pts = points(frame.f_code)

        code = frame.f_code.co_code

        def local(fr, ev, _arg):
            if ev != "opcode":
                return local
            i = fr.f_lasti
            if i in pts:
                self.n += 1
                self.sites.setdefault((fr.f_code, i), self.n)
                if self.wrote:
                    self.hot.append(self.n)
                    self.wrote = False
                if self.n == self.at:
                    self.where = f"{fr.f_code.co_filename[len(ROOT):]}:{fr.f_code.co_name}"
                    if isinstance(self.exc, BaseException):
                        raise self.exc
                    self.exc()
            if code[i] in WRITES:
                self.wrote = True
            return local

        return local


class Codes:
    """Trace function that notes which code of py_fatigue is executed."""

    def __init__(self):
        self.seen = set()

    def __call__(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(ROOT):
            self.seen.add(frame.f_code)

    def sites(self):
        """(code, offset after the write) in a fixed order, each as often as
        it deserves attention: writes to globals are rare, those to elements
        of arrays are not."""
        out = []
        for code in sorted(self.seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name)):
            b = code.co_code
            for i in range(0, len(b) - 2, 2):
                if b[i] in HOT:
                    out += [(code, i + 2)] * WEIGHTS.get(b[i], 1)
        return out


def interrupted(fn, at=None, exc=None):
    """Run fn in this thread; returns (result, error, record of the places)."""
    st = Steps(at, exc)
    res = err = None
    old = sys.gettrace()
    sys.settrace(st)
    try:
        res = fn()
    except (Interrupt, Exception) as e:  # pylint: disable=broad-except
        err = e
    finally:
        sys.settrace(old)
    return res, err, st


# --------------------------------------------------------------- scheduling
class Scheduler:
    """Runs functions in threads under a schedule:

    {"kind": "gaps", "gaps": [steps until the next switch, ...], "picks": [...]}
    {"kind": "hot", "bits": "0110...", "picks": [...]}  a switch at every write
        to an object whose bit is 1 (the bits repeat)
    {"kind": "even", "k": n, "limit": m}  a switch every n steps, m times
    {"kind": "site", "x": x, "limit": m, "picks": [...]}  a switch whenever one
        place in the code (right after a write; x chooses it) is passed, m times

    A pick in [0, 1) chooses among the other runnable threads."""

    LIMIT = 5_000_000

    def __init__(self, ctx, sched, sites=()):
        self.ctx, self.sched = ctx, sched
        self.n = 0
        self.switches = 0
        self.ids = {}
        self.gates, self.alive, self.blocked = [], [], {}
        self.current = 0
        self.main = _thread.allocate_lock()
        self.out = []
        self.dead = None
        self.path = []
        kind = sched["kind"]
        self.hot = kind == "hot"
        self.next = None
        self.k = 0
        if kind == "gaps":
            self.next = sched["gaps"][0] if sched["gaps"] else None
        elif kind == "even":
            self.next = sched["k"]
        self.site = sites[min(int(sched["x"] * len(sites)), len(sites) - 1)] if kind == "site" and sites else None
        self.only = kind == "site"
        self.inject = {}

    # -- choosing ----------------------------------------------------------
    def runnable(self, but=None):
        return [t for t in range(len(self.gates)) if self.alive[t] and t != but
                and not (t in self.blocked and self.blocked[t].locked())]

    def pick(self, cand):
        p = self.sched.get("picks") or [0.0]
        x = p[self.switches % len(p)]
        if self.sched["kind"] == "even":
            later = [t for t in cand if t > self.current]
            return later[0] if later else cand[0]
        return cand[min(int(x * len(cand)), len(cand) - 1)]

    # -- tracing -----------------------------------------------------------
    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.only and (self.site is None or frame.f_code is not self.site[0]):
            self.n += 1
            if self.dead is not None or self.n > self.LIMIT:
                raise Abort()
            return None
        frame.f_trace_opcodes, frame.f_trace_lines = True, False
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode":
            self.n += 1
            if self.dead is not None or self.n > self.LIMIT:
                raise Abort()
            if self.only:
                if frame.f_lasti == self.site[1] and self.switches < self.sched["limit"]:
                    self.switch(frame)
            elif self.hot:
                code = frame.f_code.co_code
                i = frame.f_lasti
                # just before and just after a write
                if code[i] in HOT or (i >= 2 and code[i - 2] in HOT):
                    bits = self.sched["bits"]
                    self.k += 1
                    if bits[self.k % len(bits)] == "1" and self.switches < 4000:
                        self.switch(frame)
            elif self.next is not None and self.n >= self.next:
                self.advance()
                self.switch(frame)
            if self.inject:
                j = self.inject.get(self.current)
                if j is not None and frame.f_lasti in points(frame.f_code):
                    j[0] -= 1
                    if j[0] <= 0:
                        del self.inject[self.current]
                        j[2](frame)
                        raise j[1]
        return self.local

    def advance(self):
        s = self.sched
        self.k += 1
        if s["kind"] == "gaps":
            self.next = self.n + s["gaps"][self.k] if self.k < len(s["gaps"]) else None
        else:
            self.next = self.n + s["k"] if self.k < s["limit"] else None

    def pause(self):
        """A place at which a thread's own (not py_fatigue) code may be
        pre-empted."""
        self.n += 1
        if self.dead is not None:
            raise Abort()
        if self.sched["kind"] == "gaps":
            if self.next is not None and self.n >= self.next:
                self.advance()
                self.switch()
        else:
            self.switch()

    def arm(self, places, exc, fired):
        """Raise `exc` in the running thread when it has passed `places` more
        places at which a signal can be delivered."""
        self.inject[self.current] = [places, exc, fired]

    def disarm(self):
        self.inject.pop(self.current, None)
        sys.settrace(self.trace)  # an exception from a trace function unsets it

    # -- baton -------------------------------------------------------------
    def switch(self, frame=None):
        me = self.current
        cand = self.runnable(me)
        if not cand:
            return
        f = frame
        while f is not None:
            if f.f_code.co_filename.startswith("<frozen importlib"):
                return  # holds import locks
            f = f.f_back
        to = self.pick(cand)
        self.switches += 1
        where = frame.f_code.co_name if frame is not None else "lock"
        self.path.append((me, to, where))
        self.hand(me, to)

    def hand(self, me, to):
        self.current = to
        self.gates[to].release()
        self.gates[me].acquire()
        if self.dead is not None:
            raise Abort()

    def wait_for(self, lock, timed):
        """The running thread cannot get `lock`.  True: try again."""
        me = self.current
        self.blocked[me] = lock
        self.ctx.probe("waited-for-a-lock")
        cand = self.runnable(me)
        if not cand:
            del self.blocked[me]
            if timed:
                return False
            self.dead = f"thread {me} waits for a lock nobody will release"
            raise Abort()
        to = self.pick(cand)
        self.switches += 1
        self.path.append((me, to, "lock"))
        self.hand(me, to)
        del self.blocked[me]
        return True

    def body(self, t, fn):
        self.gates[t].acquire()
        try:
            if self.dead is None:
                sys.settrace(self.trace)
                try:
                    self.out[t] = (fn(), None)
                finally:
                    sys.settrace(None)
        except BaseException as e:  # pylint: disable=broad-except
            self.out[t] = (None, e)
        self.alive[t] = False
        cand = self.runnable() if self.dead is None else [x for x in range(len(self.alive)) if self.alive[x]]
        if not cand and any(self.alive):
            self.dead = self.dead or "all threads wait for locks"
            cand = [x for x in range(len(self.alive)) if self.alive[x]]
        if cand:
            to = self.pick(cand)
            self.path.append((t, to, "end"))
            self.current = to
            self.gates[to].release()
        else:
            self.main.release()

    def run(self, fns):
        """Results [(value, exception)] of the functions run concurrently."""
        global ACTIVE
        self.out = [None] * len(fns)
        self.main.acquire()
        ts = []
        for t, fn in enumerate(fns):
            g = _thread.allocate_lock()
            g.acquire()
            self.gates.append(g)
            self.alive.append(True)
            th = threading.Thread(target=self.body, args=(t, fn), daemon=True)
            ts.append(th)
        ACTIVE = self
        try:
            for t, th in enumerate(ts):
                th.start()
                self.ids[th.ident] = t
            first = self.pick(list(range(len(fns))))
            self.current = first
            self.gates[first].release()
            self.main.acquire()
            for th in ts:
                th.join()
        finally:
            ACTIVE = None
        if self.n > self.LIMIT:
            raise Violation("no-termination", f"still running after {self.LIMIT} bytecodes")
        if self.dead:
            raise Violation("deadlock", self.dead)
        self.ctx.faults["pre-emption"] += self.switches
        self.ctx.log("switches", self.switches, "steps", self.n)
        for p in self.path:
            self.ctx.log(*p)
        return self.out


def gen_schedule(rng, n_threads, scale=3000):
    """A schedule of a random kind."""
    kind = rng.choice(["gaps", "gaps", "hot", "even", "few"])
    if kind == "even":
        return {"kind": "even", "k": rng.choice([1, 2, 3, 5, 7, 11, 17, 40]), "limit": rng.choice([30, 200, 1000])}
    picks = [round(rng.random(), 3) for _ in range(rng.choice([1, 3, 8]))]
    if kind == "hot":
        p = rng.choice([0.05, 0.2, 0.5, 1.0])
        return {"kind": "hot", "bits": "".join("1" if rng.random() < p else "0" for _ in range(rng.choice([7, 31, 64]))) + "1",
                "picks": picks}
    n = rng.randint(1, 3) if kind == "few" else rng.randint(4, 60)
    top = scale if kind == "few" else rng.choice([30, 300, scale])
    return {"kind": "gaps", "gaps": [max(1, int(top ** rng.random())) for _ in range(n)], "picks": picks}


def gen_site(rng):
    return {"kind": "site", "x": round(rng.random(), 5), "limit": rng.choice([1, 1, 2, 3, 10, 200]),
            "picks": [round(rng.random(), 3) for _ in range(rng.choice([1, 3]))]}


def simplify_schedule(s):
    """Smaller schedules."""
    if s["kind"] == "site":
        if s["limit"] > 1:
            yield dict(s, limit=s["limit"] // 2)
        return
    if s["kind"] == "gaps":
        g = s["gaps"]
        for i in range(len(g)):
            if i + 1 < len(g):
                yield dict(s, gaps=g[:i] + [g[i] + g[i + 1]] + g[i + 2:])
            else:
                yield dict(s, gaps=g[:i])
        if len(s["picks"]) > 1:
            yield dict(s, picks=s["picks"][:1])
    elif s["kind"] == "even":
        if s["limit"] > 1:
            yield dict(s, limit=s["limit"] // 2)
    elif len(s["bits"]) > 2:
        yield dict(s, bits=s["bits"].replace("1", "0", 1))
