"""
Deterministic thread scheduler.

Simulated threads are real Python threads of which exactly one runs at any
moment; the baton is handed over only at *points*:

* every source line (optionally every byte-code instruction) of the code under
  test, delivered by ``sys.monitoring``,
* acquiring / releasing / waiting on any ``threading`` primitive: ``Lock`` and
  ``RLock`` are replaced before anybody uses them, and ``Condition``, ``Event``,
  ``Semaphore``, ``Barrier``, ``queue.Queue`` ... are built from these,
* explicit calls to :meth:`Sim.point` of the workload, and ``time.sleep``.

Which thread continues at a point is decided by a :class:`Decider`; every
decision that differs from "keep running" / "lowest id" is recorded so that the
list of decisions replays the execution exactly.
"""
import sys
import threading
import _thread

from sim.clock import CLOCK

_allocate = _thread.allocate_lock
_RealRLock = _thread.RLock
_ident = _thread.get_ident

CUR = {}          # thread ident -> SThread
SIM = None        # active simulation


class SimAbort(BaseException):
    """Unwinds a simulated thread when the run is over."""


class Lock:
    """Drop-in for ``threading.Lock``; cooperative for simulated threads."""

    def __init__(self):
        self._l = _allocate()

    def acquire(self, blocking=True, timeout=-1):
        t = CUR.get(_ident())
        if t is None:
            return self._l.acquire(blocking, timeout)
        return t.sim.lock_acquire(t, self._l, self, blocking, timeout)

    __enter__ = acquire

    def release(self):
        self._l.release()
        sim = SIM
        if sim is not None:
            sim.lock_released(self)

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self._l.locked()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._l = _allocate()


class RLock:
    """Drop-in for ``threading.RLock``."""

    def __init__(self):
        self._l = _RealRLock()

    def acquire(self, blocking=True, timeout=-1):
        t = CUR.get(_ident())
        if t is None:
            return self._l.acquire(blocking, timeout)
        return t.sim.lock_acquire(t, self._l, self, blocking, timeout)

    __enter__ = acquire

    def release(self):
        self._l.release()
        sim = SIM
        if sim is not None:
            sim.lock_released(self)

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        return self._l._is_owned()

    def _recursion_count(self):
        return self._l._recursion_count()

    def _release_save(self):
        state = self._l._release_save()
        sim = SIM
        if sim is not None:
            sim.lock_released(self)
        return state

    def _acquire_restore(self, state):
        t = CUR.get(_ident())
        if t is None:
            return self._l._acquire_restore(state)
        while not self._l.acquire(False):
            t.sim.block(t, self, None)
        self._l.release()
        return self._l._acquire_restore(state)

    def _at_fork_reinit(self):
        self._l = _RealRLock()


def install():
    import _thread as th
    threading.Lock = Lock
    threading._allocate_lock = Lock
    threading.RLock = RLock
    threading._CRLock = RLock
    threading._PyRLock = RLock
    th.allocate_lock = _allocate   # import machinery etc. keep the real ones
    for name in ("logging", "numpy", "queue", "concurrent.futures"):
        if name in sys.modules and name != "logging":
            raise RuntimeError("%s imported before sim.sched.install()" % name)


# --------------------------------------------------------------------------- #
# deciders


class RandomWalk:
    """Preempt with a fixed probability per point; uniform choice of the target."""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p
        self._draw()

    def _draw(self):
        import math
        if self.p <= 0:
            self.left = 1 << 60
        else:
            u = 1.0 - self.rng.random()
            self.left = int(math.log(u) / math.log(1 - self.p)) if self.p < 1 else 0

    def preempt(self, sim, t, others):
        if self.left > 0:
            self.left -= 1
            return None
        self._draw()
        return self.rng.choice(others)

    def choose(self, sim, t, runnable):
        return self.rng.choice(runnable)


class Priority:
    """PCT: random priorities, lowered at a few random points."""

    def __init__(self, rng, n, depth, length):
        self.prio = list(range(1, n + 1))
        rng.shuffle(self.prio)
        self.changes = sorted(rng.randrange(max(1, length)) for _ in range(depth))
        self.low = 0

    def preempt(self, sim, t, others):
        if self.changes and sim.steps >= self.changes[0]:
            self.changes.pop(0)
            self.low -= 1
            self.prio[t.tid] = self.low
        best = max([t, *others], key=lambda s: self.prio[s.tid])
        return None if best is t else best

    def choose(self, sim, t, runnable):
        return max(runnable, key=lambda s: self.prio[s.tid])


class Explicit:
    """Replays a list of decisions [kind, tid, local counter, target tid]."""

    def __init__(self, decisions):
        self.pre, self.blk = {}, {}
        for kind, tid, n, target in decisions:
            (self.pre if kind == "p" else self.blk)[(tid, n)] = target

    def preempt(self, sim, t, others):
        target = self.pre.get((t.tid, t.steps))
        if target is None:
            return None
        for o in others:
            if o.tid == target:
                return o
        return None

    def choose(self, sim, t, runnable):
        key = (t.tid, t.blocks) if t is not None else (-1, 0)
        target = self.blk.get(key)
        for o in runnable:
            if o.tid == target:
                return o
        return runnable[0]


def make_decider(spec, n):
    import random
    kind = spec["kind"]
    if kind == "explicit":
        return Explicit(spec["decisions"])
    rng = random.Random(spec["seed"])
    if kind == "walk":
        return RandomWalk(rng, spec["p"])
    if kind == "pct":
        return Priority(rng, n, spec["depth"], spec["length"])
    if kind == "serial":
        return RandomWalk(rng, 0.0)
    raise ValueError(kind)


# --------------------------------------------------------------------------- #


class SThread:
    def __init__(self, sim, tid, fn, name):
        self.sim, self.tid, self.fn, self.name = sim, tid, fn, name
        self.baton = _allocate()
        self.baton.acquire()
        self.state = "ready"      # ready | blocked | done
        self.on = None
        self.deadline = None
        self.timed_out = False
        self.steps = 0
        self.blocks = 0
        self.mask = 0
        self.result = None
        self.error = None


class Sim:
    """One simulated execution."""

    def __init__(self, spec, max_steps=2_000_000, grain="line", only=None):
        self.spec, self.max_steps, self.grain, self.only = spec, max_steps, grain, only
        self.threads = []
        self.steps = 0
        self.switches = 0
        self.decisions = []
        self.over = None           # None | "finished" | "deadlock" | "budget"
        self.main = _allocate()
        self.main.acquire()
        self.running = None
        self.digest = 0

    # -- workload API
    def spawn(self, fn, name=None):
        t = SThread(self, len(self.threads), fn, name or "T%d" % len(self.threads))
        self.threads.append(t)
        return t

    def now(self):
        return self.steps

    def current(self):
        return CUR.get(_ident())

    def run(self):
        global SIM
        self.decider = make_decider(self.spec, len(self.threads))
        if SIM is not None:
            raise RuntimeError("nested simulation")
        SIM = self
        CLOCK.on_sleep = self.sleep
        monitor_on(self.grain, self.only)
        try:
            for t in self.threads:
                ready = _allocate()
                ready.acquire()
                _thread.start_new_thread(self._body, (t, ready))
                ready.acquire()
            if self.threads:
                first = self._choose(None, self._runnable())
                self.running = first
                first.baton.release()
                self.main.acquire()
            else:
                self.over = "finished"
        finally:
            CLOCK.on_sleep = None
            SIM = None
        return self.over

    # -- internals
    def _body(self, t, ready):
        CUR[_ident()] = t
        ready.release()
        t.baton.acquire()
        try:
            t.result = t.fn()
        except SimAbort:
            return
        except BaseException as err:  # noqa: BLE001
            t.error = err
        finally:
            CUR.pop(_ident(), None)
        t.state = "done"
        if self.over is not None:
            return
        self._leave(t)

    def _runnable(self, but=None):
        return [t for t in self.threads if t.state == "ready" and t is not but]

    def _choose(self, t, runnable):
        if len(runnable) == 1:
            return runnable[0]
        pick = self.decider.choose(self, t, runnable)
        if pick is not runnable[0]:
            self.decisions.append(["b", t.tid if t else -1, t.blocks if t else 0, pick.tid])
        return pick

    def _finish(self, how):
        self.over = how
        self.main.release()

    def _leave(self, t):
        """The running thread cannot continue: give the baton away."""
        t.blocks += 1
        run = self._runnable()
        if not run:
            # nobody can run: let virtual time pass
            waiting = [s for s in self.threads if s.state == "blocked" and s.deadline is not None]
            if waiting:
                first = min(waiting, key=lambda s: (s.deadline, s.tid))
                if first.deadline > CLOCK.mono:
                    CLOCK.advance(first.deadline - CLOCK.mono)
                first.state, first.timed_out = "ready", True
                run = [first]
        if not run:
            self._finish("finished" if all(s.state == "done" for s in self.threads)
                         else "deadlock")
            return None
        nxt = self._choose(t, run)
        self.running = nxt
        self._trace(nxt)
        if nxt is not t:
            nxt.baton.release()
        return nxt

    def _trace(self, nxt):
        self.switches += 1
        self.digest = hash((self.digest, nxt.tid, nxt.steps)) & 0xFFFFFFFFFFFF

    def point(self, t=None):
        """A place where the scheduler may switch threads."""
        if t is None:
            t = CUR.get(_ident())
            if t is None:
                return
        if t.mask:
            return
        t.steps += 1
        self.steps += 1
        if self.steps > self.max_steps:
            if self.over is None:
                self._finish("budget")
            t.baton.acquire()      # parked for good
        others = None
        for s in self.threads:
            if s is not t and s.state == "ready":
                others = self._runnable(t)
                break
        if others is None:
            return
        nxt = self.decider.preempt(self, t, others)
        if nxt is None:
            return
        self.decisions.append(["p", t.tid, t.steps, nxt.tid])
        self.running = nxt
        self._trace(nxt)
        nxt.baton.release()
        t.baton.acquire()

    def block(self, t, on, deadline):
        """Block the running thread; returns False when it timed out."""
        if self.over is not None:
            t.baton.acquire()
        t.state, t.on, t.deadline, t.timed_out = "blocked", on, deadline, False
        nxt = self._leave(t)
        if nxt is not t:
            t.baton.acquire()
        t.on, t.deadline = None, None
        return not t.timed_out

    def lock_acquire(self, t, real, lock, blocking, timeout):
        self.point(t)
        if real.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else CLOCK.mono + timeout
        while True:
            ok = self.block(t, lock, deadline)
            if real.acquire(False):
                return True
            if not ok:
                return False

    def lock_released(self, lock):
        for s in self.threads:
            if s.state == "blocked" and s.on is lock:
                s.state = "ready"
        t = CUR.get(_ident())
        if t is not None and t.sim is self:
            self.point(t)

    def sleep(self, dt):
        t = CUR.get(_ident())
        if t is None:
            return False
        self.block(t, self, CLOCK.mono + max(0.0, dt))
        return True

    def blocked(self):
        return [t.name for t in self.threads if t.state != "done"]


class masked:
    """No preemption inside (harness code called from simulated threads)."""

    def __enter__(self):
        self.t = CUR.get(_ident())
        if self.t is not None:
            self.t.mask += 1

    def __exit__(self, *exc):
        if self.t is not None:
            self.t.mask -= 1


# --------------------------------------------------------------------------- #
# monitoring of the code under test

_TOOL = 4
_mon = sys.monitoring
_codes = None
_extra_prefixes = []
_on_step = None    # optional single-threaded step hook


def watch(prefix):
    """Also treat files below ``prefix`` as code under test (plugin code)."""
    _extra_prefixes.append(prefix)


def _collect():
    import gc
    import types
    from sim.boot import SRC
    pref = (SRC + "/spey", *_extra_prefixes)
    seen = {}

    def add(code):
        if code in seen or code.co_name == "<module>":
            return
        seen[code] = code.co_filename
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    gc.unfreeze()
    for o in gc.get_objects():
        if type(o) is types.FunctionType and o.__code__.co_filename.startswith(pref):
            add(o.__code__)
    gc.freeze()
    return seen


def _on_line(code, line):
    t = CUR.get(_ident())
    if t is not None:
        t.sim.point(t)
    elif _on_step is not None:
        _on_step(code, line)


def _on_instr(code, off):
    t = CUR.get(_ident())
    if t is not None:
        t.sim.point(t)


_prepared = {}


def prepare(grain_instr=()):
    """Find the code objects once (in the parent process, before forking)."""
    global _codes
    if _codes is None:
        _codes = _collect()
        _mon.use_tool_id(_TOOL, "verif")
        _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
        _mon.register_callback(_TOOL, _mon.events.INSTRUCTION, _on_instr)


_active = None


def monitor_on(grain="line", only=None):
    """Deliver points for the code under test (stays on until changed)."""
    global _active
    prepare()
    if _active == (grain, only):
        return
    for code, fname in _codes.items():
        ev = _mon.events.LINE
        if grain == "instr" or (grain == "cache-instr" and fname.endswith("system/cache.py")):
            ev |= _mon.events.INSTRUCTION
        if grain == "none" or (only is not None and not fname.endswith(only)):
            ev = 0
        _mon.set_local_events(_TOOL, code, ev)
    _active = (grain, only)


def monitor_off():
    monitor_on("none")


class StepBudget(BaseException):
    """Raised into single-threaded code under test when it runs too long."""


class steps:
    """Count (and bound) the source lines executed by single-threaded code."""

    def __init__(self, limit=None):
        self.limit, self.n = limit, 0

    def _hook(self, code, line):
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            raise StepBudget(self.n)

    def __enter__(self):
        global _on_step
        _on_step = self._hook
        monitor_on("line")
        return self

    def __exit__(self, *exc):
        global _on_step
        monitor_off()
        _on_step = None
        return False
