"""L02: overlapping capture windows and queries of several threads."""
import contextlib
import io
import logging
import sys
import warnings

import numpy as np

import spey
from props import _models as M
from props.L01 import LEVELS, LOG, Handler, arrange, settings
from props.M01 import kindof, spec_of, world
from props.M02 import bad
from sim.clock import CLOCK
from sim.run import Violation
from sim.sched import Sim, masked
from sim.util import digest
from spey.hypothesis_testing import test_statistics as TS
from spey.system import logger as L

LEVEL = "exploration"
LEVEL_NOTE = ("samples thread schedules (pre-emption at source lines of spey and at lock operations) of nested capture windows, messages, warnings and queries, with failing streams, handlers and bodies; "
              "every window and handler is compared with a reference model of windows, and the settings with those before the first thread started")
TECHNIQUE = "deterministic simulation: seeded thread schedules of capture windows, messages and queries, refinement against a per-thread stack of windows"
RUNS = {"quick": 3000, "thorough": 60000}
BATCH = 4
SHRINK = ("threads", "ops", "decisions", "specs")

LV = [10, 20, 30, 40, 50]


class Boom(Exception):
    pass


class Rang(Exception):
    pass


class Cut(BaseException):
    pass


def gen_ops(rng, depth, specs, budget):
    ops = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.3 and depth < 3:
            ops.append(["win", rng.choice(LV + [0]), gen_ops(rng, depth + 1, specs, budget), rng.choice([None] * 6 + ["stream", "flush"])])
        elif r < 0.75:
            ops.append(["msg", rng.choice(LV), rng.choice(["x", "x", "y", "z"])])
        elif r < 0.80:
            ops.append(["raise", rng.choice(["Boom", "Boom", "Cut"])])
        elif r < 0.85:
            ops.append(["point"])
        elif r < 0.88:
            ops.append(["warn", rng.choice(["x", "y"])])
        elif specs and budget[0] > 0:
            budget[0] -= 1
            t = rng.randrange(len(specs))
            k = rng.choice(["likelihood", "maxlike", "chi2", "chi2", "gen_asimov", "cls", "cls", "cls_chi2", "signif", "limit", "asimov"])
            q = M.gen_query(rng, specs[t], kinds=[k])
            if not bad(q):
                ops.append(["ask", t, q])
    return ops


class Shim:
    """The module ``warnings`` as test_statistics sees it: its contexts touch the settings of this thread only (see KNOWN-FINDING teststat-filters)."""
    used = 0

    def __getattr__(self, name):
        return getattr(warnings, name)

    @staticmethod
    @contextlib.contextmanager
    def catch_warnings(record=False, **kw):
        Shim.used += 1
        with np.errstate(divide="ignore", invalid="ignore"):
            yield [] if record else None


def gen(rng, i, tier):
    plan = _gen(rng, i, tier)
    # one run in 60 has the original contexts of compute_teststatistics
    plan["teststat"] = "real" if i % 60 == 7 else "shim"
    if i % 60 == 7:
        for th in plan["threads"]:
            th["ops"] += [["stat"]] * rng.randint(1, 4)
        plan["sched"] = {"kind": "walk", "seed": plan["sched"]["seed"], "p": 0.5}
    return plan


def _gen(rng, i, tier):
    specs = [M.gen_model(rng, nmax=2, hostile=0.1) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    budget = [rng.choice([1, 2, 4])]
    n = rng.choice([2, 2, 2, 3, 4])
    threads = [{"ops": gen_ops(rng, 0, specs, budget)} for _ in range(n)]
    seed = rng.getrandbits(48)
    if rng.random() < 0.5:
        sched = {"kind": "walk", "seed": seed, "p": rng.choice([0.5, 0.3, 0.1, 0.03, 0.01] if not specs else [0.3, 0.1, 0.03, 0.01, 0.003])}
    else:
        sched = {"kind": "pct", "seed": seed, "depth": rng.choice([1, 2, 3, 5, 8]), "length": rng.choice([60, 200, 500] if not specs else [60, 300, 1500, 6000])}
    return {"specs": specs, "combs": [], "threads": threads, "sched": sched, "level": rng.choice(LEVELS), "root": rng.choice(LEVELS), "disable": 0,
            "warn": rng.choice([0, 1, 2, 3, 4, 5, 6, 7]), "err": 0, "filters": rng.randint(0, 1), "handlers": rng.randint(1, 2), "badhandler": rng.random() < 0.1,
            "own": rng.choice(LEVELS[1:]) if rng.random() < 0.15 else None, "second": rng.random() < 0.3}


class Out(io.StringIO):
    """The stream of a window; may fail when it is written or flushed."""

    def __init__(self, fail):
        super().__init__()
        self.fail = fail

    def write(self, s):
        if self.fail == "stream":
            raise OSError(28, "No space left on device")
        return super().write(s)

    def flush(self):
        if self.fail == "flush":
            raise OSError(5, "Input/output error")


class Ear(Handler):
    """Handler of the process: all probes with their level, by name."""
    armed = False

    def __init__(self, fails):
        super().__init__()
        self.fails = fails
        self.got = []

    def emit(self, record):
        m = record.getMessage()
        k = m.find("probe:")
        if k >= 0:
            self.got.append((m[k:].replace("\x1b[0m", ""), record.levelno))
        if self.fails and Ear.armed:
            raise Rang("handler")


def say(level, message, out):
    try:
        LOG.log(level, message)
    except Rang:
        out.fault("handler-raises")


def execute(plan, out):
    from sim import optimiser
    optimiser.CAP = 8
    spey.set_optimiser("scipy")
    old = sys.stdout, sys.stderr
    real = L.sys.stdout
    shim = hasattr(TS, "warnings") and plan.get("teststat") != "real"
    if shim:
        TS.warnings = Shim()
    Shim.used = 0
    try:
        run(plan, out)
    except Violation as v:
        if v.kind.startswith("changed-warning") and hasattr(TS, "warnings") and not shim:
            raise Violation("teststat-filters", str(v)) from v
        raise
    finally:
        if shim:
            TS.warnings = warnings
        out.count("warning-contexts-of-test-statistics", Shim.used)
        sys.stdout, sys.stderr = old
        logging.disable(0)
        np.seterr(all="warn")
        warnings.resetwarnings()
        for h in list(LOG.handlers):
            LOG.removeHandler(h)
        logging.raiseExceptions = True


def run(plan, out):
    Ear.armed = False
    arrange(plan)
    logging.raiseExceptions = False
    for h in list(LOG.handlers):
        LOG.removeHandler(h)
    ears = [Ear(plan["badhandler"] and k == plan["handlers"] - 1) for k in range(plan["handlers"])]
    for e in ears:
        LOG.addHandler(e)
    specs = plan["specs"]
    models = world(plan)
    start = settings()
    mine = None
    if plan["own"]:
        # the main thread's own window, open all the time
        s = io.StringIO()
        mine = (L.capture_logs(level=getattr(logging, plan["own"]), stream=s), s)
        mine[0].__enter__()
        LOG.critical("probe:main")
    before = settings()
    base = [LOG.getEffectiveLevel() if not mine else max(1, start["log level of Spey"] or start["log level of root"])]
    want = []           # (message, level) every handler has to get
    problems = []
    CLOCK.start()
    Ear.armed = True
    sim = Sim(plan["sched"], max_steps=3_000_000)

    def body(n, ops):
        state = {"k": 0}
        stack = []      # [level, messages seen, queries made inside]

        def do(ops):
            for op in ops:
                if op[0] == "msg":
                    m = "probe:%d:%s%d" % (n, op[2], op[1])
                    say(op[1], m, out)
                    with masked():
                        if stack:
                            if op[1] >= stack[-1][0] and (op[1], m) not in stack[-1][1]:
                                stack[-1][1].append((op[1], m))
                        elif op[1] >= base[0]:
                            want.append((m, op[1]))
                    out.count("messages")
                elif op[0] == "win":
                    window(op)
                elif op[0] == "raise":
                    out.fault("body-raises")
                    raise {"Boom": Boom, "Cut": Cut}[op[1]]("probe")
                elif op[0] == "stat":
                    # the branch of q-tilde with a warning context of its own
                    try:
                        TS.compute_teststatistics(1.0, (0.1, 1.0), lambda mu: -1.0 - 0.5 * mu * mu, (0.2, 1.0), lambda mu: -1.0 - 0.25 * mu * mu, "qtilde")
                    except Rang:
                        out.fault("handler-raises")
                elif op[0] == "point":
                    sim.point()
                elif op[0] == "warn":
                    try:
                        warnings.warn("verif probe " + op[1], UserWarning)
                    except UserWarning:
                        pass
                elif op[0] == "ask" and op[1] < len(specs):
                    try:
                        M.call(models[op[1]], op[2], M.Args())
                    except Exception:  # noqa: BLE001
                        out.count("queries-failed")
                    out.count("queries")

        def window(op):
            s = Out(op[3])
            # a window without a level has the one of the thread
            seen = [op[1] or (stack[-1][0] if stack else base[0]), []]
            got = None
            try:
                with L.capture_logs(level=op[1], stream=s):
                    stack.append(seen)
                    try:
                        do(op[2])
                    finally:
                        stack.pop()
            except (Boom, Cut) as err:
                got = err
            except OSError as err:
                got = err
                if not op[3]:
                    problems.append(("window-error", "a window of thread %d raised %r" % (n, err)))
            out.count("windows")
            with masked():
                if op[3]:
                    out.fault("%s-fails" % op[3])
                if op[3] != "stream":
                    lines = []
                    for l in s.getvalue().split("\n"):
                        k = l.find("probe:")
                        if k >= 0:
                            lines.append(l[k:].replace("\x1b[0m", ""))
                    exp = [m for _, m in seen[1]]
                    if lines != exp:
                        problems.append(("window", "a window of level %d in thread %d has shown %r instead of %r" % (op[1], n, lines, exp)))
            if isinstance(got, Cut):
                raise got

        def go():
            try:
                do(ops)
            except (Boom, Cut):
                pass
        return go

    for n, th in enumerate(plan["threads"]):
        sim.spawn(body(n, th["ops"]))
    how = sim.run()
    out.schedule = sim.decisions
    out.count("switches", sim.switches)
    out.count("preemption-points", sim.steps)
    out.simtime = CLOCK.mono
    if how != "finished":
        out.tainted = True
        if how == "budget":
            raise RuntimeError("step budget of the harness exceeded")
        raise Violation("deadlock", "threads %s never finish" % sim.blocked())
    for t in sim.threads:
        if t.error is not None:
            raise Violation("thread-error", "%s: %r" % (t.name, t.error))
    for p in problems:
        raise Violation(*p)
    for k, e in enumerate(ears):
        if sorted(e.got) != sorted(want):
            extra = list(e.got)
            missing = []
            for m in want:
                if m in extra:
                    extra.remove(m)
                else:
                    missing.append(m)
            raise Violation("handler", "handler %d: missing messages %r, messages that should not be there or are there twice %r (level %d)"
                            % (k, missing[:8], extra[:8], base[0]))
    check(before, "threads overlapped")
    if mine:
        LOG.critical("probe:main2")
        mine[0].__exit__(None, None, None)
        lines = [l[l.find("probe:"):].replace("\x1b[0m", "") for l in mine[1].getvalue().split("\n") if "probe:" in l]
        if lines != ["probe:main", "probe:main2"]:
            raise Violation("window", "the window of the main thread has shown %r" % lines)
        check(start, "the window of the main thread was closed")
    # later messages reach the handlers exactly once, and later windows work
    for e in ears:
        e.got.clear()
    for lv in LV:
        say(lv, "probe:later", out)
    exp = [("probe:later", lv) for lv in LV if lv >= base[0]]
    for k, e in enumerate(ears):
        if e.got != exp:
            raise Violation("later", "later messages reached handler %d as %r instead of %r" % (k, e.got, exp))
    s = io.StringIO()
    with L.capture_logs(level=20, stream=s):
        for lv in LV:
            LOG.log(lv, "probe:again%d", lv)
    lines = [l[l.find("probe:"):].replace("\x1b[0m", "") for l in s.getvalue().split("\n") if "probe:" in l]
    if lines != ["probe:again20", "probe:again30", "probe:again40", "probe:again50"]:
        raise Violation("later-window", "a later window of level 20 has shown %r" % lines)
    out.nontrivial = sim.switches > 2
    out.digest = digest(sim.digest, [e.got for e in ears])
    out.states = [sim.digest]


def check(before, what):
    after = settings()
    for k in before:
        if before[k] != after[k]:
            raise Violation("changed-" + k.split()[0].strip(","), "after %s, the %s are %s instead of %s" % (what, k, str(after[k])[:600], str(before[k])[:600]))


RULE = ("Each run: 2-4 threads with drawn programs of nested capture windows (levels, failing streams), repeated and unique messages of five levels, bodies that raise, warnings and (in 60% of the runs) queries that open windows "
        "and warning contexts of their own; drawn log levels, handlers (also failing), filters, warning filters and possibly a window of the main thread; random-walk or PCT schedules with pre-emption at any source line of spey and at lock operations. "
        "Non-trivial: more than two thread switches; distinct by the digest of the schedule and what the handlers got.")
REAL = ["spey (capture_logs, warning tracker, all of the query path)", "logging, warnings", "CPython threads (one runs at a time, chosen by the simulator)"]
STUB = ["threading locks (simulated, same semantics)", "clock (virtual)", "handlers and streams of the user, recording and failing"]
ASSUMPTIONS = ["fits are cut off after 8 iterations", "threads switch at source lines of spey and at lock operations, not inside logging, scipy, numpy or autograd",
               "the user does not change the log level or the warning filters while windows are open"]
STATES = "distinct thread schedules (digest of all switches)"
