"""L01: process-wide settings are as before after every query, whatever fails in it."""
import _thread
import decimal
import gc
import io
import locale
import logging
import os
import pathlib
import shutil
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np

import spey
from props import _models as M
from props.M01 import kindof, spec_of
from props import B01
from props.M04 import EXC, World
from sim import disk, net
from sim.clock import CLOCK
from sim.run import Violation
from sim.util import digest, in_fork
from spey.system import logger as L
from spey.system import webutils

LEVEL = "exploration"
LEVEL_NOTE = ("samples query histories under drawn settings (log levels, handlers, filters, open capture windows, warning filters, floating point states), with exceptions and interrupts "
              "injected at backend, evaluation, optimiser, log filter, log handler and output stream seams; all settings are compared before and after every step")
TECHNIQUE = "deterministic simulation: seeded query histories under drawn process settings with exceptions injected at every seam, settings compared around each step"
RUNS = {"quick": 900, "thorough": 30000}
BATCH = 1
SHRINK = ("ops", "specs", "combs")

LEVELS = ["NOTSET", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
LOG = logging.getLogger("Spey")


def gen(rng, i, tier):
    specs = [M.gen_model(rng, nmax=2, hostile=0.15) for _ in range(rng.choice([1, 1, 2]))]
    combs = [list(range(len(specs)))] if len(specs) > 1 and rng.random() < 0.5 else []
    nt = len(specs) + len(combs)
    ops = []
    for _ in range(rng.randint(2, 7)):
        t = rng.randrange(nt)
        sp = spec_of(specs, combs, t)
        q = M.gen_query(rng, sp, cheap=0.55, medium=0.3)
        if rng.random() < 0.1 and t < len(specs) and M.npar(specs[t]) > 1:
            q = {"q": "contour", "exp": "obs", "cseed": rng.randrange(3)}
        elif rng.random() < 0.1:
            t = rng.randrange(len(specs))
            q = {"q": "mixture", "exp": "obs", "at": [3.0, 7.0], "size": 3}
        elif rng.random() < 0.15:
            t, q = 0, {"q": "web", "ask": rng.choice(WEB), "wall": 1780000000.0,
                       "net": {h: [B01.gen_attempt(rng, 0.5, h) for _ in range(rng.choice([1, 2]))] for h in B01.HOSTS + ["pypi.org"]}}
        if q["q"] != "web" and rng.random() < 0.1:
            q = dict(q, quiet=rng.choice([10, 30, 40, 50]))
        fault = None
        if rng.random() < 0.7:
            u = rng.choice([rng.random(), rng.random() ** 3, 1 - rng.random() ** 3])
            fault = [round(u, 5), rng.choice(sorted(EXC)), rng.choice(["seam", "seam", "seam", "any", "log", "stream"])]
        ops.append([t, q, fault])
        if rng.random() < 0.25:
            ops.append(["set", rng.choice(["level", "warn", "err", "env"]), rng.randrange(1000)])
    return {"specs": specs, "combs": combs, "ops": ops, "opt": rng.choice(["scipy", "scipy", "scipy", "minuit"]),
            "level": rng.choice(LEVELS), "root": rng.choice(LEVELS), "disable": rng.choice([0, 0, 0, 0, 10, 20]), "warn": rng.randrange(1000),
            "err": rng.randrange(1000), "windows": [rng.choice(LEVELS[1:]) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
            "filters": rng.randint(0, 2), "handlers": rng.randint(1, 2), "slow": rng.random() < 0.3}


class Stream(io.StringIO):
    """Output of the process; may fail."""
    event = None

    def write(self, s):
        if self.event:
            self.event("stream")
        return super().write(s[:100])


class Handler(logging.Handler):
    event = None

    def __init__(self):
        super().__init__()
        self.seen = []

    def handle(self, record):
        if self.event:
            self.event("log")
        return super().handle(record)

    def emit(self, record):
        self.seen.append(str(record.msg)[:60])


class Filter(logging.Filter):
    event = None

    def filter(self, record):
        if self.event:
            self.event("log")
        return True


class W(World):
    """The world of M04, with logging and output as further seams."""
    only = None

    def event(self, where):
        if self.only == "seam" and where in ("log", "stream") or self.only in ("log", "stream") and where != self.only:
            return
        super().event(where)


def set_warn(k):
    warnings.resetwarnings()
    warnings.simplefilter(["ignore", "ignore", "always", "default", "once", "module"][k % 6])
    if k % 7 == 0:
        warnings.filterwarnings("error", message="verif .*", category=UserWarning)
    if k % 5 == 0:
        warnings.filterwarnings("ignore", category=RuntimeWarning, module="numpy")


def set_err(k):
    np.seterr(over=["warn", "ignore", "raise"][k % 3], divide=["warn", "ignore", "print"][k // 3 % 3], invalid=["warn", "ignore", "warn"][k // 9 % 3],
              under=["ignore", "ignore", "warn"][k // 27 % 3])


# what is asked about backends and at remote services
WEB = ["cite", "bibtex", "inspire/arxiv", "inspire/doi", "doi", "zenodo", "update", "update", "get_backend", "backend-bibtex", "metadata", "reset", "register"]


class Cited(M.Plugin):
    name = "verif.l01"
    spey_requires = ">=0.1.0"
    arXiv, doi, zenodo = ["1809.05548"], ["10.1000/xyz"], ["1"]


def web(w, q):
    """Questions that need no model, with scripted servers."""
    world = B01.World({"net": q["net"]})

    def attempt(p, host):
        w.event("network")
        return world.attempt(p, host)

    def body(a, host, path, head):
        w.event("server")
        if host == "pypi.org":
            return b'{"info": {"version": "99.0.0", "requires_python": ">=3.8"}}'
        return world.body(a, host, path, head)

    nw, ident = net.Network(attempt, body), _thread.get_ident()
    home, level = webutils._SPEY_DIR, q["ask"]
    tmp = tempfile.mkdtemp(prefix="verif-l01-")
    CLOCK.start(q["wall"])
    nw.install()
    disk.PROC[ident] = disk.Process("main")
    spey._backend_entries["verif.l01"] = Cited
    webutils._SPEY_DIR = pathlib.Path(tmp) / ".spey"
    try:
        if level == "cite":
            spey.cite()
        elif level == "bibtex":
            spey.get_backend_bibtex("verif.l01")
        elif level == "update":
            webutils.check_updates()
        elif level == "get_backend":
            spey.get_backend("verif.unknown")
        elif level == "backend-bibtex":
            spey.get_backend_bibtex("default.normal")
        elif level == "metadata":
            spey.get_backend_metadata("verif.l01")
        elif level == "reset":
            spey.reset_backend_entries()
        elif level == "register":
            spey.register_backend(type("Refused", (), {"name": "verif.refused"}))
        else:
            webutils.get_bibtex(level, "10.1000/xyz")
    finally:
        disk.PROC.pop(ident, None)
        nw.uninstall()
        CLOCK.stop()
        webutils._SPEY_DIR = home
        shutil.rmtree(tmp, ignore_errors=True)


def settings():
    """Everything process-wide a query might use for itself."""
    root = logging.getLogger()
    s = {}
    for name, lg in (("Spey", LOG), ("root", root)):
        s["log level of %s" % name] = lg.level
        s["handlers of %s" % name] = [(id(h), h.level, [id(f) for f in h.filters], id(h.formatter)) for h in lg.handlers]
        s["filters of %s" % name] = [id(f) for f in lg.filters]
        s["propagation or state of %s" % name] = (lg.propagate, lg.disabled)
    s["log levels of others"] = [(n, logging.getLogger(n).level, logging.getLogger(n).disabled, logging.getLogger(n).propagate)
                                 for n in ("urllib3", "urllib3.connectionpool", "requests", "py.warnings", "joblib", "matplotlib")]
    s["logging.disable"] = root.manager.disable
    s["logger class, record factory"] = (logging.getLoggerClass(), logging.getLogRecordFactory(), logging.raiseExceptions, logging.lastResort)
    s["warning filters"] = [tuple(repr(v) for v in f) for f in warnings.filters]
    s["warnings.showwarning"] = (id(warnings.showwarning), id(getattr(warnings, "_showwarnmsg_impl", None)), id(warnings.formatwarning))
    s["floating point errors"] = (sorted(np.geterr().items()), id(np.geterrcall()))
    s["environment"] = dict(os.environ)
    s["import path"] = list(sys.path)
    s["working directory"] = os.getcwd()
    s["standard streams"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    s["signal handlers"] = [signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]
    s["hooks"] = (sys.excepthook, sys.displayhook, threading.excepthook, sys.getrecursionlimit(), sys.gettrace() is None, sys.getprofile() is None)
    s["garbage collection"] = (gc.isenabled(), gc.get_threshold())
    s["decimal, locale, umask"] = (repr(decimal.getcontext()), locale.setlocale(locale.LC_ALL), umask())
    s["time-out of sockets"] = socket.getdefaulttimeout()
    s["printing of numbers"] = repr(sorted(np.get_printoptions().items(), key=lambda p: p[0]))
    return s


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def compare(before, what):
    after = settings()
    for k in before:
        if before[k] != after[k]:
            a, b = before[k], after[k]
            if isinstance(a, dict):
                a, b = ({x: y for x, y in p.items() if o.get(x) != y} for p, o in ((a, b), (b, a)))
            raise Violation("changed-" + k.split()[0].strip(","), "%s changed the %s from %s to %s" % (what, k, str(a)[:500], str(b)[:500]))


def arrange(plan):
    """The drawn settings; returns the handlers, filters and streams."""
    for h in list(LOG.handlers):
        LOG.removeHandler(h)
    for f in [f for f in LOG.filters if isinstance(f, Filter)]:
        LOG.removeFilter(f)
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(Handler())
    hs = [Handler() for _ in range(plan["handlers"])]
    fs = [Filter() for _ in range(plan["filters"])]
    for h in hs:
        LOG.addHandler(h)
    for f in fs:
        LOG.addFilter(f)
    LOG.setLevel(plan["level"])
    root.setLevel(plan["root"])
    logging.disable(plan["disable"])
    set_warn(plan["warn"])
    set_err(plan["err"])
    sys.stdout, sys.stderr = Stream(), Stream()
    return hs, fs


def ask(w, t, q, arm, only):
    w.n, w.arm, w.fired, w.only = 0, arm, None, only
    try:
        if q["q"] == "web":
            web(w, q)
        elif "quiet" in q:
            with L.disable_logging(q["quiet"]):
                M.call(w.models[t], q, M.Args())
        else:
            M.call(w.models[t], q, M.Args())
        err = None
    except BaseException as e:  # noqa: BLE001
        err = e
    w.arm = None
    return err


def execute(plan, out):
    from sim import optimiser
    optimiser.CAP, optimiser.CAP_MINUIT = 60, 600
    spey.set_optimiser(plan["opt"])
    nt = len(plan["specs"]) + len(plan["combs"])
    old = sys.stdout, sys.stderr
    try:
        run(plan, out, nt)
    finally:
        Stream.event = Handler.event = Filter.event = None
        sys.stdout, sys.stderr = old
        logging.disable(0)
        np.seterr(all="warn")
        warnings.resetwarnings()


def run(plan, out, nt):
    hs, _ = arrange(plan)

    def events():
        """How many events every query has on a fresh model, by seam."""
        w = W(plan)
        Stream.event = Handler.event = Filter.event = staticmethod(w.event)
        res = []
        for op in plan["ops"]:
            if op[0] == "set" or not op[2] or op[0] >= nt:
                res.append(0)
            else:
                ask(w, op[0], op[1], None, op[2][2])
                res.append(w.n)
        return res

    # windows of the user, closed in the end
    start = settings()
    wins = []
    for lv in plan["windows"]:
        c = L.capture_logs(level=getattr(logging, lv), stream=io.StringIO())
        c.__enter__()
        wins.append(c)
    before = settings()
    n = in_fork(events)
    w = W(plan)
    Stream.event = Handler.event = Filter.event = staticmethod(w.event)
    compare(before, "building the models")
    trace = []
    for k, op in enumerate(plan["ops"]):
        if op[0] == "set":
            if op[1] == "level" and not wins:
                LOG.setLevel(LEVELS[op[2] % 6])
            elif op[1] == "warn":
                set_warn(op[2])
            elif op[1] == "err":
                set_err(op[2])
            elif op[1] == "env":
                os.environ["VERIF_X"] = str(op[2])
            before = settings()
            trace.append(op)
            continue
        t, q, fault = op
        if t >= nt:
            continue
        arm = None
        if fault and n[k]:
            arm = (1 + min(n[k] - 1, int(fault[0] * n[k])), EXC[fault[1]]("injected"))
        err = ask(w, t, q, arm, fault[2] if fault else None)
        w.only = "none"
        what = "query %r of %r with %s%s" % (q, kindof(plan, t), plan["opt"],
                                             " in which %r was raised by the %s" % (w.fired[1], w.fired[0]) if w.fired else "")
        compare(before, what)
        if w.fired:
            out.fault("%s-raises" % w.fired[0])
        out.count("queries-failed" if err is not None else "queries-answered")
        trace.append([q["q"], w.fired and w.fired[0], type(err).__name__])
        if not wins and not plan["disable"]:
            # a message of the user arrives exactly once
            for lv in (10, 20, 30, 40):
                for h in hs:
                    h.seen.clear()
                LOG.log(lv, "verif probe")
                want = 1 if lv >= LOG.getEffectiveLevel() else 0
                for h in hs:
                    if len(h.seen) != want:
                        raise Violation("probe", "after %s a message of level %d reached a handler %d times instead of %d" % (what, lv, len(h.seen), want))
    if not any(op[0] == "set" for op in plan["ops"]):
        for c in reversed(wins):
            c.__exit__(None, None, None)
        compare(start, "a history of queries within %d windows" % len(wins))
    out.nontrivial = len(trace) > 0
    out.digest = digest(trace)
    out.states = [digest(trace)]


RULE = ("Each run: drawn log levels, handlers, filters, open capture windows, warning filters, floating point error states and optimiser; 1-2 models of 13 kinds (and their combination), 2-7 queries of 22 kinds "
        "(contours and mixtures included), 70% with one of 13 exception classes raised at a drawn event of a drawn seam; settings changed by the user in between. Non-trivial: a query was made; "
        "distinct by the sequence of (query, seam, exception).")
REAL = ["spey (all of the query path, logger, warning tracker)", "logging, warnings, numpy's error state", "scipy, autograd, numpy, iminuit"]
STUB = ["backend methods, user functions and scipy.optimize.minimize are wrapped to count events and to raise",
        "log handlers, log filters and standard streams of the user are replaced by ones that count events and raise"]
ASSUMPTIONS = ["exceptions arrive while code outside of spey runs (backend, user function, optimiser, log filter, handler, stream), not between two lines of spey"]
STATES = "distinct sequences of (query, seam, exception class)"
