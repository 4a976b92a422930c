"""M04: queries that fail or are interrupted anywhere leave the model fully usable."""
import numpy as np

import spey
from props import _models as M
from props.M01 import kindof, spec_of
from sim import optimiser
from sim.run import Violation
from sim.util import digest, in_fork

LEVEL = "exploration"
LEVEL_NOTE = ("samples query histories in which backend methods, likelihood evaluations, user functions and optimiser calls raise exceptions and interrupts at drawn points; "
              "the outcome is compared with the injected exception and later answers with fresh models")
TECHNIQUE = "deterministic simulation: seeded query histories with exceptions and interrupts injected at every backend, evaluation and optimiser seam"
RUNS = {"quick": 900, "thorough": 20000}
BATCH = 1
SHRINK = ("ops", "specs", "combs")


class Fail(Exception):
    pass


class FailBase(BaseException):
    pass


EXC = {"Fail": Fail, "FailBase": FailBase, "interrupt": KeyboardInterrupt, "value": ValueError, "memory": MemoryError,
       "linalg": np.linalg.LinAlgError, "float": FloatingPointError, "timeout": TimeoutError, "type": TypeError, "key": KeyError,
       "exit": SystemExit, "attribute": AttributeError, "runtime": RuntimeError}


class World:
    """Models whose backends, user functions and optimiser calls count events and may raise."""

    METHODS = ["config", "get_objective_function", "get_logpdf_func", "get_hessian_logpdf_func", "get_sampler", "expected_data"]

    def __init__(self, plan):
        self.n = 0
        self.arm = None        # (event number, exception)
        self.fired = None
        self.models = []
        for k, s in enumerate(plan["specs"]):
            a = None
            if s["kind"] not in ("plugin", "plugin2"):
                a = M.arguments(s)
                for key, v in a.items():
                    if callable(v):
                        a[key] = self.fn(v, "user-function")
            m = M.build(s, plan["names"][k] if "names" in plan else "m%d" % k, args=a)
            for name in self.METHODS:
                real = getattr(m.backend, name)
                setattr(m.backend, name, self.method(real, name))
            self.models.append(m)
        for c in plan["combs"]:
            self.models.append(spey.UnCorrStatisticsCombiner(*[self.models[k] for k in c if k < len(plan["specs"])], ntoys=4))
        optimiser.HOOK = self.hook

    def event(self, where):
        self.n += 1
        if self.arm is not None and self.n == self.arm[0]:
            self.fired = (where, self.arm[1])
            self.arm = None
            raise self.fired[1]

    def fn(self, real, where):
        def call(*a, **k):
            self.event(where)
            return real(*a, **k)
        return call

    def method(self, real, name):
        def call(*a, **k):
            self.event(name)
            r = real(*a, **k)
            return self.fn(r, "evaluation" if name != "get_sampler" else "sampling") if callable(r) and name.startswith("get_") else r
        return call

    def hook(self, real, kw):
        self.event("optimiser")
        r = real(**kw)
        self.event("optimiser-end")
        return r

    def ask(self, t, q, arm=None):
        """Canonical answer and the exception raised."""
        self.n, self.arm, self.fired = 0, arm, None
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = M.call(self.models[t], q, M.Args())
            except BaseException as err:  # noqa: BLE001
                self.arm = None
                return M.canon(err), err
        self.arm = None
        return M.canon(r), None


def gen(rng, i, tier):
    specs = [M.gen_model(rng, hostile=0.15) for _ in range(rng.choice([1, 1, 2]))]
    combs = [list(range(len(specs)))] if len(specs) > 1 and rng.random() < 0.6 else []
    nt = len(specs) + len(combs)
    ops, asked = [], []
    for _ in range(rng.randint(2, 6)):
        t = rng.randrange(nt)
        sp = spec_of(specs, combs, t)
        if asked and rng.random() < 0.4:
            t, q = rng.choice(asked)
            if rng.random() < 0.3:
                q = M.near(rng, spec_of(specs, combs, t), q)
        else:
            q = M.gen_query(rng, sp, cheap=0.7, medium=0.24)
        fault = None
        scan = sp["kind"] in M.ONE_PAR and rng.random() < 0.1
        if scan:
            q = M.gen_query(rng, sp, kinds=["chi2_test"])
        elif sp["kind"] not in ("comb", "plugin") and M.npar(sp) > 1 and not sp.get("edge") and rng.random() < 0.08:
            scan, q = True, {"q": "contour", "exp": "obs", "cseed": rng.randrange(3)}
        if rng.random() < 0.7:
            u = rng.choice([rng.random(), rng.random() ** 3, 1 - rng.random() ** 3])
            fault = [round(u, 5), rng.choice(["FailBase", "exit", "interrupt"] if scan else sorted(EXC))]
        ops.append([t, q, fault])
        asked.append((t, q))
        if fault and rng.random() < 0.6:
            ops.append([t, q, None])
    return {"specs": specs, "combs": combs, "ops": ops, "opt": rng.choice(["scipy", "scipy", "scipy", "minuit"])}


def execute(plan, out):
    M.quiet()
    spey.set_optimiser(plan["opt"])
    refs = {}
    nt = len(plan["specs"]) + len(plan["combs"])

    def reference(t, q):
        def job():
            w = World(plan)
            a, _ = w.ask(t, q)
            return a, w.n
        return in_fork(job)

    for t, q, _ in plan["ops"]:
        k = (t, repr(q))
        if t < nt and k not in refs:
            refs[k] = reference(t, q)
    w = World(plan)
    trace = []
    for t, q, fault in plan["ops"]:
        if t >= nt:
            continue
        want, n = refs[(t, repr(q))]
        what = "query %r of %r with %s" % (q, kindof(plan, t), plan["opt"])
        arm = None
        if fault and n:
            arm = (1 + min(n - 1, int(fault[0] * n)), EXC[fault[1]]("injected"))
        got, err = w.ask(t, q, arm)
        out.count("queries")
        if w.fired is not None:
            where, exc = w.fired
            out.fault("%s-raises" % where)
            out.count("raised-" + fault[1])
            trace.append([q["q"], where, fault[1], err is exc])
            if err is exc:
                continue
            # the scans of a chi-square test leave out points that failed
            # (and so do those for a contour)
            if q["q"] in ("chi2_test", "contour") and isinstance(exc, Exception):
                out.count("answered-without-what-failed")
                continue
            # a combination may do without the first guess of its fit
            if err is None and kindof(plan, t) == "comb" and isinstance(exc, Exception):
                out.count("answered-without-what-failed")
                # (a fit that does not converge ends somewhere else from another start)
                hard = any(s.get("edge") for s in plan["specs"]) or q.get("opt", {}).get("maxiter", 99) < 10
                if q["q"] == "maxlike" and not hard and not M.close(nll(got, q), nll(want, q), 1e-3, 1e-3):
                    raise Violation("wrong-answer", "%s: %r was raised by %s and the answer was %s instead of %s"
                                    % (what, exc, where, str(got)[:300], str(want)[:300]))
                continue
            if err is not None and kindof(plan, t) == "comb" and isinstance(exc, Exception) and M.canon(err) == want:
                continue
            if err is None:
                raise Violation("swallowed", "%s: %r was raised by %s but the query returned %s" % (what, exc, where, str(got)[:300]))
            raise Violation("other-exception", "%s: %r was raised by %s but the query raised %r" % (what, exc, where, err))
        trace.append([q["q"], repr(got)])
        if isinstance(got, list) and got and got[0] == "err" and isinstance(want, list) and want and want[0] == "err":
            if got[1] != want[1]:
                raise Violation("other-error", "%s raised %r but a fresh model raises %r" % (what, got, want))
        elif not M.close(got, want, 1e-8, 1e-10):
            raise Violation("damaged", "after failed queries, %s gave %s but a fresh model gives %s" % (what, str(got)[:600], str(want)[:600]))
    out.nontrivial = bool(out.faults)
    out.digest = digest(trace)
    out.states = [digest([x[:3] for x in trace if len(x) == 4])]


def nll(answer, q):
    """The minimum of an answered fit."""
    v = answer[1] if isinstance(answer, list) and len(answer) == 2 else answer
    if isinstance(v, float) and not q["nll"]:
        v = -float(np.log(v)) if v > 0 else v
    return v


RULE = ("Each run: 1-2 models of 13 kinds (and their combination), 2-12 queries of 21 kinds (contours included); 70% of the drawn queries raise one of 13 exception classes (interrupts and exits included) at a "
        "drawn event: a call of a backend method, an evaluation of a likelihood, gradient, Hessian or sampler, a function given by the user (inside of autograd's tracing), "
        "the start or the end of an optimiser call; scipy or minuit. Non-trivial: an exception fired; distinct by the digest of faults and answers.")
REAL = ["spey (all of the query path, all built-in backends)", "scipy, autograd, numpy, iminuit"]
STUB = ["backend methods, user functions and scipy.optimize.minimize are wrapped to count events and to raise",
        "two of the 13 model kinds are third-party backends written for the check"]
ASSUMPTIONS = ["NotImplementedError is not injected: it is spey's signal for a missing feature",
               "exceptions arrive while code outside of spey runs (backend, user function, optimiser), not between two lines of spey",
               "a combination may answer without its first guess when computing it failed; the scans of a chi-square test leave out points at which an exception (not an interrupt) was raised",
               "fits are cut off after 200 iterations of scipy (2000 calls of minuit) on both sides"]
STATES = "distinct sequences of (query, seam, exception class)"
