"""O01: scripted optimiser outcomes against the promises of the retry loop."""
import copy
import logging

import numpy as np
import scipy.optimize

import spey
from props import _models as M
from sim import optimiser
from sim.run import Violation
from sim.util import digest
from spey.base.model_config import ModelConfig
from spey.optimizer.core import fit

LEVEL = "exploration"
LEVEL_NOTE = ("samples sequences of converging and failing optimiser outcomes, bound patterns, fixed parameters, options and queries; every call of the optimiser and "
              "the log are compared with the retry rules")
TECHNIQUE = "deterministic simulation: scripted optimiser outcomes (failures, stops at odd points, undefined values) injected into fits and queries, checked against an executable retry model"
RUNS = {"quick": 6000, "thorough": 200000}
BATCH = 25
SHRINK = ("fits",)

METHODS = ["SLSQP", "SLSQP", "SLSQP", "L-BFGS-B", "Nelder-Mead", "trust-constr", None]


def gen_outcomes(rng, n):
    """Outcome per attempt; the last one is repeated."""
    res = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.15:
            res.append(["real"])
            continue
        where = rng.choice(["in", "in", "start", "low", "up", "nan", "inf", "far"])
        res.append(["ok" if rng.random() < 0.2 else "fail", where, [round(rng.uniform(0, 1), 4) for _ in range(n)],
                    rng.choice(["true", "true", "nan", "inf", "-inf", "other"])])
    return res


def gen_bounds(rng, n, poi):
    res = []
    for k in range(n):
        lo = rng.choice([None, None, 0.0, -1.0, -5.0, -0.25, 0.1, 1.0, "-inf", -40.0])
        up = rng.choice([None, None, 10.0, 5.0, 40.0, 1.5, "inf", 100.0])
        if isinstance(lo, float) and lo < -1 and rng.random() < 0.4:
            up = rng.choice([-0.5, 0.0, -1.5])
        res.append([lo, up])
    return res


def gen(rng, i, tier):
    fits = []
    for _ in range(rng.randint(1, 3)):
        opts = {}
        if rng.random() < 0.85:
            opts["ntrials"] = rng.choice([1, 2, 3, 3, 4, 6, 0, -1])
        if rng.random() < 0.3:
            opts["maxiter"] = rng.choice([1, 3, 50])
        if rng.random() < 0.3:
            opts["tol"] = rng.choice([1e-3, 1e-8])
        if rng.random() < 0.15:
            opts["disp"] = False
        if rng.random() < 0.4:
            n = rng.randint(1, 4)
            poi = rng.randrange(n)
            f = {"what": "fit", "n": n, "poi": poi, "opts": opts, "grad": rng.random() < 0.4, "hess": rng.random() < 0.1,
                 "logpdf": rng.random() < 0.5,
                 "init": [round(rng.uniform(1.05, 1.45), 3) for _ in range(n)],
                 "give_init": rng.random() < 0.4,
                 "bounds": gen_bounds(rng, n, poi), "give_bounds": rng.choice(["no", "no", "list", "lists", "array"]),
                 "min": rng.choice([-1.0, -7.5, 0.0]),
                 "fix": rng.choice(["no", "no", "poi", "dict"]), "sfix": [rng.random() < 0.2 for _ in range(n)] if rng.random() < 0.3 else None,
                 "fixval": [round(rng.uniform(0.1, 1.4), 3) for _ in range(n)], "fixdict": [k for k in range(n) if rng.random() < 0.5],
                 "con": rng.random() < 0.3, "level": rng.choice(["WARNING", "DEBUG", "INFO"]),
                 "sols": gen_outcomes(rng, n)}
            if rng.random() < 0.4:
                f["opts"]["method"] = rng.choice(METHODS[:-1])
        else:
            spec = M.gen_model(rng)
            n = M.npar(spec)
            f = {"what": rng.choice(["likelihood", "maxlike", "maxlike"]), "spec": spec, "mu": rng.choice([0.0, 1.0, 2.0, 0.3, -0.2, 60.0]), "n": n,
                 "exp": rng.choice(["obs", "prior", "obs"]), "neg": rng.random() < 0.5, "fix": rng.choice([None, None, None, 1.0]),
                 "opts": opts, "level": "WARNING", "sols": gen_outcomes(rng, n)}
            if rng.random() < 0.2:
                f["opts"]["do_grad"] = False
            if rng.random() < 0.2:
                f["opts"]["method"] = "SLSQP"
        f["minimizer"] = rng.choice(["", "", "", "", "scipy", "unknown", "minuit"])
        if f["minimizer"] == "minuit":
            f["opts"].pop("method", None)
        fits.append(f)
    return {"fits": fits}


def num(v):
    return {"inf": float("inf"), "-inf": float("-inf"), "nan": float("nan")}.get(v, v)


class Watch(logging.Handler):
    def __init__(self, trace):
        super().__init__()
        self.trace = trace

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.trace.append(("log", record.levelno, record.getMessage()))


def place(where, u, x0, bounds):
    x = np.array([float(v) for v in x0])
    n = len(x)
    for k in range(n):
        lo, up = (None, None) if bounds is None else bounds[k]
        lo = x[k] - 1 if lo is None or not np.isfinite(lo) else lo
        up = x[k] + 1 if up is None or not np.isfinite(up) else up
        x[k] = {"in": lo + u[k % len(u)] * (up - lo), "start": x[k], "low": lo, "up": up, "nan": np.nan, "inf": np.inf,
                "far": 1e6 * (u[k % len(u)] - 0.5)}[where]
    return x


class Script:
    """Stands in for scipy.optimize.minimize and records every call and log message."""

    def __init__(self, sols):
        self.sols, self.trace, self.calls = sols, [], []

    def hook(self, real, kw):
        k = len(self.calls)
        sol = self.sols[min(k, len(self.sols) - 1)]
        kw = dict(kw)
        cons = kw.get("constraints", ())
        rec = {"fun": kw["fun"], "x0": np.array([float(v) for v in kw["x0"]]),
               "bounds": None if kw.get("bounds") is None else [tuple(b) for b in kw["bounds"]],
               "cons": list(cons) if isinstance(cons, (list, tuple)) else [cons],
               "sol": sol[0] if sol[0] == "real" else sol[1], "jac": kw.get("jac"), "hess": kw.get("hess"), "method": kw.get("method"), "tol": kw.get("tol"),
               "options": copy.deepcopy(dict(kw.get("options") or {}))}
        if sol[0] == "real" and not np.all(np.isfinite(rec["x0"])):
            sol = ["fail", "start", [0.5], "true"]      # scipy may not come back from there
        if sol[0] == "real":
            kw["options"] = dict(kw.get("options") or {}, maxiter=min(200, rec["options"].get("maxiter", 200)))
            try:
                opt = real(**kw)
            except (ValueError, FloatingPointError, np.linalg.LinAlgError):
                opt = scipy.optimize.OptimizeResult(x=rec["x0"].copy(), fun=float("nan"), success=False, message="real one failed", nit=1, status=9)
        else:
            x = place(sol[1], sol[2], rec["x0"], rec["bounds"])
            v = sol[3]
            if v == "true":
                try:
                    with np.errstate(all="ignore"):
                        r = kw["fun"](x)
                    v = float(np.ravel(r[0] if isinstance(r, tuple) else r)[0])
                except Exception:  # noqa: BLE001 - the objective may be undefined there
                    v = float("nan")
            else:
                v = 12.5 if v == "other" else num(v)
            opt = scipy.optimize.OptimizeResult(x=x, fun=v, success=sol[0] == "ok", message="scripted outcome %d" % k, nit=1, status=0)
        opt.success = bool(opt.success)
        rec.update(x=np.array(opt.x, dtype=float).copy(), val=opt.fun, success=opt.success)
        self.calls.append(rec)
        self.trace.append(("attempt", k))
        return opt


def same(a, b):
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float), equal_nan=True)


def lower(b):
    return -np.inf if b is None else float(b)


def upper(b):
    return np.inf if b is None else float(b)


def pinned(rec, idx, val, n):
    """Parameter idx is held at val in this attempt."""
    if rec["bounds"] is not None and rec["bounds"][idx] == (val, val):
        return True
    a = np.full(n, 0.7712)
    a[idx] = val
    b = a.copy()
    b[idx] += 0.25
    c = a + 0.375
    c[idx] = val
    for con in rec["cons"]:
        if isinstance(con, dict) and con.get("type") == "eq":
            if np.all(np.abs(con["fun"](a)) < 1e-12) and np.all(np.abs(con["fun"](c)) < 1e-12) and np.all(np.abs(con["fun"](b)) > 1e-3):
                return True
    return False


def judge(what, s, ntrials, poi, n, fixed, con):
    calls = s.calls
    want = max(1, ntrials)
    for k, c in enumerate(calls):
        if c["success"]:
            want = min(want, k + 1)
            break
    if len(calls) != want:
        raise Violation("attempts", "%s: the optimiser was called %d times, expected %d (converged: %s, at most %d allowed)"
                        % (what, len(calls), want, [c["success"] for c in calls], max(1, ntrials)))
    first = calls[0]
    for k, c in enumerate(calls):
        for idx, val in fixed.items():
            if not pinned(c, idx, val, n):
                raise Violation("not-fixed", "%s: parameter %d is not held at %r in attempt %d" % (what, idx, val, k))
        if con is not None and not any(isinstance(x, dict) and x.get("fun") is con for x in c["cons"]):
            raise Violation("constraint-lost", "%s: the constraint of the user is missing in attempt %d" % (what, k))
        for key in ("jac", "method", "tol", "options"):
            if c[key] != first[key]:
                raise Violation("other-options", "%s: attempt %d has %s %r instead of %r" % (what, k, key, c[key], first[key]))
        if len(c["cons"]) != len(first["cons"]):
            raise Violation("other-constraints", "%s: attempt %d has %d constraints instead of %d" % (what, k, len(c["cons"]), len(first["cons"])))
        if not k:
            continue
        p = calls[k - 1]
        if not same(c["x0"], p["x"]):
            raise Violation("restart", "%s: attempt %d starts at %s instead of %s where the previous one stopped" % (what, k, c["x0"], p["x"]))
        if (c["bounds"] is None) != (p["bounds"] is None):
            raise Violation("bounds", "%s: attempt %d has bounds %r after %r" % (what, k, c["bounds"], p["bounds"]))
        for b, ((l0, u0), (l1, u1)) in enumerate(zip(p["bounds"] or [], c["bounds"] or [])):
            text = "%s: parameter %d%s may vary in %r in attempt %d after %r" % (what, b, " (of interest)" if b == poi else "", (l1, u1), k, (l0, u0))
            if lower(l1) > lower(l0) or upper(u1) < upper(u0) or np.isnan(lower(l1)) or np.isnan(upper(u1)):
                raise Violation("region-shrunk", text)
            if b == poi and lower(l1) != lower(l0):
                raise Violation("poi-lower-bound", text)
            if (l0 is None) != (l1 is None) or (u0 is None) != (u1 is None):
                raise Violation("bounds", text)
            f = 2.0 if b == poi else 10.0
            if u0 is not None and u0 > 0 and np.isfinite(u0) and not np.isclose(u1, f * u0, rtol=1e-9):
                raise Violation("not-widened", text)
            if b != poi and l0 is not None and l0 < 0 and np.isfinite(l0) and not np.isclose(l1, f * l0, rtol=1e-9):
                raise Violation("not-widened", text)
        if b_len(c) != n:
            raise Violation("bounds", "%s: attempt %d has %d bounds" % (what, k, b_len(c)))
    last = max(k for k, t in enumerate(s.trace) if t[0] == "attempt")
    warned = [t for t in s.trace[last + 1:] if t[0] == "log"]
    if not calls[-1]["success"] and not warned:
        raise Violation("not-reported", "%s: no attempt converged but no warning was given" % what)
    if calls[-1]["success"] and warned:
        raise Violation("false-warning", "%s: the fit converged but a warning was given: %r" % (what, warned))


def b_len(c):
    return len(c["x0"]) if c["bounds"] is None else len(c["bounds"])


def direct(f, s, out):
    n, poi = f["n"], f["poi"]
    grad = f["grad"]

    def func(x):
        x = np.asarray(x, dtype=float)
        v = float(np.sum((x - 0.6) ** 2 * (1 + np.arange(n))) + 0.25 * np.sum(x[:1] * x[-1:]))
        if not grad:
            return v
        g = 2 * (x - 0.6) * (1 + np.arange(n))
        g[0] += 0.25 * x[-1]
        g[-1] += 0.25 * x[0]
        return v, g

    bounds = [(num(lo), num(up)) for lo, up in f["bounds"]]
    config = ModelConfig(poi, f["min"], list(f["init"]), copy.deepcopy(bounds), suggested_fixed=None if f["sfix"] is None else list(f["sfix"]))
    kw = dict(f["opts"])
    if f["minimizer"]:
        kw["minimizer"] = f["minimizer"]
    if f["hess"]:
        kw["hessian"] = lambda x: 2 * np.diag(1.0 + np.arange(n))
    given = {"list": list(bounds), "lists": [list(b) for b in bounds], "array": np.array([list(b) for b in bounds], dtype=object)}.get(f["give_bounds"])
    if given is not None:
        kw["bounds"] = given
    init = list(f["init"])
    if f["give_init"]:
        init = [v + 0.01 for v in init]
        kw["initial_parameters"] = np.array(init)
    fixed = {}
    if f["fix"] == "poi":
        fixed = {poi: f["fixval"][poi]}
        kw["fixed_poi_value"] = f["fixval"][poi]
    elif f["fix"] == "dict":
        fixed = {k: f["fixval"][k] for k in f["fixdict"] if k < n}
        kw["fixed_poi_value"] = dict(fixed)
    for k, v in fixed.items():
        init[k] = v
    for k, on in enumerate(f["sfix"] or []):
        if on:
            fixed[k] = init[k]
    con = None
    if f["con"]:
        def con(x):
            return 30.0 - x[0]
        kw["constraints"] = [{"type": "ineq", "fun": con}]
    if f["logpdf"]:
        kw["logpdf"] = lambda x: 3.0 - float(np.sum(np.asarray(x)))
    minuit = f["minimizer"] == "minuit"
    what = "fit of %d parameters (%s)" % (n, {k: v for k, v in f.items() if k not in ("sols", "n", "what")})
    fun, x = fit(func, config, do_grad=grad, **kw)
    if config.suggested_bounds != bounds or list(config.suggested_init) != list(f["init"]):
        raise Violation("config-changed", "%s: the configuration became %r, %r" % (what, config.suggested_bounds, config.suggested_init))
    if f["con"] and len(kw["constraints"]) != 1:
        raise Violation("argument-changed", "%s: the list of constraints became %r" % (what, kw["constraints"]))
    if minuit:
        # a value that the bounds do not allow can not be kept
        ok = {k: v for k, v in fixed.items() if lower(bounds[k][0]) <= v <= upper(bounds[k][1])}
        return judge_minuit(what, s, ok, fun, x, f["logpdf"], n, free=set(range(n)) - set(fixed))
    judge(what, s, f["opts"].get("ntrials", 1), poi, n, fixed, con)
    first, last = s.calls[0], s.calls[-1]
    if not same(first["x0"], init):
        raise Violation("start", "%s: started from %s instead of %s" % (what, first["x0"], init))
    if f["give_bounds"] != "no" and first["bounds"] != bounds:
        raise Violation("start-bounds", "%s: started with the bounds %r instead of %r" % (what, first["bounds"], bounds))
    if f["give_bounds"] == "no":
        for k, b in enumerate(first["bounds"] or []):
            if (k not in fixed or k in (kk for kk, on in enumerate(f["sfix"] or []) if on)) and not (k == poi and f["fix"] == "poi") and b != bounds[k]:
                if k in fixed and f["fix"] == "dict" and k in f["fixdict"]:
                    continue
                raise Violation("start-bounds", "%s: parameter %d started with the bounds %r instead of %r" % (what, k, b, bounds[k]))
    if bool(first["jac"]) != grad or first["tol"] != f["opts"].get("tol", 1e-6) or first["options"].get("maxiter") != f["opts"].get("maxiter", 10000):
        raise Violation("options", "%s: the optimiser was given jac %r, tol %r, options %r" % (what, first["jac"], first["tol"], first["options"]))
    if first["method"] != f["opts"].get("method", "SLSQP"):
        raise Violation("options", "%s: the optimiser was given method %r" % (what, first["method"]))
    if not same(x, last["x"]):
        raise Violation("not-last-result", "%s: returned the parameters %s, the last attempt gave %s" % (what, x, last["x"]))
    value = kw["logpdf"](last["x"]) if f["logpdf"] else last["val"]
    if not same(fun, value):
        raise Violation("not-last-result", "%s: returned %r instead of %r" % (what, fun, value))


def judge_minuit(what, s, fixed, fun, x, has_logpdf, n, free=()):
    ms = [t for t in s.trace if t[0] == "minuit"]
    if len(ms) != 1:
        raise Violation("attempts", "%s: minuit was called %d times" % (what, len(ms)))
    _, valid, values, fval, isfixed = ms[0]
    warned = [t for t in s.trace[s.trace.index(ms[0]) + 1:] if t[0] == "log"]
    if bool(warned) == valid:
        raise Violation("not-reported" if not valid else "false-warning", "%s: minuit %s and the warnings were %r" % (what, "converged" if valid else "failed", warned))
    if x is not None and not same(x, values):
        raise Violation("not-last-result", "%s: returned %s, minuit gave %s" % (what, x, values))
    for k, v in fixed.items():
        if not isfixed[k] or not np.isclose(values[k], v):
            raise Violation("not-fixed", "%s: parameter %d was not held at %r but became %r" % (what, k, v, values[k]))
    for k in free:
        if isfixed[k]:
            raise Violation("fixed", "%s: parameter %d was held" % (what, k))
    if fun is not None and not has_logpdf and not same(fun, fval):
        raise Violation("not-last-result", "%s: returned %r instead of %r" % (what, fun, fval))


def query(f, s, out):
    m = M.build(f["spec"])
    config = m.backend.config(allow_negative_signal=f["neg"]) if f["what"] == "maxlike" else m.backend.config()
    kw = dict(f["opts"])
    if f["minimizer"]:
        kw["minimizer"] = f["minimizer"]
    e = M.EXP[f["exp"]]
    poi = config.poi_index
    fixed = {}
    what = "%s of %s with %r" % (f["what"], f["spec"]["kind"], {k: v for k, v in f.items() if k not in ("sols", "spec")})
    logpdf = m.backend.get_logpdf_func(expected=e)
    if f["what"] == "likelihood":
        fixed = {poi: f["mu"]}
        res = m.likelihood(f["mu"], expected=e, **kw)
        muhat = None
    else:
        if f["fix"] is not None:
            fixed = {poi: f["fix"]}
            kw["fixed_poi_value"] = f["fix"]
        muhat, res = m.maximize_likelihood(expected=e, allow_negative_signal=f["neg"], **kw)
    for k, on in enumerate(config.suggested_fixed or []):
        if on:
            fixed.setdefault(k, config.suggested_init[k])
    if f["minimizer"] == "minuit":
        if f["n"] == 1 and f["what"] == "likelihood":
            return      # nothing to fit
        judge_minuit(what, s, fixed, None, None, True, f["n"])
        x = [t for t in s.trace if t[0] == "minuit"][0][2]
    else:
        if not s.calls and f["n"] == 1 and f["what"] == "likelihood":
            return      # nothing to fit
        if not s.calls:
            raise Violation("attempts", "%s: the optimiser was not called" % what)
        judge(what, s, f["opts"].get("ntrials", 1), poi, f["n"], fixed, None)
        first = s.calls[0]
        for k, v in fixed.items():
            if first["x0"][k] != v:
                raise Violation("start", "%s: parameter %d started from %r" % (what, k, first["x0"][k]))
        if first["bounds"] is not None and not fixed and f["what"] == "maxlike" and first["bounds"] != [tuple(b) for b in config.suggested_bounds]:
            raise Violation("start-bounds", "%s: started with the bounds %r instead of %r" % (what, first["bounds"], config.suggested_bounds))
        x = s.calls[-1]["x"]
    if muhat is not None and not same(muhat, x[poi]):
        raise Violation("not-last-result", "%s: returned %r for the parameter of interest, the last attempt gave %s" % (what, muhat, x))
    try:
        with np.errstate(all="ignore"):
            value = -float(np.ravel(logpdf(x))[0])
    except Exception:  # noqa: BLE001
        return
    if not np.isclose(float(np.ravel(res)[0]), value, rtol=1e-9, atol=1e-9, equal_nan=True):
        raise Violation("not-last-result", "%s: returned %r instead of %r at the last attempt's parameters" % (what, res, value))


def execute(plan, out):
    from iminuit import Minuit
    log = logging.getLogger("Spey")
    trace = []
    real = Minuit.migrad
    cur = {}

    def migrad(self, ncall=None, **kw):
        r = real(self, 60 if ncall is None else min(ncall, 400), **kw)
        cur["s"].trace.append(("minuit", bool(self.valid), np.array(self.values), float(self.fval), list(self.fixed)))
        return r

    Minuit.migrad = migrad
    for h in list(log.handlers):
        log.removeHandler(h)
    for f in plan["fits"]:
        s = cur["s"] = Script(f["sols"])
        optimiser.HOOK = s.hook
        h = Watch(s.trace)
        log.addHandler(h)
        log.setLevel(getattr(logging, f["level"]))
        try:
            with np.errstate(all="ignore"):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    (direct if f["what"] == "fit" else query)(f, s, out)
        except Exception as err:  # noqa: BLE001
            if isinstance(err, Violation):
                raise
            # undefined likelihoods may raise at odd points; the objective of a direct fit never does
            if f["what"] == "fit" or all(np.all(np.isfinite(c["x"])) and c["sol"] in ("in", "start", "real") for c in s.calls):
                raise
            out.count("query-raised-" + type(err).__name__)
        finally:
            log.removeHandler(h)
            optimiser.HOOK = None
        for c in s.calls:
            out.fault("optimiser-" + ("converges" if c["success"] else "fails"))
            if not np.all(np.isfinite(c["x"])):
                out.fault("undefined-parameters")
            if not np.all(np.isfinite(np.asarray(c["val"], dtype=float))):
                out.fault("undefined-value")
        for t in s.trace:
            if t[0] == "minuit" and not t[1]:
                out.fault("minuit-fails")
        out.count("fits-" + f["what"])
        trace.append([f["what"], f["n"], [c["success"] for c in s.calls], [[repr(c["x0"]), repr(c["x"]), repr(c["bounds"])] for c in s.calls],
                      [t[1:] for t in s.trace if t[0] == "log"]])
        out.states.append(digest([trace[-1][:3], f.get("fix"), f["opts"].get("ntrials")]))
    out.nontrivial = any(not ok for t in trace for ok in t[2]) or "minuit-fails" in out.faults
    out.digest = digest([repr(t) for t in trace])


RULE = ("Each run: 1-3 fits, 40% through spey.optimizer.core.fit with 1-4 parameters (bounds open, infinite, negative, zero or closed per side, given as lists or arrays; parameters fixed by value, dictionary or configuration; "
        "constraints, gradients, methods, tolerances) and 60% through likelihood/maximize_likelihood of the 13 kinds of models; every optimiser call gets a drawn outcome (real run, convergence or failure at an inner point, "
        "the start, a corner, a far point, nan or inf, with true or undefined value). Non-trivial: an attempt failed; distinct by the digest of all attempts.")
REAL = ["spey.optimizer (fit, scipy and minuit tools), likelihood and maximize_likelihood with the backends", "scipy.optimize.minimize for 15% of the outcomes, iminuit"]
STUB = ["scipy.optimize.minimize returns scripted outcomes for 85% of the calls"]
ASSUMPTIONS = ["the optimiser is always reached as scipy.optimize.minimize or Minuit.migrad",
               "a likelihood may raise an exception at undefined parameters; such a query is not judged"]
STATES = "distinct (parameters, outcomes, fixed parameters, trials) of fits"
