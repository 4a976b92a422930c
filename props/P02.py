"""P02: every reported contour point is on the contour and within bounds."""
import random
import warnings

import numpy as np
import scipy.optimize
import scipy.stats

import spey
from props import _contour as C
from props import _models as M
from sim import optimiser, workers
from sim.run import Violation
from sim.util import digest, in_fork

LEVEL = "exploration"
LEVEL_NOTE = ("samples likelihoods (also undefined, discontinuous, unbounded or with several minima), settings, bounds, failing optimisers and likelihoods failing at drawn evaluations; "
              "every reported point is evaluated with a fresh model")
TECHNIQUE = "deterministic simulation: likelihoods and optimisers fail by a seeded script at drawn points of the search; each reported point is checked against an independent evaluation"
RUNS = {"quick": 1500, "thorough": 40000}
BATCH = 2
SHRINK = ("opt", "evals")

workers.install()
TOL = 1e-3


def gen(rng, i, tier):
    sp = C.gen_spec(rng, walls=rng.random() < 0.6)
    kw = C.gen_settings(rng, sp, subset=0.25)
    if sp.get("base") in ("double", "bounded", "banana", "abs") or "subset" in kw and sp["kind"] == "mvn" and (sp["q"] or C.dim(sp) - len(kw["subset"]) > 1):
        kw.pop("subset", None)      # the profile is not unique, or has kinks where gradient fits get stuck
        if "bounds" in kw:
            kw["bounds"] = (kw["bounds"] * C.dim(sp))[:C.dim(sp)]
    opt, evals = [], []
    r = rng.random()
    if r < 0.3:
        opt = [[rng.choice([0, 0, 1, 1, 2, 3, rng.randrange(12)]), rng.choice(["noconv", "noconv", "nan", "raise", "early", "far"])] for _ in range(rng.choice([1, 1, 2, 4]))]
    elif r < 0.4:
        opt = [[-1, rng.choice(["noconv", "nan", "early"])]]
    elif r < 0.65:
        evals = [[round(rng.random(), 5), rng.choice(["nan", "inf", "-inf", "raise", "linalg", "negative"]), rng.choice([1, 1, 1, 3, 50])] for _ in range(rng.choice([1, 2, 5]))]
    return {"spec": sp, "kw": kw, "opt": opt, "evals": evals, "jobs": rng.choice([1, 1, 3])}


class Broken(Exception):
    pass


ERR = {"raise": Broken("injected"), "linalg": np.linalg.LinAlgError("injected"), "negative": spey.system.exceptions.NegativeExpectedYields("injected")}


class Script:
    """Faults of the optimiser and of the likelihood."""

    def __init__(self, plan, model, total=None):
        self.n, self.k, self.fired = 0, 0, []
        self.opt = {} if total is None else {a: b for a, b in plan["opt"]}
        self.window = {}
        if total:
            for at, kind, length in plan["evals"]:
                for j in range(length):
                    self.window[int(at * total) + j] = kind
        backend = model.backend
        real = backend.get_logpdf_func

        def get_logpdf_func(*a, **k):
            f = real(*a, **k)

            def logpdf(pars):
                kind = self.window.get(self.n)
                self.n += 1
                if kind is None:
                    return f(pars)
                self.fired.append("likelihood-" + kind)
                if kind in ERR:
                    raise ERR[kind]
                return f(pars) * 0.0 + {"nan": np.nan, "inf": -np.inf, "-inf": np.inf}[kind]
            return logpdf
        type(backend).get_logpdf_func = lambda s, *a, **k: get_logpdf_func(*a, **k) if s is backend else real.__func__(s, *a, **k)
        self.undo = lambda: setattr(type(backend), "get_logpdf_func", real.__func__)

    def hook(self, real, kw):
        kind = self.opt.get(self.k, self.opt.get(-1))
        self.k += 1
        if kind is None:
            return real(**kw)
        self.fired.append("optimiser-" + kind)
        if kind == "raise":
            raise Broken("injected")
        res = real(**kw)
        if kind == "early":
            o = dict(kw.get("options") or {}, maxiter=1)
            res = real(**dict(kw, options=o))
            res.success = False
        elif kind == "noconv":
            res.success, res.message = False, "injected: Positive directional derivative for linesearch"
        elif kind == "nan":
            res.fun, res.x, res.success = np.nan, np.full_like(np.atleast_1d(res.x), np.nan), False
        elif kind == "far":
            x = np.array(res.x, dtype=float)
            x += 0.7
            f = kw["fun"](x)
            res.x, res.fun, res.success = x, f[0] if isinstance(f, tuple) else f, False
        return res


def find(plan, total):
    model = C.build(plan["spec"])
    s = Script(plan, model, total)
    optimiser.HOOK = s.hook
    workers.POOL = None
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        try:
            return C.ask(model, plan["kw"], 1), None, s, [str(w.message) for w in got]
        except Exception as err:  # noqa: BLE001
            return None, err, s, []
        finally:
            optimiser.HOOK = None
            s.undo()


def execute(plan, out):
    M.quiet(cap=60)
    total = None
    if plan["evals"]:
        total = in_fork(lambda: find(plan, None)[2].n)
    r, err, s, _ = find(plan, total or 0)
    for k in s.fired:
        out.fault(k)
    out.count("evaluations", s.n)
    out.nontrivial = True
    if err is not None:
        out.count("error-" + type(err).__name__)
        out.digest = digest(type(err).__name__, str(err), s.n)
        out.states = [digest(plan["spec"]["kind"], type(err).__name__, str(err)[:40])]
        return
    check(plan, r, s, out)
    out.digest = digest(repr(C.canon(r)), s.n)
    out.states = [out.digest]


def check(plan, r, s, out):
    sp, kw = plan["spec"], plan["kw"]
    what = "contour of %s with %r (%s)" % (sp.get("base", sp["kind"]), kw, ", ".join(sorted(set(s.fired))) or "no faults")
    model = C.build(sp)
    cfg = model.backend.config()
    rest = [i for i in range(cfg.npar) if i != cfg.poi_index]
    sub = [rest[k] for k in kw["subset"]] if "subset" in kw else rest
    prof = [i for i in rest if i not in sub]
    k = len(sub)
    bounds = kw.get("bounds") or [cfg.suggested_bounds[i] for i in sub]
    if r.dof != k or r.confidence_level != kw["confidence_level"]:
        raise Violation("labels", "%s: %r degrees of freedom at %r" % (what, r.dof, r.confidence_level))
    names = None if cfg.parameter_names is None else [cfg.parameter_names[i] for i in sub]
    if r.parameter_names != names:
        raise Violation("labels", "%s: the parameters are %r instead of %r" % (what, r.parameter_names, names))
    delta = scipy.stats.chi2.ppf(kw["confidence_level"], k)
    if not abs(r.delta - delta) <= 1e-9 * delta or not abs(r.threshold - r.nll_min - delta / 2) <= 1e-9 * max(1.0, abs(r.nll_min)):
        raise Violation("level", "%s: the threshold %r is not the minimum %r plus half of %r" % (what, r.threshold, r.nll_min, delta))
    pts = np.array(r.contour_points)
    if pts.ndim != 2 or pts.shape[1] != k or len(r.from_radial) != len(pts):
        raise Violation("shape", "%s: points of the shape %r, flags %r" % (what, pts.shape, len(r.from_radial)))
    out.count("points" if len(pts) else "no-points", max(1, len(pts)))
    if not np.isfinite(pts).all() or len(pts) and not np.isfinite(r.threshold):
        raise Violation("not-finite", "%s: points %s at the threshold %r" % (what, pts[~np.isfinite(pts).all(axis=1)][:3].tolist(), r.threshold))
    for p in pts:
        for x, (lo, hi) in zip(p, bounds):
            if lo is not None and x < lo - 1e-9 * (1 + abs(lo)) or hi is not None and x > hi + 1e-9 * (1 + abs(hi)):
                raise Violation("bounds", "%s: the point %s is outside of %s" % (what, p.tolist(), bounds))
    f = model.backend.get_logpdf_func()

    def nll(p, q=()):
        full = np.empty(cfg.npar)
        full[cfg.poi_index] = 1.0
        full[sub] = p
        full[prof] = q
        try:
            return float(-f(full))
        except spey.system.exceptions.NegativeExpectedYields:
            return np.nan

    def allowed(p, q):
        """Smallest value of the model's own constraints."""
        full = np.empty(cfg.npar)
        full[cfg.poi_index] = 1.0
        full[sub] = p
        full[prof] = q
        return min([np.min(c.fun(full)) for c in getattr(model.backend, "constraints", [])], default=1.0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if len(pts) and not prof and not plan["evals"] and not plan["spec"].get("wall") and "optimiser-far" not in s.fired and not abs(nll(r.theta_mle) - r.nll_min) <= TOL:
            raise Violation("level", "%s: the likelihood level at the minimum %s is %r instead of %r" % (what, r.theta_mle.tolist(), nll(r.theta_mle), r.nll_min))
        some = pts
        if prof and len(pts) > 6:
            some = pts[random.Random(len(pts)).sample(range(len(pts)), 6)]
        for p in some:
            if not prof:
                v = nll(p)
                ok = abs(v - r.threshold) <= TOL
            else:
                v = profile(nll, p, [cfg.suggested_init[i] for i in prof], [cfg.suggested_bounds[i] for i in prof], allowed)
                ok = abs(v - r.threshold) <= 10 * TOL
            if not ok:
                raise Violation("off-contour", "%s: the point %s has the likelihood level %r instead of %r" % (what, p.tolist(), v, r.threshold))


def profile(nll, p, init, bounds, allowed):
    """Minimum over the other parameters within the model's constraints, from several starts with two methods."""
    best = np.inf
    lo = [b[0] if b[0] is not None else -np.inf for b in bounds]
    hi = [b[1] if b[1] is not None else np.inf for b in bounds]

    def f(q):
        q = np.clip(q, lo, hi)
        v = nll(p, q) if allowed(p, q) >= 0 else np.nan
        return v if np.isfinite(v) else 1e10
    for start in (np.array(init, dtype=float), np.zeros(len(init)), np.full(len(init), -1.0)):
        x = np.clip(start, lo, hi)
        res = scipy.optimize.minimize(lambda q: nll(p, q), x, method="SLSQP", bounds=bounds, tol=1e-9, constraints=[{"type": "ineq", "fun": lambda q: allowed(p, q)}])
        if np.isfinite(res.x).all() and allowed(p, res.x) > -1e-6:
            x = res.x if f(res.x) < f(x) else x
        for _ in range(2):
            res = scipy.optimize.minimize(f, x, method="Nelder-Mead", options={"xatol": 1e-7, "fatol": 1e-10, "maxiter": 1000})
            x = res.x
        best = min(best, float(res.fun))
    return best


RULE = ("Each run: one contour search of a third-party likelihood (9 shapes; with steps, infinite, undefined or raising regions) or a default backend, drawn settings, bounds and subsets of parameters; 40% with failing optimisers "
        "(raising, not converged, nan, stopped early, moved away), 25% with evaluations of the likelihood that fail (nan, infinities, exceptions) at drawn points. Distinct by the contour or the error.")
REAL = ["spey (contour search, chains, fits)", "scipy, autograd, numpy"]
STUB = ["scipy.optimize.minimize and the likelihood functions are wrapped to fail by script", "joblib's pools are simulated (one worker)", "points are judged with a fresh model, profiled ones with a gradient-free search"]
ASSUMPTIONS = ["a point is on the contour within 1e-3 in the log-likelihood (1e-2 where parameters are profiled, up to 6 points judged)", "bounds hold within rounding (1e-9)", "fits are cut off after 60 iterations", "profiled likelihoods have no kinks (gradient fits get stuck there)"]
STATES = "distinct contours and errors"
