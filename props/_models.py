"""
Statistical models and queries shared by the M-, T-, L- and K-checks.

A model is described by a JSON spec, a query by a JSON list; both are drawn by
``gen_model`` / ``gen_query`` and turned into calls of spey's public API by
``build`` / ``ask``.  The answer of a query is brought into a canonical nested
form (``canon``), exceptions included.
"""
import copy
import math
import warnings

import numpy as np

import spey
from spey.base.model_config import ModelConfig
from spey.interface.statistical_model import statistical_model_wrapper

ET = spey.ExpectationType
EXP = {"obs": ET.observed, "post": ET.aposteriori, "prior": ET.apriori}

BACKENDS = ["uncorrelated", "correlated", "third", "effective", "poisson", "poisson_unc", "normal", "mvn",
            "mvn_fn", "mod", "sigpar", "plugin", "plugin2"]
FULL = {"uncorrelated": "default.uncorrelated_background", "correlated": "default.correlated_background",
        "third": "default.third_moment_expansion", "effective": "default.effective_sigma",
        "poisson": "default.poisson", "poisson_unc": "default.poisson", "normal": "default.normal",
        "mvn": "default.multivariate_normal", "mvn_fn": "default.multivariate_normal",
        "mod": "default.uncorrelated_background", "sigpar": "default.correlated_background"}


BTYPE = dict(FULL, plugin="verif.plugin", plugin2="verif.plugin2")


def gen_model(rng, kinds=None, nmax=3, hostile=0.0):
    """``hostile``: how often the counts are extreme (fits at the edge of the model's domain)."""
    kind = rng.choice(kinds or BACKENDS)
    n = rng.randint(1, nmax)
    if kind in ("correlated", "third", "effective", "mvn", "mvn_fn", "sigpar"):
        n = max(n, 2)
    sig = [round(rng.uniform(0.5, 6.0), 2) for _ in range(n)]
    bkg = [round(rng.uniform(4.0, 30.0), 1) for _ in range(n)]
    dat = [max(1, int(round(b + rng.choice([-1, 0, 1, 2]) * math.sqrt(b) * rng.random()))) for b in bkg]
    unc = [round(b * rng.uniform(0.05, 0.3), 2) for b in bkg]
    corr = round(rng.uniform(-0.4, 0.6), 2)
    edge = rng.random() < hostile
    if edge:
        for k in range(n):
            r = rng.random()
            if r < 0.5:      # the background is pulled to zero
                bkg[k], unc[k], dat[k] = round(rng.uniform(1.0, 5.0), 1), round(rng.uniform(2.0, 5.0), 2), rng.choice([0, 0, 1])
            elif r < 0.6:    # far more data than expected
                dat[k] = int(bkg[k] * 10)
            elif r < 0.7 and any(sig[j] for j in range(n) if j != k):
                sig[k] = 0.0
            elif r < 0.8:
                bkg[k], unc[k] = round(rng.uniform(0.01, 0.2), 3), 0.05
    return dict({"kind": kind, "s": sig, "b": bkg, "n": dat, "u": unc, "c": corr}, **({"edge": True} if edge else {}))


def _cov(spec, correlation=False):
    u = np.array(spec["u"])
    n = len(u)
    c = np.full((n, n), spec["c"] / max(1, n - 1))
    np.fill_diagonal(c, 1.0)
    return c if correlation else c * np.outer(u, u)


class Plugin(spey.BackendBase):
    """A minimal third-party backend: one parameter, no gradient, sampler from numpy."""

    name, version, author, spey_requires = "verif.plugin", "1", "verif", ">=0.0.1"

    def __init__(self, s, b, n):
        self.s, self.b, self.n = (np.array(x, dtype=float) for x in (s, b, n))

    @property
    def is_alive(self):
        return bool(np.any(self.s > 0))

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        m = -float(np.min(self.b / self.s)) * 0.9
        return ModelConfig(0, m, [0.5], [(m if allow_negative_signal else 0.0, poi_upper_bound)])

    def get_logpdf_func(self, expected=ET.observed, data=None):
        d = (self.b if expected == ET.apriori else self.n) if data is None else np.array(data)
        return lambda pars: float(np.sum(d * np.log(np.maximum(pars[0] * self.s + self.b, 1e-10))
                                         - (pars[0] * self.s + self.b)))

    def expected_data(self, pars):
        return list(pars[0] * self.s + self.b)

    def get_sampler(self, pars):
        lam = np.maximum(pars[0] * self.s + self.b, 1e-10)
        return lambda size, *a, **k: np.random.poisson(lam, size=(size, len(lam))).astype(float)


class Plugin2(Plugin):
    """Two further parameters with names, analytic gradient, constraints, own minimisation routines absent."""

    name = "verif.plugin2"

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        m = -float(np.min(self.b / self.s)) * 0.9
        return ModelConfig(0, m, [0.5, 0.0, 0.0],
                           [(m if allow_negative_signal else 0.0, poi_upper_bound), (-3.0, 3.0), (None, None)],
                           parameter_names=["mu", "tilt", "norm"])

    def _lam(self, pars):
        x = np.linspace(-1, 1, len(self.s))
        return pars[0] * self.s + self.b * np.exp(0.1 * pars[2]) * (1 + 0.02 * pars[1] * x)

    def get_logpdf_func(self, expected=ET.observed, data=None):
        d = (self.b if expected == ET.apriori else self.n) if data is None else np.array(data)
        return lambda pars: float(np.sum(d * np.log(np.maximum(self._lam(pars), 1e-10)) - self._lam(pars))
                                  - 0.5 * pars[1] ** 2 - 0.5 * pars[2] ** 2)

    def get_objective_function(self, expected=ET.observed, data=None, do_grad=True):
        f = self.get_logpdf_func(expected, data)
        if not do_grad:
            return lambda pars: -f(pars)
        d = (self.b if expected == ET.apriori else self.n) if data is None else np.array(data)

        def vg(pars):
            x = np.linspace(-1, 1, len(self.s))
            lam = np.maximum(self._lam(pars), 1e-10)
            w = d / lam - 1
            e = np.exp(0.1 * pars[2])
            g = np.array([np.sum(w * self.s), np.sum(w * self.b * e * 0.02 * x) - pars[1],
                          np.sum(w * self.b * e * 0.1 * (1 + 0.02 * pars[1] * x)) - pars[2]])
            return -f(pars), -g

        return vg

    def expected_data(self, pars):
        return list(self._lam(pars))

    def get_sampler(self, pars):
        lam = np.maximum(self._lam(pars), 1e-10)
        return lambda size, *a, **k: np.random.poisson(lam, size=(size, len(lam))).astype(float)


def arguments(spec):
    """Constructor arguments (all mutable containers)."""
    k, s, b, n, u = spec["kind"], list(spec["s"]), list(spec["b"]), list(spec["n"]), list(spec["u"])
    a = {"signal_yields": s, "background_yields": b, "data": n}
    if k == "uncorrelated":
        a["absolute_uncertainties"] = u
    elif k == "correlated":
        a["covariance_matrix"] = _cov(spec)
    elif k == "third":
        a["covariance_matrix"] = _cov(spec)
        a["third_moment"] = np.array([0.2 * x ** 3 for x in u])
    elif k == "effective":
        a["correlation_matrix"] = _cov(spec, True)
        a["absolute_uncertainty_envelops"] = [(x, 1.2 * x) for x in u]
    elif k == "poisson_unc":
        a["absolute_uncertainties"] = u
    elif k == "normal":
        a["absolute_uncertainties"] = u
    elif k == "mvn":
        a["covariance_matrix"] = _cov(spec)
    elif k == "mvn_fn":
        import autograd.numpy as anp
        cov = _cov(spec)
        a["covariance_matrix"] = lambda pars: anp.array(cov) * (1.0 + 0.1 * pars[0] ** 2)
    elif k == "mod":
        a["absolute_uncertainties"] = u
        a["modifiers"] = [{"name": "lumi", "type": "normalization",
                           "uncertainties": [(0.05 * x, 0.08 * x) for x in s]}]
        if spec["c"] > 0:
            a["modifiers"].append({"name": "scale", "type": "shape", "uncertainties": [0.1 * x for x in s]})
    elif k == "sigpar":
        import autograd.numpy as anp
        sig = np.array(s)
        a["signal_yields"] = lambda p: anp.array(sig) * anp.exp(0.1 * p[0])
        a["covariance_matrix"] = _cov(spec)
        a["n_signal_parameters"] = 1
        a["signal_parameter_bounds"] = [(-1.0, 1.0)]
    return a


def build(spec, analysis="a", ntoys=4, args=None, xsection=0.5):
    k = spec["kind"]
    if k == "comb":
        comb = spey.UnCorrStatisticsCombiner(*[build(m, "%s%d" % (analysis, i), ntoys)
                                               for i, m in enumerate(spec["members"])], ntoys=ntoys)
        return comb
    if k in ("plugin", "plugin2"):
        cls = Plugin if k == "plugin" else Plugin2
        return statistical_model_wrapper(cls)(spec["s"], spec["b"], spec["n"], analysis=analysis,
                                              xsection=xsection, ntoys=ntoys)
    a = arguments(spec) if args is None else args
    return spey.get_backend(FULL[k])(**a, analysis=analysis, xsection=xsection, ntoys=ntoys)


def npar(spec):
    n = len(spec["s"])
    return {"plugin": 1, "plugin2": 3, "poisson": 1, "normal": 1, "mvn": 1, "mvn_fn": 1, "sigpar": n + 2,
            "mod": n + 2 + (n if spec["c"] > 0 else 0), "poisson_unc": n + 1}.get(spec["kind"], n + 1)


def par_names(spec):
    """Name and index of a second parameter, if the backend names its parameters."""
    return {"plugin2": ("tilt", 1), "sigpar": ("signal_par_0", 1),
            "mod": ("theta_sig_lumi", len(spec["s"]) + 1)}.get(spec["kind"])


def combination(spec, models, idx, **kw):
    """Spec and object of a combination of some of the models."""
    return ({"kind": "comb", "members": [spec[k] for k in idx], "names": [models[k].analysis for k in idx]},
            spey.UnCorrStatisticsCombiner(*[models[k] for k in idx], ntoys=4))


CHEAP = ["likelihood", "maxlike", "asimov", "maxasimov", "gen_asimov", "chi2", "config", "closure", "expected",
         "sample", "sampler", "alive", "prepare"]
MEDIUM = ["cls", "signif", "sigma", "pull", "cls_chi2"]
DEAR = ["limit", "chi2_test", "cls_toy", "xsec"]
ONE_PAR = ("plugin", "poisson", "normal", "mvn")     # a scan of the chi-square is affordable


def gen_query(rng, spec, cheap=0.75, medium=0.2, kinds=None):
    """A query as JSON; mutable arguments are created when it is asked."""
    comb = spec["kind"] == "comb"
    r = rng.random()
    kind = rng.choice(kinds if kinds else CHEAP if r < cheap else MEDIUM if r < cheap + medium else DEAR)
    if comb and kind in ("closure", "expected", "sample", "sampler", "sigma", "cls_toy", "xsec", "chi2_test", "config", "prepare"):
        kind = rng.choice(["likelihood", "maxlike", "asimov", "maxasimov", "gen_asimov", "sensitive"])
    if kind == "chi2_test" and spec["kind"] not in ONE_PAR:
        kind = "limit"
    if kind in DEAR and any(m.get("edge") for m in spec.get("members", [spec])):
        kind = "likelihood"     # hardly any fit converges there: minutes per limit
    q = {"q": kind, "exp": rng.choice(["obs", "obs", "post", "prior"])}
    n = npar(spec) if not comb else 1
    names = None if comb else par_names(spec)
    if kind in ("likelihood", "asimov", "chi2", "pull", "sigma", "sampler", "cls", "cls_chi2", "cls_toy"):
        q["mu"] = rng.choice([0.0, 0.0, 0.5, 1.0, 1.0, 2.0, 3.5] + ([-0.2] if kind == "likelihood" else []))
        if kind == "sigma":
            q["mu"] = rng.choice([0.5, 1.0, 2.0])
        if names and kind in ("likelihood", "asimov", "sampler") and rng.random() < 0.35:
            q["mu"] = rng.choice([{"0": 1.0, names[0]: 0.3}, {"0": 0.5, str(names[1]): -0.3}, {names[0]: 0.2}])
    if kind == "chi2" and rng.random() < 0.4:
        q["den"] = rng.choice([0.0, 1.0])
    if kind == "chi2" and rng.random() < 0.3:
        q["mu"] = [0.5, 1.0, 2.0][:rng.randint(1, 3)]
        if names and rng.random() < 0.7:
            q["mu"] = rng.choice([{"0": q["mu"], names[0]: 0.2}, {"0": 1.0, names[0]: [-0.2, 0.3]}])
    if kind == "config":
        q["ub"] = rng.choice([10.0, 10.0, 5.0, 40.0])
        q["neg"] = rng.random() < 0.5
    if kind in ("likelihood", "maxlike", "asimov", "maxasimov"):
        q["nll"] = rng.random() < 0.8
    if kind in ("asimov", "maxasimov", "gen_asimov"):
        q["ts"] = rng.choice(["qtilde", "q", "q0"])
    if kind in ("maxlike", "prepare"):
        q["neg"] = rng.random() < 0.6
        if kind == "prepare":
            q["grad"] = rng.random() < 0.7
        elif not comb and rng.random() < 0.2:
            q["fix"] = rng.choice([1.0, 0.0, 2.0])
        if kind == "maxlike" and not comb and rng.random() < 0.2:
            q["poi"] = [0, 0] if not names else rng.choice([[0, names[0]], [names[0]], [0, names[1]]])
    if kind in ("likelihood", "maxlike", "prepare") and rng.random() < 0.3:
        if comb:
            q["data"] = {a: [rng.randint(1, 30) for _ in m["s"]] for a, m in zip(spec["names"], spec["members"])
                         if rng.random() < 0.7}
        else:
            q["data"] = [rng.randint(1, 30) for _ in range(len(spec["s"]))]
    if comb and kind in ("likelihood", "maxlike", "asimov", "maxasimov", "gen_asimov") and rng.random() < 0.3:
        q["smo"] = {BTYPE[rng.choice(spec["members"])["kind"]]: rng.choice([{"do_grad": False}, {"tol": 1e-7}, {"ntrials": 2}])}
    if comb and kind in ("maxlike", "maxasimov"):
        if rng.random() < 0.3:
            q["muhat0"] = round(rng.uniform(-0.2, 2.0), 2)
        if rng.random() < 0.25:
            q["bounds"] = [[0.0, rng.choice([2.0, 6.0])]]
        if rng.random() < 0.2:
            q["poi"] = [0]
    if kind == "likelihood" and not comb and rng.random() < 0.2:
        q["pars"] = True
    if kind in ("likelihood", "maxlike", "asimov", "gen_asimov", "maxasimov", "chi2", "cls") and not comb:
        if rng.random() < 0.25:
            q["init"] = [round(rng.uniform(0.2, 1.5), 2)] + [round(rng.uniform(-0.5, 1.0), 2) for _ in range(n - 1)]
        if rng.random() < 0.2:
            q["bounds"] = [[rng.choice([0.0, -0.1]), rng.choice([5.0, 15.0])]] + [[-5.0, 5.0]] * (n - 1)
            q["obj_bounds"] = rng.random() < 0.3
    if kind in ("likelihood", "maxlike", "asimov", "chi2") and rng.random() < 0.25:
        q["opt"] = rng.choice([{"maxiter": 200}, {"tol": 1e-8}, {"ntrials": 3}, {"do_grad": False},
                               {"method": "SLSQP", "tol": 1e-4}, {"maxiter": 2, "ntrials": 3}, {"maxiter": 1, "ntrials": 2},
                               {"minimizer": "minuit"}, {"minimizer": "scipy"}])
        if comb and "do_grad" in q["opt"]:
            q["opt"] = {"maxiter": 300}
    if kind in ("likelihood", "maxlike", "gen_asimov", "prepare") and not comb and rng.random() < 0.15:
        q["con"] = rng.choice([0.4, 2.5, 8.0])
    if kind in ("sample", "sampler", "cls_toy"):
        q["seed"] = rng.randrange(1000)
        q["size"] = rng.choice([1, 3])
    if kind in ("closure", "expected", "sample", "prepare"):
        q["at"] = [round(rng.uniform(0.1, 2.0), 3)] + [round(rng.uniform(-0.8, 0.8), 3) for _ in range(n - 1)]
        q["which"] = rng.choice(["logpdf", "objective", "gradient", "hessian"])
    if kind in ("limit", "signif", "cls") and rng.random() < 0.3:
        q["oa"] = rng.choice([{"tol": 1e-5}, {"ntrials": 2}, {"maxiter": 50}])
    if kind == "limit":
        q["pv"] = rng.choice(["nominal", "nominal", "1sigma", "2sigma"])
        q["cl"] = rng.choice([0.95, 0.9])
        q["auto"] = rng.random() < 0.3
    if kind == "chi2_test":
        q["type"] = rng.choice(["right", "left", "two-sided"])
        q["cl"] = rng.choice([0.68, 0.95])
    return q


def canon(x):
    if isinstance(x, BaseException):
        return ["err", type(x).__name__, str(x)[:200]]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, dict):
        return ["dict", sorted(([repr(k), canon(v)] for k, v in x.items()), key=lambda p: p[0])]
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, ModelConfig):
        return ["config", canon([x.poi_index, x.minimum_poi, x.suggested_init, x.suggested_bounds,
                                 x.parameter_names, x.suggested_fixed])]
    return repr(x)


def close(a, b, rtol=1e-9, atol=1e-12):
    """Equality of canonical answers."""
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        if a == b or (a != a and b != b):
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


class Args:
    """Creates the mutable arguments of a query and remembers them."""

    def __init__(self):
        self.made = []

    def __call__(self, x):
        self.made.append((x, copy.deepcopy(x)))
        return x

    def changed(self):
        """Description of the first argument that is not as it was."""
        for x, before in self.made:
            if not identical(x, before):
                return "%.300r became %.300r" % (before, x)
        return None


def identical(a, b):
    """Same types and contents; functions and unknown objects by identity."""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and (
            all(identical(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
            if a.dtype.hasobject else np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (int, str, bool, type(None), np.generic)):
        return a == b
    return a is b


def poi(q, A):
    mu = q["mu"]
    if isinstance(mu, dict):
        return A({int(k) if k.isdigit() else k: list(v) if isinstance(v, list) else v for k, v in mu.items()})
    if isinstance(mu, list):
        return A(list(mu) if len(mu) % 2 else np.array(mu))
    return mu


def call(model, q, A):
    """The raw answer of a query."""
    k = q["q"]
    e = EXP[q["exp"]]
    comb = isinstance(model, spey.UnCorrStatisticsCombiner)
    kw = {}
    if "init" in q:
        kw["init_pars"] = A(list(q["init"]))
    if "bounds" in q:
        kw["par_bounds"] = A(np.array([tuple(b) for b in q["bounds"]], dtype=object) if q.get("obj_bounds")
                             else [tuple(b) for b in q["bounds"]])
    if "opt" in q:
        kw.update(q["opt"])
    if "data" in q:
        kw["data"] = A({a: np.array(d, dtype=float) for a, d in q["data"].items()} if comb
                       else np.array(q["data"], dtype=float))
    if "con" in q:
        lim = q["con"]
        kw["constraints"] = A([{"type": "ineq", "fun": lambda v: lim - v[0]}])
    if "smo" in q:
        kw["statistical_model_options"] = A(copy.deepcopy(q["smo"]))
    if "muhat0" in q:
        kw["initial_muhat_value"] = q["muhat0"]
    if k == "likelihood":
        if q.get("pars"):
            kw["return_parameters"] = True
        return model.likelihood(poi(q, A), expected=e, return_nll=q["nll"], **kw)
    if k == "maxlike":
        if "fix" in q:
            kw["fixed_poi_value"] = q["fix"]
        if "poi" in q:
            kw["poi_indices"] = A(list(q["poi"]))
        return model.maximize_likelihood(return_nll=q["nll"], expected=e, allow_negative_signal=q["neg"], **kw)
    if k == "asimov":
        return model.asimov_likelihood(poi(q, A), expected=e, return_nll=q["nll"], test_statistics=q["ts"], **kw)
    if k == "maxasimov":
        return model.maximize_asimov_likelihood(return_nll=q["nll"], expected=e, test_statistics=q["ts"], **kw)
    if k == "gen_asimov":
        return model.generate_asimov_data(expected=e, test_statistic=q["ts"], **kw)
    if k == "chi2":
        opt = q.get("opt", {})
        kw = {x: v for x, v in kw.items() if x not in opt}
        if opt:
            kw["mle_kwargs"] = A(dict(opt))
            kw["likelihood_kwargs"] = A(dict(opt))
        if "den" in q:
            kw["poi_test_denominator"] = q["den"]
        return model.chi2(poi(q, A), expected=e, **kw)
    if k == "pull":
        return model.pull(q["mu"], expected=e)
    if k == "sigma":
        return model.sigma_mu(q["mu"], expected=e)
    if k == "cls":
        return model.exclusion_confidence_level(q["mu"], expected=e, **kw, **q.get("oa", {}))
    if k == "cls_chi2":
        return model.exclusion_confidence_level(q["mu"], expected=e, calculator="chi_square")
    if k == "cls_toy":
        if "seed" in q:
            np.random.seed(q["seed"])
        return model.exclusion_confidence_level(q["mu"], expected=e, calculator="toy", verbose=False)
    if k == "signif":
        return model.significance(expected=e, **q.get("oa", {}))
    if k == "limit":
        kw = {"low_init": None, "hig_init": None} if q.get("auto") else {}
        if "oa" in q:
            kw["optimiser_arguments"] = A(dict(q["oa"]))
        return model.poi_upper_limit(expected=e, confidence_level=q["cl"], expected_pvalue=q["pv"], **kw)
    if k == "xsec":
        return model.excluded_cross_section(expected=e)
    if k == "chi2_test":
        return model.chi2_test(expected=e, confidence_level=q["cl"], limit_type=q["type"], n_scan=5, n_multistart=2,
                               xtol=1e-3, rtol=1e-2)
    if k == "contour":
        from spey.multiparameter import find_contour
        r = find_contour(model, random_seed=q["cseed"], n_jobs=1, n_radial=6, n_hmc_chains=2, n_hmc_steps=2, n_gap_candidates=20, n_multistart=3)
        return [r.theta_mle, r.nll_min, r.threshold, r.delta, r.contour_points, r.from_radial, r.parameter_names, r.confidence_level, r.dof]
    if k == "mixture":
        from spey.backends.distributions import MixtureModel, Poisson
        ds = [Poisson(np.array(q["at"])), Poisson(np.array(q["at"]) + 3.0)]
        for d in ds:
            d.shape = len(q["at"])
        return MixtureModel(*ds).sample(q["size"])
    if k == "config":
        c = model.config(q.get("neg", True), q.get("ub", 10.0))
        return [c, c.fixed_poi_bounds(1.0), c.fixed_poi_bounds_multi({0: 20.0}), c.npar, repr(model)]
    if k == "prepare":
        fn = model.prepare_for_fit(expected=e, allow_negative_signal=q["neg"], do_grad=q["grad"], **kw)
        at = A(np.array(q["at"]))
        r = [fn["func"](at), fn["logpdf"](at), fn["do_grad"], len(fn["constraints"]), fn["model_configuration"], sorted(fn)]
        fn["constraints"].append("what a careless caller adds")
        return r
    if k == "alive":
        return bool(model.is_alive)
    if k == "sensitive":
        return model.find_most_sensitive().analysis
    if k == "closure":
        at = A(np.array(q["at"]))
        return function(model.backend, q["which"], e)(at)
    if k == "expected":
        return model.backend.expected_data(A(np.array(q["at"])))
    if k == "sample":
        if "seed" in q:
            np.random.seed(q["seed"])
        return model.backend.get_sampler(A(np.array(q["at"])))(q["size"])
    if k == "sampler":
        if "seed" in q:
            np.random.seed(q["seed"])
        return model.fixed_poi_sampler(poi(q, A), size=q["size"], expected=e)
    raise ValueError(k)


def function(b, which, e):
    """A function of the parameters, from the backend b."""
    if which == "logpdf":
        return b.get_logpdf_func(expected=e)
    if which == "hessian":
        return b.get_hessian_logpdf_func(expected=e)
    try:
        return b.get_objective_function(expected=e, do_grad=which == "gradient")
    except NotImplementedError:
        return b.get_objective_function(expected=e, do_grad=False)


def ask(model, q, A=None):
    """Canonical answer (exceptions included)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = call(model, q, A or Args())
        except Exception as err:  # noqa: BLE001
            r = err
    return canon(r), r


def spoil(x, depth=0):
    """What a careless caller may do to an answer it was given."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype.kind in "fi":
            x.flat[0] = -77
            x *= 3
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        x.append(-77.0)
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v, depth + 1)
        x["spoiled"] = 1


def quiet(cap=200):
    import logging
    from sim import optimiser
    optimiser.CAP, optimiser.CAP_MINUIT = cap, None if cap is None else 10 * cap
    logging.getLogger("Spey").setLevel(logging.CRITICAL)


def near(rng, spec, q):
    """Almost the same query: one option is changed, added or removed."""
    new = gen_query(rng, spec, kinds=[q["q"]])
    if new["q"] != q["q"]:
        return new
    q = dict(q)
    keys = sorted(k for k in set(q) | set(new) if k != "q" and q.get(k) != new.get(k))
    if keys:
        k = rng.choice(keys)
        if k in new:
            q[k] = new[k]
        elif k in ("opt", "init", "bounds", "obj_bounds", "data", "fix", "poi", "pars", "den", "smo", "muhat0", "oa", "con"):
            del q[k]
    return q
