"""U01: searches against misbehaving likelihoods, data generators and optimisers end after bounded work."""
import math
import traceback
import warnings

import numpy as np
import scipy.optimize

import spey
from props import _models as M
from sim import optimiser
from sim.run import Violation
from sim.util import digest
from spey.base.model_config import ModelConfig
from spey.hypothesis_testing import upper_limits
from spey.interface.statistical_model import statistical_model_wrapper

LEVEL = "exploration"
LEVEL_NOTE = ("samples misbehaving likelihoods (flat, undefined, discontinuous, noisy, changing over time), optimisers and search options; the number of evaluations and of fits is "
              "bounded and the outcome has to be a number or an exception")
TECHNIQUE = "deterministic simulation: likelihoods, data generators and optimisers misbehave by a seeded script (faults in value, in time and by call count); bounded work is checked as progress within a number of steps"
RUNS = {"quick": 2000, "thorough": 60000}
BATCH = 4
SHRINK = ("queries",)

LIMIT = {"limit": 6000, "cls": 400, "signif": 400, "cls_toy": 2000, "cls_chi2": 400, "chi2_test": 30000, "sigma": 400, "pull": 400,
         "excluded": 3000, "root": 2000, "bracket": 4000}
PER_FIT = 1500


class TooMuch(BaseException):
    pass


SHAPES = ["gauss", "gauss", "flat", "inf", "-inf", "nan", "step", "noise", "alternate", "rising", "falling", "steep", "island", "nan-side", "inf-side", "nan-even",
          "late-nan", "late-flat", "late-shift", "zero-one", "kink", "periodic", "tiny", "huge", "raise-side", "raise-late", "far"]


def gen_shape(rng):
    return {"shape": rng.choice(SHAPES), "mu": rng.choice([0.0, 0.5, 1.0, 3.0, -0.5, 40.0, 1e4, 1e7, -30.0]), "w": rng.choice([0.3, 1.0, 5.0, 1e-3, 1e3, 1e5]),
            "at": rng.choice([0.0, 0.5, 1.0, 2.0, 10.0, 1e3]), "k": rng.choice([1, 3, 10, 40, 200]), "amp": rng.choice([0.1, 1.0, 10.0, 1e6]), "salt": rng.randrange(1000)}


def gen(rng, i, tier):
    n = rng.choice([1, 1, 1, 2])
    models = [{"n": n, "obs": gen_shape(rng), "asimov": gen_shape(rng) if rng.random() < 0.6 else None, "grad": rng.choice(["none", "none", "zero", "nan", "num", "inf"]),
               "lo": rng.choice([-1.0, -1.0, 0.0, -50.0, None]), "up": rng.choice([10.0, 10.0, 1.0, 1e3, 2e7, None]),
               "nlo": rng.choice([-5.0, None, -1e7]), "nup": rng.choice([5.0, None, 1e7]),
               "min": rng.choice([-1.0, 0.0, "-inf", -1e7]), "init": rng.choice([0.5, 1.0, 0.0]),
               "expected": rng.choice(["ok", "ok", "ok", "nan", "inf", "negative", "zero", "raise", "noise"]),
               "type": rng.choice(["float", "float", "float", "np", "zero-d", "int"])}
              for _ in range(rng.choice([1, 1, 1, 2]))]
    queries = []
    for _ in range(rng.randint(1, 2)):
        q = {"q": rng.choice(["limit"] * 5 + ["chi2_test"] * 3 + ["root", "bracket", "cls", "signif", "cls_toy", "cls_chi2", "sigma", "pull", "excluded"]),
             "exp": rng.choice(["obs", "post", "prior"]), "mu": rng.choice([0.0, 1.0, 0.3, 40.0, -0.5, 1e6]),
             "pv": rng.choice(["nominal", "nominal", "1sigma", "2sigma"]), "cl": rng.choice([0.95, 0.95, 0.9, 0.5, 0.0, 1.0, 0.999]),
             "low": rng.choice([1.0, 1.0, None, None, 0.1, 1e-10, 0.0, -1.0, 1e5, 1e7]), "hig": rng.choice([1.0, 1.0, None, None, 10.0, 0.0, 0.0, -1.0, 1e5, 1e-12, 1e7]),
             "type": rng.choice(["left", "right", "two-sided"]), "par": rng.choice([None, None, 1]), "pv2": rng.choice([None, 1.0]), "neg": rng.random() < 0.5,
             "n_scan": rng.choice([3, 11, 31]), "shape": gen_shape(rng)}
        queries.append(q)
    hook = "script" if n == 2 and rng.random() < 0.8 else rng.choice(["real", "real", "script"])
    outcomes = [[rng.choice(["ok", "ok", "fail"]), rng.choice(["start", "best", "best", "zero", "nan", "inf", "-inf", "far", "rnd", "big"]), round(rng.uniform(-3, 8), 3)]
                for _ in range(rng.choice([1, 2, 5, 13]))]
    return {"models": models, "queries": queries, "hook": hook, "outcomes": outcomes, "comb": len(models) > 1 and rng.random() < 0.7}


def noise(salt, k):
    x = math.sin(salt * 12.9898 + k * 78.233) * 43758.5453
    return x - math.floor(x) - 0.5


class Work:
    """Counts likelihood evaluations and fits, raises when there are too many."""

    def __init__(self):
        self.evals = self.fits = self.infit = 0
        self.limit = 0
        self.most = 0

    def start(self, limit):
        self.evals = self.fits = self.infit = 0
        self.limit = limit

    def eval(self):
        self.evals += 1
        self.infit += 1
        if self.fits > self.limit or self.evals > self.limit + PER_FIT * self.fits:
            raise TooMuch("%d evaluations of the likelihood and %d fits" % (self.evals, self.fits))

    def fit(self):
        self.fits += 1
        self.infit = 0
        if self.fits > self.limit:
            raise TooMuch("%d evaluations of the likelihood and %d fits" % (self.evals, self.fits))


WORK = Work()


def value(s, x, k):
    """Log-likelihood of a misbehaving model at the k-th evaluation."""
    z = (x - s["mu"]) / s["w"]
    g = -0.5 * z * z
    h = s["shape"]
    if h in ("gauss", "far"):
        return g
    if h == "flat":
        return -s["amp"]
    if h in ("inf", "-inf", "nan"):
        return float(h)
    if h == "step":
        return -s["amp"] if x > s["at"] else 0.0
    if h == "noise":
        return g + s["amp"] * noise(s["salt"], k)
    if h == "alternate":
        return g if k % 2 else -s["amp"]
    if h == "rising":
        return s["amp"] * x
    if h == "falling":
        return -s["amp"] * x
    if h == "steep":
        return -1e300 * abs(z)
    if h == "island":
        return g if abs(x - s["at"]) < s["w"] else float("-inf")
    if h == "nan-side":
        return g if x < s["at"] else float("nan")
    if h == "inf-side":
        return g if x < s["at"] else float("inf")
    if h == "nan-even":
        return g if k % 2 else float("nan")
    if h == "late-nan":
        return g if k < s["k"] else float("nan")
    if h == "late-flat":
        return g if k < s["k"] else 0.0
    if h == "late-shift":
        return g if k < s["k"] else g - s["amp"]
    if h == "zero-one":
        return float(k % 3 == 0)
    if h == "kink":
        return -abs(z) - s["amp"] * (x > s["at"])
    if h == "periodic":
        return s["amp"] * math.cos(x) if math.isfinite(x) else 0.0
    if h == "tiny":
        return g * 1e-12
    if h == "huge":
        return g * 1e12 - 1e15
    if h == "raise-side":
        if x > s["at"]:
            raise ArithmeticError("likelihood is not defined at %r" % x)
        return g
    if h == "raise-late":
        if k > s["k"]:
            raise ArithmeticError("likelihood failed")
        return g
    raise ValueError(h)


class Wild(spey.BackendBase):
    name, version, author, spey_requires = "verif.wild", "1", "verif", ">=0.0.1"

    def __init__(self, d):
        self.d = d
        self.k = 0

    @property
    def is_alive(self):
        return True

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        d = self.d
        lo = d["lo"] if allow_negative_signal else 0.0
        return ModelConfig(0, float(d["min"]), [d["init"]] + [0.0] * (d["n"] - 1), [(lo, d["up"])] + [(d["nlo"], d["nup"])] * (d["n"] - 1))

    def _f(self, expected, data):
        d = self.d
        s = d["obs"] if data is None or d["asimov"] is None else d["asimov"]

        def f(pars):
            WORK.eval()
            self.k += 1
            x = float(pars[0])
            v = value(s, x, self.k)
            if d["n"] > 1:
                v = v - 0.5 * float(pars[1]) ** 2
            return {"float": float, "np": np.float64, "zero-d": np.array, "int": lambda t: int(t) if math.isfinite(t) else t}[d["type"]](v)
        return f

    def get_logpdf_func(self, expected=M.ET.observed, data=None):
        return self._f(expected, data)

    def get_objective_function(self, expected=M.ET.observed, data=None, do_grad=True):
        g = self.d["grad"]
        f = self._f(expected, data)
        if not do_grad:
            return lambda pars: -f(pars)
        if g == "none":
            raise NotImplementedError
        n = self.d["n"]

        def vg(pars):
            v = -f(pars)
            if g == "num":
                e = 1e-6
                s = self.d["obs"] if data is None or self.d["asimov"] is None else self.d["asimov"]
                grad = [-(value(s, float(pars[0]) + e, self.k) - value(s, float(pars[0]) - e, self.k)) / (2 * e)] + [float(p) for p in pars[1:]]
            else:
                grad = [{"zero": 0.0, "nan": float("nan"), "inf": float("inf")}[g]] * n
            return v, np.array(grad)
        return vg

    def expected_data(self, pars):
        h = self.d["expected"]
        if h == "raise":
            raise ArithmeticError("no data")
        self.k += 1
        return [{"ok": 5.0 + float(pars[0]), "nan": float("nan"), "inf": float("inf"), "negative": -3.0, "zero": 0.0, "noise": 5 + 10 * noise(3, self.k)}[h]]

    def get_sampler(self, pars):
        def sample(size, *a, **k):
            return np.full((size, 1), 5.0)
        return sample


def script(plan):
    state = {"k": 0}
    bests = [m["obs"]["mu"] for m in plan["models"]]

    def hook(real, kw):
        WORK.fit()
        if plan["hook"] == "real":
            return real(**kw)
        o = plan["outcomes"][state["k"] % len(plan["outcomes"])]
        state["k"] += 1
        x = np.array([float(v) for v in kw["x0"]])
        fixed = [c for c in kw.get("constraints", ()) if c.get("type") == "eq"]
        new = x.copy()
        w = o[1]
        new[:] = {"start": x, "best": bests[0], "zero": 0.0, "nan": np.nan, "inf": np.inf, "-inf": -np.inf, "far": 1e6 * o[2], "rnd": o[2], "big": 1e12}[w]
        for k in range(len(x)):
            # what is fixed stays fixed
            for c in fixed:
                a = x.copy()
                a[k] += 1.0
                if abs(float(np.ravel(c["fun"](a))[0])) > 0.5:
                    new[k] = x[k]
        r = kw["fun"](new)
        v = float(np.ravel(r[0] if isinstance(r, tuple) else r)[0])
        return scipy.optimize.OptimizeResult(x=new, fun=v, success=o[0] == "ok", message="scripted", nit=1, status=0)
    return hook


def is_number(v):
    return isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, (bool, np.bool_)) or (isinstance(v, np.ndarray) and v.size == 1 and v.dtype.kind in "fi")


def numbers(v, n=None):
    return isinstance(v, (list, tuple, np.ndarray)) and all(is_number(x) for x in v) and (n is None or len(v) == n)


def ask(model, q, out):
    e = M.EXP[q["exp"]]
    k = q["q"]
    if k == "root":
        calls = {"k": 0}

        def comp(v):
            WORK.eval()
            calls["k"] += 1
            return value(q["shape"], float(v), calls["k"])
        low, hig = upper_limits.find_root_limits(comp, loc=q["cl"] - 0.5, low_ini=1.0 if q["low"] is None else q["low"], hig_ini=1.0 if q["hig"] is None else q["hig"])
        return [low[-1], hig[-1], low.get_value(-1), hig.get_value(-1)], lambda r: numbers(r, 4)
    if k == "cls_toy":
        return model.exclusion_confidence_level(q["mu"], expected=e, calculator="toy", verbose=False), lambda r: numbers(r)
    if k == "cls":
        return model.exclusion_confidence_level(q["mu"], expected=e), lambda r: numbers(r, 1 if q["exp"] == "obs" else 5)
    if k == "cls_chi2":
        return model.exclusion_confidence_level(q["mu"], expected=e, calculator="chi_square"), lambda r: numbers(r)
    if k == "signif":
        return model.significance(expected=e), lambda r: len(r) == 4 and is_number(r[0]) and is_number(r[1]) and numbers(r[2]) and numbers(r[3])
    if k == "sigma":
        return model.sigma_mu(q["mu"], expected=e), is_number
    if k == "pull":
        return model.pull(q["mu"], expected=e), is_number
    if k == "excluded" and hasattr(model, "excluded_cross_section"):
        return model.excluded_cross_section(expected=e), is_number
    if k == "chi2_test":
        kw = {}
        if q["par"] is not None and hasattr(model, "backend"):
            kw["parameter"] = q["par"]
            if q["pv2"] is not None:
                kw["poi_value"] = q["pv2"]
        return (model.chi2_test(expected=e, confidence_level=q["cl"], limit_type=q["type"], n_scan=q["n_scan"], n_multistart=4, allow_negative_signal=q["neg"], **kw),
                lambda r: numbers(r) and len(r) >= (2 if q["type"] == "two-sided" else 1))
    n = {"nominal": 1, "1sigma": 3, "2sigma": 5}[q["pv"]] if q["exp"] != "obs" else 1
    return (model.poi_upper_limit(expected=e, confidence_level=q["cl"], expected_pvalue=q["pv"], low_init=q["low"], hig_init=q["hig"]),
            is_number if n == 1 else lambda r: numbers(r, n))


def steady(plan):
    """The likelihood is a function of the signal strength."""
    return all(m["n"] == 1 and m["expected"] != "noise" and all(
        s is None or s["shape"] not in ("noise", "alternate", "nan-even", "late-nan", "late-flat", "late-shift", "zero-one", "raise-late")
        for s in (m["obs"], m["asimov"])) for m in plan["models"]) and all(
            q["shape"]["shape"] not in ("noise", "alternate", "nan-even", "late-nan", "late-flat", "late-shift", "zero-one", "raise-late") for q in plan["queries"])


def execute(plan, out):
    M.quiet(40)
    models = [statistical_model_wrapper(Wild)(d, analysis="w%d" % k, xsection=0.5, ntoys=3) for k, d in enumerate(plan["models"])]
    model = spey.UnCorrStatisticsCombiner(*models, ntoys=3) if plan["comb"] and len(models) > 1 else models[0]
    optimiser.HOOK = script(plan)
    trace = []
    for q in plan["queries"]:
        np.random.seed(1)
        if q["q"] == "bracket":
            q = dict(q, q="root")
        what = "query %r of a model %r with %s optimiser" % (q, plan["models"], plan["hook"])
        WORK.start(LIMIT[q["q"]])
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r, ok = ask(model, q, out)
            except TooMuch as err:
                raise Violation("unbounded", "%s did not end: %s" % (what, err))
            except (TypeError, AttributeError, NameError, LookupError) as err:
                raise Violation("programming-error", "%s: %s" % (what, "%r at %s" % (err, " <- ".join(
                    "%s:%d" % (f.filename.rsplit("/", 1)[-1], f.lineno) for f in reversed(traceback.extract_tb(err.__traceback__)[-6:])))))
            except Exception as err:  # noqa: BLE001
                if "different sign" in str(err) and steady(plan):
                    raise Violation("no-bracket", "%s: %r" % (what, err))
                out.count("raised-" + type(err).__name__)
                trace.append([q["q"], type(err).__name__])
                r = ok = None
        WORK.most = max(WORK.most, WORK.evals)
        if ok is not None:
            if not ok(r):
                raise Violation("no-number", "%s gave %r" % (what, r))
            v = [float(np.ravel(t)[0]) for t in (r if isinstance(r, (list, tuple)) and numbers(r) else [r] if is_number(r) else [0.0])]
            kind = "nan" if any(t != t for t in v) else "inf" if any(math.isinf(t) for t in v) else "number"
            out.count("gave-" + kind)
            trace.append([q["q"], kind, repr(r)])
        out.count("evaluations", WORK.evals)
        out.count("fits", WORK.fits)
        out.states.append(digest([plan["models"][0]["obs"]["shape"], (plan["models"][0]["asimov"] or {}).get("shape"), q["q"], q["exp"], trace[-1][1]]))
    for m in plan["models"]:
        for s in (m["obs"], m["asimov"]):
            if s is not None and s["shape"] != "gauss":
                out.fault("likelihood-" + s["shape"])
        if m["expected"] != "ok":
            out.fault("data-" + m["expected"])
    if plan["hook"] == "script":
        for o in plan["outcomes"]:
            out.fault("optimiser-" + o[1])
    out.nontrivial = bool(out.faults)
    out.digest = digest(trace + [WORK.most])


RULE = ("Each run: 1-2 (combined) models whose likelihood has one of 26 shapes (flat, undefined in places, stepped, noisy, alternating, monotonic, changing or failing after some evaluations, ...), "
        "possibly another one for generated data, gradients that are right, zero or undefined, open or huge bounds, data that are undefined; real optimiser or scripted outcomes; 1-2 of 11 kinds of searches with drawn brackets and levels. "
        "Non-trivial: something misbehaves; distinct by the digest of outcomes and work.")
REAL = ["spey (limits, confidence levels, significance, chi-square tests, combinations, optimiser wrappers)", "scipy root finders; scipy.optimize.minimize in about half of the runs"]
STUB = ["the backend is a scripted one; scipy.optimize.minimize is scripted in about half of the runs"]
ASSUMPTIONS = ["fits are cut off after 40 iterations", "bounded means: at most %r fits or searches steps plus %d evaluations per fit" % (LIMIT, PER_FIT)]
STATES = "distinct (shapes, query, expectation, kind of outcome)"
