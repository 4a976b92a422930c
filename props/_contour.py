"""Models, settings and queries of the contour checks."""
import autograd
import autograd.numpy as anp
import numpy as np

import spey
from props import _models as M
from spey.base.model_config import ModelConfig
from spey.interface.statistical_model import statistical_model_wrapper

BASES = ["gauss", "gauss", "quartic", "banana", "double", "flat", "ridge", "bounded", "abs"]
WALLS = [None, None, None, None, "step", "inf", "nan", "raise"]
KINDS = ["plug"] * 6 + ["mvn"] * 3 + ["uncorrelated", "correlated", "poisson_unc", "effective"]


class Shape(spey.BackendBase):
    """A third-party backend with a likelihood of any shape in its further parameters."""

    name, version, author, spey_requires = "verif.shape", "1", "verif", ">=0.0.1"

    def __init__(self, sp):
        self.sp = sp
        self.A, self.c = np.array(sp["A"]), np.array(sp["c"])

    is_alive = True

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        d = len(self.c)
        return ModelConfig(self.sp["poi"], -5.0, [1.0] * (d + 1) if self.sp["init"] == 1 else [0.1] * (d + 1),
                           self.with_poi((-5.0 if allow_negative_signal else 0.0, poi_upper_bound), [tuple(b) for b in self.sp["bounds"]]),
                           parameter_names=self.with_poi("mu", ["p%d" % k for k in range(d)]) if self.sp["names"] else None)

    def with_poi(self, x, rest):
        return [*rest[:self.sp["poi"]], x, *rest[self.sp["poi"]:]]

    def nll(self, pars):
        sp = self.sp
        k = sp["poi"]
        z = anp.dot(self.A, anp.concatenate([pars[:k], pars[k + 1:]]) - self.c)
        b = sp["base"]
        if b in ("gauss",):
            v = 0.5 * anp.sum(z ** 2)
        elif b == "quartic":
            v = 0.3 * anp.sum(z ** 2) + 0.1 * anp.sum(z ** 4)
        elif b == "banana":
            v = 0.5 * anp.sum(z ** 2) if len(self.c) == 1 else 0.5 * anp.sum(z[:-1] ** 2) + 0.5 * (z[-1] + sp["h"] * z[0] ** 2) ** 2
        elif b == "double":
            m = sp["h"] + 1.5
            v = -anp.logaddexp(-0.5 * anp.sum((z - m) ** 2), -0.5 * anp.sum((z + m) ** 2) - sp["h"])
        elif b == "flat":
            v = 0.5 * anp.sum(z[:-1] ** 2)
        elif b == "ridge":
            v = 0.5 * anp.sum(z[:-1] ** 2) + 0.0005 * z[-1] ** 2
        elif b == "bounded":
            v = 4.0 * sp["h"] * (1 - anp.exp(-0.3 * anp.sum(z ** 2)))
        else:
            v = anp.sum(anp.abs(z))
        v = v + 0.5 * (pars[k] - 1.0) ** 2 + sp["off"]
        w, side = sp["wall"], z[0] > sp["w"]
        if w and side:
            if w == "step":
                v = v + sp["h"]
            elif w == "inf":
                v = v * 0.0 + np.inf
            elif w == "nan":
                v = v * np.nan
            else:
                raise spey.system.exceptions.NegativeExpectedYields("outside")
        return v

    def get_logpdf_func(self, expected=M.ET.observed, data=None):
        return lambda pars: -self.nll(pars)

    def get_objective_function(self, expected=M.ET.observed, data=None, do_grad=True):
        if do_grad:
            g = autograd.value_and_grad(self.nll)
            return lambda pars: g(np.array(pars, dtype=float))
        return lambda pars: self.nll(np.array(pars, dtype=float))

    def get_hessian_logpdf_func(self, expected=M.ET.observed, data=None):
        if self.sp["hess"] == "raise":
            raise NotImplementedError("no Hessian")
        h = autograd.hessian(lambda pars: -self.nll(pars))
        if self.sp["hess"] == "nan":
            return lambda pars: h(pars) * np.nan
        if self.sp["hess"] == "late":
            def late(pars):
                raise FloatingPointError("no Hessian here")
            return late
        return h

    def expected_data(self, pars):
        return [1.0]


def gen_spec(rng, walls=True, kinds=KINDS):
    kind = rng.choice(kinds)
    if kind in ("uncorrelated", "correlated", "poisson_unc", "effective"):
        sp = M.gen_model(rng, kinds=[kind], nmax=3)
        if kind in ("uncorrelated", "poisson_unc") and len(sp["s"]) == 1 and rng.random() < 0.7:
            sp = M.gen_model(rng, kinds=["correlated"], nmax=2)
        return sp
    d = rng.choice([1, 2, 2, 2, 3])
    if kind == "mvn":
        n = rng.choice([2, 2, 3])
        b = [round(rng.uniform(20, 60), 1) for _ in range(n)]
        return {"kind": "mvn", "d": d, "s": [round(rng.uniform(3, 15), 2) for _ in range(n)], "b": b, "n": [round(x * rng.uniform(0.7, 1.3)) for x in b],
                "u": [round(x * rng.uniform(0.1, 0.3), 2) for x in b], "c": round(rng.uniform(-0.3, 0.6), 2),
                "q": rng.choice([0.0, 0.0, 0.3, 1.0]), "lin": [[round(rng.uniform(-1, 1.5), 2) for _ in range(n)] for _ in range(d)],
                "bounds": rng.choice([None, None, [[-3.0, 3.0]] * d, [[0.0, None]] * d, [[-10.0, 10.0]] * d]), "names": True}
    a = [[round(rng.uniform(0.4, 2.0), 2) if r == c else (round(rng.uniform(-0.8, 0.8), 2) if c < r else 0.0) for c in range(d)] for r in range(d)]
    return {"kind": "plug", "poi": rng.choice([0, 0, d, min(1, d)]), "A": a, "c": [round(rng.uniform(-1.5, 1.5), 2) for _ in range(d)],
            "base": rng.choice(BASES), "h": rng.choice([0.3, 1.0, 1.0, 3.0]), "off": rng.choice([0.0, 0.0, 12.3, -4.0, 1e4]),
            "wall": rng.choice(WALLS) if walls else None, "w": round(rng.uniform(0.2, 2.5), 2), "init": rng.choice([1, 0]),
            "bounds": [rng.choice([[None, None], [None, None], [-4.0, 4.0], [-10.0, 10.0], [-1.0, None], [None, 1.5], [0.0, 3.0]]) for _ in range(d)],
            "names": rng.random() < 0.7, "hess": rng.choice(["ok"] * 6 + ["raise", "late", "nan"] if walls else ["ok"])}


def dim(sp):
    return len(sp["c"]) if sp["kind"] == "plug" else sp["d"] if sp["kind"] == "mvn" and "d" in sp else M.npar(sp) - 1


def build(sp):
    if sp["kind"] == "plug":
        return statistical_model_wrapper(Shape)(sp, analysis="shape")
    if sp["kind"] == "mvn":
        s, lin, q, d = np.array(sp["s"]), np.array(sp["lin"]), sp["q"], sp["d"]

        def signal(pars):
            v = s
            for k in range(d):
                v = v * (1.0 + lin[k] * pars[k] + q * pars[k] ** 2)
            return v
        n = len(s)
        cov = np.full((n, n), sp["c"])
        np.fill_diagonal(cov, 1.0)
        kw = {}
        if sp["bounds"]:
            kw["signal_parameter_bounds"] = [tuple(b) for b in sp["bounds"]]
        return spey.get_backend("default.multivariate_normal")(signal_yields=signal, background_yields=np.array(sp["b"]), data=np.array(sp["n"], dtype=float),
                                                               covariance_matrix=cov * np.outer(sp["u"], sp["u"]), n_signal_parameters=d, analysis="mvn", **kw)
    return M.build(sp, "m")


def gen_settings(rng, sp, subset=0.0):
    d = dim(sp)
    kw = {"confidence_level": rng.choice([0.95, 0.68, 0.9, 0.5, 0.99]), "n_radial": rng.choice([1, 4, 8, 12]), "n_hmc_chains": rng.choice([1, 2, 4, 7]),
          "n_hmc_steps": rng.choice([1, 3, 6]), "hmc_step_size": rng.choice([0.05, 0.05, 0.5, 3.0]), "n_gap_candidates": rng.choice([10, 30]),
          "n_multistart": rng.choice([1, 2, 4]), "n_coverage_passes": rng.choice([1, 2, 2, 3]), "random_seed": rng.randrange(1000),
          "newton_max_iter": rng.choice([100, 100, 3, 1]), "newton_tol": rng.choice([1e-9, 1e-9, 1e-5]), "max_radial_bracket": rng.choice([30.0, 30.0, 2.0]),
          "coverage_knn": rng.choice([5, 1])}
    if rng.random() < 0.35:
        lo, hi = rng.choice([(-1.0, 1.0), (0.0, 2.0), (-0.3, None), (None, 0.4), (-6.0, 6.0), (1.0, 5.0), (None, None)]), None
        kw["bounds"] = [list(lo) for _ in range(d)]
    if d > 1 and rng.random() < subset:
        kw["subset"] = sorted(rng.sample(range(d), rng.randint(1, d - 1)))
        if "bounds" in kw:
            kw["bounds"] = kw["bounds"][:len(kw["subset"])]
    return kw


def ask(model, kw, n_jobs=1):
    from spey.multiparameter import find_contour
    kw = dict(kw)
    sub = kw.pop("subset", None)
    cfg = model.backend.config()
    if sub is not None:
        rest = [i for i in range(cfg.npar) if i != cfg.poi_index]
        kw["poi_indices"] = [rest[k] for k in sub]
    if "bounds" in kw:
        kw["bounds"] = [tuple(b) for b in kw["bounds"]]
    return find_contour(model, n_jobs=n_jobs, **kw)


def canon(r):
    return [M.canon(x) for x in (r.theta_mle, r.nll_min, r.threshold, r.delta, r.contour_points, r.from_radial, r.parameter_names, r.confidence_level, r.dof)]
