"""T02: pseudo-data against the model they are said to come from, over seeded random states."""
import numpy as np

import spey
from props import _models as M
from sim.run import Violation
from sim.util import digest
from spey.interface.statistical_model import statistical_model_wrapper

LEVEL = "exploration"
LEVEL_NOTE = ("samples models, parameter points, sizes and random states; shapes are exact, means and covariances of 3000 samples are compared with the expectation within six standard deviations, "
              "and the data used by toy based levels are traced to the sampler")
TECHNIQUE = "deterministic simulation: the random source is the seam; seeded states drive samplers and toys, whose histories are checked against the model's expectation"
RUNS = {"quick": 1500, "thorough": 40000}
BATCH = 8
SHRINK = ("ops",)

N = 3000


def gen(rng, i, tier):
    spec = M.gen_model(rng, nmax=3)
    n = M.npar(spec)
    ops = []
    for _ in range(rng.randint(2, 5)):
        at = [round(rng.uniform(0.0, 2.5), 3)] + [round(rng.uniform(-1.0, 1.0), 3) for _ in range(n - 1)]
        ops.append([rng.choice(["shape", "shape", "moments", "fixed", "fixed", "toys"]), at, rng.choice([0, 1, 1, 2, 3, 7]), rng.choice(["obs", "post", "prior"]),
                    rng.random() < 0.3, rng.randrange(10 ** 6), rng.choice([0.0, 0.5, 1.0, 2.0])])
    return {"spec": spec, "ops": ops, "opt": rng.choice(["scipy", "scipy", "minuit"])}


def sizes(spec):
    """Bins and auxiliary measurements."""
    k = len(spec["s"])
    aux = {"uncorrelated": k, "correlated": k, "third": k, "effective": k, "sigpar": k,
           "mod": k + 1 + (k if spec["c"] > 0 else 0)}.get(spec["kind"], 0)
    return k, aux


def check_shape(what, x, size, width):
    if not isinstance(x, np.ndarray) or x.shape != (size, width):
        raise Violation("shape", "%s gave %r instead of an array of shape %r" % (what, getattr(x, "shape", x), (size, width)))
    if not np.all(np.isfinite(x)):
        raise Violation("not-finite", "%s gave %r" % (what, x))


def check_counts(what, spec, x, k):
    if spec["kind"] not in ("normal", "mvn", "mvn_fn") and x.size and (np.any(x[:, :k] < 0) or np.any(x[:, :k] != np.round(x[:, :k]))):
        raise Violation("no-counts", "%s gave %r" % (what, x[:3]))


def moments(what, spec, m, at, seed):
    k, aux = sizes(spec)
    pars = np.array(at)
    np.random.seed(seed)
    x = m.backend.get_sampler(pars)(N)
    check_shape(what, x, N, k + aux)
    check_counts(what, spec, x, k)
    mean = np.array(m.backend.expected_data(pars), dtype=float)[:k]
    if spec["kind"] in ("normal",):
        cov = np.diag(np.array(spec["u"]) ** 2)
    elif spec["kind"] == "mvn":
        cov = M._cov(spec)
    elif spec["kind"] == "mvn_fn":
        cov = M._cov(spec) * (1 + 0.1 * at[0] ** 2)
    else:
        cov = np.diag(np.maximum(mean, 0))
    if aux:
        c = np.eye(aux)
        if spec["kind"] in ("correlated", "third", "effective", "sigpar"):
            c = M._cov(spec, True)
        big = np.zeros((k + aux, k + aux))
        big[:k, :k] = cov
        big[k:, k:] = c
        cov, mean = big, np.concatenate([mean, np.zeros(aux)])
    if np.any(mean[:k] < 0.5) and spec["kind"] not in ("normal", "mvn", "mvn_fn"):
        return
    sd = np.sqrt(np.diag(cov))
    got = x.mean(axis=0)
    if np.any(np.abs(got - mean) > 6 * sd / np.sqrt(N)):
        raise Violation("mean", "%s: the mean of %d samples is %s, expected %s +- %s" % (what, N, got, mean, sd / np.sqrt(N)))
    z = (x - mean) / sd
    c = z.T @ z / N
    want = cov / np.outer(sd, sd)
    # kurtosis of a Poisson distribution included
    tol = 6 * np.sqrt((2 + 1 / np.minimum.outer(sd ** 2, sd ** 2).clip(0.5, None)) / N)
    if np.any(np.abs(c - want) > tol):
        raise Violation("covariance", "%s: the covariance of %d samples is %s in units of the expected deviations, expected %s" % (what, N, c.tolist(), want.tolist()))
    # consecutive samples are independent
    lag = (z[1:] * z[:-1]).mean(axis=0)
    if np.any(np.abs(lag) > 6 * 1.5 / np.sqrt(N)):
        raise Violation("dependent", "%s: consecutive samples are correlated by %s" % (what, lag))


def toys(what, spec, mu, exp, seed, ntoys):
    """The data that are fitted for a toy based level are the sampled ones."""
    drawn, used = [], []

    class Spy(M.Plugin if spec["kind"] != "plugin2" else M.Plugin2):
        name = "verif.spy"

        def get_sampler(self, pars):
            f = super().get_sampler(pars)

            def sample(size, *a, **k):
                x = f(size, *a, **k)
                drawn.append((float(pars[0]), x.copy()))
                return x
            return sample

        def get_logpdf_func(self, expected=M.ET.observed, data=None):
            if data is not None:
                used.append(tuple(float(v) for v in np.asarray(data)))
            return super().get_logpdf_func(expected, data)

    m = statistical_model_wrapper(Spy)(spec["s"], spec["b"], spec["n"], analysis="a", xsection=1.0, ntoys=ntoys)
    np.random.seed(seed)
    r = m.exclusion_confidence_level(mu, expected=M.EXP[exp], calculator="toy", verbose=False)
    if sorted(d[0] for d in drawn) != sorted([0.0, mu]) or any(len(d[1]) != ntoys for d in drawn):
        raise Violation("toys", "%s sampled %r" % (what, [(d[0], len(d[1])) for d in drawn]))
    have = {tuple(float(v) for v in row) for _, x in drawn for row in x}
    if not set(used) <= have:
        raise Violation("toys", "%s fitted data that were not sampled: %r" % (what, sorted(set(used) - have)[:3]))
    if set(used) != have:
        raise Violation("toys", "%s never used the sampled data %r" % (what, sorted(have - set(used))[:3]))
    if not all(0.0 <= float(v) <= 1.0 for v in r):
        raise Violation("toys", "%s gave %r" % (what, r))
    return repr(r)


def execute(plan, out):
    M.quiet()
    spey.set_optimiser(plan["opt"])
    spec = plan["spec"]
    k, aux = sizes(spec)
    m = M.build(spec)
    trace = []
    for op, at, size, exp, bare, seed, mu in plan["ops"]:
        what = "%s of %d from %r at %r (seed %d)" % (op, size, spec, at, seed)
        np.random.seed(seed)
        if op == "shape":
            s = m.backend.get_sampler(np.array(at))
            kw = {"include_auxiliary": False} if bare and spec["kind"] not in ("plugin", "plugin2") else {}
            x = s(size, **kw)
            check_shape(what, x, size, k + (0 if kw else aux))
            check_counts(what, spec, x, k)
            y = s(size + 3)
            check_shape(what, y, size + 3, k + aux)
            trace.append([op, x.tolist(), y.tolist()])
        elif op == "moments":
            moments(what, spec, m, at, seed)
            trace.append([op])
        elif op == "fixed":
            x = m.fixed_poi_sampler(mu, size=size, expected=M.EXP[exp])
            check_shape(what, x, size, k + aux)
            f = m.fixed_poi_sampler(mu, expected=M.EXP[exp])
            np.random.seed(seed)
            y = f(size)
            _, pars = m.likelihood(mu, expected=M.EXP[exp], return_parameters=True)
            np.random.seed(seed)
            z = m.backend.get_sampler(np.array(pars, dtype=float))(size)
            if not np.array_equal(x, y) or abs(float(pars[0]) - mu) > 1e-6:
                raise Violation("fixed-poi", "%s: %r and, from the returned sampler, %r" % (what, x, y))
            if not np.allclose(x, z, rtol=1e-3, atol=1.0 if k and size else 0):
                raise Violation("fixed-poi", "%s: %r but the model samples %r at the best fit %r" % (what, x, z, pars))
            trace.append([op, x.tolist()])
        elif op == "toys":
            trace.append([op, toys(what, spec, mu if mu else 1.0, exp, seed, 3)])
        out.count(op)
        out.fault("random-state")
    out.nontrivial = True
    out.digest = digest(trace)
    out.states = [digest([spec["kind"], o[0], o[2], o[4]]) for o in plan["ops"]]


RULE = ("Each run: one model of 13 kinds and 2-5 operations, each from its own random state: sample 0-7 data sets with or without auxiliary data, compare the moments of 3000 samples, sample at a fixed parameter of interest "
        "(at once or through the returned sampler), or trace the toys of a confidence level. Every run is non-trivial; distinct by the digest of what was sampled.")
REAL = ["spey (samplers, distributions, fixed parameter sampling, toy calculator)", "numpy and scipy random generators"]
STUB = ["toys are traced through a third-party backend written for the check"]
ASSUMPTIONS = ["means and covariances are those of the documented models; agreement within six standard deviations is taken as correct",
               "expected_data is taken as the mean of the counts"]
STATES = "distinct (model kind, operation, size, with auxiliary data)"
