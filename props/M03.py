"""M03: arguments of constructors and queries are never modified, and never kept."""
import warnings

import numpy as np

import spey
from props import _models as M
from sim import optimiser
from sim.run import Violation
from sim.util import digest, in_fork

LEVEL = "exploration"
LEVEL_NOTE = ("samples constructions and queries with mutable arguments (also failing, retried and interrupted ones); every argument is compared with a deep snapshot, "
              "changed by the caller afterwards, and a later equal query is compared with a pristine process")
TECHNIQUE = "deterministic simulation: seeded query histories with failing and non-converging fits and callers that reuse their arguments"
RUNS = {"quick": 900, "thorough": 25000}
BATCH = 1
SHRINK = ("ops", "specs", "fails")

KINDS = ["likelihood", "maxlike", "asimov", "maxasimov", "gen_asimov", "chi2", "closure", "expected", "sample", "sampler", "cls", "limit", "signif",
         "contour"]
WEIGHTS = [5, 5, 3, 3, 3, 3, 1, 1, 1, 2, 2, 1, 1, 1]


class Fail(Exception):
    pass


class Owned(M.Plugin2):
    """A backend that hands out its own containers."""

    def __init__(self, s, b, n):
        super().__init__(s, b, n)
        self.cfg = super().config()
        self.constraints = [{"type": "ineq", "fun": lambda v: 9.0 - v[0]}]
        self.buf = np.array(b, dtype=float)

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        return self.cfg

    def expected_data(self, pars):
        self.buf[:] = self._lam(np.asarray(pars))
        return self.buf

    def get_hessian_logpdf_func(self, expected=M.ET.observed, data=None):
        f = self.get_logpdf_func(expected, data)

        def hess(pars):
            h, n = 1e-3, len(pars)
            out = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    v = 0.0
                    for a, b in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
                        p = np.array(pars, dtype=float)
                        p[i] += a * h
                        p[j] += b * h
                        v += a * b * f(p)
                    out[i, j] = v / (4 * h * h)
            return out

        return hess

    def owned(self):
        c = self.cfg
        return [c.suggested_init, c.suggested_bounds, c.parameter_names, self.constraints, self.s, self.b, self.n]


def gen(rng, i, tier):
    specs = [M.gen_model(rng, hostile=0.15) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.2:
        specs[0] = dict(specs[0], kind="owned")
    nt = len(specs) + (1 if len(specs) > 1 else 0)
    ops = []
    for _ in range(rng.randint(2, 7)):
        t = rng.randrange(nt)
        sp = spec_of(specs, t)
        r = rng.random()
        if r < 0.1 and t < len(specs):
            ops.append(["scribble", t])
            continue
        k = rng.choices(KINDS, WEIGHTS)[0]
        if k == "contour":
            if sp["kind"] != "owned":
                k = "likelihood"
            else:
                ops.append(["ask", t, {"q": "contour", "exp": "obs", "pi": rng.choice([[1], [1, 2]]),
                                       "cb": [[None, None], [-3.0, 3.0], [-8.0, 8.0]]}, True])
                continue
        q = M.gen_query(rng, sp if sp["kind"] != "owned" else dict(sp, kind="plugin2"), kinds=[k])
        ops.append(["ask", t, q, rng.random() < 0.4])
    fails = sorted([rng.randrange(1, 25), rng.choice(["noconv", "noconv", "noconv", "raise", "nan"])] for _ in range(rng.choice([0, 0, 1, 3, 6])))
    refused = [[rng.randrange(len(specs)), rng.randrange(5)] for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"specs": specs, "ops": ops, "fails": fails, "refused": refused}


def spec_of(specs, t):
    if t < len(specs):
        return specs[t]
    return {"kind": "comb", "names": ["m%d" % k for k in range(len(specs))],
            "members": [dict(s, kind="plugin2") if s["kind"] == "owned" else s for s in specs]}


def make(specs, args=None, snap=lambda a: a):
    models = []
    for k, s in enumerate(specs):
        if s["kind"] == "owned":
            models.append(M.statistical_model_wrapper(Owned)(s["s"], s["b"], s["n"], analysis="m%d" % k, ntoys=4))
        else:
            a = None
            if s["kind"] not in ("plugin", "plugin2"):
                a = snap(M.arguments(s))
                if args is not None:
                    args[k] = a
            models.append(M.build(s, "m%d" % k, args=a))
    if len(models) > 1:
        models.append(spey.UnCorrStatisticsCombiner(*models, ntoys=4))
    return models


def ask(model, q, A):
    if q["q"] != "contour":
        return M.ask(model, q, A)
    from spey.multiparameter import find_contour
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = find_contour(model, 0.95, poi_indices=A(list(q["pi"])), n_radial=6, n_hmc_chains=1, n_hmc_steps=4, n_gap_candidates=12,
                             random_seed=3, n_jobs=1, n_multistart=2, bounds=A([tuple(b) for b in q["cb"]][:len(q["pi"])]))
            r = r.contour_points
        except Exception as err:  # noqa: BLE001
            r = err
    return M.canon(r), r


def execute(plan, out):
    M.quiet()
    spey.set_optimiser("scipy")
    fails = {n: k for n, k in plan["fails"]}
    count = [0]

    def hook(real, kw):
        count[0] += 1
        how = fails.get(count[0])
        if how == "raise":
            out.fault("optimiser-raises")
            raise Fail("injected")
        res = real(**kw)
        if how is not None:
            out.fault("optimiser-" + how)
            res.success, res.message, res.status = False, "injected", 8
            if how == "nan":
                res.x = np.full_like(res.x, np.nan)
        return res

    later = {}
    nt = len(plan["specs"]) + (len(plan["specs"]) > 1)
    for n, op in enumerate(plan["ops"]):
        if op[0] == "ask" and op[1] < nt and op[3]:
            later[n] = in_fork(lambda: quiet_ask(plan["specs"], op))
    cargs = {}
    snaps = M.Args()
    models = make(plan["specs"], cargs, snaps)
    check(snaps, "an argument of a constructor was modified by it")
    for k, key in plan.get("refused", []):
        # a construction that fails, mostly
        s = plan["specs"][k]
        if s["kind"] in M.FULL:
            a = M.arguments(s)
            key = sorted(a)[key % len(a)]
            if isinstance(a[key], (list, np.ndarray)):
                a[key] = a[key][:-1]
                A = M.Args()
                A(a)
                try:
                    M.build(s, "refused", args=a)
                except Exception as err:  # noqa: BLE001
                    out.fault("refused-construction")
                check(A, "an argument of a refused constructor was modified by it")
    own = M.Args()
    for m in models[:len(plan["specs"])]:
        if isinstance(m.backend, Owned):
            own(m.backend.owned())
    optimiser.HOOK = hook
    trace = []
    for n, op in enumerate(plan["ops"]):
        if op[1] >= len(models):
            continue
        if op[0] == "scribble":
            a = cargs.get(op[1])
            if a is not None:
                check(snaps, "an argument of a constructor was modified")
                for key, v in a.items():
                    if isinstance(v, (list, np.ndarray)):
                        M.spoil(v)
                snaps = M.Args()
                for b in cargs.values():
                    snaps(b)
                out.fault("constructor-arguments-reused")
            continue
        A = M.Args()
        got, _ = ask(models[op[1]], op[2], A)
        out.count("queries")
        out.count("mutable-arguments", len(A.made))
        what = "%r of %s" % (op[2], spec_of(plan["specs"], op[1])["kind"])
        check(A, "an argument was modified by the query " + what)
        check(snaps, "an argument of a constructor was modified by the query " + what)
        check(own, "a container of the backend was modified by the query " + what)
        trace.append([op[2]["q"], len(A.made)])
        if n in later:
            for x, _ in A.made:
                M.spoil(x)
            if A.made:
                out.fault("query-arguments-reused")
            optimiser.HOOK = None
            got, _ = ask(models[op[1]], op[2], M.Args())
            optimiser.HOOK = hook
            # a query that was answered while a fit failed is (rightly) remembered
            if not out.faults.keys() & {"optimiser-noconv", "optimiser-nan"}:
                judge(got, later[n], what)
    check(snaps, "an argument of a constructor was modified")
    check(own, "a container of the backend was modified")
    out.nontrivial = out.counts.get("mutable-arguments", 0) > 0 or bool(cargs)
    out.digest = digest(trace, [s["kind"] for s in plan["specs"]])
    out.states = [digest(trace)]


def quiet_ask(specs, op):
    spey.set_optimiser("scipy")
    return ask(make(specs)[op[1]], op[2], M.Args())[0]


def check(args, what):
    diff = args.changed()
    if diff:
        raise Violation("argument-modified", "%s: %s" % (what, diff))


def judge(got, want, what):
    if isinstance(got, list) and got and got[0] == "err" and isinstance(want, list) and want and want[0] == "err":
        return
    if not M.close(got, want, 1e-8, 1e-10):
        raise Violation("kept-reference", "after the caller changed arguments it had passed before, %s gave %s instead of %s"
                        % (what, str(got)[:500], str(want)[:500]))


RULE = ("Each run: 1-3 models of 14 kinds and their combination, 2-7 queries of 14 kinds with mutable arguments (data, initial values, bounds as lists or object arrays, "
        "dict POIs, options, constraints, per-member dictionaries, contour arguments), scripted non-convergence, exceptions and NaN results of the optimiser, and callers that overwrite "
        "constructor and query arguments afterwards. Non-trivial: at least one mutable argument; distinct by the digest of kinds and argument counts.")
REAL = ["spey (all of the query path, all built-in backends, contour)", "scipy, autograd, numpy"]
STUB = ["results of scipy.optimize.minimize on the scripted calls", "third-party backends written for the check"]
ASSUMPTIONS = ["fits are cut off after 200 iterations", "functions given as arguments are compared by identity"]
