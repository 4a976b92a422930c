"""K01: a combination is the sum of its current members."""
import numpy as np
import scipy.optimize

import spey
from props import _models as M
from props.M04 import EXC, World
from sim import optimiser
from sim.run import Violation
from sim.util import digest, in_fork
from spey.base.hypotest_base import HypothesisTestingBase
from spey.system.exceptions import AnalysisQueryError, CombinerNotAvailable, NegativeExpectedYields

LEVEL = "exploration"
LEVEL_NOTE = ("samples histories of appending, removing, joining and querying members, with rejected operations and members that raise at drawn points; after every step membership is compared with a list, "
              "and answers with an independent sum over freshly built members that is optimised by a bracketing search")
TECHNIQUE = "deterministic simulation: seeded histories of combinations with exceptions injected into members, refinement against an executable sum-of-members model"
RUNS = {"quick": 500, "thorough": 15000}
BATCH = 1
SHRINK = ("ops", "specs", "combs")

EXC = dict(EXC, negative=NegativeExpectedYields)
NAMES = ["SR1", "SR", "SR10", "sr1"]      # names that contain each other, or differ in case
OPTIONS = [{"do_grad": False}, {"tol": 1e-7}, {"ntrials": 2}, {"maxiter": 150}]


def gen(rng, i, tier):
    n = rng.choice([2, 3, 3, 4])
    kinds = [k for k in M.BACKENDS if k not in ("sigpar",)]
    specs = [M.gen_model(rng, kinds=kinds, nmax=2) for _ in range(n)]
    if rng.random() < 0.3:
        specs[-1] = dict(specs[0], s=[round(x * 1.3, 2) for x in specs[0]["s"]])
    if rng.random() < 0.15:
        j = rng.randrange(n)
        specs[j] = dict(specs[j], s=[0.0] * len(specs[j]["s"]))      # a member without signal
    ncomb = rng.choice([1, 1, 2])
    combs = [rng.sample(range(n), rng.randint(1, n)) for _ in range(ncomb)]
    ops = []
    for _ in range(rng.randint(3, 10)):
        c = rng.randrange(ncomb)
        r = rng.random()
        if r < 0.14:
            ops.append(["append", c, rng.randrange(n)])
        elif r < 0.26:
            ops.append(["remove", c, rng.choice([NAMES[rng.randrange(n)]] * 6 + ["nobody", "", NAMES[-1][:-1]])])
        elif r < 0.30:
            ops.append(["bad", c, rng.choice(["none", "comb", "name", "class", "backend"])])
        elif r < 0.36:
            ops.append(["join", c, rng.choice([["model", rng.randrange(n)], ["comb", rng.randrange(ncomb)], ["bad", 0]])])
        elif r < 0.42:
            ops.append(["look", c, rng.randrange(-5, 6), rng.randrange(n)])
        elif r < 0.44:
            ops.append(["combine", c, rng.randrange(n), rng.randrange(n)])
        elif r < 0.62 and any(o[0] == "ask" for o in ops):
            # an earlier question, maybe after the members have changed
            old = rng.choice([o for o in ops if o[0] == "ask"])
            ops.append(["ask", old[1], old[2], None])
        else:
            ops.append(["ask", c, gen_query(rng, specs), gen_fault(rng)])
    return {"specs": specs, "combs": combs, "ops": ops}


def gen_fault(rng):
    if rng.random() < 0.65:
        return None
    return [round(rng.choice([rng.random(), 1 - rng.random() ** 3]), 5), rng.choice(sorted(EXC) + ["negative"] * 4)]


def gen_query(rng, specs):
    k = rng.choices(["likelihood", "gen_asimov", "asimov", "maxlike", "maxasimov", "cls", "limit", "sensitive", "minimum", "chi2"],
                    [8, 3, 4, 6, 4, 2, 1, 1, 2, 2])[0]
    q = {"q": k, "exp": rng.choice(["obs", "obs", "post", "prior"])}
    if k in ("likelihood", "asimov", "cls", "chi2"):
        q["mu"] = rng.choice([0.0, 0.5, 1.0, 1.7, 3.0])
        q["as"] = rng.choice(["float", "float", "int", "numpy"])
    if k in ("likelihood", "asimov"):
        q["nll"] = rng.random() < 0.8
    if k in ("maxlike", "maxasimov"):
        q["nll"] = rng.random() < 0.9
        q["neg"] = rng.random() < 0.5
        if rng.random() < 0.25:
            q["bounds"] = [rng.choice([0.0, -0.02]), rng.choice([1.0, 4.0, 20.0])]
        if rng.random() < 0.25:
            q["muhat0"] = round(rng.uniform(0, 3.0), 2)
    if k in ("gen_asimov", "asimov", "maxasimov"):
        q["ts"] = rng.choice(["qtilde", "q", "q0"])
    if k in ("likelihood", "maxlike") and rng.random() < 0.45:
        q["data"] = {NAMES[j]: [rng.randint(2, 35) for _ in s["s"]] for j, s in enumerate(specs) if rng.random() < 0.6}
        if rng.random() < 0.2:
            q["data"]["nobody"] = [1, 2]
    if k in ("likelihood", "gen_asimov", "asimov", "maxlike", "maxasimov") and rng.random() < 0.4:
        q["smo"] = {M.BTYPE[rng.choice(specs)["kind"]]: rng.choice(OPTIONS) for _ in range(rng.randint(1, 2))}
        if rng.random() < 0.3:
            j = rng.randrange(len(specs))
            q["smo"] = {M.BTYPE[specs[j]["kind"]]: {"init_pars": [0.3] + [0.1] * (M.npar(specs[j]) - 1)}}
    if k in ("likelihood", "maxlike", "asimov") and rng.random() < 0.2:
        q["opt"] = rng.choice([{"maxiter": 150}, {"tol": 1e-8}])
    if k == "limit":
        q["cl"] = rng.choice([0.95, 0.9])
    return q


class Sum(HypothesisTestingBase):
    """The reference: the sum over freshly built members."""

    def __init__(self, plan, idx, q):
        super().__init__(ntoys=4)
        self.members = [(NAMES[k], M.BTYPE[plan["specs"][k]["kind"]], M.build(plan["specs"][k], NAMES[k])) for k in idx]
        self.smo, self.opt = q.get("smo", {}), q.get("opt", {})
        self.data = {a: np.array(d, dtype=float) for a, d in q.get("data", {}).items()}
        self.asimov = {}

    is_alive = property(lambda self: any(m.is_alive for _, _, m in self.members))
    is_asymptotic_calculator_available = is_chi_square_calculator_available = property(lambda self: True)
    is_toy_calculator_available = property(lambda self: False)
    minimum_poi = property(lambda self: max(m.backend.config().minimum_poi for _, _, m in self.members))

    def options(self, btype):
        return dict(self.smo.get(btype, {}), **self.opt)

    def at(self, mu, expected, data):
        return sum(m.likelihood(poi_test=float(mu), expected=expected, data=data.get(a), **self.options(b)) for a, b, m in self.members)

    def likelihood(self, poi_test=1.0, expected=spey.ExpectationType.observed, return_nll=True, data=None, **kw):
        v = self.at(poi_test, expected, self.data if data is None else data)
        return v if return_nll else float(np.exp(-v))

    def toy(self, expected, ts):
        if (expected, ts) not in self.asimov:
            self.asimov[expected, ts] = {a: m.generate_asimov_data(expected=expected, test_statistic=ts, **self.options(b)) for a, b, m in self.members}
        return self.asimov[expected, ts]

    def asimov_likelihood(self, poi_test=1.0, expected=spey.ExpectationType.observed, return_nll=True, test_statistics="qtilde", **kw):
        return self.likelihood(poi_test, expected, return_nll, self.toy(expected, test_statistics))

    def best(self, lo, hi, expected, data):
        """Bracketing search of the minimum; no gradients, no start value."""
        f = lambda x: self.at(x, expected, data)  # noqa: E731
        xs = np.linspace(max(lo, -10.0), hi, 12)       # no lower end: no member has a signal
        ys = [f(x) for x in xs]
        k = int(np.nanargmin(ys))
        a, b = xs[max(0, k - 1)], xs[min(len(xs) - 1, k + 1)]
        r = scipy.optimize.minimize_scalar(f, bounds=(a, b), method="bounded", options={"xatol": 1e-5})
        cand = [(ys[k], xs[k]), (float(r.fun), float(r.x))]
        y, x = min(cand)
        return x, y

    def bounds(self, q, neg, mu_init=0.0):
        if "bounds" in q:
            return q["bounds"]
        return [self.minimum_poi if neg else 0.0, max(10.0, mu_init)]

    def maximize_likelihood(self, return_nll=True, expected=spey.ExpectationType.observed, allow_negative_signal=True, data=None, **kw):
        return self.best(*self.bounds({}, allow_negative_signal), expected, self.data if data is None else data)

    def maximize_asimov_likelihood(self, return_nll=True, expected=spey.ExpectationType.observed, test_statistics="qtilde", **kw):
        return self.best(*self.bounds({}, test_statistics in ("q", "qmu")), expected, self.toy(expected, test_statistics))


def ask(model, q, ref=False):
    e = M.EXP[q["exp"]]
    k = q["q"]
    if "mu" in q and not ref:
        q = dict(q, mu=np.float64(q["mu"]) if q["as"] == "numpy" else int(q["mu"]) if q["as"] == "int" and q["mu"] == int(q["mu"]) else q["mu"])
    kw = {} if ref else dict(q.get("opt", {}))
    if not ref and "smo" in q:
        kw["statistical_model_options"] = {b: dict(o) for b, o in q["smo"].items()}
    if not ref and "data" in q:
        kw["data"] = {a: np.array(d, dtype=float) for a, d in q["data"].items()}
    if k == "likelihood":
        return model.likelihood(q["mu"], expected=e, return_nll=q["nll"], **kw)
    if k == "gen_asimov":
        return model.toy(e, q["ts"]) if ref else model.generate_asimov_data(expected=e, test_statistic=q["ts"], **kw)
    if k == "asimov":
        return model.asimov_likelihood(q["mu"], expected=e, return_nll=q["nll"], test_statistics=q["ts"], **kw)
    if k in ("maxlike", "maxasimov"):
        neg = q["neg"] if k == "maxlike" else q["ts"] == "q"
        if ref:
            lo, hi = model.bounds(q, neg)
            b = model.best(lo, hi, e, model.data if k == "maxlike" else model.toy(e, q["ts"]))
            return lo, hi, b
        if "bounds" in q:
            kw["par_bounds"] = [tuple(q["bounds"])]
        if "muhat0" in q:
            kw["initial_muhat_value"] = q["muhat0"]
        if k == "maxlike":
            return model.maximize_likelihood(return_nll=q["nll"], expected=e, allow_negative_signal=q["neg"], **kw)
        return model.maximize_asimov_likelihood(return_nll=q["nll"], expected=e, test_statistics=q["ts"], **kw)
    if k == "cls":
        return model.exclusion_confidence_level(q["mu"], expected=e)
    if k == "chi2":
        return model.chi2(q["mu"], expected=e)
    if k == "limit":
        return model.poi_upper_limit(expected=e, confidence_level=q["cl"])
    if k == "sensitive":
        if ref:
            return model.members[int(np.argmin([m.s95exp for _, _, m in model.members]))][0]
        return model.find_most_sensitive().analysis
    if k == "minimum":
        return [model.minimum_poi, model.is_alive, model.is_asymptotic_calculator_available, model.is_toy_calculator_available,
                model.is_chi_square_calculator_available]
    raise ValueError(k)


class Members(World):
    """The models of the world of M04, without combinations of its own."""

    def __init__(self, plan):
        super().__init__({"specs": plan["specs"], "combs": [], "names": NAMES})

    def run(self, comb, q, arm):
        import warnings
        self.n, self.arm, self.fired = 0, arm, None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return ask(comb, q), None
            except BaseException as err:  # noqa: BLE001
                return None, err
            finally:
                self.arm = None


def reference(plan, idx, q):
    import warnings

    def job():
        optimiser.HOOK = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                s = Sum(plan, idx, q)
                r = ask(s, q, ref=True)
                return "ok", M.canon(r)
            except Exception as err:  # noqa: BLE001
                return "err", type(err).__name__, str(err)
    return in_fork(job)


def sum_at(plan, idx, q, mus):
    """The sum of the members at given points, with the data of the query."""
    import warnings

    def job():
        optimiser.HOOK = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = Sum(plan, idx, q)
            e = M.EXP[q["exp"]]
            data = s.data if q["q"] == "maxlike" else s.toy(e, q["ts"])
            return [float(s.at(mu, e, data)) for mu in mus]
    return in_fork(job)


def execute(plan, out):
    M.quiet(cap=100)
    spey.set_optimiser("scipy")
    w = Members(plan)
    n = len(plan["specs"])
    combs, refs = [], []
    for c in plan["combs"]:
        idx = [k for k in c if k < n]
        combs.append(spey.UnCorrStatisticsCombiner(*[w.models[k] for k in idx], ntoys=4))
        refs.append(idx)
    trace = []
    for op in plan["ops"]:
        c = op[1]
        if c >= len(combs):
            continue
        comb, ref = combs[c], refs[c]
        what = "%r on a combination of %s" % (op, ref)
        if op[0] in ("append", "remove", "bad"):
            change(plan, w, comb, ref, op, what, out)
            out.count(op[0])
        elif op[0] == "join":
            kind, k = op[2]
            if kind == "model" and k >= n or kind == "comb" and k >= len(combs):
                continue
            joined = attempt(lambda: comb @ (w.models[k] if kind == "model" else combs[k] if kind == "comb" else "x"))
            if kind == "bad":
                expect(joined, ValueError, what)
            else:
                new = [k] if kind == "model" else refs[k]
                if set(new) & set(ref):
                    expect(joined, AnalysisQueryError, what)
                else:
                    if isinstance(joined, BaseException):
                        raise joined
                    members(joined, w, ref + new, what)
                    combs.append(joined)
                    refs.append(ref + new)
            out.count("join")
        elif op[0] == "look":
            look(w, comb, ref, op, what, n)
        elif op[0] == "combine":
            if op[2] < n and op[3] < n:
                expect(attempt(lambda: w.models[op[2]] @ w.models[op[3]]), CombinerNotAvailable, what)
        elif op[0] == "ask":
            if not ref:
                attempt(lambda: ask(comb, op[2]))
            else:
                query(plan, w, comb, ref, op, what, out, trace)
        for k, cb in enumerate(combs):
            members(cb, w, refs[k], "after %s" % what)
        trace.append([op[0], list(map(list, refs))])
    out.nontrivial = any(op[0] == "ask" for op in plan["ops"])
    out.digest = digest(trace)
    out.states = [digest([t[:1] + ([t[1]] if len(t) < 3 else t[1:3]) for t in trace])]


def attempt(fn):
    try:
        return fn()
    except Exception as err:  # noqa: BLE001
        return err


def expect(got, cls, what):
    if not isinstance(got, cls):
        raise Violation("not-rejected", "%s gave %r instead of %s" % (what, got, cls.__name__))


def members(comb, w, ref, what):
    have = list(comb.statistical_models)
    want = [w.models[k] for k in ref]
    if len(have) != len(want) or any(a is not b for a, b in zip(have, want)):
        raise Violation("members", "%s: members are %r instead of %r" % (what, [m.analysis for m in have], [NAMES[k] for k in ref]))
    names = [NAMES[k] for k in ref]
    if comb.analyses != names or len(comb) != len(ref) or [m.analysis for m in comb] != names or [(a, id(m)) for a, m in comb.items()] != [(a, id(m)) for a, m in zip(names, want)]:
        raise Violation("members", "%s: the names are %r, the length %d, iterated %r instead of %r" % (what, comb.analyses, len(comb), [m.analysis for m in comb], names))


def change(plan, w, comb, ref, op, what, out):
    n = len(plan["specs"])
    if op[0] == "append":
        k = op[2]
        if k >= n:
            return
        got = attempt(lambda: comb.append(w.models[k]))
        if k in ref:
            expect(got, AnalysisQueryError, what)
            out.fault("duplicate")
        elif got is not None:
            raise Violation("rejected", "%s raised %r" % (what, got))
        else:
            ref.append(k)
    elif op[0] == "remove":
        got = attempt(lambda: comb.remove(op[2]))
        k = NAMES.index(op[2]) if op[2] in NAMES else None
        if k not in ref:
            expect(got, AnalysisQueryError, what)
            out.fault("unknown-name")
        elif got is not None:
            raise Violation("rejected", "%s raised %r" % (what, got))
        else:
            ref.remove(k)
    else:
        x = {"none": None, "comb": comb, "name": "m0", "class": type(w.models[0]), "backend": w.models[0].backend}[op[2]]
        expect(attempt(lambda: comb.append(x)), TypeError, what)
        out.fault("not-a-model")


def look(w, comb, ref, op, what, n):
    k = op[2]
    got = attempt(lambda: comb[k])
    if -len(ref) <= k < len(ref):
        if got is not w.models[ref[k]]:
            raise Violation("lookup", "%s: member %d is %r" % (what, k, got))
    else:
        expect(got, AnalysisQueryError, what + " (out of range)")
    got = attempt(lambda: comb[NAMES[op[3]]])
    if op[3] in ref:
        if got is not w.models[op[3]]:
            raise Violation("lookup", "%s: member m%d is %r" % (what, op[3], got))
    else:
        expect(got, AnalysisQueryError, what)
    got = attempt(lambda: comb[1:])
    if list(got) != [w.models[j] for j in ref[1:]]:
        raise Violation("lookup", "%s: the slice is %r" % (what, got))


def query(plan, w, comb, ref, op, what, out, trace):
    q, fault = op[2], op[3]
    want = reference(plan, ref, q)
    arm = None
    if fault:
        def count():
            w.run(comb, q, None)
            return w.n
        n = in_fork(count)
        if n:
            arm = (1 + min(n - 1, int(fault[0] * n)), EXC[fault[1]]("injected"))
    got, err = w.run(comb, q, arm)
    fired = w.fired
    out.count("queries")
    trace.append(["ask", q["q"], fired and [fired[0], fault[1]], repr(M.canon(got))])
    if fired:
        out.fault("member-raises")
        where, exc = fired
        out.count("raised-" + fault[1])
        if err is exc:
            return
        if isinstance(err, TypeError) and "multiple values" in str(err):
            return      # an option given twice
        what += " (%r raised by %s)" % (exc, where)
        if fault[1] == "negative" and err is None and q["q"] in ("likelihood", "asimov") and np.isnan(got):
            return
        if fault[1] == "negative" and q["q"] not in ("likelihood", "asimov", "gen_asimov", "minimum", "sensitive"):
            # undefined at one point of a search: any end, but no other value for the sum (judged below for fits)
            if q["q"] in ("cls", "limit", "chi2") or err is not None:
                return
        if err is not None:
            if want[0] == "err":
                return
            raise Violation("other-exception", "%s raised %r" % (what, err))
        # answered without the first guess
    if isinstance(err, TypeError) and "multiple values" in str(err):
        return
    if want[0] == "err":
        if err is None:
            raise Violation("no-error", "%s gave %s but the members give %r" % (what, got, want))
        return
    if err is not None:
        raise Violation("error", "%s raised %r, the sum of the members is %s" % (what, err, str(want[1])[:300]))
    k = q["q"]
    if k in ("likelihood", "asimov", "gen_asimov", "sensitive"):
        if not M.close(M.canon(got), want[1], 1e-9, 1e-11):
            raise Violation("not-the-sum", "%s gave %s but the members give %s" % (what, str(M.canon(got))[:500], str(want[1])[:500]))
    elif k == "minimum":
        if not M.close(M.canon(got), want[1], 1e-12, 0):
            raise Violation("not-the-sum", "%s gave %s but the members give %s" % (what, got, want[1]))
    elif k in ("maxlike", "maxasimov"):
        lo, hi, (x, best) = want[1]
        mu, nll = float(got[0]), float(got[1])
        if not q["nll"]:
            nll = -float(np.log(nll)) if nll > 0 else np.inf
        if "muhat0" not in q and "bounds" not in q:
            hi = max(hi, mu)
        at = sum_at(plan, ref, q, [mu])[0]
        if np.isnan(nll) and np.isnan(at):
            return
        if fault and fault[1] == "negative" and fired and not np.isfinite(nll):
            return
        if not lo - 1e-9 <= mu <= hi + 1e-9 and "bounds" in q:
            raise Violation("bounds", "%s gave mu = %r outside of %r" % (what, mu, (lo, hi)))
        if not abs(nll - at) <= 1e-4 + 1e-6 * abs(at):
            raise Violation("not-the-sum", "%s gave the minimum %r at %r where the members' sum is %r" % (what, nll, mu, at))
        if fired and fault[1] == "negative":
            out.count("undefined-in-search")
            return
        if nll > best + 2e-3 + 1e-5 * abs(best):
            # a local search may end in another minimum, but not on a slope
            way = sum_at(plan, ref, q, [mu + (x - mu) * 2.0 ** -k for k in range(12, -1, -1)])
            if np.isnan(way).any() or max(way) > at + 1e-4:
                out.count("local-minimum")
                return
            raise Violation("not-optimal", "%s gave the minimum %r at %r but the members' sum falls from there to %r at %r" % (what, nll, mu, best, x))
    else:
        near(got, want[1], q, what)


def near(got, want, q, what):
    a, b = np.atleast_1d(np.array(M.canon(got), dtype=float)).ravel(), np.atleast_1d(np.array(want, dtype=float)).ravel()
    tol = {"cls": (0, 0.02), "limit": (0.03, 0.02), "chi2": (0.01, 0.02)}[q["q"]]
    for x, y in zip(a, b):
        if np.isnan(x) and np.isnan(y) or x == y:
            continue
        if not abs(x - y) <= tol[1] + tol[0] * abs(y):
            raise Violation("not-the-sum", "%s gave %s but the sum of the members gives %s" % (what, a.tolist(), b.tolist()))


RULE = ("Each run: 2-4 models of 12 kinds, 1-2 combinations of them, 3-10 steps: append (also duplicates and things that are no models), remove (also unknown names), join with @, look up, and queries of 10 kinds with data per analysis and options per backend, "
        "35% with one of 14 exception classes raised at a drawn event of a member. Non-trivial: a query was made; distinct by the history with its answers.")
REAL = ["spey (combiner, hypothesis tests, members)", "scipy, autograd, numpy"]
STUB = ["backend methods, user functions and scipy.optimize.minimize are wrapped to count events and to raise",
        "two of the 12 model kinds are third-party backends written for the check", "the reference is a sum over fresh members, minimised by a bracketing search"]
ASSUMPTIONS = ["where the sum rises between the point reported and a lower minimum (2-12 powers of two of the way are sampled), the fit is only judged by its value at the point reported", "fits are cut off after 100 iterations on both sides", "optima are compared within 2e-3 + 1e-5 |value|, confidence levels within 0.02, limits within 3%",
               "a combination may answer without its first guess when computing it failed", "members are not renamed while they belong to a combination"]
STATES = "distinct histories of members and queries"
