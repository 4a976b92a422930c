"""M02: threads sharing models get the answers of a serial program."""
import gc
import warnings

import numpy as np

import spey
from props import _models as M
from props.M01 import kindof, spec_of, world
from sim.clock import CLOCK
from sim.run import Violation
from sim.sched import Sim, masked
from sim.util import digest, in_fork

LEVEL = "exploration"
LEVEL_NOTE = ("samples thread schedules (pre-emption at any source line of spey) of queries on shared models; every answer is compared with the one of a fresh model "
              "that is asked only this query, in a pristine process")
TECHNIQUE = "deterministic simulation: seeded thread schedules over shared models, refinement against queries asked alone"
RUNS = {"quick": 900, "thorough": 20000}
BATCH = 1
SHRINK = ("threads", "ops", "decisions", "combs")

KINDS = ["likelihood", "maxlike", "asimov", "maxasimov", "gen_asimov", "chi2", "config", "closure", "expected", "alive", "pull", "kept"]
WEIGHTS = [5, 5, 3, 3, 3, 3, 1, 4, 2, 1, 1, 2]


def gen(rng, i, tier):
    specs = [M.gen_model(rng, hostile=0.15) for _ in range(rng.choice([1, 1, 1, 2]))]
    combs = [list(range(len(specs)))] if len(specs) > 1 and rng.random() < 0.6 else []
    nt = len(specs) + len(combs)
    focus = rng.randrange(nt) if rng.random() < 0.6 else None
    threads, asked = [], []
    heavy = rng.random() < 0.08
    for _ in range(rng.choice([2, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            t = focus if focus is not None and rng.random() < 0.8 else rng.randrange(nt)
            sp = spec_of(specs, combs, t)
            if asked and rng.random() < 0.45:
                t, q = rng.choice(asked)
                if rng.random() < 0.4 and q["q"] != "kept":
                    q = M.near(rng, spec_of(specs, combs, t), q)
            else:
                k = rng.choices(KINDS, WEIGHTS)[0]
                if heavy and not ops:
                    k = rng.choice(["cls", "cls", "signif", "limit"])
                if k == "kept" and sp["kind"] == "comb":
                    k = "likelihood"
                if k == "kept":
                    n = M.npar(sp)
                    q = {"q": "kept", "exp": rng.choice(["obs", "post", "prior"]),
                         "pts": [[round(rng.uniform(0.1, 1.5), 3)] + [round(rng.uniform(-0.5, 0.5), 3) for _ in range(n - 1)] for _ in range(2)]}
                else:
                    q = M.gen_query(rng, sp, kinds=[k])
            if bad(q):
                q = {"q": "maxlike", "exp": "obs", "nll": True, "neg": True}
            ops.append([t, q])
            asked.append((t, q))
        threads.append({"ops": ops})
    seed = rng.getrandbits(48)
    r = rng.random()
    if r < 0.5:
        sched = {"kind": "walk", "seed": seed, "p": rng.choice([0.3, 0.1, 0.03, 0.01, 0.003])}
    else:
        sched = {"kind": "pct", "seed": seed, "depth": rng.choice([1, 2, 3, 5, 8]), "length": rng.choice([60, 300, 1500, 6000])}
    warm = [rng.choice(asked)] if rng.random() < 0.2 else []
    return {"specs": specs, "combs": combs, "threads": threads, "sched": sched, "warm": [list(w) for w in warm],
            "gc": rng.random() < 0.1}


def bad(q):
    """Queries that are not made for threads (numpy's global random state, nested derivatives of autograd)."""
    return q["q"] in ("sample", "sampler", "cls_toy", "sigma", "chi2_test", "xsec") or (q["q"] == "closure" and q["which"] == "hessian")


def ask(model, q):
    if q["q"] != "kept":
        try:
            return M.canon(M.call(model, q, M.Args()))
        except Exception as err:  # noqa: BLE001
            return M.canon(err)
    try:
        f = model.backend.get_logpdf_func(expected=M.EXP[q["exp"]])
        try:
            g = model.backend.get_objective_function(expected=M.EXP[q["exp"]], do_grad=True)
        except NotImplementedError:
            g = None
        res = []
        for p in q["pts"]:
            res.append([f(np.array(p)), None if g is None else g(np.array(p))])
        return M.canon(res)
    except Exception as err:  # noqa: BLE001
        return M.canon(err)


def execute(plan, out):
    M.quiet(cap=25)
    warnings.simplefilter("ignore")
    spey.set_optimiser("scipy")
    refs = {}
    nt = len(plan["specs"]) + len(plan["combs"])
    ops = [op for th in plan["threads"] for op in th["ops"]] + plan["warm"]
    for t, q in ops:
        k = (t, repr(q))
        if t < nt and k not in refs:
            refs[k] = in_fork(lambda: ask(world(plan)[t], q))
    models = world(plan)
    for t, q in plan["warm"]:
        ask(models[t], q)
    CLOCK.start()
    sim = Sim(plan["sched"], max_steps=3_000_000)
    got = {}

    def body(n, ops):
        def run():
            for j, (t, q) in enumerate(ops):
                if t < nt:
                    got[n, j] = ask(models[t], q)
                    if plan["gc"]:
                        with masked():
                            gc.collect()
        return run

    for n, th in enumerate(plan["threads"]):
        sim.spawn(body(n, th["ops"]))
    how = sim.run()
    out.schedule = sim.decisions
    out.count("switches", sim.switches)
    out.count("preemption-points", sim.steps)
    out.simtime = CLOCK.mono
    if how != "finished":
        out.tainted = True
        if how == "budget":
            raise RuntimeError("step budget of the harness exceeded")
        raise Violation("deadlock", "threads %s never finish" % sim.blocked())
    for t in sim.threads:
        if t.error is not None:
            raise Violation("thread-error", "%s: %r" % (t.name, t.error))
    for n, th in enumerate(plan["threads"]):
        for j, (t, q) in enumerate(th["ops"]):
            if t < nt:
                out.count("queries")
                judge(got[n, j], refs[(t, repr(q))], "query %r of %r in thread %d" % (q, kindof(plan, t), n))
    out.nontrivial = sim.switches > 2
    out.digest = digest(sim.digest, sorted([k, repr(v)] for k, v in got.items()))
    out.states = [sim.digest]


def judge(got, want, what):
    if isinstance(got, list) and got and got[0] == "err" and isinstance(want, list) and want and want[0] == "err":
        if got[1] != want[1]:
            raise Violation("other-error", "%s raised %r but asked alone it raises %r" % (what, got, want))
        return
    if not M.close(got, want, 1e-8, 1e-10):
        raise Violation("thread-dependent", "%s gave %s but asked alone it gives %s" % (what, str(got)[:600], str(want)[:600]))


RULE = ("Each run: 1-2 models of 13 kinds (and a combination of them), 2-3 threads with 1-3 queries each (12 kinds, 8% of runs with a limit, confidence level or significance; "
        "45% repeat or slightly change a query of any thread), a random-walk or PCT schedule with pre-emption at any source line of spey and at any lock operation, "
        "some runs with a warmed-up model or with garbage collections. Non-trivial: more than two thread switches; distinct by the digest of the schedule and the answers.")
REAL = ["spey (all of the query path, all built-in backends, cache)", "scipy, autograd, numpy", "CPython threads (one runs at a time, chosen by the simulator)"]
STUB = ["threading locks (simulated, same semantics)", "clock (virtual)", "two of the 13 model kinds are third-party backends written for the check"]
ASSUMPTIONS = ["fits are cut off after 25 iterations on both sides", "threads switch at source lines of spey and at lock operations, not inside scipy, numpy or autograd",
               "nested derivatives (Hessians) are left out: autograd itself does not support them from several threads",
               "sampling is left out: it uses numpy's global random state"]
STATES = "distinct thread schedules (digest of all switches)"
