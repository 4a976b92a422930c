"""M01: histories of queries against freshly built models in pristine processes."""
import copy
import gc

import numpy as np

import spey
from props import _models as M
from sim.run import Violation
from sim.util import digest, in_fork

LEVEL = "exploration"
LEVEL_NOTE = ("samples query histories (with optimiser switches, spoiled answers, kept functions, copies, combinations sharing members); every answer is compared "
              "with the one of a freshly built model in a pristine forked process")
TECHNIQUE = "deterministic simulation: seeded query histories with hostile callers, refinement against freshly built models"
RUNS = {"quick": 900, "thorough": 20000}
BATCH = 1
SHRINK = ("ops", "specs", "combs")


def spec_of(specs, combs, t):
    if t < len(specs):
        return specs[t]
    idx = combs[t - len(specs)]
    return {"kind": "comb", "members": [specs[k] for k in idx], "names": ["m%d" % k for k in idx]}


def similar(rng, spec):
    """A model that differs from spec in one number, or not at all."""
    spec = {k: list(v) if isinstance(v, list) else v for k, v in spec.items()}
    w = rng.choice("sbnu=")
    if w != "=":
        k = rng.randrange(len(spec[w]))
        spec[w][k] = spec[w][k] + 1 if w == "n" else round(spec[w][k] * 1.5, 3)
    return spec


def gen(rng, i, tier):
    specs = [M.gen_model(rng, hostile=0.25) for _ in range(rng.choice([1, 1, 2]))]
    if len(specs) > 1 and rng.random() < 0.4:
        specs[1] = similar(rng, specs[0])
    combs = []
    if len(specs) > 1 and rng.random() < 0.4:
        combs.append(list(range(len(specs))))
    ops, asked = [], []
    nt = len(specs) + len(combs)
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        t = rng.randrange(nt)
        sp = spec_of(specs, combs, t)
        if asked and r < 0.35:
            t, q = rng.choice(asked)
            sp = spec_of(specs, combs, t)
            if rng.random() < 0.6:
                q = M.near(rng, sp, q)
            ops.append(["ask", t, q, rng.random() < 0.5])
            asked.append((t, q))
        elif r < 0.85:
            q = M.gen_query(rng, sp, cheap=0.8, medium=0.17)
            ops.append(["ask", t, q, rng.random() < 0.5])
            asked.append((t, q))
        elif r < 0.90:
            ops.append(["opt", rng.choice(["minuit", "scipy"])])
        elif r < 0.95 and t < len(specs):
            n = M.npar(specs[t])
            ops.append(["keep", t, rng.choice(["obs", "post", "prior"]), [round(rng.uniform(0.1, 1.5), 3)]
                        + [round(rng.uniform(-0.5, 0.5), 3) for _ in range(n - 1)], rng.random() < 0.5,
                        rng.choice(["logpdf", "objective", "gradient", "hessian"])])
        elif t < len(specs) and rng.random() < 0.5:
            ops.append(["copy", t, rng.choice(["copy", "deepcopy"])])
        elif t < len(specs) and not combs:
            ops.append(["again", t, similar(rng, specs[t])])
        else:
            ops.append(["gc"])
    return {"specs": specs, "combs": combs, "ops": ops, "same": not combs and rng.random() < 0.3}


def single(plan, t, spec):
    return M.build(spec, "m" if plan.get("same") else "m%d" % t)


def world(plan):
    models = [single(plan, k, s) for k, s in enumerate(plan["specs"])]
    for c in plan["combs"]:
        members = [models[k] for k in c if k < len(plan["specs"])]
        models.append(spey.UnCorrStatisticsCombiner(*members, ntoys=4))
    return models


def reference(plan, t, spec, q, opt):
    """spec: of a single model; None: a combination."""
    def job():
        spey.set_optimiser(opt)
        return M.ask(world(plan)[t] if spec is None else single(plan, t, spec), q)[0]
    return in_fork(job)


def execute(plan, out):
    M.quiet()
    spey.set_optimiser("scipy")
    models = world(plan)
    opt, kept, trace = "scipy", [], []
    wants = []          # per operation: the answer of a fresh model
    refs = {}
    # the references come first: nothing has been asked in this process yet
    o, specs = "scipy", list(plan["specs"])
    for op in plan["ops"]:
        want = None
        if op[0] == "opt":
            o = op[1]
        elif op[0] in ("ask", "keep", "again") and op[1] < len(models):
            t = op[1]
            if op[0] == "again":
                specs[t] = op[2]
            else:
                ask = op[0] == "ask"
                q = op[2] if ask else {"q": "closure", "exp": op[2], "at": op[3], "which": op[5]}
                spec = specs[t] if t < len(specs) else None
                k = (t, repr(spec), repr(q), o if ask else "scipy")
                if k not in refs:
                    refs[k] = reference(plan, t, spec, q, k[3])
                want = refs[k]
        wants.append(want)
    for op, want in zip(plan["ops"], wants):
        if op[0] == "opt":
            opt = op[1]
            spey.set_optimiser(opt)
            out.count("optimiser-switch")
            continue
        if op[0] == "gc":
            gc.collect()
            continue
        if op[1] >= len(models):
            continue
        m = models[op[1]]
        if op[0] == "ask":
            got, raw = M.ask(m, op[2])
            out.count("queries")
            if isinstance(got, list) and got and got[0] == "err":
                out.count("queries-raising")
            judge(got, want, "query %r of %r with %s" % (op[2], kindof(plan, op[1]), opt))
            if op[3]:
                M.spoil(raw)
                out.fault("answer-spoiled-by-the-caller")
            trace.append([op[1], op[2]["q"], repr(got)])
            if op[2]["q"] in ("sample", "sampler", "cls_toy"):
                np.random.seed(len(trace))
        elif op[0] == "keep":
            try:
                fn = M.function(m.backend, op[5], M.EXP[op[2]])
            except NotImplementedError as err:
                fn = err
            kept.append((fn, op, want))
            out.count("functions-kept")
        elif op[0] == "copy":
            models[op[1]] = getattr(copy, op[2])(m)
            out.fault("model-" + op[2])
        elif op[0] == "again":
            # the old model goes, another one takes its place (and maybe its address)
            models[op[1]] = m = None
            models[op[1]] = single(plan, op[1], op[2])
            out.fault("model-replaced")
            # the copies may not spoil the combination, which keeps the original
    for fn, op, want in kept:
        if op[4]:
            gc.collect()
        got = M.canon(fn if isinstance(fn, Exception) else fn(np.array(op[3])))
        judge(got, want, "a kept function (%s) of %r" % (op[5], kindof(plan, op[1])))
    out.nontrivial = len(trace) > 1
    out.digest = digest(trace)
    out.states = [digest([x[:2] for x in trace], [s["kind"] for s in plan["specs"]])]


def kindof(plan, t):
    return plan["specs"][t]["kind"] if t < len(plan["specs"]) else "comb"


def judge(got, want, what):
    if isinstance(got, list) and got and got[0] == "err" and isinstance(want, list) and want and want[0] == "err":
        if got[1] != want[1]:
            raise Violation("other-error", "%s raised %r but a fresh model raises %r" % (what, got, want))
        return
    if not M.close(got, want, 1e-8, 1e-10):
        raise Violation("history-dependent", "%s gave %s but a fresh model gives %s"
                        % (what, str(got)[:600], str(want)[:600]))


RULE = ("Each run: 1-2 models of 13 kinds (and combinations sharing them), 3-9 operations: queries of 20 kinds with random options (one third repeat or slightly "
        "change an earlier query), optimiser switches, spoiling of the answers, functions kept for later, shallow and deep copies, gc, models replaced by similar ones; similar models beside each other, also of the same name; counts at the edge of the domain. "
        "Non-trivial: more than one query; distinct by the digest of the answers.")
REAL = ["spey (all of the query path, all built-in backends)", "scipy, autograd, numpy, iminuit"]
STUB = ["two of the 13 model kinds are third-party backends written for the check"]
ASSUMPTIONS = ["fits are cut off after 200 iterations of scipy (2000 calls of minuit) on both sides, so that non-converging ones stay affordable",
               "the reference is the same code on a freshly built model in a process that has not been asked anything before",
               "answers are compared with a relative tolerance of 1e-8"]
