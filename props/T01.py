"""T01: sampling histories under a seeded random state, with failing and deterministic queries in between."""
import random

import numpy as np

import spey
from props import _models as M
from props.M01 import kindof, spec_of
from props.M04 import EXC, World
from sim.run import Violation
from sim.util import digest, in_fork

LEVEL = "exploration"
LEVEL_NOTE = ("samples histories of seeding, sampling, toy based and deterministic (also failing) queries; each sampled answer is compared with that of a fresh model from the same random state, and with the same sampling history alone in a pristine process, "
              "deterministic ones with another random state, and the random states are compared before and after")
TECHNIQUE = "deterministic simulation: the random source is the seam; seeded histories with injected failures are replayed in pristine processes without what must not matter"
RUNS = {"quick": 900, "thorough": 20000}
BATCH = 1
SHRINK = ("ops", "specs", "combs")

SAMPLING = ("sample", "sampler", "cls_toy", "mixture", "dist")


def gen(rng, i, tier):
    specs = [M.gen_model(rng, nmax=2) for _ in range(rng.choice([1, 1, 2]))]
    combs = [list(range(len(specs)))] if len(specs) > 1 and rng.random() < 0.4 else []
    nt = len(specs) + len(combs)
    ops = []
    seen = []
    for _ in range(rng.randint(4, 11)):
        r = rng.random()
        t = rng.randrange(nt)
        sp = spec_of(specs, combs, t)
        if r < 0.12:
            ops.append(["seed", rng.randrange(5)])
        elif r < 0.55:
            if seen and rng.random() < 0.4:
                t, q = rng.choice(seen)
            else:
                k = rng.choice(["sample", "sample", "sampler", "sampler", "cls_toy", "mixture"])
                t = rng.randrange(len(specs))
                q = M.gen_query(rng, specs[t], kinds=[k]) if k != "mixture" else {"q": "mixture", "exp": "obs", "at": [3.0, 7.0], "size": 3}
                if q["q"] not in SAMPLING:
                    continue
                q.pop("seed", None)
                if "size" in q:
                    q["size"] = rng.choice([1, 2, 5])
                seen.append((t, q))
            ops.append(["sam", t, q])
        else:
            q = M.gen_query(rng, sp, cheap=0.78, medium=0.2)
            if rng.random() < 0.12 and t < len(specs) and M.npar(specs[t]) > 1:
                q = {"q": "contour", "exp": "obs", "cseed": rng.randrange(3)}
            if q["q"] in SAMPLING:
                continue
            fault = [round(rng.random(), 5), rng.choice(sorted(EXC))] if rng.random() < 0.3 else None
            ops.append(["det", t, q, fault])
    return {"specs": specs, "combs": combs, "ops": ops, "seed": rng.randrange(1000), "other": rng.randrange(1000, 2000),
            "opt": rng.choice(["scipy", "scipy", "scipy", "minuit"])}


def state():
    s = np.random.get_state()
    return digest([s[0], s[1].tolist(), s[2], s[3], repr(s[4]), repr(random.getstate())])


def execute(plan, out):
    M.quiet()
    spey.set_optimiser(plan["opt"])
    nt = len(plan["specs"]) + len(plan["combs"])
    ops = [(k, op) for k, op in enumerate(plan["ops"]) if op[0] == "seed" or op[1] < nt]

    def alone():
        """The sampling part of the history in a pristine process."""
        w = World(plan)
        np.random.seed(plan["seed"])
        res = {}
        for k, op in ops:
            if op[0] == "seed":
                np.random.seed(op[1])
            elif op[0] == "sam":
                res[k] = w.ask(op[1], op[2])[0]
        return res

    def other():
        """The deterministic part with another random state."""
        w = World(plan)
        np.random.seed(plan["other"])
        res, n = {}, {}
        for k, op in ops:
            if op[0] == "det":
                np.random.random(3)
                res[k] = w.ask(op[1], op[2])[0]
                n[k] = w.n
        return res, n

    sampled = in_fork(alone)
    fixed, events = in_fork(other)
    w = World(plan)
    random.seed(plan["seed"])
    np.random.seed(plan["seed"])
    trace = []
    for k, op in ops:
        if op[0] == "seed":
            np.random.seed(op[1])
            trace.append(op)
            continue
        t, q = op[1], op[2]
        what = "query %r of %r with %s" % (q, kindof(plan, t), plan["opt"])
        if op[0] == "sam":
            start, pstart = np.random.get_state(), random.getstate()
            got, err = w.ask(t, q)
            end = state()

            def only():
                """This sampling query alone, on a fresh model and from the same random state."""
                w = World(plan)
                np.random.set_state(start)
                random.setstate(pstart)
                return w.ask(t, q)[0], state()

            lone, lone_end = in_fork(only)
            if (got != lone and not M.close(got, lone, 1e-12, 1e-13)) or end != lone_end:
                raise Violation("not-a-function-of-the-state", "%s in step %d after %r gave %s (random state afterwards: %s), from the same random state a fresh model gives %s (%s)"
                                % (what, k, [o for o in plan["ops"][:k]], str(got)[:400], end, str(lone)[:400], lone_end))
            if got != sampled[k] and not M.close(got, sampled[k], 1e-12, 1e-13):
                raise Violation("not-reproducible", "%s in step %d after %r gave %s, with the same seed and samples but without the other queries it gives %s"
                                % (what, k, [o for o in plan["ops"][:k]], str(got)[:400], str(sampled[k])[:400]))
            out.count("sampled" if err is None else "sampling-failed")
            trace.append([q["q"], repr(got)])
            continue
        before = state()
        arm = None
        if op[3] and events[k]:
            arm = (1 + min(events[k] - 1, int(op[3][0] * events[k])), EXC[op[3][1]]("injected"))
        got, err = w.ask(t, q, arm)
        if state() != before:
            raise Violation("advanced", "%s (%s) changed the random state" % (what, "which raised %r" % err if err else "deterministic"))
        if w.fired is not None:
            out.fault("%s-raises" % w.fired[0])
            trace.append([q["q"], "failed"])
            continue
        if got != fixed[k] and not M.close(got, fixed[k], 1e-8, 1e-10):
            raise Violation("depends", "%s gave %s but %s with another random state" % (what, str(got)[:500], str(fixed[k])[:500]))
        out.count("deterministic")
        trace.append([q["q"], repr(got)])
    kinds = [t[0] for t in trace]
    out.fault("reseeded", sum(1 for t in trace if t[0] == "seed"))
    out.nontrivial = any(k in SAMPLING for k in kinds) and len(kinds) > 1
    out.digest = digest(trace)
    out.states = [digest(kinds)]


RULE = ("Each run: 1-2 models of 13 kinds (and their combination); 4-11 steps: seed numpy's random state, sample (backend sampler, fixed parameter sampler, mixture) or compute a toy based level, or ask a deterministic query "
        "(18 kinds and contours with their own seed), 30% of these with an exception at a drawn event. Non-trivial: something was sampled among other steps; distinct by the digest of all answers.")
REAL = ["spey (samplers, toys, all query paths, contours)", "numpy, scipy random generators"]
STUB = ["backend methods, user functions and scipy.optimize.minimize are wrapped to count events and to raise", "two of the 13 model kinds are third-party backends written for the check"]
ASSUMPTIONS = ["the documented source of randomness is numpy's global state; contours use the seed they are given", "sampling queries do not overlap in time"]
STATES = "distinct sequences of steps"
