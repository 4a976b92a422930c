"""P01: contours do not depend on how the chains are executed."""
import warnings

from props import _contour as C
from props import _models as M
from sim import optimiser, workers
from sim.run import Violation
from sim.util import digest, in_fork

LEVEL = "exploration"
LEVEL_NOTE = ("samples models, settings, numbers of workers, batch sizes, completion orders and worker faults; every contour is compared bit by bit with the one found without workers in a pristine process")
TECHNIQUE = "deterministic simulation: joblib's pools are replaced by a simulated pool whose batches share nothing with the caller; a seeded scheduler decides batching, completion order and worker faults"
RUNS = {"quick": 350, "thorough": 8000}
BATCH = 1
SHRINK = ("variants",)

workers.install()


def gen(rng, i, tier):
    while True:
        sp = C.gen_spec(rng, walls=rng.random() < 0.3)
        if C.dim(sp) > 1 and sp.get("base") != "flat":
            break
    kw = C.gen_settings(rng, sp, subset=0.25)
    if rng.random() < 0.8:
        kw["n_hmc_chains"] = rng.choice([2, 3, 5, 7, 9])
        kw["n_radial"] = rng.choice([4, 8])
        kw["n_coverage_passes"] = rng.choice([1, 2, 2, 3])
    if rng.random() < 0.7:
        kw.pop("bounds", None)
    variants = []
    for _ in range(rng.randint(1, 3)):
        faults = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                faults.append([rng.choice(workers.KINDS), rng.choice([0, 0, 0, 0, 1]), rng.choice([0, 0, 0, 1, 1, 2, 4])])
        variants.append({"jobs": rng.choice([2, 2, 3, 4, 7, 16, 1, 0, -1]), "seed": rng.randrange(10 ** 6), "batch": rng.choice([0, 1, 1, 3]),
                         "fork": rng.random() < 0.4, "faults": faults})
    return {"spec": sp, "kw": kw, "variants": variants, "reuse": rng.random() < 0.5}


def find(model, plan, jobs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return ["ok", C.canon(C.ask(model, plan["kw"], jobs))], None
        except Exception as err:  # noqa: BLE001
            return ["err", type(err).__name__, str(err)], err


def execute(plan, out):
    M.quiet(cap=60)
    optimiser.HOOK = None

    def alone():
        workers.POOL = None
        return find(C.build(plan["spec"]), plan, 1)[0]

    want = in_fork(alone)
    shared = C.build(plan["spec"])
    trace, many = [], 0
    for v in plan["variants"]:
        model = shared if plan["reuse"] else C.build(plan["spec"])
        pool = workers.POOL = workers.Pool(v)
        what = "%r with %r" % (plan["kw"], v)
        try:
            got, err = find(model, plan, v["jobs"])
        except KeyboardInterrupt:
            if "interrupt" not in pool.fired:
                raise
            got, err = ["interrupt"], None
        finally:
            workers.POOL = None
        many += pool.batches
        out.count("batches", pool.batches)
        if pool.order != sorted(pool.order):
            out.fault("out-of-order")
        for k in pool.fired:
            out.fault("worker-" + k)
        trace.append([v["jobs"], pool.order, pool.fired, got[0]])
        if got[0] == "interrupt":
            continue
        if got[0] == "err" and pool.fired and want[0] == "ok":
            out.count("raised-after-fault")
            continue
        if got[0] != want[0]:
            raise Violation("differs", "%s gave %s but without workers it is %s" % (what, str(got)[:500], str(want)[:500]))
        if got[0] == "ok":
            if not M.close(got[1], want[1], 0, 0):
                raise Violation("differs", "%s gave another contour than without workers: %s" % (what, difference(got[1], want[1])))
        elif got != want:
            raise Violation("differs", "%s raised %r but without workers %r" % (what, got, want))
        if got[0] == "ok" and pool.fired:
            out.count("same-after-fault")
    out.nontrivial = many > 1
    out.digest = digest(trace, want[0] == "ok" and [repr(want[1])])
    out.states = [digest(t) for t in trace]


def difference(a, b):
    names = ("theta_mle", "nll_min", "threshold", "delta", "contour_points", "from_radial", "parameter_names", "confidence_level", "dof")
    for n, x, y in zip(names, a, b):
        if not M.close(x, y, 0, 0):
            return "%s is %s instead of %s" % (n, str(x)[:400], str(y)[:400])
    return "?"


RULE = ("Each run: a model of 2-3 parameters (third-party likelihoods of 9 shapes, default backends), settings of the search, and 1-3 executions with 1-16 workers, batches of 1-5 chains, a drawn completion order, "
        "half with 1-3 worker faults (pool cannot start, task not picklable, pool shut down, worker crash, out of memory, error in the worker, result lost, interrupt while waiting). "
        "Non-trivial: at least two batches were handed to workers; distinct by the completion orders, the faults and the contour.")
REAL = ["spey (contour search, chains, fits)", "joblib's dispatcher and retrieval", "cloudpickle", "scipy, autograd, numpy"]
STUB = ["joblib's loky, multiprocessing and threading backends are a simulated pool; batches run on unpickled copies, some in forked processes", "joblib's clock"]
ASSUMPTIONS = ["the same machine code runs in caller and workers, so results have to agree bit by bit", "fits are cut off after 60 iterations on both sides",
               "workers do not die in the middle of sending a result that is then taken as complete"]
STATES = "distinct executions (workers, completion order, faults that fired, outcome)"
