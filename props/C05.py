"""
C05: cached results belong to one object and live exactly as long as it does.
"""
import copy
import gc
import pickle
import weakref

import numpy as np

from props import _c05cls
from sim import sched
from sim.run import Violation
from sim.sched import Sim
from sim.util import digest, sched_spec

LEVEL = "exploration"
LEVEL_NOTE = "samples object histories; single-threaded runs are judged against an exact reference model including release, threaded runs for ownership and single evaluation"
TECHNIQUE = "deterministic simulation: seeded object histories and thread schedules over the real cache"
RUNS = {"quick": 8000, "thorough": 120000}
BATCH = 100
RULE = ("Each run: a history of 6-40 operations by 1-3 simulated threads over objects of 9 classes with cached "
        "methods (plain, slotted, overriding with super(), equal/unhashable/list-like) or over StatisticalModel "
        "objects: create, query, copy, deepcopy, pickle, change, clear, keep a bound method, drop, collect, "
        "create again in the freed memory, fail inside the method. Judged against one dictionary per object and method. "
        "Non-trivial: at least one copied, dropped or shared object was queried; distinct by history digest.")
REAL = ["spey.system.cache", "spey.interface.StatisticalModel (20% of the runs)", "CPython's garbage collector"]
STUB = ["threading.Lock/RLock (cooperative simulated locks)", "method bodies / backend (workload)"]
ASSUMPTIONS = ["objects without weak reference support may be kept alive by the cache",
               "the garbage collector runs where the plan says so, not at arbitrary allocations"]
SHRINK = ("ops", "threads", "decisions", "faults")


class Boom(Exception):
    pass


class Payload:
    def __init__(self, owner, method, x, k, serial, base=None):
        self.owner, self.method, self.x, self.k, self.serial = owner, method, x, k, serial
        self.base = None if base is None else (base.owner, base.method)


def gen(rng, i, tier):
    kind = "model" if rng.random() < 0.2 else "class"
    nthreads = rng.choice([1, 1, 2, 3]) if kind == "class" else rng.choice([1, 1, 2])
    classes = rng.sample(sorted(_c05cls.CLASSES), rng.choice([1, 1, 2, 3]))
    nslots = rng.choice([1, 2, 3, 4])
    threads = []
    for _ in range(nthreads):
        ops = []
        for _ in range(rng.choice([4, 8, 14, 20])):
            r = rng.random()
            s, s2 = rng.randrange(nslots), rng.randrange(nslots)
            if r < 0.13:
                ops.append(["new", s, rng.choice(classes), rng.randrange(2)])
            elif r < 0.22:
                ops.append(["copy", s, s2])
            elif r < 0.30:
                ops.append(["deepcopy", s, s2])
            elif r < 0.34:
                ops.append(["pickle", s, s2])
            elif r < 0.40:
                ops.append(["drop", s])
            elif r < 0.43:
                ops.append(["gc"])
            elif r < 0.47:
                ops.append(["churn", rng.choice(classes), rng.choice([2, 5]), rng.randrange(3)])
            elif r < 0.51:
                ops.append(["clear", s, rng.choice("mmn")])
            elif r < 0.55:
                ops.append(["keep", s, rng.choice("mmn"), rng.randrange(3)])
            elif r < 0.60:
                ops.append(["fail", s, rng.choice("mmn"), rng.randrange(3)])
            else:
                ops.append(["call", s, rng.choice("mmn"), rng.randrange(3), rng.choice([1, 1, 2])])
        threads.append({"ops": ops})
    # every slot starts with an object
    init = [[s, rng.choice(classes), rng.randrange(2)] for s in range(nslots)]
    return {"kind": kind, "nslots": nslots, "init": init, "threads": threads,
            "body": rng.choice([0, 1, 3]), "grain": rng.choice(["line", "instr"]),
            "sched": sched_spec(rng, nthreads, rng.choice([60, 300, 800]), hot=True)}


class World:
    def __init__(self, plan, out):
        self.plan, self.out = plan, out
        self.serial = 0
        self.uids = 0
        self.evals = []        # (uid, method, x, k)
        self.model = {}        # (uid, method) -> {(x, k): serial}
        self.fail_next = {}
        self.clock = 0
        self.log = []
        self.open = {}
        self.cleared = {}
        self.sim = None

    def tid(self):
        t = self.sim.current() if self.sim else None
        return t.tid if t else -1

    def body(self, obj, method, x, k, base=None):
        uid = obj.uid
        self.serial += 1
        me = self.serial
        key = (uid, method, x, k)
        self.log.append(("eval", key))
        if self.open.get(key):
            raise Violation("duplicate-evaluation", "object %d evaluates %s(%r, %r) twice at the same time"
                            % (uid, method, x, k))
        self.open[key] = True
        try:
            if sched.SIM:
                for _ in range(self.plan["body"]):
                    sched.SIM.point()
            if self.fail_next.pop((self.tid(), method), None):
                self.out.fault("raise-in-method")
                raise Boom("injected")
        finally:
            self.open[key] = False
        if base is not None and base.owner != uid:
            raise Violation("foreign-result", "super() of object %d answered for object %d" % (uid, base.owner))
        p = Payload(uid, method, x, k, me, base)
        p.data = np.full(4, float(me))
        return p


def outer(cls, meth):
    return _c05cls.CHAIN.get(cls, ["%s.m" % _owner(cls)])[-1] if meth == "m" else "%s.n" % _owner_n(cls)


def _owner(cls):
    for c in _c05cls.CLASSES[cls].__mro__:
        if "m" in c.__dict__:
            return c.__name__


def _owner_n(cls):
    for c in _c05cls.CLASSES[cls].__mro__:
        if "n" in c.__dict__:
            return c.__name__


def check_payload(obj, meth, x, k, r):
    want = outer(type(obj).__name__, meth)
    if not isinstance(r, Payload):
        raise Violation("value", "%s returned %r" % (want, r))
    if r.owner != obj.uid:
        raise Violation("foreign-result", "%s of object %d returned a result of object %d" % (want, obj.uid, r.owner))
    if r.method != want:
        raise Violation("wrong-method", "%s returned a result of %s" % (want, r.method))
    if (r.x, r.k) != (x, k):
        raise Violation("wrong-arguments", "%s(%r, %r) returned the result for (%r, %r)" % (want, x, k, r.x, r.k))
    chain = _c05cls.CHAIN.get(type(obj).__name__)
    if meth == "m" and chain and (r.base is None or r.base[1] != chain[-2]):
        raise Violation("wrong-method", "super() of %s answered with %r" % (want, r.base))


def execute(plan, out):
    if plan["kind"] == "model":
        return execute_model(plan, out)
    W = World(plan, out)
    _c05cls.WORLD = W
    single = len(plan["threads"]) == 1
    slots = [None] * plan["nslots"]
    memo = {}           # (uid, meth, x, k) computed, not cleared (single-threaded exact model)
    special = [0]

    def reg(obj):
        W.uids += 1
        obj.uid = W.uids
        return obj

    for s, cls, tag in plan["init"]:
        slots[s] = reg(_c05cls.CLASSES[cls](tag))

    def query(obj, meth, x, k, fn=None, fail=False):
        before = len(W.log)
        key = (obj.uid, meth, x, k)
        chain_first = outer(type(obj).__name__, meth)
        if fail:
            W.fail_next[(W.tid(), chain_first)] = True
        try:
            f = getattr(obj, meth) if fn is None else fn
            r = f(x, k=k) if k != 1 else f(x)
        except Boom:
            if not fail:
                raise Violation("foreign-exception", "a failure of another call was raised")
            r = None
        finally:
            W.fail_next.pop((W.tid(), chain_first), None)
        n = [e for e in W.log[before:] if e[1][1] == chain_first and e[1][0] == obj.uid]
        if r is not None:
            check_payload(obj, meth, x, k, r)
        if single:
            want = 0 if key in memo else 1
            if len(n) != want:
                raise Violation("not-kept" if want == 0 else "shared",
                                "%s of object %d: %d evaluations instead of %d"
                                % (chain_first, obj.uid, len(n), want))
            if r is not None:
                memo[key] = True

    def spawn(ops):
        def run():
            mine = []
            for op in ops:
                kind = op[0]
                if kind == "new":
                    slots[op[1]] = None
                    slots[op[1]] = reg(_c05cls.CLASSES[op[2]](op[3]))
                elif kind in ("copy", "deepcopy", "pickle"):
                    o = slots[op[1]]
                    if o is None:
                        continue
                    try:
                        if kind == "copy":
                            c = copy.copy(o)
                        elif kind == "deepcopy":
                            c = copy.deepcopy(o)
                        else:
                            c = pickle.loads(pickle.dumps(o))
                    except Exception as err:  # noqa: BLE001
                        raise Violation("copy", "%s of an object with cached methods: %r" % (kind, err)) from err
                    if type(c) is not type(o):
                        raise Violation("copy", "%s of %s gives %s" % (kind, type(o), type(c)))
                    slots[op[2]] = None
                    if c is not o:
                        reg(c)
                    slots[op[2]] = c
                    special[0] += 1
                elif kind == "drop":
                    o = slots[op[1]]
                    if o is None:
                        continue
                    slots[op[1]] = None
                    if single and type(o).__name__ in _c05cls.WEAK:
                        ref = weakref.ref(o)
                        shared = any(x is o for x in slots) or any(b.__self__ is o for b, _, _ in mine
                                                                  if hasattr(b, "__self__"))
                        opaque = any(not hasattr(b, "__self__") for b, _, _ in mine)
                        o = None
                        gc.collect()
                        if not shared and not opaque and ref() is not None:
                            raise Violation("leak", "a dropped object is kept alive")
                    o = None
                    special[0] += 1
                elif kind == "gc":
                    gc.collect()
                elif kind == "churn":
                    # short-lived objects: the next one may get the same address
                    for _ in range(op[2]):
                        o = reg(_c05cls.CLASSES[op[1]](0))
                        query(o, "m", op[3], 1)
                        r = o.n(op[3])
                        check_payload(o, "n", op[3], 1, r)
                        if single and op[1] in _c05cls.WEAK:
                            ref = weakref.ref(o)
                            res = weakref.ref(r)
                            r = None
                            if res() is None:
                                raise Violation("not-kept", "a cached result is gone while its object lives")
                            o = None
                            gc.collect()
                            if ref() is not None:
                                raise Violation("leak", "a dropped object is kept alive")
                            if res() is not None:
                                raise Violation("leak", "the cached result of a dropped object is kept alive")
                        r = o = None
                    special[0] += 1
                elif kind == "clear":
                    o = slots[op[1]]
                    if o is None:
                        continue
                    getattr(o, op[2]).cache_clear()
                    for key in [q for q in memo if q[0] == o.uid and q[1] == op[2]]:
                        del memo[key]
                    size = getattr(o, op[2]).cache_info()["size"]
                    if single and size:
                        raise Violation("clear", "%d results left after cache_clear()" % size)
                elif kind == "keep":
                    o = slots[op[1]]
                    if o is None:
                        continue
                    mine.append((getattr(o, op[2]), op[2], o.uid))
                    f, meth, uid = mine[-1]
                    query(o, meth, op[3], 1, fn=f)
                    if single:
                        want = sum(1 for q in memo if q[0] == o.uid and q[1] == op[2])
                        got = f.cache_info()["size"]
                        if got != want or len(f.get_cache()) != want:
                            raise Violation("size", "object %d holds %d results instead of %d" % (uid, got, want))
                    if len(mine) > 2:
                        mine.pop(0)
                elif kind == "fail":
                    o = slots[op[1]]
                    if o is not None:
                        query(o, op[2], op[3], 1, fail=True)
                else:
                    o = slots[op[1]]
                    if o is not None:
                        query(o, op[2], op[3], op[4])
                o = c = f = ref = bref = res = None
        return run

    _drive(plan, out, W, spawn)
    out.nontrivial = special[0] > 0 or len(plan["threads"]) > 1
    out.count("evaluations", len(W.log))
    out.digest = digest(W.log)
    out.states = [digest(W.log)]


def _drive(plan, out, W, spawn):
    bodies = [spawn(t["ops"]) for t in plan["threads"]]
    if len(bodies) == 1:
        bodies[0]()
        return
    sim = Sim(plan["sched"], max_steps=400_000, grain=plan["grain"])
    W.sim = sim
    for b in bodies:
        sim.spawn(b)
    how = sim.run()
    W.sim = None
    out.schedule = sim.decisions
    out.count("switches", sim.switches)
    if how != "finished":
        out.tainted = True
    for t in sim.threads:
        if t.error is not None:
            raise t.error
    if how != "finished":
        raise Violation("never-returns", "the threads ended in %s" % how)


# --------------------------------------------------------------------------- #
# StatisticalModel


def _model_classes():
    import spey
    from spey.base.model_config import ModelConfig

    class Stub(spey.BackendBase):
        name, version, author, spey_requires = "c05.stub", "1", "verif", ">=0.0.1"

        def __init__(self, value):
            self.value = [value]
            self.asked = 0

        @property
        def is_alive(self):
            return True

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            return ModelConfig(0, -1.0, [0.0], [(-1.0, 10.0)])

        def get_logpdf_func(self, expected=None, data=None):
            return lambda pars: -0.5 * (pars[0] - self.value[0]) ** 2

        def expected_data(self, pars, **kw):
            return [float(pars[0]), self.value[0]]

        def minimize_negative_loglikelihood(self, **kw):
            self.asked += 1
            if sched.SIM:
                sched.SIM.point()
            return self.value[0], float(self.value[0]) * 10.0

        def minimize_asimov_negative_loglikelihood(self, **kw):
            self.asked += 1
            return self.value[0], float(self.value[0]) * 20.0

    from spey.system.cache import cache_results

    class Sub(spey.StatisticalModel):
        __slots__ = ("factor",)

        @cache_results(maxsize=16, per_instance=True)
        def maximize_likelihood(self, *args, **kwargs):
            m, n = super().maximize_likelihood(*args, **kwargs)
            return m, n + 0.5

    return Stub, spey.StatisticalModel, Sub


_MC = None


def execute_model(plan, out):
    global _MC
    if _MC is None:
        _MC = _model_classes()
    Stub, Model, Sub = _MC
    W = World(plan, out)
    hist = []
    counter = [0]

    def fresh(kind):
        counter[0] += 1
        m = (Sub if kind else Model)(Stub(float(counter[0])), "a%d" % counter[0])
        return m

    slots = [fresh(tag) for _, _, tag in plan["init"]]
    single = len(plan["threads"]) == 1
    special = [0]

    def ask(m, meth, x):
        v = m.backend.value[0]
        if meth == "m":
            got = m.maximize_likelihood(allow_negative_signal=bool(x % 2))
            want = (v, 10.0 * v + (0.5 if type(m) is Sub else 0.0))
        else:
            got = m.maximize_asimov_likelihood(test_statistics=["q", "qtilde", "q0"][x])
            want = (v, 20.0 * v)
        hist.append((meth, x, got))
        if tuple(got) != want:
            raise Violation("foreign-result", "a model whose answer is %r returned %r" % (want, got))

    def change(m):
        # a copy that is made to describe something else before it is asked
        counter[0] += 1
        m.backend.value[0] = float(counter[0])

    def spawn(ops):
        def run():
            for op in ops:
                kind = op[0]
                if kind == "new":
                    slots[op[1]] = None
                    slots[op[1]] = fresh(op[3])
                elif kind in ("copy", "deepcopy", "pickle"):
                    o = slots[op[1]]
                    if o is None:
                        continue
                    if kind == "copy" and hasattr(o, "_backend"):
                        # a copy with another backend
                        counter[0] += 1
                        c = copy.copy(o)
                        c._backend = Stub(float(counter[0]))
                    else:
                        c = copy.deepcopy(o)
                        change(c)
                    slots[op[2]] = c
                    special[0] += 1
                    ask(c, "m", 1)
                elif kind == "drop":
                    o = slots[op[1]]
                    if o is None:
                        continue
                    slots[op[1]] = None
                    if single:
                        ref, bref = weakref.ref(o), weakref.ref(o.backend)
                        shared = any(x is o for x in slots)
                        o = None
                        gc.collect()
                        if not shared and (ref() is not None or bref() is not None):
                            raise Violation("leak", "a dropped model or its backend is kept alive")
                    special[0] += 1
                elif kind == "gc":
                    gc.collect()
                elif kind == "churn":
                    for _ in range(op[2]):
                        o = fresh(op[3] % 2)
                        ask(o, "m", op[3])
                        ask(o, "n", op[3])
                        o = None
                        gc.collect()
                    special[0] += 1
                elif kind == "clear":
                    o = slots[op[1]]
                    if o is not None:
                        (o.maximize_likelihood if op[2] == "m" else o.maximize_asimov_likelihood).cache_clear()
                elif kind in ("call", "keep", "fail"):
                    o = slots[op[1]]
                    if o is not None:
                        ask(o, op[2], op[3])
                        if single:
                            n = o.backend.asked
                            ask(o, op[2], op[3])
                            if o.backend.asked != n:
                                raise Violation("not-kept", "a repeated query was evaluated again")
                o = c = f = ref = bref = res = None
        return run

    _drive(plan, out, W, spawn)
    out.nontrivial = special[0] > 0
    out.count("model-queries", len(hist))
    out.digest = digest(hist)
    out.states = [digest(hist)]
