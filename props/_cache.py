"""
Shared engine of C01-C04: threads call functions and methods decorated with
``spey.system.cache.cache_results`` under a simulated schedule while the
decorated functions fail, take long or call each other, and other threads clear
and inspect the caches.  Everything is recorded; the properties are judged on
the recorded history.
"""
import sys
import copy
import gc
import weakref

import numpy as np

from sim import sched
from sim.run import Violation
from sim.sched import Sim
from sim.util import digest, sched_spec

RUN = None


class Boom(Exception):
    pass


class Stop(BaseException):
    """Stands for KeyboardInterrupt / SystemExit arriving inside the function."""


EXC = {"error": Boom, "interrupt": Stop, "memory": MemoryError, "key": KeyError, "type": TypeError,
       "timeout": TimeoutError, "index": IndexError}


def _vocab():
    big = np.arange(3000.0)
    big2 = big.copy()
    big2[1500] = -1.0
    base = np.arange(12.0).reshape(3, 4)
    return [
        lambda: 1,
        lambda: 2,
        lambda: "1",
        lambda: 0.1 + 0.2,
        lambda: 0.3,
        lambda: None,
        lambda: [1, 2],
        lambda: [1, [2]],
        lambda: [2, 1],
        lambda: [[1], 2],
        lambda: {"a": 1, "b": 2},
        lambda: {"a": 2, "b": 1},
        lambda: {"b": 1, "c": 2},
        lambda: np.array([1.0, 2.0]),
        lambda: np.array([[1.0, 2.0]]),
        lambda: np.array([1, 2]),
        lambda: np.array([1.0, 2.0], dtype=np.float32),
        lambda: np.array([1.0, 2.0]).view(np.int64),
        lambda: big.copy(),
        lambda: big2.copy(),
        lambda: base.copy(),
        lambda: base.T.copy(),
        lambda: np.arange(24.0).reshape(6, 4)[::2],
        lambda: np.arange(24.0).reshape(6, 4)[1::2],
        lambda: [np.array([1.0]), np.array([2.0])],
        lambda: [np.array([2.0]), np.array([1.0])],
        lambda: {"x": np.array([1.0, 2.0])},
        lambda: {"x": np.array([2.0, 1.0])},
        lambda: frozenset([1, 2]),
        lambda: frozenset([1, 3]),
        lambda: "a",
        lambda: ["a", None],
        lambda: [None, "a"],
        lambda: 1.5,
        lambda: -1,
        lambda: -2,
        lambda: {0: 1.0, "a": 2.0},
        lambda: {0: 2.0, "a": 1.0},
        lambda: np.array([1.5, None], dtype=object),
        lambda: np.array([2.5, None], dtype=object),
        lambda: [(None, 1.5), (0, None)],
    ]


VOCAB = _vocab()


def _tree(r, depth=0):
    kind = r.choice(["float", "int", "str", "none", "arr", "arr", "iarr"] + (["list", "list", "dict", "dict"] if depth < 3 else []))
    if kind == "float":
        return r.uniform(-5, 5)
    if kind == "int":
        return r.randint(3, 90)
    if kind == "str":
        return r.choice(["alpha", "beta", "sr-1"])
    if kind == "none":
        return None
    if kind == "arr":
        return np.array([r.uniform(-3, 3) for _ in range(12)]).reshape(r.choice([(12,), (3, 4), (2, 2, 3)]))
    if kind == "iarr":
        return np.array([r.randint(0, 50) for _ in range(6)])
    if kind == "list":
        return [_tree(r, depth + 1) for _ in range(r.randint(1, 4))]
    return {k: _tree(r, depth + 1) for k in r.sample(["x", "y", "z", "mu", "0"], r.randint(1, 4))}


def _mutant(r, x):
    """Almost the same value."""
    if isinstance(x, np.ndarray):
        how = r.choice(["one", "one", "ulp", "swap", "shape", "type", "list", "shorter"])
        y = x.copy()
        k = r.choice([0, x.size - 1, x.size // 2, r.randrange(x.size)])
        if how == "ulp" and x.dtype == float:
            y.flat[k] = np.nextafter(y.flat[k], 99)
        elif how == "swap" and y.flat[0] != y.flat[k]:
            y.flat[0], y.flat[k] = x.flat[k], x.flat[0]
        elif how == "shape":
            y = y.reshape(-1, 1) if y.shape != (y.size, 1) else y.reshape(-1)
        elif how == "type":
            y = y.astype(np.float32 if x.dtype == float else np.int32)
        elif how == "list" and x.size < 100:
            return y.tolist()
        elif how == "shorter":
            return y.reshape(-1)[:-1].copy()
        else:
            y.flat[k] += 1
        return y
    if isinstance(x, float):
        return float(np.nextafter(x, 99)) if r.random() < 0.5 else x + 1e-9
    if isinstance(x, int):
        return -x if r.random() < 0.3 else x + 1
    if isinstance(x, str):
        return x + r.choice([" ", "1"])
    if x is None:
        return r.choice(["None", [], {}, "", [None]])
    if isinstance(x, list):
        y = list(x)
        how = r.choice(["deep", "deep", "deep", "more", "wrap", "turn"])
        if how == "more":
            return y + [None]
        if how == "wrap":
            return [y]
        if how == "turn" and canon(y) != canon(y[::-1]):
            return y[::-1]
        k = r.randrange(len(y))
        y[k] = _mutant(r, y[k])
        return y
    y = dict(x)
    how = r.choice(["deep", "deep", "deep", "more", "rename", "turn"])
    k = r.choice(sorted(y))
    if how == "more":
        y["w"] = None
    elif how == "rename":
        y["k" + k] = y.pop(k)
    elif how == "turn" and len(y) > 1 and canon(list(y.values())) != canon(list(y.values())[::-1]):
        y = dict(zip(y, list(y.values())[::-1]))
    else:
        y[k] = _mutant(r, y[k])
    return y


class Holder:
    """Compared by content, so not hashable; its text is an address."""

    def __init__(self, data):
        self.data = data

    def __eq__(self, other):
        return isinstance(other, Holder) and bool(np.array_equal(self.data, other.data))


class Shown(Holder):
    """The same with a text, in which numpy leaves most of a long array out."""

    def __repr__(self):
        return "Shown(%r)" % (self.data,)

    __hash__ = None


LONG = set()        # first members of the families of long lists: each call takes many steps


def _families():
    """Groups of look-alikes: a value and what differs from it (or from a mutant of it) in one place."""
    import random
    r = random.Random(2026)
    out = []
    for f in range(40):
        base = _tree(r)
        if f < 3:
            base = np.arange(20000.0).reshape([(20000,), (200, 100), (1, 20000)][f])
        fam = [base]
        for _ in range(5):
            fam.append(_mutant(r, r.choice(fam)))
        out.append(list(range(len(VOCAB), len(VOCAB) + len(fam))))
        VOCAB.extend((lambda v: lambda: copy.deepcopy(v))(v) for v in fam)
    for f in range(3):      # the same in other memory layouts
        big = np.arange(60.0).reshape(6, 10) + f
        out.append(list(range(len(VOCAB), len(VOCAB) + 5)))
        VOCAB.extend([(lambda b: lambda: b.copy())(big), (lambda b: lambda: np.asfortranarray(b))(big), (lambda b: lambda: b[::-1].copy()[::-1])(big),
                      (lambda b: lambda: b[:, ::-1])(big), (lambda b: lambda: np.asfortranarray(b.T))(big)])
    for cls in (Holder, Shown):     # objects without hash
        out.append(list(range(len(VOCAB), len(VOCAB) + 5)))
        for k in (0, 1500, 2500, 3999):
            VOCAB.append((lambda c, k: lambda: c(np.where(np.arange(4000) == k, -7.0, np.arange(4000.0))))(cls, k))
        VOCAB.append((lambda c: lambda: [c(np.arange(3.0)), {"x": c(np.zeros(2))}])(cls))
    # records with the same bytes under other names, in other places or of other types
    layouts = [[("a", "i8"), ("b", "f8")], [("b", "i8"), ("a", "f8")], [("a", "f8"), ("b", "i8")], [("a", "f8"), ("b", "f8")],
               {"names": ["a", "b"], "formats": ["i8", "f8"], "offsets": [8, 0]}]
    out.append(list(range(len(VOCAB), len(VOCAB) + len(layouts))))
    VOCAB.extend((lambda d: lambda: np.zeros(2, dtype=d))(d) for d in layouts)
    layouts = [[("a", "O"), ("b", "f8")], [("b", "O"), ("a", "f8")]]
    groups = [
        [lambda: np.array([(None, 1.0)], dtype=layouts[0]), lambda: np.array([(None, 1.0)], dtype=layouts[1])],
        [lambda: np.zeros(0), lambda: np.zeros((0, 3)), lambda: np.zeros((3, 0)), lambda: [], lambda: {}],
        [lambda: np.array(1.0), lambda: np.array([1.0]), lambda: np.array([[1.0]]), lambda: [np.array(1.0)], lambda: np.array(1 + 0j)],
        [lambda: np.array([1.0, 2.0]), lambda: np.array([1.0, 2.0]).astype(">f8"), lambda: np.array([1.0, 2.0]).view(">f8"),
         lambda: np.array([1.0, 2.0]).view("M8[s]"), lambda: np.array([1.0, 2.0]).view("M8[ms]")],
        [lambda: np.array([True, False]), lambda: np.array([1, 0], dtype=np.int8), lambda: np.array([1, 0], dtype=np.uint8), lambda: np.array([1, 0])],
        [lambda: b"ab", lambda: "ab", lambda: "b'ab'", lambda: np.array(["ab"]), lambda: np.array([b"ab"])],
        [lambda: np.array(["a", "bc"]), lambda: np.array(["ab", "c"]), lambda: ["a", "bc"], lambda: ["ab", "c"], lambda: "abc"],
        [lambda: 1 + 2j, lambda: 1 - 2j, lambda: [1, 2], lambda: "(1+2j)", lambda: 3],
        [lambda: bytearray(b"ab"), lambda: bytearray(b"ac"), lambda: bytearray(b""), lambda: [97, 98]],
        [lambda: {"a": {"b": 1}}, lambda: {"a": ["b", 1]}, lambda: [["a", {"b": 1}]], lambda: {"a": {"b": [1]}}, lambda: [["a", ["b", 1]]]],
    ]
    for g in groups:
        out.append(list(range(len(VOCAB), len(VOCAB) + len(g))))
        VOCAB.extend(g)
    LONG.add(len(VOCAB))
    LONG.add(len(VOCAB) + 5)
    for wrap in (list, lambda x: (0, list(x))):   # long containers
        out.append(list(range(len(VOCAB), len(VOCAB) + 5)))
        for k in (None, 0, 600, 1000, 1999):
            VOCAB.append((lambda w, k: lambda: w(-float(j) - 0.5 if j == k else float(j) for j in range(2000)))(wrap, k))
    masks = [[0, 0, 0], [0, 1, 0], [1, 1, 0]]
    out.append(list(range(len(VOCAB), len(VOCAB) + 5)))
    VOCAB.extend((lambda m: lambda: np.ma.array([1.0, 2.0, 3.0], mask=m))(m) for m in masks)
    VOCAB.extend([lambda: np.ma.array([1.0, 2.5, 3.0], mask=masks[0]), lambda: np.array([1.0, 2.0, 3.0])])
    return out


# pairs for "the caller changes the argument in place and calls again"
MUTABLE = [i for i, f in enumerate(VOCAB[:41]) if isinstance(f(), (list, dict, np.ndarray))]


def canon(x):
    if isinstance(x, Holder):
        return (type(x).__name__, canon(x.data))
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", canon(np.asarray(x)), canon(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray) and x.dtype.hasobject:
        return ("ndo", x.shape, repr(x.dtype), canon(x.tolist()))
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, repr(x.dtype), np.ascontiguousarray(x).tobytes())
    if isinstance(x, dict):
        return ("d", tuple(sorted((canon(k), canon(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(canon(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("s", tuple(sorted(canon(v) for v in x)))
    return (type(x).__name__, repr(x))


FAMILIES = _families()


class Payload:
    """Mutable result of one evaluation."""

    def __init__(self, serial):
        self.serial = serial
        self.data = [serial, {"s": serial}, np.full(3, float(serial))]

    def pristine(self):
        return (self.data[0] == self.serial and len(self.data) == 3
                and self.data[1] == {"s": self.serial}
                and self.data[2].shape == (3,) and bool((self.data[2] == float(self.serial)).all()))

    def __deepcopy__(self, memo):
        new = type(self).__new__(type(self))
        new.serial, new.data = self.serial, copy.deepcopy(self.data, memo)
        return new

    def spoil(self):
        self.data[0] = -99
        self.data[1]["s"] = -99
        self.data[1]["z"] = 1
        self.data[2][:] = -99.0
        self.data.append("spoiled")


class Hollow(Payload):
    """Counts as false."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Alike(Payload):
    """Equals everything and cannot be hashed."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class Returned(Payload, Exception):
    """An exception that is returned, not raised."""


class Numbers(np.ndarray):
    """Neither true nor false."""

    @staticmethod
    def of(serial):
        x = np.full((2, 2), float(serial)).view(Numbers)
        return x

    @property
    def serial(self):
        return int(self.flat[0])

    data = property(lambda self: self.tolist())

    def pristine(self):
        return self.shape == (2, 2) and bool((np.asarray(self) == np.asarray(self).flat[0]).all()) and self.serial > 0

    def spoil(self):
        np.asarray(self)[:] = -99.0


class Asking(Payload):
    """Asks the cache it is kept in when it is copied and when it is dropped by it."""

    ask = None

    def __deepcopy__(self, memo):
        if self.ask:
            self.ask("copied")
        new = super().__deepcopy__(memo)
        new.ask = self.ask
        return new

    def __del__(self):
        f = sys._getframe(1)
        if self.ask and f is not None and f.f_code.co_filename.endswith("system/cache.py"):
            self.ask("dropped")


RESULTS = {"asking": Asking, "plain": Payload, "hollow": Hollow, "alike": Alike, "returned": Returned, "numbers": Numbers.of, "none": lambda serial: None}


class Uncopyable(Payload):
    """A result that cannot be copied: the evaluation fails."""

    def __init__(self, world, e):
        super().__init__(e.serial)
        self.world, self.e = world, e

    def __deepcopy__(self, memo):
        e = self.e
        e.exc, e.ok, e.end = EXC["type"]("not copyable"), False, self.world.tick()
        raise e.exc


class Eval:
    __slots__ = ("serial", "target", "key", "start", "end", "thread", "ok", "exc", "call")


class Call:
    __slots__ = ("target", "key", "start", "end", "thread", "got", "exc", "evals", "ok")


class World:
    def __init__(self, plan, out):
        self.plan, self.out = plan, out
        self.evals, self.calls, self.clears = [], [], []
        self.faults = {}
        for tgt, arg, nth, kind in plan["faults"]:
            self.faults[(tgt, arg, nth)] = kind
        self.nth = {}
        self.returned = []
        self.sim = None
        self.clock = 0
        self.stack = {}
        self.phase = "threads"
        self.problems = []
        self.snapshots = []

    def tick(self):
        self.clock += 1
        return self.clock

    def tid(self):
        t = self.sim.current() if self.sim else None
        return t.tid if t else -1

    # the body of every decorated function
    def body(self, target, a, b, flag):
        key = (canon(a), b, flag)
        e = Eval()
        e.serial, e.target, e.key, e.thread = len(self.evals) + 1, target, key, self.tid()
        e.start, e.end, e.ok, e.exc = self.tick(), None, None, None
        stack = self.stack.setdefault(self.tid(), [])
        e.call = stack[-1] if stack else None
        self.evals.append(e)
        if e.call is not None:
            e.call.evals.append(e)
        arg = e.call.ok if e.call is not None else None   # vocabulary index
        n = self.nth[(target, key)] = self.nth.get((target, key), 0) + 1
        kind = self.faults.get((target, arg, n)) if self.phase == "threads" else None
        for _ in range(self.plan["body"]):
            sched.SIM.point() if sched.SIM else None
        nest = self.plan.get("nest", {}).get(str(target))
        if nest is not None and kind is None:
            try:
                self.call(nest, arg or 0, 0, 0, False, nested=True)
            except (Exception, Stop) as err:  # noqa: BLE001
                e.exc, e.ok, e.end = err, False, self.tick()
                raise
        if self.plan.get("reuse"):
            # the function changes what it returned in calls that have ended
            for old, r in list(self.returned):
                if old.target == target and old.call is not None and old.call.end is not None:
                    r.spoil()
                    self.returned.remove((old, r))
                    self.out.fault("result-reused-by-the-function")
        if kind == "copy":
            if self.plan["targets"][target]["copy"] or self.plan["targets"][target]["kind"] == "bare":
                self.out.fault("uncopyable-result")
                e.ok, e.end = True, self.tick()
                return Uncopyable(self, e)
        elif kind is not None:
            self.out.fault("raise-" + kind)
            e.exc, e.ok, e.end = EXC[kind]("injected"), False, self.tick()
            raise e.exc
        e.ok, e.end = True, self.tick()
        r = RESULTS[self.plan.get("result", "plain")](e.serial)
        if isinstance(r, Asking):
            r.ask = lambda how: self.ask_back(target, how)
        if self.plan.get("reuse") and r is not None and self.plan["targets"][target]["copy"]:
            self.returned.append((e, r))
        return r

    def ask_back(self, target, how):
        """What a result does with the cache it is in while it is copied or dropped."""
        if sched.SIM is None or self.tid() < 0:
            return
        self.out.fault("asks-its-cache-when-" + how)
        fn = self.fns[target]()
        info = getattr(fn, "cache_info", None) or getattr(getattr(fn, "__func__", None), "cache_info", None)
        if info:
            info()

    def call(self, tgt, arg, b, form, spoil, nested=False, value=None):
        a = VOCAB[arg]() if value is None else value
        c = Call()
        c.target, c.key, c.thread, c.evals = tgt, (canon(a), b, None), self.tid(), []
        c.got = c.exc = None
        c.ok = arg
        fn = self.fns[tgt]()
        self.stack.setdefault(self.tid(), []).append(c)
        self.calls.append(c)
        c.start, c.end = self.tick(), None
        try:
            if form == 0:
                r = fn(a, b)
            elif form == 1:
                r = fn(a, b=b)
            elif form == 2:
                r = fn(a=a, b=b)
            elif form == 3:
                r = fn(b=b, a=a, flag=None)
            else:
                r = fn(a) if b == 0 else fn(a, b, flag=None)
            if r is None and self.plan.get("result") == "none":
                # one of the evaluations so far, they cannot be told apart
                c.got = max([e.serial for e in self.evals if e.target == tgt and e.key == c.key and e.ok and not e.exc], default=None)
                if c.got is None:
                    self.problems.append(("value", "a call returned None without an evaluation"))
            elif not isinstance(r, (Payload, Numbers)):
                self.problems.append(("value", "a call returned %r" % (r,)))
            else:
                c.got = r.serial
                if not r.pristine():
                    self.problems.append(("mutated", "a call returned a result that another caller had changed: %r" % (r.data,)))
                if spoil:
                    r.spoil()
            return r
        except (Exception, Stop) as err:  # noqa: BLE001
            c.exc = err
            if nested:
                raise
            return None
        finally:
            c.end = self.tick()
            self.stack[self.tid()].pop()


def build(world, plan):
    from spey.system.cache import cache_results
    fns, infos = [], []
    keep = []

    def make(i, t):
        kw = dict(maxsize=t["maxsize"], copy_on_return=t["copy"])
        if t["kind"] == "func":
            @cache_results(**kw)
            def f(a, b=0, *, flag=None):
                return world.body(i, a, b, flag)
            return lambda: f
        if t["kind"] == "bare":
            @cache_results
            def g(a, b=0, *, flag=None):
                return world.body(i, a, b, flag)
            return lambda: g
        if t["kind"] == "inst":
            class A:
                @cache_results(per_instance=True, **kw)
                def m(self, a, b=0, *, flag=None):
                    return world.body(i, a, b, flag)
            o = A()
            keep.append(o)
            return lambda: o.m
        if t["kind"] == "slots":
            class B:
                __slots__ = ("x",)

                @cache_results(**kw)
                def m(self, a, b=0, *, flag=None):
                    return world.body(i, a, b, flag)
            o2 = B()
            keep.append(o2)
            return lambda: o2.m

        class C:
            __slots__ = ("x", "__weakref__")

            @cache_results(per_instance=True, **kw)
            def m(self, a, b=0, *, flag=None):
                return world.body(i, a, b, flag)
        o3 = C()
        keep.append(o3)
        return lambda: o3.m

    for i, t in enumerate(plan["targets"]):
        fns.append(make(i, t))
    world.fns, world.keep = fns, keep


def gen(rng, i, tier, focus):
    nt = rng.choice([1, 1, 2]) if focus != "C04" else 1
    small = rng.random() < (0.6 if focus in ("C03", "C04") else 0.35)
    targets = []
    for _ in range(nt):
        kind = rng.choice(["func", "func", "inst", "inst", "slots", "slotsw"])
        targets.append({"kind": kind,
                        "maxsize": rng.choice([1, 1, 2, 3]) if small else rng.choice([8, 64, None]),
                        "copy": True if focus == "C01" or rng.random() < 0.7 else False})
    nthreads = rng.choice([1, 2, 2, 3, 3, 4])
    if rng.random() < 0.6:
        nargs = rng.choice([1, 2, 3])      # contended
    else:
        nargs = rng.choice([4, 6, 10])
    args = rng.sample(range(41), nargs)
    if rng.random() < (0.5 if focus == "C01" else 0.2):
        family = rng.choice(FAMILIES)
        args = rng.sample(family, min(len(family), 5, nargs + 1))
        if family[0] in LONG:
            nthreads = min(nthreads, 2)
    long = any(min(f) in LONG for f in FAMILIES if args[0] in f)
    pclear = rng.choice([0, 0, 0.1, 0.3])
    pinfo = rng.choice([0, 0.1])
    pfault = rng.choice([0, 0, 0.2, 0.5])
    if focus == "C02":
        pclear = 0 if rng.random() < 0.8 else 0.2
    threads = []
    for _ in range(nthreads):
        ops = []
        for _ in range(rng.choice([1, 2, 3] if long else [1, 2, 3, 5, 8])):
            tgt = rng.randrange(nt)
            r = rng.random()
            if r < pclear:
                ops.append(["clear", tgt])
            elif r < pclear + pinfo:
                ops.append([rng.choice(["info", "getc", "gc"]), tgt])
            elif r > 0.98:
                ops.append(["refill", tgt, rng.randrange(1000)])
            elif r > 0.94:
                k = rng.choice(MUTABLE)
                ops.append(["inplace", tgt, k])
            else:
                ops.append(["call", tgt, rng.choice(args), rng.choice([0, 0, 0, 1]),
                            rng.randrange(5), rng.random() < 0.3])
        threads.append({"ops": ops})
    faults = []
    for tgt in range(nt):
        for a in args:
            for n in (1, 2, 3):
                if rng.random() < pfault:
                    faults.append([tgt, a, n, rng.choice(list(EXC) + ["copy"])])
    nest = {}
    if nt == 2 and rng.random() < 0.3:
        nest = {"0": 1}
    hot = rng.random() < 0.5
    return {"targets": targets, "threads": threads, "faults": faults, "nest": nest, "reuse": rng.random() < 0.3,
            "result": rng.choice(["plain"] * 5 + list(RESULTS)),
            "body": rng.choice([0, 1, 1, 3, 8]), "probe": args,
            "grain": "instr" if hot and not long else "line",
            "sched": sched_spec(rng, nthreads, rng.choice([60, 200, 600]), hot=True)}


def execute(plan, out):
    global RUN
    world = World(plan, out)
    build(world, plan)
    sim = Sim(plan["sched"], max_steps=2_000_000, grain=plan["grain"], only="system/cache.py")
    world.sim = sim

    def body(ops):
        def run():
            for op in ops:
                if op[0] == "call":
                    world.call(op[1], op[2], op[3], op[4], op[5] and plan["targets"][op[1]]["copy"])
                elif op[0] == "clear":
                    fn = world.fns[op[1]]()
                    s = world.tick()
                    fn.cache_clear()
                    world.clears.append((op[1], s, world.tick()))
                    out.count("clears")
                elif op[0] == "info":
                    inf = world.fns[op[1]]().cache_info()
                    world.snapshots.append((op[1], inf))
                elif op[0] == "getc":
                    got = world.fns[op[1]]().get_cache()
                    for v in got.values():
                        if v is None and plan.get("result") == "none":
                            continue
                        if not isinstance(v, (Payload, Numbers)):
                            world.problems.append(("snapshot", "get_cache() contains %r" % (v,)))
                        elif not v.pristine():
                            world.problems.append(("mutated", "get_cache() contains a changed result"))
                        elif plan["targets"][op[1]]["copy"]:
                            v.spoil()
                elif op[0] == "gc":
                    gc.collect()
                elif op[0] == "refill":
                    # the same array filled with new objects (which may live
                    # where the previous ones did)
                    v = np.empty(2, dtype=object)
                    for k in range(3):
                        v[0] = None
                        v[0] = op[2] + k * 0.25
                        world.call(op[1], None, 0, 0, False, value=v)
                elif op[0] == "inplace":
                    v = VOCAB[op[2]]()
                    world.call(op[1], op[2], 0, 0, False, value=v)
                    if isinstance(v, list):
                        v.append(7)
                    elif isinstance(v, dict):
                        v["new"] = 7
                    else:
                        v.flat[0] += 41.0 if v.dtype.kind == "f" else 41
                    world.call(op[1], op[2], 0, 0, False, value=v)
        return run

    for th in plan["threads"]:
        sim.spawn(body(th["ops"]))
    how = sim.run()
    world.how = how
    out.schedule = sim.decisions
    out.count("switches", sim.switches)
    out.count("preemption-points", sim.steps)
    out.count("evaluations", len(world.evals))
    out.count("calls", len(world.calls))
    out.count("waited", sum(1 for c in world.calls if not c.evals and c.got is not None
                            and world.evals[c.got - 1].end > c.start))
    for t in sim.threads:
        if t.error is not None:
            raise t.error
    world.sim = None
    world.phase = "probe"
    if how != "finished":
        out.tainted = True
    out.nontrivial = sim.switches > 0 and len(world.evals) > 0
    hist = [(c.target, c.thread, c.start, c.end, c.got, type(c.exc).__name__) for c in world.calls]
    out.digest = digest(hist, how, [(e.start, e.end, e.ok) for e in world.evals])
    out.states = [digest([(h[0], h[1], h[4], h[5]) for h in hist])]
    return world


# --------------------------------------------------------------------------- #
# oracles


def check_values(world, out):
    for kind, detail in world.problems:
        raise Violation(kind, detail)
    for c in world.calls:
        if c.end is None:
            continue
        if c.exc is not None:
            own = [e for e in c.evals if e.exc is c.exc]
            if not own:
                raise Violation("foreign-exception",
                                "a call raised %r which its own evaluation did not raise" % (c.exc,))
            continue
        if c.got is None:
            continue
        if not 1 <= c.got <= len(world.evals):
            raise Violation("value", "unknown result %r" % (c.got,))
        e = world.evals[c.got - 1]
        if e.target != c.target:
            raise Violation("wrong-function", "result of target %d returned by target %d" % (e.target, c.target))
        if e.key != c.key:
            raise Violation("wrong-arguments", "result for %r returned for %r" % (e.key, c.key))
        if not e.ok:
            raise Violation("failed-result", "result of a failed evaluation returned")
        if e.end > c.end:
            raise Violation("future", "result returned before it was computed")
        for tgt, s, t in world.clears:
            if tgt == c.target and e.start < s and t < c.start:
                raise Violation("stale-after-clear",
                                "a call made after cache_clear() returned a result computed before it")


def check_single_flight(world, out, plan):
    by = {}
    for e in world.evals:
        by.setdefault((e.target, e.key), []).append(e)
    inf = float("inf")
    for (tgt, key), es in by.items():
        maxsize = plan["targets"][tgt]["maxsize"]
        if plan["targets"][tgt]["kind"] == "bare":
            maxsize = 128
        for x, e1 in enumerate(es):
            for e2 in es[x + 1:]:
                end1 = inf if e1.end is None else e1.end
                if any(t == tgt and ce > min(e1.call.start, e2.call.start) and cs < e2.start for t, cs, ce in world.clears):
                    continue
                if e2.start < end1:
                    raise Violation("duplicate-evaluation",
                                    "two evaluations for the same arguments overlap: %d..%s and %d.. "
                                    "(threads %d and %d)" % (e1.start, e1.end, e2.start, e1.thread, e2.thread))
                if not e1.ok:
                    continue
                if maxsize is not None:
                    others = {e.key for e in world.evals if e.target == tgt and e.key != key and e.ok
                              and e.end is not None and (e.call.end or inf) > e1.end and e.end < e2.start}
                    if len(others) >= maxsize:
                        continue
                raise Violation("recomputed",
                                "arguments were evaluated again although their result had been computed, "
                                "not cleared and not evicted (maxsize %s)" % (maxsize,))


def check_liveness(world, out, plan):
    if world.how == "deadlock":
        raise Violation("never-returns", "calls wait forever: %s"
                        % [(c.thread, c.target) for c in world.calls if c.end is None])
    if world.how == "budget":
        raise Violation("livelock", "calls did not finish within the step budget")
    for c in world.calls:
        if c.exc is not None and not [e for e in c.evals if e.exc is c.exc]:
            raise Violation("foreign-exception", "a call raised %r which the function did not raise" % (c.exc,))
    # everything still answers afterwards, in bounded time, evaluating at most once
    for tgt in range(len(plan["targets"])):
        for arg in plan["probe"]:
            for _ in range(2):
                sim = Sim({"kind": "serial", "seed": 0}, max_steps=600_000, grain="line",
                          only="system/cache.py")
                world.sim = sim
                before = len(world.evals)
                sim.spawn(lambda: world.call(tgt, arg, 0, 0, False))
                how = sim.run()
                world.sim = None
                if how != "finished":
                    out.tainted = True
                    raise Violation("stuck-entry",
                                    "after all calls had ended, a further call never returned (%s)" % how)
                c = world.calls[-1] if not plan.get("nest") else None
                if c is not None and (c.exc is not None or c.got is None):
                    raise Violation("stuck-entry", "a further call ended with %r" % (c.exc,))
                if len(world.evals) - before > 1 and not plan.get("nest"):
                    raise Violation("stuck-entry", "a further call evaluated %d times" % (len(world.evals) - before))


def check_bound(world, out, plan):
    """At rest: bounded size, and FIFO behaviour from here on."""
    if world.how != "finished":
        return
    for tgt, t in enumerate(plan["targets"]):
        m = 128 if t["kind"] == "bare" else t["maxsize"]
        fn = world.fns[tgt]()
        info, held = fn.cache_info(), fn.get_cache()
        if m is not None and (info["size"] > m or len(held) > m):
            raise Violation("too-big", "cache_info %r, %d entries held, maxsize %r" % (info, len(held), m))
        if info["size"] != len(held):
            raise Violation("size", "cache_info size %r but %d entries" % (info["size"], len(held)))
        if info["maxsize"] != m:
            raise Violation("size", "maxsize reported as %r instead of %r" % (info["maxsize"], m))
        # before anything else is computed: what the threads computed last and
        # nobody cleared must still be there (concurrent ends are ambiguous only
        # among evaluations, not about how many fit)
        ok = [e for e in world.evals if e.target == tgt and e.ok]
        cleared = max([c[2] for c in world.clears if c[0] == tgt], default=0)
        first_ok = {}
        for e in ok:
            if e.call.start > cleared:
                first_ok.setdefault(e.key, e)
        expect = len(first_ok) if m is None else min(m, len(first_ok))
        if len(held) < expect:
            raise Violation("lost", "only %d entries are held although %d distinct results were computed since "
                            "the last clear (maxsize %r)" % (len(held), len(first_ok), m))
        # sequential FIFO phase against a reference model
        if plan.get("nest"):
            continue
        model = []
        fresh = 1000
        limit = (m or 6) + 3

        def ask(b):
            before = len(world.evals)
            world.call(tgt, 0, b, 0, False)
            return len(world.evals) - before

        fn.cache_clear()
        seq = []
        import random
        rng = random.Random(plan["sched"].get("seed", 0))
        for k in range(3 * min(limit, 12)):
            if model and rng.random() < 0.5:
                b = rng.choice(model)
            elif seq and rng.random() < 0.3:
                b = rng.choice(seq)
            else:
                fresh += 1
                b = fresh
            seq.append(b)
            n = ask(b)
            hit = b in model
            if n != (0 if hit else 1):
                raise Violation("fifo", "step %d: expected %s but the function was evaluated %d times "
                                "(maxsize %r, model %r)" % (k, "a hit" if hit else "one evaluation", n, m, model))
            if not hit:
                model.append(b)
                if m is not None and len(model) > m:
                    model.pop(0)
            if fn.cache_info()["size"] != len(model):
                raise Violation("fifo", "size %r instead of %d" % (fn.cache_info(), len(model)))
        fn.cache_clear()
        if fn.cache_info()["size"] != 0 or fn.get_cache():
            raise Violation("clear", "entries are left after cache_clear()")


RULE = ("Each run: 1-4 simulated threads with 1-8 operations (call in one of 5 argument forms, "
        "cache_clear, cache_info, get_cache, gc, in-place argument change) on 1-2 cached functions or "
        "methods (plain, instance, slotted, slotted+weakref; maxsize 1..64/None), arguments from a "
        "vocabulary of 41 look-alike values and 57 families of almost equal nested ones (also records, empty and masked arrays, byte strings and objects without hash), injected failures and results that cannot be copied per (function, argument, nth evaluation), functions that later change what they returned, results that are None, false, exceptions, arrays or equal to everything, "
        "and a scheduler drawn per run (random walk, PCT, serial) at line or byte-code granularity of "
        "system/cache.py. Non-trivial: at least one thread switch and one evaluation; distinct by the digest "
        "of the full call/evaluation history.")
REAL = ["spey.system.cache (all code paths)", "threading.Event/Condition of CPython",
        "copy.deepcopy, hashlib, numpy"]
STUB = ["threading.Lock/RLock (cooperative simulated locks)", "the cached function bodies (workload)"]
ASSUMPTIONS = ["threads switch only at source lines or byte codes of spey.system.cache, at lock operations and "
               "inside the cached function",
               "the cached function is deterministic and is not called recursively with its own arguments"]
