"""R01: histories of registrations, installations, rescans and lookups of backends."""
import importlib
import importlib.metadata
import os
import shutil
import sys
import tempfile

import spey
from sim import sched
from sim.run import Violation
from sim.sched import Sim
from sim.util import digest, sched_spec
from spey.base import BackendBase, ConverterBase
from spey.base.model_config import ModelConfig
from spey.system.exceptions import AbstractModel, MissingMetaData, PluginError

LEVEL = "exploration"
LEVEL_NOTE = ("samples histories of registering, installing, removing, breaking and repairing backends, rescans and lookups, serially and from several threads; every answer is compared with a "
              "reference of the registry")
TECHNIQUE = "deterministic simulation: scratch distributions that fail to load in every way, seeded thread interleavings of registrations, rescans and lookups; checked against a reference of the registry"
RULE = "a run is non-trivial if at least one registration and one lookup were made; distinct by the digest of all answers"
RUNS = {"quick": 2500, "thorough": 100000}
BATCH = 1
SHRINK = ("ops", "entries", "threads")
REAL = ["spey.register_backend, reset_backend_entries, AvailableBackends, get_backend, get_backend_metadata, statistical_model_wrapper", "importlib.metadata and the import system on scratch distributions"]
STUB = ["the plugin packages (scratch modules)"]
ASSUMPTIONS = ["loading an entry point is atomic for the scheduler (import locks are not simulated)",
               "if a name is registered in the process and also installed, either backend may be given"]

NAMES = ["p.a", "P.a", "p.a2", "default.poisson"]
FLAWS = ["import", "attr", "syntax", "version", "badspec", "norequires", "wrongname", "abstract", "notclass", "exit", "nomodule"]
REGFLAWS = ["abstract", "norequires", "noname", "version", "badspec", "notsub", "notclass"]


def gen_entry(rng, pf, regs=False):
    e = {"name": rng.choice(NAMES if rng.random() < 0.9 else NAMES[:3]), "kind": rng.choice(["model", "model", "model", "converter"]), "meta": rng.random() < 0.5}
    if not regs:
        e["kind"] = rng.choice(["model", "model", "converter", "nameless", "alias"])
    if rng.random() < pf:
        e["flaw"] = rng.choice(REGFLAWS if regs else FLAWS)
        if e["flaw"] == "abstract" or e["flaw"] == "wrongname" and e["kind"] in ("nameless", "alias"):
            e["kind"] = "model"
    return e


def gen_op(rng, pf, thread=False):
    r = rng.random()
    if r < 0.3:
        return ["register", gen_entry(rng, pf, True)]
    if r < 0.42:
        return ["reset"]
    if r < 0.7:
        return ["get", rng.choice(NAMES + ["p.none"])]
    if r < 0.8:
        return ["meta", rng.choice(NAMES + ["p.none"])]
    if r < 0.86 or thread:
        return ["list"]
    return ["again"]        # registers a class that was registered before


def gen(rng, i, tier):
    pf = rng.choice([0.0, 0.3, 0.6])
    ops = []
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        if r < 0.2:
            ops.append(["install", rng.choice(["d1", "d2", "d3"]), [gen_entry(rng, pf) for _ in range(rng.choice([1, 1, 2, 3]))]])
        elif r < 0.27:
            ops.append(["uninstall", rng.choice(["d1", "d2", "d3"])])
        elif r < 0.3:
            ops.append(["corrupt", rng.choice(["d1", "d2", "d3"])])
        elif r < 0.45:
            m = rng.choice([2, 2, 3, 4])
            ths = [[gen_op(rng, pf, True) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(m)]
            if rng.random() < 0.4:
                # several threads register one name
                one = gen_entry(rng, 0.0, True)
                for t in ths[:rng.choice([2, m])]:
                    t.insert(rng.choice([0, 0, len(t)]), ["register", {**gen_entry(rng, pf / 3, True), "name": one["name"]}])
            ops.append(["group", ths, sched_spec(rng, m, 200, hot=True)])
        else:
            ops.append(gen_op(rng, pf))
    return {"ops": ops}


SOURCE = '''
class %(cls)s(%(base)s):
    %(name)s
    %(requires)s
    %(meta)s
    TAG = %(tag)r
    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        return ModelConfig(0, 0.0, [1.0], [(0.0, poi_upper_bound)])
    %(pdf)s
'''
CONV = '''
class _%(cls)s(BackendBase):
    name, spey_requires, TAG = "x.made", ">=0.1.0", %(tag)r
    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        return ModelConfig(0, 0.0, [1.0], [(0.0, poi_upper_bound)])
    def get_logpdf_func(self, expected=None, data=None):
        return lambda p: -float(p[0] ** 2)

class %(cls)s(ConverterBase):
    %(name)s
    %(requires)s
    %(meta)s
    TAG = %(tag)r
    %(pdf)s
'''


def source(e, cls, tag, named=True, base="BackendBase"):
    flaw = e.get("flaw")
    name = 'name = %r' % (e["name"] if flaw != "wrongname" else "p.other")
    if e["kind"] in ("nameless", "alias") or flaw == "noname" or not named:
        name = "pass"
    req = {"version": '">=99.0.0"', "badspec": '"not a version"'}.get(flaw, '">=0.1.0"')
    pdf = "def get_logpdf_func(self, expected=None, data=None):\n        return lambda p: -float(p[0] ** 2)"
    if e["kind"] == "converter":
        pdf = "def __call__(self):\n        return _%s()" % cls
    if flaw == "abstract":
        pdf = "pass"
    meta = 'author, version, doi, arXiv = "me %s", "1.2", ["10.1/%s"], ["1234.5678"]\n    zenodo = ["zenodo/%s"]' % (tag, tag, tag) if e["meta"] else "pass"
    return (CONV if e["kind"] == "converter" else SOURCE) % {
        "cls": cls, "base": base, "name": name, "requires": "pass" if flaw == "norequires" else "spey_requires = " + req, "tag": tag, "pdf": pdf, "meta": meta}


class World:
    def __init__(self, out):
        self.out = out
        self.dir = tempfile.mkdtemp(prefix="verif-site-", dir="/tmp")
        self.n = 0
        self.installed = {}        # dist -> [(name, tag, entry)]
        self.scanned = {}          # name -> {tag: entry}: may be in the registry
        self.reg = {}              # name -> (tag, entry, cls) registered in this process
        self.avail = set()
        self.classes = []
        self.unknown = set()

    def __enter__(self):
        self.saved = dict(spey._backend_entries)
        self.real_load = importlib.metadata.EntryPoint.load

        def load(ep):
            with sched.masked():
                return self.real_load(ep)
        importlib.metadata.EntryPoint.load = load
        sys.path.append(self.dir)
        spey.reset_backend_entries()
        self.avail = set(spey.AvailableBackends())
        self.base = set(self.avail)
        return self

    def __exit__(self, *exc):
        importlib.metadata.EntryPoint.load = self.real_load
        sys.path.remove(self.dir)
        sys.path_importer_cache.pop(self.dir, None)
        spey._backend_entries.clear()
        spey._backend_entries.update(self.saved)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in [k for k in sys.modules if k.startswith("verifplug")]:
            del sys.modules[k]

    # -- packages
    def install(self, dist, entries):
        self.uninstall(dist)
        self.n += 1
        mod = "verifplug%d_%d" % (os.getpid(), self.n)
        text = ["from spey.base import BackendBase, ConverterBase\nfrom spey.base.model_config import ModelConfig\n"]
        eps, lst, nameless = [], [], None
        seen = set()
        for k, e in enumerate(entries):
            if e["name"] in seen:
                continue
            seen.add(e["name"])
            tag = "%s.%d.%d" % (dist, self.n, k)
            cls = "C%d" % k
            flaw = e.get("flaw")
            where = mod
            if flaw in ("import", "syntax", "exit"):
                where = mod + "_%d" % k
                body = {"import": "import does_not_exist_at_all\n", "syntax": "def broken(:\n", "exit": "raise SystemExit(3)\n"}[flaw]
                with open(os.path.join(self.dir, where + ".py"), "w") as f:
                    f.write(body)
            elif flaw == "nomodule":
                where = mod + "_gone"
            elif flaw == "notclass":
                text.append("%s = 7\n" % cls)
            elif flaw == "attr":
                pass
            elif e["kind"] == "alias" and nameless is not None and not flaw:
                # inherits from a class that does not name itself
                text.append("class %s(%s):\n    TAG = %r\n" % (cls, nameless, tag))
            else:
                text.append(source(e, cls, tag))
                if e["kind"] in ("nameless", "alias") and not flaw:
                    nameless = cls
            eps.append("%s = %s:%s" % (e["name"], where, cls))
            lst.append((e["name"], tag, e))
        with open(os.path.join(self.dir, mod + ".py"), "w") as f:
            f.write("".join(text))
        info = os.path.join(self.dir, "%s-1.%d.dist-info" % (dist, self.n))
        os.mkdir(info)
        with open(os.path.join(info, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: %s\nVersion: 1.%d\n" % (dist, self.n))
        with open(os.path.join(info, "entry_points.txt"), "w") as f:
            f.write("[other.group]\nx = y:z\n[spey.backend.plugins]\n" + "\n".join(eps) + "\n")
        self.installed[dist] = lst
        self.fresh()

    def fresh(self):
        # the finders cache directories by modification time
        os.utime(self.dir, (1.7e9 + self.n, 1.7e9 + self.n))
        self.n += 1
        importlib.invalidate_caches()
        importlib.metadata.MetadataPathFinder.invalidate_caches()

    def uninstall(self, dist):
        for n in os.listdir(self.dir):
            if n.startswith(dist + "-"):
                shutil.rmtree(os.path.join(self.dir, n))
        self.installed.pop(dist, None)
        self.fresh()

    def corrupt(self, dist):
        for n in os.listdir(self.dir):
            if n.startswith(dist + "-"):
                with open(os.path.join(self.dir, n, "entry_points.txt"), "wb") as f:
                    f.write(b"[spey.backend.plugins\n\xff\xfe = = \n")
                self.unknown.add(dist)
                self.out.fault("corrupt-metadata")

    # -- operations; each gives a canonical result
    def make(self, e):
        self.n += 1
        tag = "reg.%d" % self.n
        if e.get("flaw") == "notclass":
            return tag, 7
        if e.get("flaw") == "notsub":
            return tag, type("Plain", (), {"name": e["name"], "spey_requires": ">=0.1.0"})
        ns = {"BackendBase": BackendBase, "ConverterBase": ConverterBase, "ModelConfig": ModelConfig, "__name__": "verifplugreg"}
        exec(source(e, "R%d" % self.n, tag), ns)
        return tag, ns["R%d" % self.n]

    def do(self, op, rec):
        """In the simulated thread."""
        k = op[0]
        try:
            if k == "register":
                got = spey.register_backend(rec["cls"])
                rec["ok"] = True
                rec["same"] = got is rec["cls"]
            elif k == "again":
                spey.register_backend(rec["cls"])
                rec["ok"] = True
            elif k == "reset":
                spey.reset_backend_entries()
                rec["ok"] = True
            elif k == "get":
                rec["value"] = spey.get_backend(op[1])
                rec["ok"] = True
            elif k == "meta":
                rec["value"] = spey.get_backend_metadata(op[1])
                rec["ok"] = True
            elif k == "list":
                rec["value"] = list(spey.AvailableBackends())
                rec["ok"] = True
        except sched.SimAbort:
            raise
        except (Exception, SystemExit) as err:  # noqa: BLE001
            rec["err"] = err

    def start(self, op):
        rec = {"op": op, "ok": False, "err": None, "value": None}
        if op[0] == "register":
            rec["tag"], rec["cls"] = self.make(op[1])
            if op[1].get("flaw"):
                self.out.fault("bad-registration")
        if op[0] == "again":
            if not self.classes:
                return None
            rec["cls"] = self.classes[len(self.classes) // 2]
        return rec

    # -- reference
    def scan(self):
        """What a rescan finds: {name: {tag: entry}} (several packages may have one name)."""
        res = {}
        for lst in [lst for d, lst in self.installed.items() if d not in self.unknown]:
            for name, tag, e in lst:
                res.setdefault(name, {})[tag] = e
        return res

    def candidates(self, name):
        c = dict(self.scanned.get(name, {}))
        if name in self.reg:
            tag, e, _ = self.reg[name]
            c[tag] = e
        if name in self.base:
            c["base"] = {"kind": "model", "name": name, "meta": True}
        return c

    def judge_get(self, rec, before, after_c):
        """before: surely available names; after_c(name): candidates."""
        name = rec["op"][1]
        cands = after_c(name)
        what = rec["op"][0]
        bad = [t for t, e in cands.items() if e.get("flaw")] if what == "get" else [
            t for t, e in cands.items() if e.get("flaw") in ("import", "attr", "syntax", "norequires", "notclass", "exit", "nomodule")]
        gone = [t for t in cands if t not in ("base",) and not t.startswith("reg.") and t not in [x for lst in self.installed.values() for _, x, _ in lst]]
        if rec["err"] is not None:
            if name in before and not bad and not gone:
                raise Violation("available-but-fails", "%s %s: %r although all of %r are in order" % (what, name, rec["err"], sorted(cands)))
            if name not in before and not cands and not isinstance(rec["err"], PluginError):
                raise Violation("wrong-exception", "%s of the unknown %s: %r" % (what, name, rec["err"]))
            if isinstance(rec["err"], PluginError) and "unavailable" in str(rec["err"]) and name in before:
                raise Violation("available-but-unknown", "%s %s: %r" % (what, name, rec["err"]))
            if bad:
                self.out.fault("lookup-of-broken-backend")
            return
        if not cands:
            raise Violation("unknown-but-given", "%s %s gave %r" % (what, name, rec["value"]))
        if what == "get":
            try:
                m = rec["value"](analysis="x")
                tag = m.backend.TAG
            except TypeError:
                if "base" not in cands:
                    raise
                return
            if tag not in cands:
                raise Violation("wrong-backend", "%s gave the backend %s, registered or installed: %r" % (name, tag, sorted(cands)))
            if cands[tag].get("flaw"):
                raise Violation("invalid-backend-given", "%s gave the backend %s with the flaw %s" % (name, tag, cands[tag]["flaw"]))
            if cands[tag]["kind"] == "model" and m.backend_type != name:
                raise Violation("wrong-backend-name", "%s: backend_type %r" % (name, m.backend_type))
        else:
            v = rec["value"]
            if "base" in cands:
                return
            ok = []
            for t, e in cands.items():
                if e["meta"]:
                    ok.append(("me " + t, "1.2", ["10.1/" + t], ["1234.5678"], ["zenodo/" + t]))
                else:
                    ok.append(("__unknown_author__", "__unknown_version__", [], [], []))
            inherits = any(e["kind"] == "alias" for e in cands.values())
            if (v["author"], v["version"], v["doi"], v["arXiv"], v["zenodo"]) not in ok and not inherits:
                raise Violation("wrong-metadata", "%s: %r, expected one of %r" % (name, v, ok))
            v["doi"].append("junk")
            v["zenodo"].append("junk")
            v["arXiv"].clear()

    def judge_register(self, rec, before, after):
        """Serial registration."""
        e = rec["op"][1]
        flaw = e.get("flaw")
        want = {"abstract": AbstractModel, "norequires": MissingMetaData, "noname": MissingMetaData, "version": PluginError, "badspec": ValueError,
                "notsub": AssertionError, "notclass": (TypeError, AssertionError)}.get(flaw)
        if rec["ok"] and not rec["same"]:
            raise Violation("not-the-same-class", "register_backend returned another object")
        if flaw:
            if rec["ok"]:
                raise Violation("invalid-registered", "%r was registered" % (e,))
            if not isinstance(rec["err"], want) and not (e["name"] in before and isinstance(rec["err"], ValueError)):
                raise Violation("wrong-exception", "registering %r: %r" % (e, rec["err"]))
        elif rec["ok"]:
            if e["name"] in before:
                raise Violation("registered-twice", "%s was available already" % e["name"])
        else:
            if e["name"] not in before:
                raise Violation("valid-refused", "registering %r: %r" % (e, rec["err"]))
            if not isinstance(rec["err"], ValueError):
                raise Violation("wrong-exception", "registering %r again: %r" % (e, rec["err"]))

    def check_list(self, what):
        now = spey.AvailableBackends()
        if len(set(now)) != len(now):
            raise Violation("name-twice", "%r" % now)
        miss = self.avail - set(now)
        more = set(now) - self.avail
        if miss:
            raise Violation("backend-lost", "%r after %s" % (sorted(miss), what))
        if more and not self.unknown:
            raise Violation("trace-left", "%r after %s" % (sorted(more), what))

    def settle(self, rec):
        """Reference after a successful operation."""
        op = rec["op"]
        if op[0] == "register" and rec["ok"]:
            e = op[1]
            self.reg[e["name"]] = (rec["tag"], e, rec["cls"])
            self.avail.add(e["name"])
            self.classes.append(rec["cls"])
        if op[0] == "reset" and rec["ok"]:
            for name, c in self.scan().items():
                self.scanned.setdefault(name, {})
                if not self.unknown:
                    # a new installation replaces what was found under the name before
                    self.scanned[name] = {}
                self.scanned[name].update(c)
                self.avail.add(name)


def execute(plan, out):
    obs = []
    with World(out) as w:
        for op in plan["ops"]:
            if op[0] == "install":
                w.install(op[1], op[2])
                w.unknown.discard(op[1])
                for e in op[2]:
                    if e.get("flaw"):
                        out.fault("broken-package-" + e["flaw"])
            elif op[0] == "uninstall":
                w.uninstall(op[1])
                w.unknown.discard(op[1])
            elif op[0] == "corrupt":
                w.corrupt(op[1])
            elif op[0] == "group":
                group(w, op, out, obs)
                if out.tainted:
                    break
            else:
                serial(w, op, obs)
            w.check_list(op[:2])
        if not out.tainted:
            for name in sorted(w.avail - w.base):
                serial(w, ["get", name], obs)
                serial(w, ["meta", name], obs)
    out.nontrivial = any(o[0] == "register" for o in obs) and any(o[0] == "get" for o in obs)
    out.digest = digest(obs)
    out.states = [digest(o) for o in obs]


def note(obs, rec):
    v = rec["value"]
    obs.append([rec["op"][0], rec["op"][1] if len(rec["op"]) > 1 else "", rec["ok"], type(rec["err"]).__name__, v if isinstance(v, list) else ""])


def serial(w, op, obs):
    rec = w.start(op)
    if rec is None:
        return
    before = set(w.avail)
    w.do(op, rec)
    note(obs, rec)
    if op[0] == "register":
        w.judge_register(rec, before, None)
    elif op[0] == "again":
        if rec["ok"]:
            raise Violation("registered-twice", "%s" % rec["cls"].name)
    elif op[0] == "reset":
        if rec["err"] is not None and not w.unknown:
            raise Violation("rescan-failed", repr(rec["err"]))
    elif op[0] in ("get", "meta"):
        w.judge_get(rec, before, w.candidates)
    w.settle(rec)


def group(w, op, out, obs):
    threads = []
    for ops in op[1]:
        recs = [r for r in (w.start(o) for o in ops) if r is not None]
        threads.append(recs)
    before = set(w.avail)
    cand_before = {n: w.candidates(n) for n in NAMES + ["p.none"]}
    sim = Sim(op[2], max_steps=200000, only="spey/__init__.py")
    for recs in threads:
        sim.spawn(lambda recs=recs: [w.do(r["op"], r) for r in recs])
    how = sim.run()
    out.schedule = None
    out.count("switches", sim.switches)
    if how != "finished":
        out.tainted = True
        raise Violation("threads-" + how, "%r" % sim.blocked())
    for t in sim.threads:
        if t.error is not None:
            raise t.error
    every = [r for recs in threads for r in recs]
    for r in every:
        note(obs, r)
    scans = any(r["op"][0] == "reset" for r in every)
    found = set(w.scan()) if scans else set()
    wins = {}
    for r in every:
        if r["op"][0] == "register":
            e = r["op"][1]
            if r["ok"]:
                if e.get("flaw") or not r["same"]:
                    raise Violation("invalid-registered", "%r was registered" % (e,))
                if e["name"] in before:
                    raise Violation("registered-twice", "%s was available already" % e["name"])
                if e["name"] in wins:
                    raise Violation("registered-twice", "%s was registered by two threads" % e["name"])
                wins[e["name"]] = r
        elif r["op"][0] == "again" and r["ok"]:
            raise Violation("registered-twice", "%s" % r["cls"].name)
        elif r["op"][0] == "reset" and r["err"] is not None and not w.unknown:
            raise Violation("rescan-failed", repr(r["err"]))
    for r in every:
        if r["op"][0] == "register" and not r["ok"] and not r["op"][1].get("flaw"):
            name = r["op"][1]["name"]
            if name not in before and name not in wins and name not in found and not w.unknown:
                raise Violation("valid-refused", "registering %r: %r" % (r["op"][1], r["err"]))
            if not isinstance(r["err"], ValueError):
                raise Violation("wrong-exception", "registering %r: %r" % (r["op"][1], r["err"]))
    for r in every:
        if r["ok"] and r["op"][0] in ("register", "reset"):
            w.settle(r)

    def cands(name):
        return {**cand_before.get(name, {}), **w.candidates(name)}
    for r in every:
        if r["op"][0] in ("get", "meta"):
            w.judge_get(r, before, cands)
        elif r["op"][0] == "list":
            if r["err"] is not None or before - set(r["value"]) or len(set(r["value"])) != len(r["value"]):
                raise Violation("list", "%r %r, before: %r" % (r["err"], r["value"], sorted(before)))
