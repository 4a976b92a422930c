"""Update checks as simulated processes on simulated storage, network and clock."""
import datetime
import importlib
import json
import logging
import os
import sys
import time
import _thread

from sim import disk, net, sched
from sim.boot import SRC
from sim.clock import CLOCK
from sim.run import Violation
from sim.sched import Sim
from sim.util import digest, sched_spec

DAY = 86_400
BOUND = 5.0          # "a few seconds" of virtual time
VERSIONS = ["0.2.5", "0.2.6", "0.2.7", "0.2.10", "0.10.0", "1.0.0", "1.2.3", "2.0.0"]
INSTALLED = ["0.2.7-b3", "0.2.6", "0.2.7", "0.2.10", "0.9.9", "1.0.0", "1.2.3", "0.3.0-beta", "2.0.0"]
REQUIRES = [">=3.8", ">=3.8", ">=3.8,<4", ">=3.99", "<3.10"]
HOST, PATH = "pypi.org", "/pypi/spey/json"

BASE = {"call", "import"}


# ------------------------------------------------------------------ generation

def gen_attempt(rng, faulty, known=False):
    """Network behaviour of one query."""
    a = {"answer": {}}
    if not faulty:
        if rng.random() < 0.3:
            a["answer"] = {"enc": rng.choice(["gzip", "chunked", "close"]), "first": rng.choice([0.01, 0.3])}
        a["answer"]["pad"] = rng.choice([0, 0, 50, 3000, 20000, 70000])
        return a
    r = rng.random()
    ans = a["answer"]
    ans["pad"] = rng.choice([0, 0, 50, 3000, 20000])
    if r < 0.08:
        a["dns"] = rng.choice(["fail", "fail", "empty"])
    elif r < 0.2:
        a["connect"] = [rng.choice(["refused", "blackhole", "unreach", "reset", "ok"]) for _ in range(rng.choice([1, 1, 2]))]
        a["addrs"] = rng.choice([1, 1, 2])
        if rng.random() < 0.2:
            a["connect_delay"] = rng.choice([0.3, 2.0, 30.0])
    elif r < 0.28:
        a["tls"] = rng.choice(["cert", "stall", "eof", "reset"])
    elif r < 0.42:
        ans.update(status=rng.choice([404, 500, 503, 403, 429, 410, 204, 304, 301, 100, 600, 418]), shape=rng.choice(["good", "html", "error", "empty"]))
    elif r < 0.66:
        ans["shape"] = rng.choice((["nullrequires", "norequires", "badrequires", "intrequires", "badversion"] if known else []) + ["html", "list", "null", "noinfo", "infonull", "noversion", "nullversion", "intversion", "emptyversion", "string",
                                   "deep", "empty", "binary", "number", "halfutf", "error", "listversion", "nan"])
    elif r < 0.76:
        ans.update(cut=round(rng.choice([0.0, 0.01, 0.3, 0.9, 0.999]), 3), end=rng.choice(["close", "reset", "stall"]),
                   enc=rng.choice(["plain", "gzip", "chunked"]))
    elif r < 0.8:
        ans["head"] = rng.choice(["garbage", "huge", "many", "nothing"])
        ans["end"] = rng.choice(["close", "reset", "stall"])
    elif r < 0.84:
        ans.update(enc="badgzip")
    elif r < 0.92:
        ans.update(first=rng.choice([0.5, 0.9, 2.0, 30.0, 1e6]))
    elif r < 0.97:
        ans.update(status=rng.choice([301, 302, 307, 308]),
                   location=rng.choice(["/pypi/spey/json", "https://mirror.example/x", "http://[::1", "ftp://x/y", "http://a..b/", "https://pypi.org:99999/", "", "https://\udcff/"[:8] + "x"]))
        a["loop"] = rng.random() < 0.3
        if rng.random() < 0.3 and (known or not a["loop"]):
            ans["first"] = 0.8
    elif known:
        k = rng.random()
        if k < 0.4:
            ans.update(pace=0.9, segs=rng.choice([20, 200]))
        elif k < 0.7:
            a["dns_delay"] = rng.choice([10.0, 60.0])
        else:
            a.update(addrs=12, connect=["blackhole"])
    else:
        ans.update(pace=0.4, segs=rng.choice([2, 4]))
    return a


ERR = ["EACCES", "EIO", "ENOSPC", "EROFS", "ENOENT", "ESTALE", "EDQUOT", "EMFILE", "ENOTDIR", "ELOOP"]


def gen_faults(rng, crash=True):
    r = rng.random()
    if crash and r < 0.45:
        return [["crash", rng.choice([1, 2, 3, 5, 8]) + rng.randrange(0, 22), rng.choice([0.0, 0.3, 0.9, 1.0])]]
    if r < 0.6:
        return [["err", 1 + rng.randrange(0, 24), rng.choice(ERR), rng.choice([0.0, 0.5, 1.0])] for _ in range(rng.choice([1, 1, 2, 4]))]
    ops = rng.choice(["write", "write", "create", "create,mkdir", "unlink", "read", "open", "scan", "stat", "mkdir", "create,write,unlink,mkdir,rename",
                      "stat,scan,open,read", "rename,utime,fsync"])
    return [["class", ops, rng.choice(ERR), rng.choice([0.0, 0.5, 0.99])]]


def gen_run(rng, pf, pn, crash=True, known=False):
    return {"mode": rng.choice(["call", "call", "call", "import", "again"] + (["off"] if known else [])), "off": rng.choice(["OFF", "off", "Off"]), "ver": rng.choice(INSTALLED), "level": rng.choice([10, 20, 20]),
            "net": [gen_attempt(rng, rng.random() < pn, known) for _ in range(rng.choice([1, 1, 2]))],
            "faults": gen_faults(rng, crash) if rng.random() < pf else []}


FILE = ["truncate", "empty", "garbage", "utf8", "deep", "list", "dict", "null", "oldinfo", "infonull", "string", "zeros", "mtime", "wipe", "asfile", "dangling", "foreign",
        "dirlike", "plantold", "plantlast", "delete", "badold"]
ZONES = ["UTC0", "UTC0", "JST-9", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "XXX12", "LINT-14"]


def gen_history(rng, prop):
    steps = []
    n = rng.randint(2, 9)
    pf, pn = rng.choice([(0.0, 0.0), (0.0, 0.3), (0.3, 0.2), (0.6, 0.2), (0.2, 0.6)])
    if prop == "W01":
        pf, pn = rng.choice([(0.5, 0.5), (0.1, 0.9), (0.9, 0.1), (0.5, 0.9)])
    if prop == "W02":
        pf, pn = rng.choice([(0.0, 0.0), (0.0, 0.0), (0.0, 0.4), (0.15, 0.1)])
    ev = {"W01": 0.3, "W02": 0.12, "W03": 0.3, "W04": 0.35}[prop] if rng.random() < 0.7 else 0.0
    for _ in range(n):
        r = rng.random()
        if r < ev:
            steps.append(["file", rng.choice([f for f in FILE if prop != "W02" or f != "dirlike"]), round(rng.random(), 3), rng.randrange(10 ** 6)])
        elif r < ev + 0.3 * (1 - ev):
            dt = rng.choice([1, 30, 3600, 40000, DAY / 2, DAY - 30, DAY + 30, DAY + 2, 2 * DAY, 30 * DAY, 400 * DAY])
            if rng.random() < (0.15 if prop != "W02" else 0.06):
                dt = -rng.choice([0.4, 5, 3600, DAY, 400 * DAY])
            steps.append(["clock", dt + (round(rng.random(), 3) if dt > 0 else 0)])
            if rng.random() < 0.4:
                steps.append(["release", rng.choice(VERSIONS), rng.choice(REQUIRES), rng.choice([0, 0, 100])])
        elif r < ev + (0.3 + (0.25 if prop in ("W02", "W04") else 0.1)) * (1 - ev):
            m = rng.choice([2, 2, 3])
            steps.append(["group", [dict(gen_run(rng, pf / 2, pn, True), delay=rng.choice([0, 0, 0, 0.005, 0.02, 0.1, 1.0, 3.0]), mode="call") for _ in range(m)],
                          sched_spec(rng, m, 60, hot=True)])
        else:
            steps.append(["run", gen_run(rng, pf, pn, True, prop == "W01")])
        if rng.random() < (0.3 if prop in ("W03", "W04") else 0.15):
            steps.append(["run", gen_run(rng, 0, 0)])
    return {"steps": steps, "home": rng.choice(["ok"] * 8 + ["missing", "none", "file"]), "version": rng.choice(VERSIONS), "requires": rng.choice(REQUIRES),
            "tz": rng.choice(ZONES), "wall": 1.78e9 + rng.randrange(10 ** 7) + round(rng.random(), 3)}


# ------------------------------------------------------------------ content

def payload(version, requires=">=3.8", pad=0, shape="good"):
    info = {"version": version, "requires_python": requires, "name": "spey"}
    body = {"info": info, "last_serial": 1, "urls": []}
    if pad:
        body["releases"] = {"0.0.%d" % i: [{"filename": "x" * 40}] for i in range(pad // 60)}
    if shape == "html":
        return b"<!doctype html><html><body>Sign in to the network</body></html>"
    if shape == "error":
        return b'{"message": "Not Found"}'
    if shape == "empty":
        return b""
    if shape == "list":
        return b"[]"
    if shape == "null":
        return b"null"
    if shape == "number":
        return b"7"
    if shape == "string":
        return b'"info"'
    if shape == "deep":
        return b"[" * 200000
    if shape == "nan":
        return b'{"info": {"version": NaN, "requires_python": ">=3.8"}}'
    if shape == "binary":
        return bytes(range(256)) * 4
    if shape == "halfutf":
        return json.dumps(body).encode()[:-3] + b"\xc3\xff"
    if shape == "noinfo":
        del body["info"]
    if shape == "infonull":
        body["info"] = None
    if shape == "noversion":
        del info["version"]
    if shape == "nullversion":
        info["version"] = None
    if shape == "intversion":
        info["version"] = 99
    if shape == "listversion":
        info["version"] = ["99.0.0"]
    if shape == "nullrequires":
        info["requires_python"] = None
    if shape == "norequires":
        del info["requires_python"]
    if shape == "badrequires":
        info["requires_python"] = "!!"
    if shape == "intrequires":
        info["requires_python"] = 3
    if shape == "badversion":
        info["version"] = "latest"
    if shape == "emptyversion":
        info["version"] = ""
    return json.dumps(body).encode()


def semver(v):
    core, _, pre = v.partition("-")
    return tuple(int(x) for x in core.split(".")), (1, "") if not pre else (0, pre)


def is_genuine(data):
    """Version of a genuine answer, or None."""
    try:
        d = json.loads(data)
        v = d["info"]["version"]
        if isinstance(v, str) and isinstance(d["info"]["requires_python"], str):
            semver(v)
            return v, d["info"]["requires_python"]
    except Exception:  # noqa: BLE001
        pass
    return None


def expected(installed, v, requires):
    """What has to be said: list of texts that a warning has to contain."""
    res = []
    if installed.endswith("-beta") or semver(installed) != semver(v):
        res.append((v, installed))
    py = sys.version_info[:2]
    ok = {">=3.8": True, ">=3.8,<4": True, ">=3.99": py >= (3, 99), "<3.10": py < (3, 10)}[requires]
    if not ok:
        res.append(("python",))
    return res


def delivered(a):
    """Does this attempt (without what follows a redirect) end in a genuine answer? (None: either)"""
    ans = a.get("answer", {})
    if a.get("dns", "ok") != "ok" or a.get("tls", "ok") != "ok":
        return False
    hows = [a.get("connect", ["ok"])[k % len(a.get("connect", ["ok"]))] for k in range(a.get("addrs", 1))]
    if "ok" not in hows:
        return False
    if ans.get("status", 200) != 200:
        return False if ans.get("shape", "good") != "good" or 400 <= ans.get("status", 200) < 600 else None
    if ans.get("shape", "good") != "good" or ans.get("enc") == "badgzip" or ans.get("head", "ok") != "ok":
        return False
    if ans.get("cut") is not None:
        # without the end of the last chunk or the check sum the content may be complete
        return None if ans["cut"] > 0.9 and ans.get("enc", "plain") != "plain" else False
    slow = max(a.get("connect_delay", 0), ans.get("first", 0), ans.get("pace", 0), a.get("dns_delay", 0))
    if slow > 600:
        return False
    if slow > 0.6 or a.get("addrs", 1) > 2:
        return None
    return True


class Rec:
    """Record of one simulated check."""


class World:
    def __init__(self, plan, out):
        self.plan, self.out = plan, out
        self.disk = disk.Disk()
        self.home = os.path.join(self.disk.root, "home")
        self.dir = os.path.join(self.home, ".spey")
        self.net = net.Network(self.attempt, self.body)
        self.version, self.requires = plan["version"], plan["requires"]
        self.last = None             # (wall, version, requires) of the last undisturbed successful query
        self.unsure = False          # the cache was tampered with
        self.answers = []            # genuine answers ever delivered or planted (version, requires)
        self.foreign = {}            # path -> (bytes, mtime)
        self.mods = None
        self.cur = {}
        self.npid = 0
        self.records = []
        self.trace = []

    # -- set up
    def __enter__(self):
        self.env = dict(os.environ)
        self.real_pid = os.getpid
        os.environ["TZ"] = self.plan.get("tz", "UTC0")
        time.tzset()
        CLOCK.start(self.plan["wall"])
        os.mkdir(self.home)
        if self.plan["home"] == "none":
            os.environ.pop("HOME", None)
            import pwd
            self.pw = pwd.getpwuid
            def no(uid):
                raise KeyError(uid)
            pwd.getpwuid = no
        else:
            os.environ["HOME"] = self.home
        if self.plan["home"] == "missing":
            os.rmdir(self.home)
        if self.plan["home"] == "file":
            with open(self.dir, "w") as f:
                f.write("mine")
            os.utime(self.dir, (1.6e9, 1.6e9))
            self.foreign[self.dir] = self.look(self.dir)
        self.handle = logging.Logger.callHandlers

        def call(logger, record):
            # shutting out real handlers keeps the runs quiet; records are what is judged
            if logger.name == "Spey":
                c = self.cur.get(_thread.get_ident())
                if c is not None:
                    c.logs.append((record.levelno, record.getMessage()))
                return
            self.handle(logger, record)
        logging.Logger.callHandlers = call
        self.disk.install()
        self.net.install()
        os.getpid = lambda: getattr(disk.proc(), "pid", None) or self.real_pid()
        return self

    def __exit__(self, *exc):
        os.getpid = self.real_pid
        logging.Logger.callHandlers = self.handle
        self.net.uninstall()
        self.disk.uninstall()
        os.environ.clear()
        os.environ.update(self.env)
        time.tzset()
        if self.plan["home"] == "none":
            import pwd
            pwd.getpwuid = self.pw
        self.out.simtime = max(self.out.simtime, CLOCK.mono)
        CLOCK.stop()

    # -- network
    def attempt(self, p, host):
        c = p.rec
        if c.nnet and c.attempts and c.attempts[-1].get("loop"):
            a = c.attempts[-1]
        else:
            a = c.spec["net"][min(c.nnet, len(c.spec["net"]) - 1)] if c.spec["net"] else {}
            c.nnet += 1
        a = dict(a, version=self.version, requires=self.requires)
        c.attempts.append(a)
        c.hosts.append(host)
        c.when.append(CLOCK.wall)
        return a

    def body(self, a, host, path, head):
        ans = a.get("answer", {})
        return payload(a["version"], a["requires"], ans.get("pad", 0), ans.get("shape", "good"))

    # -- processes
    def fresh(self, version):
        """Modules as a new process would have them."""
        for k in [k for k in sys.modules if k.startswith("spey.system.") and k not in KEEP]:
            del sys.modules[k]
        import spey._version
        old = spey._version.__version__
        spey._version.__version__ = version
        try:
            return importlib.import_module("spey.system.webutils")
        finally:
            spey._version.__version__ = old

    def check(self, rec):
        """Runs in the simulated process."""
        spec = rec.spec
        ident = _thread.get_ident()
        p = disk.Process(faults=spec["faults"])
        p.rec, rec.proc = rec, p
        self.npid += 1
        p.pid = 4000 + self.npid
        if spec.get("delay"):
            time.sleep(spec["delay"])
        with sched.masked():
            mode = spec["mode"]
            if mode == "again" and self.mods is not None:
                mod, rec.installed = self.mods
            else:
                mod, rec.installed = self.fresh(spec["ver"]), spec["ver"]
                self.mods = mod, rec.installed
        log = logging.getLogger("Spey")
        log.setLevel(spec["level"])
        disk.PROC[ident], self.cur[ident] = p, rec
        rec.start, rec.t0 = self.tick(), CLOCK.mono
        rec.wall0 = CLOCK.wall
        try:
            if mode == "import":
                self.run_import(rec)
            elif mode == "off":
                os.environ["SPEY_CHECKUPDATE"] = spec.get("off", "OFF")
                self.run_import(rec)
            else:
                mod.check_updates()
        except disk.Crash:
            rec.crashed = True
        except net.Hang:
            rec.hang = True
        except sched.SimAbort:
            raise
        except BaseException as err:  # noqa: BLE001
            rec.error = err
        finally:
            disk.PROC.pop(ident, None)
            self.cur.pop(ident, None)
        rec.crashed = rec.crashed or p.dead
        rec.time = CLOCK.mono - rec.t0
        rec.end = self.tick()

    def tick(self):
        self.ticks = getattr(self, "ticks", 0) + 1
        return self.ticks

    def run_import(self, rec):
        """Body of ``import spey`` with its submodules already there."""
        import importlib.util
        old = sys.modules["spey"]
        path = os.path.join(SRC, "spey", "__init__.py")
        if rec.spec["mode"] != "off":
            os.environ["SPEY_CHECKUPDATE"] = "ON"
        level = {10: "3", 20: "2"}[rec.spec["level"]]
        os.environ["SPEY_LOGLEVEL"] = level
        import spey._version
        ver, spey._version.__version__ = spey._version.__version__, rec.installed
        try:
            spec = importlib.util.spec_from_file_location("spey", path, submodule_search_locations=[os.path.join(SRC, "spey")])
            mod = importlib.util.module_from_spec(spec)
            sys.modules["spey"] = mod
            spec.loader.exec_module(mod)
        finally:
            sys.modules["spey"] = old
            spey._version.__version__ = ver
            os.environ["SPEY_CHECKUPDATE"] = "OFF"
            os.environ.pop("SPEY_LOGLEVEL", None)

    def rec(self, spec):
        r = Rec()
        r.spec, r.logs, r.attempts, r.hosts, r.when = spec, [], [], [], []
        r.nnet, r.crashed, r.hang, r.error, r.proc = 0, False, False, None, None
        r.installed = spec["ver"]
        r.start = r.end = r.t0 = r.time = 0
        return r

    # -- storage as the harness sees it
    def look(self, path):
        st = os.lstat(path)
        import stat
        if stat.S_ISDIR(st.st_mode):
            return ("dir", None)
        if stat.S_ISLNK(st.st_mode):
            return ("link", os.readlink(path))
        with open(path, "rb") as f:
            return (f.read(), st.st_mtime_ns)

    def cache_files(self):
        """[(path, bytes, mtime)] of regular cache files."""
        res = []
        if os.path.isdir(self.dir):
            for n in sorted(os.listdir(self.dir)):
                path = os.path.join(self.dir, n)
                if n.startswith("pypi_latest_") and n.endswith(".json") and os.path.isfile(path) and path not in self.foreign:
                    with open(path, "rb") as f:
                        res.append((path, f.read(), os.stat(path).st_mtime))
        return res

    def storage_ok(self):
        return self.plan["home"] in ("ok",) and os.path.isdir(self.home) and (os.path.isdir(self.dir) or not os.path.lexists(self.dir))

    def genuine_files(self):
        return [(p, g, m) for p, d, m in self.cache_files() for g in [is_genuine(d)] if g]

    def newest(self):
        """When the last answer was stored, if it is the newest file by name and by time."""
        files = self.cache_files()
        if not files or any(os.path.basename(p).startswith("pypi_latest_") for p in self.foreign):
            return None
        last = max(files, key=lambda f: (f[2], f[0]))
        if last[0] != files[-1][0] or is_genuine(last[1]) is None or any(f[2] >= last[2] for f in files[:-1]):
            return None
        return last[2]

    def event(self, action, x, k):
        """Somebody else changes the files."""
        files = self.cache_files()
        newest = max(files, key=lambda f: (f[2], f[0])) if files else None
        if action in ("foreign", "dirlike"):
            if not os.path.isdir(self.home) or (os.path.lexists(self.dir) and not os.path.isdir(self.dir)):
                return
            os.makedirs(self.dir, exist_ok=True)
            if action == "foreign":
                name = ["notes.txt", "config.json", "pypi_latest.json", "latest_pypi_1.json", ".hidden", "pypi_latest_x.json.bak", "pypi_notes_20200101_000000.json",
                        "sub", "xpypi_latest_1.json", "spey.json"][k % 10]
                path = os.path.join(self.dir, name)
                if os.path.lexists(path):
                    return
                if name == "sub":
                    os.mkdir(path)
                    inner = os.path.join(path, "pypi_latest_1.json")
                    with open(inner, "wb") as f:
                        f.write(payload("9.9.9"))
                    os.utime(inner, (CLOCK.wall - 10, CLOCK.wall - 10))
                    self.foreign[inner] = self.look(inner)
                else:
                    with open(path, "wb") as f:
                        f.write(payload("9.9.9"))
                    os.utime(path, (CLOCK.wall - 10, CLOCK.wall - 10))
            else:
                path = os.path.join(self.dir, "pypi_latest_%d_000000.json" % (20200101 + k % 100000))
                if os.path.lexists(path):
                    return
                os.mkdir(path)
                os.utime(path, (CLOCK.wall - 10, CLOCK.wall - 10))
            self.foreign[path] = self.look(path)
            return
        if self.plan["home"] != "ok":
            return
        if action in ("wipe", "asfile", "dangling"):
            import shutil
            if any(p.startswith(self.dir) for p in self.foreign):
                return
            if os.path.islink(self.dir) or os.path.isfile(self.dir):
                os.unlink(self.dir)
            else:
                shutil.rmtree(self.dir, ignore_errors=True)
            if action == "asfile":
                with open(self.dir, "w") as f:
                    f.write("not a directory")
            if action == "dangling":
                os.symlink(os.path.join(self.home, "elsewhere"), self.dir)
            self.last, self.unsure = None, False
            return
        if action in ("plantold", "plantlast", "badold"):
            if not os.path.isdir(self.dir):
                return
            age = [5, 1000, DAY - 300, DAY + 300, 3 * DAY, -5, -5000][k % 7]
            v = VERSIONS[k // 7 % len(VERSIONS)]
            name = datetime.datetime.fromtimestamp(CLOCK.wall - (age if action != "plantlast" else -DAY), datetime.timezone.utc).strftime("pypi_latest_%Y%m%d_%H%M%S.json")
            path = os.path.join(self.dir, name)
            if os.path.lexists(path):
                return
            with open(path, "wb") as f:
                f.write(payload(v) if action != "badold" else payload(v)[:20 + k % 30])
            os.utime(path, (CLOCK.wall - age, CLOCK.wall - age))
            if action != "badold":
                self.answers.append((v, ">=3.8"))
            self.last, self.unsure = None, True
            return
        if newest is None:
            return
        path, data, m = newest
        if action == "delete":
            os.unlink(path)
            self.last, self.unsure = None, True
            return
        if action == "mtime":
            m = CLOCK.wall + [-10, -DAY, -2 * DAY, 10, DAY, 0.5, -DAY + 100][k % 7]
        else:
            new = {"truncate": data[:int(len(data) * x)], "empty": b"", "garbage": bytes((k * i) % 256 for i in range(50)), "utf8": data[:5] + b"\xff\xfe" + data[5:],
                   "deep": b"[" * 100000, "list": b"[]", "dict": b"{}", "null": b"null", "oldinfo": b'{"message": "Not Found"}', "infonull": b'{"info": null}',
                   "badversion": b'{"info": {"version": "latest", "requires_python": ">=3.8"}}', "string": b'"info"', "zeros": b"\0" * len(data)}[action]
            with open(path, "wb") as f:
                f.write(new)
        os.utime(path, (m, m))
        self.last, self.unsure = None, True


KEEP = {"spey.system.logger", "spey.system.cache", "spey.system.exceptions"}


def redirects(att):
    ans = att.get("answer", {})
    return bool(ans.get("location") and 300 <= ans.get("status", 200) < 400 and att.get("dns", "ok") == "ok")


def after_redirect(rec):
    """Attempt that decides a query, and whether the query was delivered."""
    k = 0
    atts = rec.attempts
    while k < len(atts):
        if redirects(atts[k]):
            k += 1
            continue
        return atts[k], delivered(atts[k])
    return None, False


def judge(w, prop, rec, group=False, before=None):
    """Checks one finished check; returns the delivered answer (or None / "either")."""
    out = w.out
    p = rec.proc
    for k, n in p.fired.items():
        out.fault(k, n)
    io_fault = any(k.startswith("io-") for k in p.fired) or rec.crashed
    queried = bool(rec.attempts)
    att, ok = after_redirect(rec)
    if rec.crashed and queried and ok:
        ok = None
    slow = "slow"
    for a in rec.attempts:
        if a.get("answer", {}).get("pace", 0) > 0.6:
            slow = "slow-dribble"
        elif a.get("dns_delay"):
            slow = "slow-dns"
        elif a.get("addrs", 1) > 3:
            slow = "slow-addresses"
    out.count("checks")
    out.count("queries", int(queried))
    if prop == "W01":
        if rec.hang:
            raise Violation("blocked", "the check waits for ever: %r" % (rec.attempts,))
        if rec.error is not None:
            import traceback
            tb = traceback.extract_tb(rec.error.__traceback__)
            raise Violation("raised", "%r at %s" % (rec.error, " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))))
        if rec.time > BOUND:
            followed = 0
            while followed < len(rec.attempts) - 1 and redirects(rec.attempts[followed]):
                followed += 1
            if slow == "slow" and followed >= 2 and len(rec.attempts) == followed + 1:
                slow = "slow-redirects"
            raise Violation(slow, "the check took %.1f s: %r" % (rec.time, rec.attempts))
        if rec.spec["mode"] == "off" and (rec.attempts or p.trace):
            raise Violation("disabled-check-acts", "disabled with %r, but: %r" % (rec.spec.get("off"), p.trace[:5]))
    if rec.hang or rec.error is not None:
        w.unsure, w.last = True, None
        return None
    if rec.spec["mode"] == "off":
        return None
    warnings = [m for lv, m in rec.logs if lv >= logging.WARNING]
    if prop == "W03" and not rec.crashed:
        cands = set()
        if queried:
            if ok is not False:
                cands.add((att["version"], att["requires"]))
            if ok is not True:
                cands.add(None)
        else:
            cands.add(None) if io_fault or group else None
            fresh = {g for _, g, m in before["genuine"] if 0 <= before["wall"] - m <= DAY + rec.time + 1}
            if w.last is not None and not group and not io_fault:
                cands.add(w.last[1:])
            else:
                cands |= fresh
                if group:
                    cands |= set(w.answers) | {(w.version, w.requires)}
            if not fresh and not group:
                cands = {None}
        good = False
        for c in cands:
            want = expected(rec.installed, *c) if c is not None else []
            if len(want) == len(warnings) and all(all(x in m for x in t) for t, m in zip(want, warnings)):
                good = True
        if not good:
            raise Violation("message", "installed %s, said %r, but the answers allow for %r (queried: %s %r)"
                            % (rec.installed, warnings, sorted(map(str, cands)), queried, rec.attempts))
    if not queried:
        return None
    return {True: (att["version"], att["requires"]) if att else None, None: "either", False: None}[ok]


def foreign_ok(w, prop):
    if prop != "W04":
        return
    for path, was in w.foreign.items():
        try:
            now = w.look(path)
        except OSError as err:
            raise Violation("foreign-file-gone", "%s: %r" % (os.path.basename(path), err))
        if now != was:
            raise Violation("foreign-file-changed", os.path.basename(path))


def execute(plan, out, prop):
    obs = []
    with World(plan, out) as w:
        for st in plan["steps"]:
            if st[0] == "clock":
                CLOCK.wall += st[1]
                if st[1] > 0:
                    CLOCK.mono += st[1]
                else:
                    out.fault("clock-back")
                    w.last, w.unsure = None, True
            elif st[0] == "release":
                w.version, w.requires = st[1], st[2]
            elif st[0] == "file":
                w.event(*st[1:])
                out.fault("file-" + st[1])
            elif st[0] == "run":
                one(w, prop, st[1], obs)
            elif st[0] == "group":
                group(w, prop, st[1], st[2], obs)
                if out.tainted:
                    break
            foreign_ok(w, prop)
        out.nontrivial = len(obs) >= 2
        out.digest = digest(obs)
        out.states = [digest(o) for o in obs]


def note(obs, rec):
    obs.append([rec.spec["mode"], len(rec.attempts), rec.crashed, [m for _, m in rec.logs if _ >= 30], round(rec.time, 3), rec.proc.ops])


def lost(w, prop, recs, had):
    """A crash or failure must not lose the only answer."""
    if prop == "W04" and had and not w.genuine_files():
        raise Violation("answer-lost", "there was a valid answer before, none after %r" % [(r.spec["faults"], r.proc.trace[-8:]) for r in recs])


def one(w, prop, spec, obs):
    before = {"genuine": w.genuine_files(), "wall": CLOCK.wall, "ok": w.storage_ok(), "newest": w.newest()}
    rec = w.rec(spec)
    w.check(rec)
    note(obs, rec)
    io_fault = any(k.startswith("io-") for k in rec.proc.fired) or rec.crashed
    got = judge(w, prop, rec, before=before)
    if rec.hang or rec.error is not None or spec["mode"] == "off":
        return
    fresh = [g for _, g, m in before["genuine"] if 0 <= before["wall"] - m <= DAY]
    age = None if w.last is None else CLOCK.wall - w.last[0]
    if prop == "W02" and before["newest"] is not None and not io_fault and before["ok"]:
        if 0 <= before["wall"] - before["newest"] < DAY - 5 and rec.attempts:
            raise Violation("asked-again", "asked although an answer of %.0f s ago is stored" % (before["wall"] - before["newest"]))
    # asked when it must not, or not when it must
    if prop == "W02" and not io_fault and before["ok"]:
        if age is not None and 0 <= age < DAY - 5 and rec.attempts:
            raise Violation("asked-again", "asked %.0f s after the last successful query" % age)
        if not fresh and not rec.attempts:
            raise Violation("not-asked", "no answer of the last 24 hours is stored (%s), but the index was not asked" % (
                [(os.path.basename(p), m - CLOCK.wall) for p, _, m in before["genuine"]],))
    lost(w, prop, [rec], before["genuine"])
    files = w.cache_files()
    if prop in ("W04", "W02") and not io_fault and before["ok"] and got not in (None, "either"):
        mine = [f for f in files if is_genuine(f[1]) == got and abs(f[2] - CLOCK.wall) < 60]
        if not mine:
            raise Violation("not-stored", "the answer %r was not stored: %r" % (got, [(os.path.basename(p), d[:40]) for p, d, _ in files]))
        if prop == "W04" and len(files) != 1:
            raise Violation("left-behind", "files after a check that stored an answer: %r" % [os.path.basename(f[0]) for f in files])
        if prop == "W04" and not any(os.path.basename(f).startswith("pypi_latest_") and os.path.dirname(f) == w.dir for f in w.foreign):
            probe = w.rec({"mode": "call", "ver": spec["ver"], "level": 20, "net": [{"dns": "fail"}], "faults": []})
            w.check(probe)
            if probe.attempts:
                raise Violation("not-healed", "an undisturbed check stored the answer %r, but the next one asked again: %r" % (
                    got, [(os.path.basename(p), d[:40], CLOCK.wall - m) for p, d, m in files]))
    if prop == "W03":
        remembered(w, before, files, [got] if got != "either" else [g for a in rec.attempts for g in [(a["version"], a["requires"])]])
    # what is known now
    if got not in (None, "either"):
        w.answers.append(got)
        if not io_fault and before["ok"]:
            w.last, w.unsure = (CLOCK.wall, *got), False
        else:
            w.last, w.unsure = None, True
    elif got == "either" or (io_fault and rec.attempts):
        if rec.attempts:
            w.answers += [(a["version"], a["requires"]) for a in rec.attempts]
        w.last, w.unsure = None, True
    if rec.crashed and rec.spec.get("power"):
        pass


def remembered(w, before, files, got):
    """Every cache file that is new and readable as an answer holds the answer."""
    old = {p for p, _, _ in before["genuine"]} | set(w.foreign)
    for p, d, m in files:
        try:
            val = json.loads(d)
        except Exception:  # noqa: BLE001
            continue
        if before["wall"] - 1 <= m <= CLOCK.wall + 1 and p not in old and p not in getattr(w, "seen", ()):
            if is_genuine(d) is None or is_genuine(d) not in got:
                raise Violation("remembered-non-answer", "stored %r, answered %r" % (str(val)[:200], got))
    w.seen = {p for p, _, _ in files}


def group(w, prop, specs, sch, obs):
    out = w.out
    before = {"genuine": w.genuine_files(), "wall": CLOCK.wall, "ok": w.storage_ok()}
    recs = [w.rec(s) for s in specs]
    sim = Sim(sch, max_steps=20000, grain="none")
    for r in recs:
        sim.spawn(lambda r=r: w.check(r))
    how = sim.run()
    out.schedule = sim.decisions
    if how != "finished":
        out.tainted = True
        raise Violation("group-" + how, "%r" % sim.blocked())
    for t in sim.threads:
        if t.error is not None:
            raise t.error
    out.count("switches", sim.switches)
    for r in recs:
        note(obs, r)
    last = w.last
    gots = []
    for r in recs:
        gots.append(judge(w, prop, r, group=True, before=before))
    if any(r.hang or r.error is not None for r in recs):
        return
    faulty = [any(k.startswith("io-") for k in r.proc.fired) or r.crashed for r in recs]
    if prop == "W02" and before["ok"]:
        for i, r in enumerate(recs):
            if faulty[i]:
                continue
            if last is not None and 0 <= CLOCK.wall - last[0] < DAY - 60 and r.attempts:
                raise Violation("asked-again", "asked %.0f s after the last successful query" % (CLOCK.wall - last[0]))
            for j, q in enumerate(recs):
                if q.end < r.start and not faulty[j] and gots[j] not in (None, "either") and r.attempts and not any(faulty):
                    raise Violation("asked-after-another", "process %d asked though process %d had stored its answer before" % (i, j))
    lost(w, prop, recs, before["genuine"])
    good = [j for j, g in enumerate(gots) if g not in (None, "either") and not faulty[j]]
    stored = [f for f in w.cache_files() if is_genuine(f[1])]
    if prop in ("W02", "W04") and good and before["ok"] and not any(faulty) and not [f for f in stored if CLOCK.wall - f[2] < 60]:
        raise Violation("group-lost", "no answer is stored after %d processes got one: %r" % (
            len(good), [(os.path.basename(p), d[:30], d[-30:]) for p, d, _ in w.cache_files()]))
    if prop == "W04" and good and before["ok"] and not stored:
        raise Violation("answer-lost", "one process had stored an answer, none is there after another's crash or failure: %r" % [r.spec["faults"] for r in recs])
    if prop == "W03":
        remembered(w, before, w.cache_files(), [(a["version"], a["requires"]) for r in recs for a in r.attempts])
    if any(r.attempts for r in recs):
        w.answers += [(a["version"], a["requires"]) for r in recs for a in r.attempts]
        if good and before["ok"] and not any(faulty):
            vs = {gots[j] for j in good}
            if len(vs) == 1 and "either" not in gots and len({(a["version"]) for r in recs for a in r.attempts}) == 1:
                w.last, w.unsure = (CLOCK.wall, *vs.pop()), False
            else:
                w.last, w.unsure = None, True
        else:
            w.last, w.unsure = None, True


LEVEL_NOTE = ("samples histories of update checks in simulated processes; every file operation, network exchange and clock value is simulated and may fail, "
              "the process may die at any of them")
REAL = ["spey.system.webutils, spey/__init__.py (import mode), requests, urllib3, http.client, pathlib, json, semantic_version"]
STUB = ["sockets, TLS and name resolution (scripted servers)", "the PyPI server", "os and io functions below the scratch home directory (fault injection, virtual modification times)", "clock", "process identity"]
ASSUMPTIONS = ["a simulated process is a freshly executed copy of spey.system.webutils (and, in import mode, of spey/__init__.py)",
               "the process crash model keeps what was written by the operating system calls made before the crash; a torn write keeps a prefix"]


def shrink(plan):
    """Smaller plans: simpler groups and runs."""
    import copy
    for i, st in enumerate(plan["steps"]):
        if st[0] == "group":
            for k in range(len(st[1])):
                if len(st[1]) > 1:
                    q = copy.deepcopy(plan)
                    del q["steps"][i][1][k]
                    yield q
            if len(st[1]) == 1:
                q = copy.deepcopy(plan)
                q["steps"][i] = ["run", st[1][0]]
                yield q
        if st[0] == "run" and st[1]["mode"] != "call":
            q = copy.deepcopy(plan)
            q["steps"][i][1]["mode"] = "call"
            yield q
