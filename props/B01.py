"""B01: citation lookups against scripted servers below the real HTTP stack."""
import logging
import os
import _thread

import spey
from sim import disk, net
from sim.clock import CLOCK
from sim.run import Violation
from sim.util import digest
from spey.system import webutils

LEVEL = "exploration"
LEVEL_NOTE = ("samples identifiers and server behaviours per lookup (status, redirects, cut, stalled, slow or malformed answers, connection, name and certificate failures) under virtual time; "
              "what is returned is compared with what the servers delivered")
TECHNIQUE = "deterministic simulation: scripted servers below the real requests stack with connection, protocol and content faults in virtual time; the answers are checked against a reference of the lookups"
RULE = "a run is non-trivial if at least two lookups were made; distinct by the digest of what was asked and returned"
RUNS = {"quick": 8000, "thorough": 150000}
BATCH = 1
SHRINK = ("calls", "arXiv", "doi", "zenodo", "inspirehep.net", "doi.org", "zenodo.org", "api.crossref.org")
REAL = ["spey.get_backend_bibtex, spey.cite, spey.get_backend_metadata, spey.system.webutils.get_bibtex", "requests, urllib3, http.client"]
STUB = ["sockets, TLS and name resolution", "INSPIRE, doi.org, Crossref and Zenodo servers", "clock"]
ASSUMPTIONS = ["a server delivers its genuine entry with a 2xx status and not as an HTML page", "an entry cut off in an answer without a length cannot be told from a complete one"]

HOSTS = ["inspirehep.net", "doi.org", "zenodo.org", "api.crossref.org"]
BOUND = 25.0


def gen_attempt(rng, pf, host):
    a = {"answer": {"ctype": rng.choice(["application/x-bibtex", "application/x-bibtex; charset=utf-8", "text/plain", None]),
                    "enc": rng.choice(["plain", "plain", "gzip", "chunked", "close"]), "conn": rng.choice(["close", "keep-alive"])}}
    ans = a["answer"]
    if host == "doi.org" and rng.random() < 0.6:
        ans.update(status=302, location="https://api.crossref.org/r", ctype="text/html")
    if rng.random() >= pf:
        return a
    r = rng.random()
    if r < 0.1:
        a["dns"] = rng.choice(["fail", "empty"])
    elif r < 0.25:
        a["connect"] = [rng.choice(["refused", "blackhole", "unreach", "reset"])]
        a["addrs"] = rng.choice([1, 1, 2])
    elif r < 0.33:
        a["tls"] = rng.choice(["cert", "stall", "eof", "reset"])
    elif r < 0.55:
        ans.update(status=rng.choice([404, 404, 500, 503, 403, 429, 400, 410, 304, 204, 600, 300, 301, 303, 306]), body=rng.choice(["html", "json", "text", "bib", "empty"]),
                   ctype=rng.choice(["text/html", "application/json", "text/plain"]))
        ans.pop("location", None)
    elif r < 0.68:
        ans.update(status=rng.choice([200, 200, 202]), body="html", ctype=rng.choice(["text/html", "text/html; charset=utf-8", "TEXT/HTML;charset=ISO-8859-1"]))
        ans.pop("location", None)
    elif r < 0.8:
        ans.update(cut=rng.choice([0.0, 0.2, 0.9]), end=rng.choice(["close", "reset", "stall"]), enc=rng.choice(["plain", "chunked"]))
        ans.pop("location", None)
        ans["status"] = 200
    elif r < 0.86:
        ans.update(head=rng.choice(["garbage", "huge", "many", "nothing"]), end=rng.choice(["close", "reset", "stall"]))
    elif r < 0.89:
        ans.update(enc="badgzip")
    elif r < 0.94:
        ans.update(first=rng.choice([0.5, 2.0, 30.0, 1e6]))
    elif r < 0.955:
        ans.update(pace=4.0, segs=30)
    else:
        ans.update(status=rng.choice([301, 302]), location=rng.choice(["https://loop.example/loop", "http://[::1", "ftp://x/y"]))
    return a


IDS = {"arXiv": ["1809.05548", "2307.06996", "hep-ph/9901234", "0000.00000"], "doi": ["10.1007/JHEP04(2019)064", "10.1000/xyz", "10.5281/zenodo.1", "bad doi"],
       "zenodo": ["10156353", "1", "x"]}


def gen(rng, i, tier):
    calls = []
    pf = rng.choice([0.0, 0.2, 0.5, 0.9])
    for _ in range(rng.choice([1, 2, 3])):
        r = rng.random()
        c = {"net": {h: [gen_attempt(rng, pf, h) for _ in range(rng.choice([1, 2, 4]))] for h in HOSTS}, "level": rng.choice([10, 20])}
        if r < 0.55:
            c["call"] = "backend"
            for k in IDS:
                c[k] = [rng.choice(IDS[k]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        elif r < 0.75:
            c["call"] = "cite"
            c["software"] = rng.random() < 0.7
        else:
            c["call"] = "get"
            c["home"] = rng.choice(["inspire/arxiv", "inspire/doi", "doi", "zenodo"])
            c["id"] = rng.choice(sum(IDS.values(), []))
            c["timeout"] = rng.choice([5, 5, 1, 3])
        calls.append(c)
    return {"calls": calls, "wall": 1.78e9}


HOMES = {"inspire/arxiv": "inspirehep.net", "inspire/doi": "inspirehep.net", "doi": "doi.org", "zenodo": "zenodo.org"}


def entry(host, path, software):
    if host == "zenodo.org" and software:
        return "@software{key%d_2023,\n  title = {%s %s},\n  note = {key%d_2023 \u00e9}\n}\n" % (len(path), host, path, len(path))
    return "@article{%s,\n    title = \"%s: \u03b1\u03b2\",\n    year = \"2023\"\n}\n" % (path.strip("/").replace("/", "."), host)


def classify(a):
    """good | redirect | empty | failed | either (empty, failed or good)"""
    ans = a["answer"]
    if a.get("dns") == "empty":
        return "noconn"
    if a.get("dns") or a.get("connect") or a.get("tls"):
        return "failed"
    if ans.get("head"):
        return "noconn"
    if ans.get("first", 0) > 600:
        return "failed"
    if ans.get("first", 0) > 0.9 or ans.get("pace"):
        return "either"
    if ans.get("cut") is not None or ans.get("enc") == "badgzip":
        return "noconn"
    st = ans.get("status", 200)
    if ans.get("location") and 300 <= st < 400:
        return "redirect"
    if not 200 <= st < 300 or st == 204 or ans.get("body", "bib") != "bib":
        return "empty"
    return "good"


class Rec:
    pass


class World:
    def __init__(self, call):
        self.call, self.visits, self.lookups = call, {}, []
        self.origin = {}

    def attempt(self, p, host):
        k = self.visits.get(host, 0)
        self.visits[host] = k + 1
        script = self.call["net"].get(host) or [{"answer": {}}]
        a = dict(script[k % len(script)])
        a["visit"] = (host, k)
        if host == "loop.example":
            a["answer"] = {"status": 302, "location": "https://loop.example/loop"}
        if host in ("api.crossref.org", "loop.example") and self.lookups:
            self.lookups[-1]["hops"].append(a)
        else:
            self.lookups.append({"host": host, "hops": [a], "t": CLOCK.mono, "path": None, "home": next((h for h, n in HOMES.items() if n == host), None)})
        return a

    def body(self, a, host, path, head):
        lk = self.lookups[-1]
        if lk["path"] is None:
            lk["path"] = path
            lk["accept"] = head
        kind = a["answer"].get("body", "bib")
        text = entry(lk["host"], lk["path"], self.call.get("software", False))
        lk["text"] = text
        return {"bib": text, "html": "<html><body>Please sign in</body></html>", "json": '{"status": 404, "message": "not found"}', "text": "Too many requests",
                "empty": ""}[kind].encode("utf-8")

    def result(self, lk):
        """What the services delivered for one lookup: (class, text)."""
        kinds = [classify(a) for a in lk["hops"]]
        if "either" in kinds:
            return "either", lk.get("text")
        if kinds[-1] == "redirect":
            return "noconn", None
        return kinds[-1], lk.get("text")


def norm(text):
    return [x.strip() for x in text.strip().split("\n")]


def execute(plan, out):
    obs = []
    for n, c in enumerate(plan["calls"]):
        one(n, c, plan, out, obs)
    out.nontrivial = sum(o[1] for o in obs) >= 2
    out.digest = digest(obs)
    out.states = [digest(o) for o in obs]


def one(n, c, plan, out, obs):
    w = World(c)
    nw = net.Network(w.attempt, w.body)
    p = disk.Process("main")
    ident = _thread.get_ident()
    log = logging.getLogger("Spey")
    level = log.level
    CLOCK.start(plan["wall"])
    if c["call"] == "backend":
        name = "verif.cite%d" % n
        from spey.base import BackendBase

        class Model(BackendBase):
            spey_requires = ">=0.1.0"
            arXiv, doi, zenodo = list(c["arXiv"]), list(c["doi"]), list(c["zenodo"])
            config = is_alive = get_logpdf_func = expected_data = None
        Model.name = name
        Model.__abstractmethods__ = frozenset()
        spey._backend_entries.pop(name, None)
        spey.register_backend(Model)
    nw.install()
    log.setLevel(c["level"])
    disk.PROC[ident] = p
    err = res = None
    try:
        if c["call"] == "backend":
            res = spey.get_backend_bibtex(name)
        elif c["call"] == "cite":
            res = spey.cite()
        else:
            res = webutils.get_bibtex(c["home"], c["id"], c["timeout"])
    except net.Hang:
        raise Violation("blocked", "waits for ever: %r" % (w.lookups,))
    except Exception as e:  # noqa: BLE001
        err = e
    finally:
        disk.PROC.pop(ident, None)
        log.setLevel(level)
        nw.uninstall()
        t = CLOCK.mono
        CLOCK.stop()
        out.simtime += t
        if c["call"] == "backend":
            spey._backend_entries.pop(name, None)
    for k, v in p.fired.items():
        out.fault(k, v)
    lks = w.lookups
    results = [w.result(lk) for lk in lks]
    out.count("lookups", len(lks))
    for kind, _ in results:
        out.count("lookup-" + kind)
    obs.append([c["call"], len(lks), [k for k, _ in results], repr(res), type(err).__name__, round(t, 3)])
    nhops = sum(min(len(lk["hops"]), 3) for lk in lks)
    if t > BOUND * max(1, nhops):
        slow = any(a["answer"].get("pace") for lk in lks for a in lk["hops"])
        raise Violation("slow-dribble" if slow else "slow", "took %.0f s for %d lookups: %r" % (t, len(lks), lks))
    for lk in lks:
        if lk["path"] is not None and b"application/x-bibtex" not in lk["accept"]:
            raise Violation("wrong-format-asked", repr(lk["accept"]))
    if c["call"] == "get":
        kind, text = results[-1] if results else ("failed", None)
        if len(lks) > 1:
            return       # repeated lookups: judged by the other calls
        if err is not None:
            if not isinstance(err, webutils.ConnectionError) or kind not in ("failed", "either", "noconn"):
                raise Violation("raised", "%r after %r" % (err, lks))
            return
        ok = {"good": [text], "empty": [""], "failed": [], "noconn": [""], "either": ["", text]}[kind]
        if res not in ok:
            raise Violation("wrong-answer", "%s %s: %r, the service gave %s: %r" % (c["home"], c["id"], res, kind, lks))
        return
    if err is not None:
        raise Violation("raised", "%r at %s" % (err, lks))
    if c["call"] == "cite":
        arx = [r for lk, r in zip(lks, results) if lk["host"] == "inspirehep.net"]
        zen = [r for lk, r in zip(lks, results) if lk["host"] == "zenodo.org"]
        if any(k in ("noconn", "either", "failed") for k, _ in results):
            if res == "":
                return
            if len(results) == 2 and results[0][0] == "failed" or results[-1][0] == "failed" and False:
                raise Violation("wrong-answer", "%r" % res)
            arx_ok = ["", *[t for k, t in arx if k in ("good", "either")]]
            zen_ok = ["", *[t for k, t in zen if k in ("good", "either")]]
        else:
            arx_ok = [t if k == "good" else "" for k, t in arx]
            zen_ok = [t if k == "good" else "" for k, t in zen]
        import re
        want = []
        for x in arx_ok:
            for z in zen_ok:
                m = re.search("@software{(.+?),\n", z)
                want.append(norm(x + "\n\n" + (z.replace(m.group(1), "spey_zenodo") if m else z)))
        if norm(res) not in want:
            raise Violation("wrong-citation", "%r, the services gave %r" % (res, results))
        return
    if not isinstance(res, dict) or set(res) != {"inspire", "doi.org", "zenodo"}:
        raise Violation("wrong-shape", repr(res))
    lists = {"inspirehep.net": "inspire", "doi.org": "doi.org", "zenodo.org": "zenodo"}
    must, may = {k: [] for k in res}, {k: [] for k in res}
    for lk, (kind, text) in zip(lks, results):
        key = lists.get(lk["host"])
        if key is None:
            raise Violation("wrong-host", lk["host"])
        if kind == "good":
            must[key].append(norm(text))
        if kind in ("good", "either"):
            may[key].append(norm(text))
    for key, got in res.items():
        rest = list(may[key])
        for g in got:
            if norm(g) not in rest:
                raise Violation("not-an-entry", "%s: %r was not delivered (or only once): %r" % (key, g, results))
            rest.remove(norm(g))
        for m in must[key]:
            if m not in [norm(g) for g in got]:
                raise Violation("entry-dropped", "%s: %r was delivered but is missing: %r" % (key, m, res))
    if not any(k in ("failed", "either", "noconn") for k, _ in results):
        # every identifier was looked up; doi.org was asked exactly for what Inspire does not have
        ninsp = sum(1 for lk in lks if lk["host"] == "inspirehep.net")
        ndoi = sum(1 for lk in lks if lk["host"] == "doi.org")
        nzen = sum(1 for lk in lks if lk["host"] == "zenodo.org")
        missing = sum(1 for lk, (k, _) in zip(lks, results) if lk["host"] == "inspirehep.net" and "/doi/" in (lk["path"] or "") and k == "empty")
        if (ninsp, ndoi, nzen) != (len(c["arXiv"]) + len(c["doi"]), missing, len(c["zenodo"])):
            raise Violation("not-looked-up", "asked inspire/doi/zenodo %r times for %r" % ((ninsp, ndoi, nzen), {k: c[k] for k in IDS}))
