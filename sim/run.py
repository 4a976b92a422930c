"""
Runner: seeds -> plans -> forked executions -> verdict, minimisation, replay
file, evidence.

A property module provides

* ``gen(rng, i, tier) -> plan``     everything random is decided here (JSON),
* ``execute(plan) -> Outcome``      runs the plan against the real code,
* ``RUNS = {"quick": n, "thorough": n}``, ``BATCH``, ``LEVEL``, ``TECHNIQUE``,
  ``RULE``, ``ASSUMPTIONS``, ``REAL``, ``STUB``,
* optionally ``shrink(plan)``       yields smaller plans (most promising first),
* optionally ``FINDINGS``           list of plans that exhibit known findings.
"""
import copy
import importlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback

from sim import boot
from sim.clock import _real_time as now

WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
RUN_WALL = 120.0          # a run without an answer for so long is stuck


class Outcome:
    """What one simulated run showed."""

    def __init__(self):
        self.kind = None        # stable short key of the violation
        self.detail = ""
        self.faults = {}        # kind -> how often it actually fired
        self.counts = {}        # any other counters
        self.states = []        # hashable measures of what was reached
        self.digest = ""        # of everything observable, for determinism
        self.simtime = 0.0
        self.nontrivial = False
        self.tainted = False    # threads were left behind: fork again
        self.schedule = None    # recorded decisions
        self.before = []        # plans of the runs before this one in its process

    def violate(self, kind, detail=""):
        if self.kind is None:
            self.kind, self.detail = kind, str(detail)[:4000]

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


def load(prop):
    return importlib.import_module("props." + prop)


def rng_for(prop, seed, i):
    return random.Random("%s:%s:%d" % (prop, seed, i))


SEQ = "runs_in_one_process"


def run_one(mod, plan):
    if SEQ in plan:
        # what the code under test keeps beyond a run is a part of the history
        for p in plan[SEQ]:
            out = run_one(mod, p)
            if out.tainted:
                break
        out.schedule = None
        return out
    out = Outcome()
    try:
        mod.execute(plan, out)
    except Violation as v:
        out.violate(v.kind, v.detail)
    except Exception as err:  # noqa: BLE001
        # raised by (or through) the code under test where nothing may be raised, or
        # by the oracle since it was given something that it can not judge
        src = os.path.join(boot.SRC, "spey") + os.sep
        tb = traceback.extract_tb(err.__traceback__)
        inside = any(f.filename.startswith(src) for f in tb)
        if not inside and not isinstance(err, (TypeError, ValueError, AttributeError, LookupError,
                                               AssertionError, ArithmeticError)):
            raise
        out.violate("unexpected-exception" if inside else "unusable-answer", "%r at %s" % (err, " <- ".join(
            "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))))
        out.tainted = True
    return out


def _child(mod, plans, wfd):
    """Executes plans [(index, plan)] one after the other, streams outcomes."""
    w = os.fdopen(wfd, "wb")
    try:
        for i, plan in plans:
            try:
                out = run_one(mod, plan)
                rec = ("out", i, out)
            except BaseException:  # noqa: BLE001 - harness error
                rec = ("err", i, traceback.format_exc())
            pickle.dump(rec, w)
            w.flush()
            if rec[0] == "err" or rec[2].tainted:
                break
    finally:
        try:
            w.flush()
        except Exception:  # noqa: BLE001
            pass
        os._exit(0)


def fork_plans(mod, plans):
    r, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            if os.environ.get("VERIF_DEBUG") != "1":
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            _child(mod, plans, wfd)
        finally:
            os._exit(3)
    os.close(wfd)
    return pid, r


def _parse(buf):
    """Complete records of a byte buffer and the rest."""
    import io
    recs = []
    f = io.BytesIO(buf)
    pos = 0
    while True:
        try:
            recs.append(pickle.load(f))
            pos = f.tell()
        except Exception:  # noqa: BLE001 - incomplete record
            break
    return recs, buf[pos:]


class Harness(Exception):
    """The check itself failed."""


def run_plans(mod, plans, on_out, batch=1, wall=None, run_wall=RUN_WALL, stop=lambda: False, tolerant=False):
    """
    Execute plans (list or iterator of (index, plan)) in forked children.
    ``on_out(i, plan, outcome)``; a stuck or dying run gives an outcome "hang"/"died".
    """
    it = iter(plans)
    todo = []
    live = {}
    t_end = None if wall is None else now() + wall
    exhausted = False
    while True:
        while len(live) < WORKERS and not stop():
            if t_end is not None and now() > t_end:
                exhausted = True
            if todo:
                chunk = todo.pop(0)
            elif exhausted:
                break
            else:
                chunk = []
                for x in it:
                    chunk.append(x)
                    if len(chunk) >= batch:
                        break
                if not chunk:
                    exhausted = True
                    break
            pid, r = fork_plans(mod, chunk)
            live[r] = [pid, chunk, b"", now(), []]
        if not live:
            return
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in list(live):
            pid, chunk, buf, t0, before = live[r]
            done = False
            if r in ready:
                data = os.read(r, 1 << 20)
                if data:
                    recs, buf = _parse(buf + data)
                    live[r][2] = buf
                    for rec in recs:
                        live[r][3] = now()
                        kind, i, val = rec
                        if kind == "err":
                            if tolerant:      # a candidate plan that makes no sense
                                chunk.pop(0)
                                continue
                            raise Harness("run %s: %s" % (i, val))
                        assert chunk[0][0] == i
                        val.before = list(before) if val.kind is not None else []
                        before.append(chunk[0][1])
                        on_out(i, chunk[0][1], val)
                        chunk.pop(0)
                else:
                    done = True
            if not done and now() - live[r][3] > run_wall:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                i, plan = chunk.pop(0)
                out = Outcome()
                out.violate("stuck", "the run did not end within %.0f s of wall time" % run_wall)
                on_out(i, plan, out)
                if chunk:
                    todo.append(chunk)
                continue
            if done:
                _, status = os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                if status != 0:
                    i, plan = chunk.pop(0)
                    out = Outcome()
                    out.violate("died", "the process died (wait status %d)" % status)
                    on_out(i, plan, out)
                if chunk:
                    todo.append(chunk)


def one(mod, plan, run_wall=RUN_WALL):
    """Outcome of a single plan in a fresh fork."""
    res = []
    run_plans(mod, [(0, plan)], lambda i, p, o: res.append(o), run_wall=run_wall)
    return res[0]


# --------------------------------------------------------------------------- #
# minimisation


def _ddmin_list(plan, path, test, deadline):
    def get(p):
        for k in path:
            p = p[k]
        return p

    def put(p, v):
        p = copy.deepcopy(p)
        q = p
        for k in path[:-1]:
            q = q[k]
        q[path[-1]] = v
        return p

    items = list(get(plan))
    n = 2
    while len(items) >= 1 and now() < deadline:
        size = max(1, len(items) // n)
        cands = []
        for s in range(0, len(items), size):
            cands.append(items[:s] + items[s + size:])
        hit = test([put(plan, c) for c in cands])
        if hit is not None:
            items = cands[hit]
            plan = put(plan, items)
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return plan


def _lists(mod, plan):
    """Paths of the lists that may be thinned out."""
    if SEQ in plan:
        return [[SEQ]] + [[SEQ, k, *path] for k, p in enumerate(plan[SEQ]) for path in _lists(mod, p)]
    if hasattr(mod, "lists"):
        return mod.lists(plan)
    out = []

    def walk(p, path):
        if isinstance(p, dict):
            for k, v in p.items():
                if k in getattr(mod, "SHRINK", ("ops", "faults", "decisions", "threads")) and isinstance(v, list):
                    out.append([*path, k])
                walk(v, [*path, k])
        elif isinstance(p, list):
            for k, v in enumerate(p):
                walk(v, [*path, k])

    walk(plan, [])
    return out


def minimise(mod, plan, out, seconds):
    deadline = now() + seconds
    kind = out.kind
    tried = [0]

    def test(cands):
        """Index of the first candidate that still fails in the same way."""
        hits = {}
        if now() > deadline:
            return None
        tried[0] += len(cands)
        run_plans(mod, list(enumerate(cands)), lambda i, p, o: hits.__setitem__(i, o),
                  wall=max(1.0, deadline - now()), run_wall=30.0, tolerant=True)
        ok = [i for i in sorted(hits) if hits[i].kind == kind]
        return ok[0] if ok else None

    # explicit schedule instead of a seed
    if out.schedule is not None and "sched" in plan:
        q = copy.deepcopy(plan)
        q["sched"] = {"kind": "explicit", "decisions": out.schedule}
        if test([q]) is not None:
            plan = q
    progress = True
    while progress and now() < deadline:
        progress = False
        before = json.dumps(plan, sort_keys=True)
        for path in sorted(_lists(mod, plan), key=len):
            try:
                cur = plan
                for k in path:
                    cur = cur[k]
            except (KeyError, IndexError, TypeError):
                continue
            plan = _ddmin_list(plan, path, test, deadline)
        if hasattr(mod, "shrink") and SEQ not in plan:
            for _ in range(20):
                cands = list(mod.shrink(copy.deepcopy(plan)))
                hit = test(cands) if cands else None
                if hit is None:
                    break
                plan = cands[hit]
        progress = json.dumps(plan, sort_keys=True) != before
    return plan, tried[0]


# --------------------------------------------------------------------------- #
# findings


def known_findings(prop):
    res = []
    path = os.path.join(boot.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("KNOWN-FINDING:") and "property=%s " % prop in line:
                key = [w for w in line.split() if w.startswith("key=")][0][4:]
                what = line.split(key, 1)[1].strip()
                res.append((key, what))
    return res


# --------------------------------------------------------------------------- #


def replay_path(prop, plan):
    import hashlib
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]
    return os.path.join(d, "%s-%s.json" % (prop, h))


def check(prop, tier, seed):
    t0 = now()
    mod = load(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    n = int(os.environ.get("VERIF_RUNS", "0")) or mod.RUNS[tier]
    wall = float(os.environ.get("VERIF_WALL", "0")) or (420.0 if tier == "quick" else 3000.0)
    known = dict(known_findings(prop))
    st = {"n": 0, "nontrivial": set(), "faults": {}, "counts": {}, "states": set(),
          "simtime": 0.0, "digests": 0, "samples": [], "known": {}, "withfaults": 0, "sched": set()}
    bad = {}

    def plans():
        for i in range(n):
            yield i, mod.gen(rng_for(prop, seed, i), i, tier)

    def on_out(i, plan, out):
        st["n"] += 1
        for k, v in out.faults.items():
            st["faults"][k] = st["faults"].get(k, 0) + v
        if out.faults:
            st["withfaults"] += 1
        for k, v in out.counts.items():
            st["counts"][k] = st["counts"].get(k, 0) + v
        st["states"].update(out.states)
        st["simtime"] += out.simtime
        if out.nontrivial:
            st["nontrivial"].add(out.digest)
            if len(st["samples"]) < 3 and len(json.dumps(plan)) < 6000:
                st["samples"].append({"run": i, "plan": plan})
        if out.kind is not None:
            if out.kind in known:
                st["known"][out.kind] = st["known"].get(out.kind, 0) + 1
            else:
                bad[i] = (plan, out)

    run_plans(mod, plans(), on_out, batch=getattr(mod, "BATCH", 1), wall=wall,
              stop=lambda: bool(bad))

    violations = []
    if bad:
        i = min(bad)
        plan, out = bad[i]
        # confirm, minimise, confirm in a fresh process
        again = one(mod, plan)
        if again.kind is None and out.before:
            plan = {SEQ: [*out.before, plan]}
            again = one(mod, plan)
        if again.kind is None:
            raise Harness("run %d reported %s (%s) but did not do so again" % (i, out.kind, out.detail))
        if again.kind in ("stuck", "died"):
            small, tried = plan, 0
        else:
            small, tried = minimise(mod, plan, again, float(os.environ.get("VERIF_MINIMISE", "60")))
        final = again if again.kind == "stuck" else one(mod, small)
        path = replay_path(prop, small)
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "kind": final.kind, "detail": final.detail, "seed": seed,
                       "run": i, "plan": small, "original_plan": plan,
                       "minimisation_runs": tried}, f, indent=1)
        if os.environ.get("VERIF_NOREPLAY") != "1" and again.kind not in ("stuck", "died"):
            p = subprocess.run([sys.executable, os.path.join(boot.VERIF, "check.py"), prop,
                                "--replay", path], capture_output=True, text=True, timeout=400)
            if p.returncode != 1:
                raise Harness("the replay of %s did not reproduce %s:\n%s\n%s"
                              % (path, final.kind, p.stdout[-2000:], p.stderr[-2000:]))
        violations.append((final.kind, final.detail, path))

    wall_s = now() - t0
    cov = {
        "evaluations": st["n"],
        "distinct_nontrivial": len(st["nontrivial"]),
        "rule": mod.RULE,
        "samples": st["samples"] or [{"note": "no non-trivial run"}],
        "runs_requested": n,
        "runs_with_faults": st["withfaults"],
        "runs_without_faults": st["n"] - st["withfaults"],
        "faults_injected": dict(sorted(st["faults"].items())),
        "counters": dict(sorted(st["counts"].items())),
        "distinct_states": len(st["states"]),
        "states_measure": getattr(mod, "STATES", "distinct digests of schedules and observed results"),
        "seeds_per_hour": round(st["n"] / max(wall_s, 1e-9) * 3600),
        "simulated_seconds": round(st["simtime"], 3),
        "workers": WORKERS,
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "known_findings_seen": st["known"],
    }
    ev = {"property": prop, "tier": tier, "seed": int(seed), "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall_s, 2), "violations": len(violations)}
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    for key, what in known.items():
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, what))
    print("%s %s: %d runs (%d distinct non-trivial), %d with faults, %.1f s"
          % (prop, tier, st["n"], len(st["nontrivial"]), st["withfaults"], wall_s))
    print("faults:", json.dumps(cov["faults_injected"]))
    print("counters:", json.dumps(cov["counters"]))
    for kind, detail, path in violations:
        print("violation: %s: %s" % (kind, detail))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if st["n"] < n and not violations:
        print("note: stopped by the wall-time limit after %d of %d runs" % (st["n"], n))
    if st["n"] == 0 or (not violations and not st["nontrivial"]):
        raise Harness("nothing was explored")
    return 1 if violations else 0


def replay(prop, path):
    mod = load(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    with open(path, encoding="utf-8") as f:
        rec = json.load(f)
    out = one(mod, rec["plan"])
    print("replayed: kind=%s detail=%s digest=%s" % (out.kind, out.detail, out.digest))
    if out.kind is not None:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def digests(prop, seed, n, start=0):
    """Digest of every run, for the determinism check."""
    mod = load(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    res = {}
    run_plans(mod, ((i, mod.gen(rng_for(prop, seed, i), i, "quick")) for i in range(start, start + n)),
              lambda i, p, o: res.__setitem__(i, (o.kind, o.digest, sorted(o.faults.items()))),
              batch=getattr(mod, "BATCH", 1))
    return [res[i] for i in sorted(res)]
