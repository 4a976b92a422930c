import hashlib
import json


def digest(*objs):
    return hashlib.sha256(json.dumps(objs, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def sched_spec(rng, nthreads, length, hot=False):
    """A random scheduling strategy (swarm style: every run has its own)."""
    r = rng.random()
    seed = rng.getrandbits(48)
    if r < 0.45:
        p = rng.choice([0.5, 0.3, 0.1, 0.05] if hot else [0.3, 0.1, 0.03, 0.01, 0.003])
        return {"kind": "walk", "seed": seed, "p": p}
    if r < 0.95:
        return {"kind": "pct", "seed": seed, "depth": rng.choice([1, 2, 3, 5, 8]), "length": length}
    return {"kind": "serial", "seed": seed}


def in_fork(fn):
    """Result of ``fn()`` evaluated in a forked copy of this process."""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, fn()))
            except BaseException as err:  # noqa: BLE001
                data = pickle.dumps((False, repr(err)))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, val = pickle.loads(data)
    if not ok:
        raise RuntimeError("reference computation failed: " + val)
    return val
