"""
Simulated worker pool behind joblib.

``install()`` replaces joblib's process and thread backends; a pool is then one
queue in this process.  A seeded scheduler decides which of the running batches
finishes next; nothing runs in parallel.  Batches for "processes" are pickled
when they are submitted and run on an unpickled copy in a forked process, so they
share nothing with the caller; their results come back pickled.

``POOL`` holds the plan of the current run: ``{"seed", "batch", "fork", "faults":
[[kind, call, batch], ...]}``.
"""
import pickle
import random

import joblib.parallel as jp
from joblib._parallel_backends import ParallelBackendBase
import cloudpickle
from joblib.externals.loky.process_executor import TerminatedWorkerError

POOL = None
KINDS = ("start", "unpicklable", "submit", "crash", "task", "result", "oom", "interrupt")


class Pool:
    def __init__(self, plan):
        self.rng = random.Random(plan["seed"])
        self.batch = plan["batch"]
        self.fork = plan["fork"]
        self.faults = [tuple(f) for f in plan["faults"]]
        self.call = -1          # number of the Parallel call
        self.fired = []
        self.batches = 0
        self.order = []
        self.workers = 0

    def fault(self, kind, number):
        if (kind, self.call, number) in self.faults:
            self.fired.append(kind)
            return True
        return False


class Future:
    def __init__(self, number, payload, callback):
        self.number, self.payload, self.callback = number, payload, callback
        self.outcome = None

    def result(self, timeout=None):
        if self.outcome is None:
            raise RuntimeError("result of a batch which has not finished")
        ok, val = self.outcome
        if not ok:
            raise val
        return val

    get = result

    def finish(self, ok, val):
        self.outcome = (ok, val)
        if self.callback is not None:
            self.callback(self)


class SimBackend(ParallelBackendBase):
    supports_retrieve_callback = True
    supports_inner_max_num_threads = True
    isolated = True
    running = None      # the backend of the current call

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        return 1 if n_jobs is None else 8 + 1 + n_jobs if n_jobs < 0 else n_jobs

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        self.parallel = parallel
        n = self.effective_n_jobs(n_jobs)
        self.pool = POOL if POOL is not None else Pool({"seed": 0, "batch": 1, "fork": False, "faults": []})
        self.queue, self.n, self.broken, self.submitted = [], n, None, 0
        if n > 1:
            self.pool.call += 1
            self.pool.workers = max(self.pool.workers, n)
            if self.pool.fault("start", 0):
                raise OSError(11, "injected: no worker could be started")
            SimBackend.running = self
        return n

    def compute_batch_size(self):
        return self.pool.batch or self.pool.rng.choice([1, 1, 2, 5])

    def submit(self, func, callback=None):
        number = self.submitted
        self.submitted += 1
        self.pool.batches += 1
        if self.pool.fault("submit", number):
            raise RuntimeError("injected: cannot schedule new futures after shutdown")
        payload, early = func, None
        if self.broken:
            early = self.broken
        elif self.pool.fault("unpicklable", number):
            early = pickle.PicklingError("injected: could not pickle the task to send it to the workers.")
        elif self.isolated:
            try:
                payload = cloudpickle.dumps(func)
            except Exception as err:  # noqa: BLE001
                early = pickle.PicklingError("Could not pickle the task to send it to the workers: %r" % err)
        fut = Future(number, payload, callback)
        fut.early = early
        self.queue.append(fut)
        return fut

    apply_async = submit

    def advance(self):
        """One batch finishes."""
        if not self.queue:
            raise RuntimeError("no batch is running, the caller waits for ever")
        if self.pool.fault("interrupt", len(self.pool.order)):
            raise KeyboardInterrupt("injected")
        fut = self.queue.pop(self.pool.rng.randrange(min(len(self.queue), self.n)))
        self.pool.order.append(fut.number)
        if self.broken or fut.early:
            return fut.finish(False, fut.early or self.broken)
        if self.pool.fault("crash", fut.number):
            self.broken = TerminatedWorkerError("injected: a worker process managed by the executor was unexpectedly terminated.")
            return fut.finish(False, self.broken)
        if self.pool.fault("oom", fut.number):
            return fut.finish(False, MemoryError("injected"))
        try:
            val = self.run(fut)
        except Exception as err:  # noqa: BLE001
            return fut.finish(False, err)
        if self.pool.fault("result", fut.number):
            return fut.finish(False, pickle.PicklingError("injected: the result could not be sent back"))
        if self.pool.fault("task", fut.number):
            return fut.finish(False, OSError(24, "injected in the worker"))
        fut.finish(True, val)

    def run(self, fut):
        if not self.isolated:
            return fut.payload()

        def job():
            try:
                return True, cloudpickle.dumps(pickle.loads(fut.payload)())
            except Exception as err:  # noqa: BLE001
                try:
                    pickle.loads(pickle.dumps(err))
                except Exception:  # noqa: BLE001
                    err = RuntimeError("worker: %r" % err)
                return False, err
        if self.pool.fork:
            from sim.util import in_fork
            ok, val = in_fork(job)
        else:
            ok, val = job()
        if not ok:
            raise val
        return pickle.loads(val)

    def retrieve_result_callback(self, fut):
        return fut.result()

    def abort_everything(self, ensure_ready=True):
        self.queue = []
        self.broken = None

    def stop_call(self):
        SimBackend.running = None


class ThreadLike(SimBackend):
    isolated = False
    uses_threads = True
    supports_sharedmem = True


class _Time:
    """The clock of joblib.parallel: waiting lets a batch finish."""

    now = 0.0

    def time(self):
        return self.now

    def sleep(self, dt):
        self.now += dt
        if SimBackend.running is None:
            raise RuntimeError("waiting without a pool")
        SimBackend.running.advance()


def install():
    jp.BACKENDS["loky"] = jp.BACKENDS["multiprocessing"] = SimBackend
    jp.BACKENDS["threading"] = ThreadLike
    jp.DEFAULT_BACKEND = jp.DEFAULT_PROCESS_BACKEND = "loky"
    jp.time = _Time()
