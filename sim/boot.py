"""
Process set-up.  Must be imported before anything else that could import
``threading`` users (logging, numpy, spey, ...):

* environment is pinned (no BLAS threads, no update check, fixed hash seed, no
  byte code written next to the sources),
* ``threading`` locks are replaced by simulated ones (see :mod:`sim.sched`),
* ``time`` and ``datetime`` are replaced by a virtual clock (see :mod:`sim.clock`),
* the code under test is imported from /repo's working tree.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_PIN = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "SPEY_CHECKUPDATE": "OFF",
    "TQDM_DISABLE": "1",
    "JOBLIB_MULTIPROCESSING": "0",
}
_DROP = ["SPEY_OPTIMISER", "SPEY_LOGLEVEL", "PYTHONSTARTUP", "PYTHONPATH",
         "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY",
         "REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE"]


def reexec():
    """Start over with a pinned environment (hash seed in particular)."""
    want = os.environ.get("VERIF_HASHSEED", "0")
    if os.environ.get("PYTHONHASHSEED") != want or os.environ.get("VERIF_PINNED") != "1":
        env = dict(os.environ)
        for k in _DROP:
            env.pop(k, None)
        env.update(_PIN)
        env["PYTHONHASHSEED"] = want
        env["VERIF_PINNED"] = "1"
        os.execve(sys.executable, [sys.executable, *sys.argv], env)


def setup():
    sys.dont_write_bytecode = True
    for k, v in _PIN.items():
        os.environ[k] = v
    for p in (VERIF, SRC):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    from sim import sched, clock  # noqa: F401
    sched.install()
    clock.install()


def import_spey():
    """Import the code under test (and check that it is /repo's)."""
    import gc
    from sim import optimiser
    optimiser.install()
    import spey
    import spey.multiparameter  # noqa: F401
    import spey.backends.default_pdf.third_moment  # noqa: F401
    import spey.backends.default_pdf.uncertainty_synthesizer  # noqa: F401
    import spey.optimizer.minuit_tools  # noqa: F401
    import spey.optimizer.scipy_tools  # noqa: F401
    import spey.helper_functions  # noqa: F401
    import spey.math  # noqa: F401
    import scipy.optimize, scipy.stats, scipy.spatial  # noqa: F401,E401
    here = os.path.realpath(spey.__file__)
    if not here.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError("imported spey from %s instead of %s" % (here, SRC))
    gc.disable()
    gc.freeze()
    return spey
