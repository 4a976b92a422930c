"""
Seam at the optimisers: ``scipy.optimize.minimize`` and ``iminuit``'s minimisers.

Installed before spey is imported.  ``CAP`` bounds the number of iterations (a
fit that does not converge within it reports failure, as with any other limit),
``HOOK(real, fun, x0, kwargs)`` replaces the call of scipy altogether.
"""
CAP = None
CAP_MINUIT = None
HOOK = None
CALLS = 0


def install():
    import functools
    import inspect
    import scipy.optimize
    real = scipy.optimize.minimize
    sig = inspect.signature(real)

    @functools.wraps(real)
    def minimize(*args, **kwargs):
        global CALLS
        CALLS += 1
        if CAP is None and HOOK is None:
            return real(*args, **kwargs)
        kw = dict(sig.bind(*args, **kwargs).arguments)
        if CAP is not None:
            opt = dict(kw.get("options") or {})
            opt["maxiter"] = min(CAP, opt.get("maxiter", CAP))
            kw["options"] = opt
        if HOOK is None:
            return real(**kw)
        return HOOK(real, kw)

    scipy.optimize.minimize = minimize
    scipy.optimize._minimize.minimize = minimize
    try:
        from iminuit import Minuit
    except ImportError:
        return
    for name in ("migrad", "simplex"):
        def wrap(orig):
            @functools.wraps(orig)
            def run(self, ncall=None, **kw):
                if CAP_MINUIT is not None:
                    ncall = min(CAP_MINUIT, ncall or CAP_MINUIT)
                return orig(self, ncall, **kw)
            return run
        setattr(Minuit, name, wrap(getattr(Minuit, name)))
