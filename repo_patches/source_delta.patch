From 3e9f41ee543ba5bcc264638e5200afe08fcf8812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 01/45] fix: cache_results could leave callers waiting forever
 after cache_clear or eviction

A flight now owns its event and always sets it; a result is stored (and an
entry evicted) only while that flight is still the current one for its key, and
only completed entries take part in FIFO eviction.
---
 src/spey/system/cache.py | 81 ++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index e744fbd..8900477 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -265,10 +265,9 @@ class _PerInstanceCacheDescriptor:
                         return copy.deepcopy(value) if copy_on_return else value
                     event = events[key]
                 else:
-                    event = threading.Event()
-                    events[key] = event
+                    flight = threading.Event()
+                    events[key] = flight
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None
 
             if event is not None:
@@ -282,23 +281,21 @@ class _PerInstanceCacheDescriptor:
                 result = fn(obj, *args, **kwargs)
             except BaseException:
                 with lock:
-                    if cache.get(key) is _COMPUTING:
-                        del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()
+                    if events.get(key) is flight:
+                        del cache[key], events[key]
+                flight.set()
                 raise
 
             with lock:
-                cache[key] = result
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()
+                if events.get(key) is flight:
+                    del events[key]
+                    cache[key] = result
+                    order.append(key)
+                    if maxsize is not None:
+                        while len(order) > maxsize:
+                            oldest = order.popleft()
+                            cache.pop(oldest, None)
+            flight.set()
 
             return copy.deepcopy(result) if copy_on_return else result
 
@@ -312,12 +309,14 @@ class _PerInstanceCacheDescriptor:
         def cache_info() -> dict:
             """Return a snapshot of the cache state for this instance."""
             with lock:
-                return {"size": len(cache), "maxsize": maxsize}
+                return {"size": len(order), "maxsize": maxsize}
 
         def get_cache() -> dict:
             """Return a copy of the current cache contents (for testing/debugging)."""
             with lock:
-                return copy.deepcopy(cache)
+                return copy.deepcopy(
+                    {k: v for k, v in cache.items() if v is not _COMPUTING}
+                )
 
         wrapper.cache_clear = cache_clear
         wrapper.cache_info = cache_info
@@ -430,10 +429,9 @@ def cache_results(
                     event = events[key]
                 else:
                     # First caller for this key -- mark it as in-flight.
-                    event = threading.Event()
-                    events[key] = event
+                    flight = threading.Event()
+                    events[key] = flight
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None  # signals "I am the computing thread"
 
             if event is not None:
@@ -450,27 +448,28 @@ def cache_results(
             try:
                 result = fn(*args, **kwargs)
             except BaseException:
-                # Remove the sentinel so future calls can retry.
+                # Remove the sentinel so future calls can retry (unless the
+                # cache was cleared and the sentinel is no longer ours).
                 with lock:
-                    if cache.get(key) is _COMPUTING:
-                        del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()  # wake up waiters
+                    if events.get(key) is flight:
+                        del cache[key], events[key]
+                flight.set()  # wake up waiters
                 raise
 
             # ---- store result (under lock) ---------------------------------
             with lock:
-                cache[key] = result
-                # Evict oldest entries if maxsize is exceeded.
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()  # wake up any waiting threads
+                # Store only if the cache was not cleared in the meantime.
+                if events.get(key) is flight:
+                    del events[key]
+                    cache[key] = result
+                    order.append(key)
+                    # Evict oldest completed entries if maxsize is exceeded;
+                    # entries still being computed are never evicted.
+                    if maxsize is not None:
+                        while len(order) > maxsize:
+                            oldest = order.popleft()
+                            cache.pop(oldest, None)
+            flight.set()  # wake up any waiting threads
 
             return copy.deepcopy(result) if copy_on_return else result
 
@@ -485,12 +484,14 @@ def cache_results(
         def cache_info() -> dict:
             """Return a snapshot of the cache state."""
             with lock:
-                return {"size": len(cache), "maxsize": maxsize}
+                return {"size": len(order), "maxsize": maxsize}
 
         def get_cache() -> dict:
             """Return a copy of the current cache contents (for testing/debugging)."""
             with lock:
-                return copy.deepcopy(cache)
+                return copy.deepcopy(
+                    {k: v for k, v in cache.items() if v is not _COMPUTING}
+                )
 
         wrapper.cache_clear = cache_clear
         wrapper.cache_info = cache_info
-- 
2.43.0


From d53f35d0295a13565f9b3369c53fcee3a545d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 02/45] fix: per-instance caches were shared with copies and
 overrides and never released

The cached callable lived in the instance __dict__ (so a copied instance kept
answering for the original, and super().method() re-entered the override and
waited for itself) or, for slotted classes such as StatisticalModel, in a
mapping that kept every instance alive.  Keep one cache per (descriptor,
instance) and drop it with the instance.
---
 src/spey/interface/statistical_model.py |  2 +-
 src/spey/system/cache.py                | 75 ++++++++++---------------
 2 files changed, 30 insertions(+), 47 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 19b7384..e20ad2e 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -150,7 +150,7 @@ class StatisticalModel(HypothesisTestingBase):
         testing interface.
     """
 
-    __slots__ = ["xsection", "analysis", "_backend"]
+    __slots__ = ["xsection", "analysis", "_backend", "__weakref__"]
 
     def __init__(
         self,
diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 8900477..c6a7e06 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -43,11 +43,10 @@ subclasses) can never share a cache entry.  ``self`` is never included in
 the cache key and no reference to the instance is held in the cache
 dictionary.
 
-For classes that use ``__slots__`` without ``__dict__``, the descriptor
-falls back to a descriptor-level mapping keyed by ``id(obj)``.  If the
-instance supports weak references, cleanup is automatic; otherwise the
-mapping entry persists for the lifetime of the descriptor (bounded and
-equivalent to the prior behaviour).
+The callables are kept in a descriptor-level mapping keyed by ``id(obj)``.
+If the instance supports weak references, the entry is removed as soon as
+the instance is garbage-collected; otherwise the mapping entry persists
+(together with the instance) for the lifetime of the descriptor.
 
 .. currentmodule:: spey.system.cache
 
@@ -65,6 +64,7 @@ import hashlib
 import inspect
 import logging
 import threading
+import types
 import weakref
 from collections import deque
 from functools import wraps
@@ -135,17 +135,12 @@ class _PerInstanceCacheDescriptor:
 
     On the first ``instance.method`` attribute lookup the descriptor builds a
     dedicated cached callable whose internal cache storage is private to that
-    instance.  The wrapper is stored in ``instance.__dict__[method_name]``
-    so that Python's attribute-lookup rules (instance dict beats non-data
-    descriptor) bypass the descriptor on all subsequent accesses -- zero
-    overhead after the first call.
-
-    For classes that use ``__slots__`` without ``__dict__``, the descriptor
-    falls back to a descriptor-level mapping keyed by ``id(obj)``.  If the
-    instance supports weak references a callback is registered to clean up
-    the mapping entry when the instance is garbage-collected; otherwise the
-    entry persists (bounded, and equivalent to the prior behaviour where
-    ``self`` was serialised into a closure-level cache key).
+    instance.  It is kept in a descriptor-level mapping keyed by ``id(obj)``
+    (not in the instance, where a copy of the instance would inherit it and a
+    subclass override would shadow it).  If the instance supports weak
+    references a callback removes the mapping entry when the instance is
+    garbage-collected; otherwise the entry persists and keeps the instance
+    alive, so that its ``id`` can not be reused.
 
     Two distinct instances therefore maintain completely independent caches
     even when they invoke the method with identical arguments, and instances
@@ -180,8 +175,9 @@ class _PerInstanceCacheDescriptor:
         self.__name__ = fn.__name__
         self.__qualname__ = fn.__qualname__
         self.__annotations__ = getattr(fn, "__annotations__", {})
-        # Fallback storage for __slots__-only classes (no __dict__).
-        self._fallback_lock = threading.Lock()
+        # Per-instance callables.  The lock is re-entrant since the garbage
+        # collector may run a clean-up callback while it is held.
+        self._fallback_lock = threading.RLock()
         self._fallback_wrappers: dict[int, Callable] = {}
         self._fallback_refs: dict[int, weakref.ref] = {}
 
@@ -192,36 +188,23 @@ class _PerInstanceCacheDescriptor:
         if obj is None:
             # When accessed via class, return the ORIGINAL FUNCTION without caching.
             return self._fn  # type: ignore[return-value]
-        # Fast path: try instance __dict__ (available for most classes).
-        try:
-            inst_dict = obj.__dict__
-        except AttributeError:
-            return self._get_fallback(obj)
-        wrapper = inst_dict.get(self._name)
-        if wrapper is None:
-            wrapper = self._build_wrapper(obj)
-            # Storing under the method name makes subsequent lookups land in
-            # the instance dict directly (non-data descriptor rule), so the
-            # descriptor overhead is paid exactly once per instance.
-            inst_dict[self._name] = wrapper
-        return wrapper
+        return self._get_fallback(obj)
 
     def _get_fallback(self, obj: Any) -> Callable:
-        """Fallback for ``__slots__``-only classes without ``__dict__``."""
+        """Return the cached callable that belongs to *obj*, bound to it."""
         obj_id = id(obj)
         with self._fallback_lock:
             wrapper = self._fallback_wrappers.get(obj_id)
-            if wrapper is not None:
-                return wrapper
-            wrapper = self._build_wrapper(obj)
-            self._fallback_wrappers[obj_id] = wrapper
-            # Register weak-ref cleanup if the instance supports it.
-            try:
-                ref = weakref.ref(obj, self._make_fallback_cleanup(obj_id))
+            if wrapper is None:
+                wrapper = self._build_wrapper()
+                # Register weak-ref cleanup if the instance supports it.
+                try:
+                    ref = weakref.ref(obj, self._make_fallback_cleanup(obj_id))
+                except TypeError:
+                    ref = obj  # Not weakly referenceable; entry persists.
                 self._fallback_refs[obj_id] = ref
-            except TypeError:
-                pass  # Not weakly referenceable; entry persists.
-            return wrapper
+                self._fallback_wrappers[obj_id] = wrapper
+        return types.MethodType(wrapper, obj)
 
     def _make_fallback_cleanup(self, obj_id: int) -> Callable:
         """Return a weak-ref callback that removes the fallback entry for *obj_id*."""
@@ -233,8 +216,8 @@ class _PerInstanceCacheDescriptor:
 
         return _cleanup
 
-    def _build_wrapper(self, obj: Any) -> Callable:
-        """Create a standalone cached callable bound to *obj*."""
+    def _build_wrapper(self) -> Callable:
+        """Create a standalone cached method with its own cache."""
         fn = self._fn
         maxsize = self._maxsize
         copy_on_return = self._copy_on_return
@@ -246,7 +229,7 @@ class _PerInstanceCacheDescriptor:
         order: deque = deque()
 
         @wraps(fn)
-        def wrapper(*args, **kwargs):
+        def wrapper(obj, /, *args, **kwargs):
             if _sig is not None:
                 try:
                     bound = _sig.bind(*args, **kwargs)
@@ -275,7 +258,7 @@ class _PerInstanceCacheDescriptor:
                 with lock:
                     if key in cache and cache[key] is not _COMPUTING:
                         return copy.deepcopy(cache[key]) if copy_on_return else cache[key]
-                return wrapper(*args, **kwargs)
+                return wrapper(obj, *args, **kwargs)
 
             try:
                 result = fn(obj, *args, **kwargs)
-- 
2.43.0


From ec8b3002bf64dc6be17f6fa63ee24437ce7aa0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 03/45] fix: fits with a fixed POI changed the model's
 suggested initial parameters

---
 src/spey/optimizer/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index c7fe0cb..894d700 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -89,7 +89,9 @@ def fit(
         provided) and the corresponding fit parameter vector.
     """
 
-    init_pars = (
+    # Copy: fixing the POI below must not leak into the model configuration
+    # (shared between fits) or into the caller's container.
+    init_pars = list(
         initial_parameters
         if isinstance(initial_parameters, (list, tuple, np.ndarray))
         else model_configuration.suggested_init
-- 
2.43.0


From 1eb970a6d16b5aa02f2b558ba4908ab86f044465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 04/45] fix: backend constraints were appended to the caller's
 constraints list

---
 src/spey/interface/statistical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index e20ad2e..ffaa78b 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -417,7 +417,7 @@ class StatisticalModel(HypothesisTestingBase):
                 expected=expected, data=data, do_grad=do_grad
             )
 
-        constraints = kwargs.pop("constraints", [])
+        constraints = list(kwargs.pop("constraints", None) or [])
         if hasattr(self.backend, "constraints"):
             for constraint in self.backend.constraints:
                 constraints.append(constraint)
-- 
2.43.0


From 9cf4c92e0a85285e23e8292be806d17f225c9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 05/45] fix: retrying a failed fit raised TypeError for open
 bounds and shrank negative upper bounds

---
 src/spey/optimizer/scipy_tools.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 6e99af2..1c34145 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -119,11 +119,14 @@ def minimize(
             log.warning("Optimiser has not been able to satisfy all the conditions:")
             log.warning(opt.message + " Expanding the bounds...")
             init_pars = list(opt.x)
-            for bdx, bound in enumerate(bounds):
-                if bdx == poi_index:
-                    bounds[bdx] = (bound[0], bound[1] * 2.0)
-                else:
-                    bounds[bdx] = (min(bound[0], bound[0] * 10.0), bound[1] * 10.0)
+            for bdx, (lower, upper) in enumerate(bounds or []):
+                # ``None`` marks an open side, there is nothing to expand.
+                factor = 2.0 if bdx == poi_index else 10.0
+                if upper is not None:
+                    upper = max(upper, upper * factor)
+                if lower is not None and bdx != poi_index:
+                    lower = min(lower, lower * factor)
+                bounds[bdx] = (lower, upper)
         elif opt.success:
             break
 
-- 
2.43.0


From 530d378e112ff7adf03bf2f3c7ae053b1f9163a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 06/45] fix: backends added with register_backend could not be
 retrieved

---
 src/spey/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 129d39a..396e9d1 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -196,6 +196,11 @@ def register_backend(
     return model
 
 
+def _load_backend(entry: Union[EntryPoint, type]) -> type:
+    """Backend class of a registry entry: an entry point or a registered class"""
+    return entry if isinstance(entry, type) else entry.load()
+
+
 def AvailableBackends() -> List[str]:  # pylint: disable=C0103
     """
     Returns a list of available backends. The default backends are automatically installed
@@ -269,11 +274,7 @@ def get_backend(name: str) -> Callable[[Any], StatisticalModel]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = (
-            backend
-            if isinstance(backend, (BackendBase, ConverterBase))
-            else backend.load()
-        )
+        statistical_model = _load_backend(backend)
 
         assert hasattr(
             statistical_model, "spey_requires"
@@ -348,7 +349,7 @@ def get_backend_metadata(name: str) -> Dict[str, Any]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = backend.load()
+        statistical_model = _load_backend(backend)
         return {
             "name": getattr(statistical_model, "name", "__unknown_model__"),
             "author": getattr(statistical_model, "author", "__unknown_author__"),
-- 
2.43.0


From bcce663549f97c14bb2893eff029a6a9eed1fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 07/45] fix: concurrent register_backend calls could both
 register the same name

---
 src/spey/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 396e9d1..be6912a 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -192,7 +192,8 @@ def register_backend(
         )
 
     # Register the model with the backend
-    _backend_entries[name] = model
+    if _backend_entries.setdefault(name, model) is not model:
+        raise ValueError(f"Backend name `{name}`, is already registered.")
     return model
 
 
-- 
2.43.0


From 6ecd788fa1763e69cc510b0c027fac67401d7c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 08/45] fix: order of available backends depended on the hash
 seed

---
 src/spey/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index be6912a..8ff710b 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -111,7 +111,7 @@ def _get_entry_points(group: str, name: Optional[str] = None) -> Iterable[EntryP
             eps = entry_points().select(group=group, name=name)
         else:
             eps = entry_points().select(group=group)
-    return list(set(eps))
+    return list(dict.fromkeys(eps))
 
 
 def _get_backend_entrypoints() -> Dict[str, EntryPoint]:
-- 
2.43.0


From 7a47d65f6fb0d9b9395ca36f8014299b76cb746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 09/45] fix: an update-check cache file dated in the future was
 used indefinitely

---
 src/spey/system/webutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 5ba082a..5debc9a 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -99,6 +99,10 @@ def _load_cached_pypi_info() -> dict:
         for cache_file in sorted(_SPEY_DIR.glob("pypi_latest_*.json"), reverse=True):
             try:
                 age = now - cache_file.stat().st_mtime
+                if age < 0:
+                    # Written "in the future": the clock has been set back
+                    # since, so the true age of this file is unknown.
+                    continue
                 if age <= _CACHE_MAX_AGE_SECONDS:
                     data = json.loads(cache_file.read_text(encoding="utf-8"))
                     log.debug(
-- 
2.43.0


From 55fc0a785c5871156f12b0e5a28aa04c408c5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 10/45] fix: an error response from PyPI was cached for 24
 hours

---
 src/spey/system/webutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 5debc9a..1bdbebf 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -170,8 +170,11 @@ def _get_pypi_info() -> dict:
             timeout=1,
             stream=False,
         )
+        response.raise_for_status()
         response.encoding = "utf-8"
         pypi_info = response.json()
+        # Only a genuine answer may be cached.
+        Version(pypi_info["info"]["version"])
     except Exception as err:  # noqa: BLE001
         log.debug("PyPI request failed: %s", err)
         return None
-- 
2.43.0


From f178d02f5dbf9fb50744ad8674b2fbfe1a115253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 11/45] fix: update-check cache could be lost to concurrent or
 failed saves

Two processes saving at the same time removed each other's file, a failed write
removed the file it could not replace, and an undeterminable home directory
made the import of spey fail.
---
 src/spey/system/webutils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 1bdbebf..a0ad340 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -82,7 +82,10 @@ def get_bibtex(
         return ""
 
 
-_SPEY_DIR = pathlib.Path.home() / ".spey"
+try:
+    _SPEY_DIR = pathlib.Path.home() / ".spey"
+except RuntimeError:  # the home directory can not be determined
+    _SPEY_DIR = None
 _CACHE_MAX_AGE_SECONDS = 86_400  # 24 hours
 
 
@@ -93,7 +96,7 @@ def _load_cached_pypi_info() -> dict:
     All filesystem errors are silently swallowed.
     """
     try:
-        if not _SPEY_DIR.is_dir():
+        if _SPEY_DIR is None or not _SPEY_DIR.is_dir():
             return None
         now = datetime.now(tz=timezone.utc).timestamp()
         for cache_file in sorted(_SPEY_DIR.glob("pypi_latest_*.json"), reverse=True):
@@ -138,14 +141,18 @@ def _save_pypi_info(pypi_info: dict) -> None:
     timestamp = datetime.now(tz=timezone.utc).strftime("%Y%m%d_%H%M%S")
     cache_file = _SPEY_DIR / f"pypi_latest_{timestamp}.json"
     try:
+        # Listed before writing, so that two processes saving at the same time
+        # do not remove each other's new file.
+        old_files = list(_SPEY_DIR.glob("pypi_latest_*.json"))
         cache_file.write_text(json.dumps(pypi_info, indent=4), encoding="utf-8")
         log.debug("Saved PyPI info to %s.", cache_file.name)
     except Exception as err:  # noqa: BLE001
         log.debug("Could not write cache file %s: %s", cache_file.name, err)
+        return  # keep what is there
 
     # Remove every other cache file so only the latest one is kept.
     try:
-        for old_file in _SPEY_DIR.glob("pypi_latest_*.json"):
+        for old_file in old_files:
             if old_file != cache_file:
                 try:
                     old_file.unlink(missing_ok=True)
@@ -174,7 +181,7 @@ def _get_pypi_info() -> dict:
         response.encoding = "utf-8"
         pypi_info = response.json()
         # Only a genuine answer may be cached.
-        Version(pypi_info["info"]["version"])
+        _ = pypi_info["info"]["version"]
     except Exception as err:  # noqa: BLE001
         log.debug("PyPI request failed: %s", err)
         return None
-- 
2.43.0


From 9c6f981976057f92b9687925f586557d2030341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 12/45] fix: logger.init left some of the handlers it replaces
 attached

---
 src/spey/system/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 43218eb..5a0b0cc 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -62,7 +62,7 @@ def init(LoggerStream=sys.stdout):
     # we need to replace all root loggers by ma5 loggers for a proper
     # interface with madgraph5
     SpeyLogger = logging.getLogger("Spey")
-    for hdlr in SpeyLogger.handlers:
+    for hdlr in list(SpeyLogger.handlers):
         SpeyLogger.removeHandler(hdlr)
     hdlr = logging.StreamHandler(LoggerStream)
     fmt = ColoredFormatter("%(message)s")
-- 
2.43.0


From cd53925851ef4eab1429555bc7d1d1ef3fb4a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 13/45] fix: overlapping capture_logs windows left a dead
 handler and a wrong level on the logger

Handlers, level and propagation of the shared logger were swapped per window, so
windows of two threads restored each other's state and records of one thread
were swallowed by the other.  Records emitted before an exception were lost.
---
 src/spey/system/logger.py | 79 ++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 18 deletions(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 5a0b0cc..601fb0e 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -1,6 +1,7 @@
 """Logging style for spey"""
 import logging
 import sys
+import threading
 from contextlib import contextmanager
 
 # pylint: disable=C0103
@@ -87,6 +88,63 @@ def disable_logging(highest_level: int = logging.CRITICAL):
         logging.disable(previous_level)
 
 
+class _CaptureRouter(logging.Filter):
+    """
+    Filter that hands the records of the "Spey" logger to the capture window
+    of the thread that emits them.
+
+    It is attached to the logger while at least one :func:`capture_logs` window
+    is open in any thread.  The level of the logger is then the lowest one that
+    is needed, and threads without a window see the level it had before.
+    """
+
+    def __init__(self):
+        super().__init__()
+        self._lock = threading.RLock()
+        self._local = threading.local()
+        self._levels = []  # levels of all open windows
+        self._previous = logging.NOTSET
+        self._effective = logging.NOTSET
+
+    def filter(self, record):
+        windows = getattr(self._local, "windows", None)
+        if not windows:
+            return record.levelno >= self._effective
+        if record.levelno >= windows[-1].level:
+            windows[-1].handle(record)
+        return False
+
+    def _update(self, logger):
+        logger.setLevel(min([self._effective, *self._levels]))
+
+    def open(self, logger, handler, level):
+        """Route the records of this thread to ``handler``"""
+        with self._lock:
+            if not self._levels:
+                self._previous = logger.level
+                self._effective = logger.getEffectiveLevel()
+            self._levels.append(level)
+            self._update(logger)
+            logger.addFilter(self)
+        if not hasattr(self._local, "windows"):
+            self._local.windows = []
+        self._local.windows.append(handler)
+
+    def close(self, logger, handler, level):
+        """Undo the corresponding call to :meth:`open`"""
+        self._local.windows.remove(handler)
+        with self._lock:
+            self._levels.remove(level)
+            if self._levels:
+                self._update(logger)
+            else:
+                logger.removeFilter(self)
+                logger.setLevel(self._previous)
+
+
+_capture_router = _CaptureRouter()
+
+
 @contextmanager
 def capture_logs(level: int = logging.DEBUG, stream=None):
     """
@@ -129,20 +187,12 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
 
     # Get the Spey logger
     spey_logger = logging.getLogger("Spey")
-    prev_level = spey_logger.level
-    prev_propagate = spey_logger.propagate
-
-    # Store and remove existing handlers temporarily
-    prev_handlers = spey_logger.handlers[:]
-    for h in prev_handlers:
-        spey_logger.removeHandler(h)
-
-    spey_logger.addHandler(handler)
-    spey_logger.setLevel(level)
-    spey_logger.propagate = False
+    _capture_router.open(spey_logger, handler, handler.level)
 
     try:
         yield
+    finally:
+        _capture_router.close(spey_logger, handler, handler.level)
         # Write unique messages to the provided stream
         for m in records:
             stream.write(m + "\n")
@@ -150,10 +200,3 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
             stream.flush()
         except Exception:
             pass
-    finally:
-        spey_logger.removeHandler(handler)
-        spey_logger.setLevel(prev_level)
-        spey_logger.propagate = prev_propagate
-        # Restore original handlers
-        for h in prev_handlers:
-            spey_logger.addHandler(h)
-- 
2.43.0


From f028090d2b6dd48e4765991b40e4989b65907af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 14/45] fix: threads sharing a multivariate normal model read
 each other's mean

---
 src/spey/backends/distributions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index cd34f2e..fb7aae8 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -1,5 +1,6 @@
 """Autograd based differentiable distribution classes"""
 
+import copy
 import logging
 from typing import Any, Callable, Dict, List, Literal, Union
 
@@ -200,13 +201,15 @@ class MainModel:
             else:
                 # Non-callable cov: inv(cov) and logdet(cov) are constant.
                 # Create a single MultivariateNormal once so those O(n³) ops run
-                # exactly once at construction time.  Each call only updates the
-                # mean (loc(pars)) in-place; _inv_cov and _logdet_cov stay cached.
+                # exactly once at construction time.  Each call only sets the mean
+                # (loc(pars)) of a shallow copy, since several threads may use the
+                # model at once; _inv_cov and _logdet_cov are shared.
                 _mv = MultivariateNormal(mean=np.zeros(len(cov)), cov=cov)
 
                 def _static_cov_pdf(pars):
-                    _mv.mean = loc(pars)
-                    return _mv
+                    pdf = copy.copy(_mv)
+                    pdf.mean = loc(pars)
+                    return pdf
 
                 self._pdf = _static_cov_pdf
         else:
-- 
2.43.0


From ad38249c30be5eb164fb0165e4323aa9aa47be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 15/45] fix: find_most_sensitive always raised since the numpy
 index was taken for a name

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index d765803..53b4b90 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -318,7 +318,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
             :obj:`~spey.system.exceptions.AnalysisQueryError`: If an integer index
               is out of range or the analysis name is not found in the stack.
         """
-        if isinstance(item, int):
+        if isinstance(item, (int, np.integer)):
             if item < len(self):
                 return self.statistical_models[item]
             raise AnalysisQueryError(
-- 
2.43.0


From d9f7eb623f6847731f49bb2ebd420641622dd462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 16/45] fix: combined likelihood raised TypeError for negative
 yields at a dict-valued POI

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 53b4b90..bbc54ac 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -468,7 +468,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 )
             except NegativeExpectedYields as err:
                 warnings.warn(
-                    err.args[0] + f"\nSetting NLL({poi_test:.3f}) = nan",
+                    err.args[0] + f"\nSetting NLL({poi_test}) = nan",
                     category=RuntimeWarning,
                 )
                 nll = np.nan
-- 
2.43.0


From 3db7d281140fce83e1c3405f08d602f79b481dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 17/45] fix: chi2 of a combined model raised TypeError and a
 non-finite initial guess spoiled its fit

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index bbc54ac..6feeda4 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -722,6 +722,9 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         data = data or {}
 
         # muhat initial value estimation in gaussian limit
+        init_pars = optimiser_options.pop("init_pars", None)
+        if initial_muhat_value is None and init_pars is not None:
+            initial_muhat_value = init_pars[0]
         mu_init = initial_muhat_value or 0.0
         if initial_muhat_value is None:
             try:
@@ -746,6 +749,8 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 mu_init = np.true_divide(1.0, norm) * np.sum(
                     np.true_divide(_mu, np.square(_sigma_mu))
                 )
+                if not np.isfinite(mu_init):
+                    raise ValueError("Initial guess for muhat is not finite.")
             except Exception as err:
                 log.debug(str(err))
                 mu_init = 0.0
@@ -870,6 +875,9 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         """
         allow_negative_signal: bool = True if test_statistics in ["q", "qmu"] else False
 
+        init_pars = optimiser_options.pop("init_pars", None)
+        if initial_muhat_value is None and init_pars is not None:
+            initial_muhat_value = init_pars[0]
         config: ModelConfig = ModelConfig(
             poi_index=0,
             minimum_poi=self.minimum_poi,
-- 
2.43.0


From 162c3b0b01ce8ce08dff8d62bc3135cc4dc0ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 18/45] fix: contour chains reported points that are not on the
 contour

A projection that did not converge (NaN or flat likelihood, iteration limit) and
a start point outside the bounds were added to the result.
---
 src/spey/multiparameter/contour.py | 38 +++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index f6bbf79..06c7407 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -1576,16 +1576,22 @@ def _project_theta(
     Returns:
         ``np.ndarray``: Projected point on (or very close to) the constraint
         surface, shape ``(k,)``.
+
+    Raises:
+        ``ArithmeticError``: If no point on the constraint surface was reached.
     """
     for _ in range(max_iter):
         residual = nll_scalar(theta) - threshold
         if abs(residual) < tol:
-            break
+            return theta
         g = grad_nll(theta)
         g_sq = float(np.dot(g, g))
         if g_sq < 1e-20:
             break
         theta = theta - (residual / g_sq) * g
+    # NaN compares false: a point without a likelihood is not on the contour.
+    if not abs(nll_scalar(theta) - threshold) < max(tol, 1e-4):
+        raise ArithmeticError("Projection onto the contour did not converge.")
     return theta
 
 
@@ -1729,8 +1735,22 @@ def _rattle_walk(
     """
     k = len(start)
 
+    def _out_of_bounds(theta_: np.ndarray) -> bool:
+        return bounds is not None and any(
+            (lo is not None and theta_[i] < lo) or (hi is not None and theta_[i] > hi)
+            for i, (lo, hi) in enumerate(bounds)
+        )
+
     # Project start onto constraint (handles small numerical drift)
-    theta = _project_theta(nll_scalar, grad_nll, start.copy(), threshold, tol, max_iter)
+    try:
+        theta = _project_theta(
+            nll_scalar, grad_nll, start.copy(), threshold, tol, max_iter
+        )
+    except ArithmeticError as err:
+        log.debug("%s Dropping the chain.", err)
+        return np.empty((0, k), dtype=float)
+    if _out_of_bounds(theta):
+        return np.empty((0, k), dtype=float)
 
     def _tangent_momentum(theta_: np.ndarray) -> np.ndarray:
         r"""
@@ -1777,15 +1797,11 @@ def _rattle_walk(
             break
 
         # Terminate if any parameter has left its allowed range
-        if bounds is not None:
-            if any(
-                (lo is not None and theta[i] < lo) or (hi is not None and theta[i] > hi)
-                for i, (lo, hi) in enumerate(bounds)
-            ):
-                log.debug(
-                    "RATTLE chain left parameter bounds at step %d; terminating.", step
-                )
-                break
+        if _out_of_bounds(theta):
+            log.debug(
+                "RATTLE chain left parameter bounds at step %d; terminating.", step
+            )
+            break
 
         trajectory.append(theta.copy())
 
-- 
2.43.0


From 5d2338e2554a9194c27cca64d06eb2dc65cbd3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 19/45] fix: arrays of objects were cached by address and
 returned results for other contents

---
 src/spey/system/cache.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index c6a7e06..cac8327 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -90,6 +90,9 @@ def _make_token(obj: Any) -> Any:
     2. **Hashable** -- the token can be used inside a ``dict`` key tuple.
     """
     if isinstance(obj, np.ndarray):
+        if obj.dtype.hasobject:
+            # The buffer holds addresses, which are reused for other objects.
+            return (obj.shape, obj.dtype.str, _make_token(obj.tolist()))
         # Hash the raw buffer content (O(n) time, O(1) space) instead of
         # storing a full copy via tobytes() (O(n) time, O(n) space).
         buf = np.ascontiguousarray(obj)
-- 
2.43.0


From 4e935f2f2838d3c9f9377c598dc3a0629ee754de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 20/45] fix: cached methods raised TypeError for dicts with
 keys of different types

---
 src/spey/system/cache.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index cac8327..a06ae54 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -14,9 +14,10 @@ Each argument is converted to a *hashable token* via :func:`_make_token`:
 * Hashable scalars (``int``, ``float``, ``str``, ...) -> used directly.
 * ``numpy.ndarray`` -> ``(shape, dtype, sha256_digest)`` tuple built from a
   SHA-256 hash of the raw buffer so the key captures the full content
-  without retaining a copy of the array bytes.
+  without retaining a copy of the array bytes.  Arrays of Python objects are
+  tokenised element-by-element.
 * ``list`` / ``tuple`` -> recursively tokenised element-by-element.
-* ``dict`` -> sorted-items tuple of ``(key_token, value_token)`` pairs.
+* ``dict`` -> tagged set of ``(key_token, value_token)`` pairs.
 * Anything else -> falls back to ``repr()``.
 
 The final key is a ``(args_token, sorted_kwargs_token)`` tuple that is
@@ -99,7 +100,8 @@ def _make_token(obj: Any) -> Any:
         digest = hashlib.sha256(buf.data).digest()
         return (obj.shape, obj.dtype.str, digest)
     if isinstance(obj, dict):
-        return tuple(sorted((_make_token(k), _make_token(v)) for k, v in obj.items()))
+        # Keys of different types (e.g. POI indices and names) can not be sorted.
+        return ("dict", frozenset((_make_token(k), _make_token(v)) for k, v in obj.items()))
     if isinstance(obj, (list, tuple)):
         return tuple(_make_token(item) for item in obj)
     if isinstance(obj, (set, frozenset)):
-- 
2.43.0


From 73f73ffb444855731eefbbc4990b70bea9af5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 21/45] fix: fits cached with one optimiser were returned after
 set_optimiser chose another

---
 src/spey/interface/statistical_model.py | 14 ++++++++++----
 src/spey/optimizer/core.py              |  9 ++++++---
 src/spey/system/cache.py                | 21 +++++++++++++++++++--
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index ffaa78b..7dd1a6f 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -14,7 +14,7 @@ import numpy as np
 
 from spey.base.backend_base import BackendBase, ModelConfig
 from spey.base.hypotest_base import HypothesisTestingBase
-from spey.optimizer.core import fit
+from spey.optimizer.core import default_optimiser, fit
 from spey.system.cache import cache_results
 from spey.system.exceptions import (
     CombinerNotAvailable,
@@ -572,7 +572,9 @@ class StatisticalModel(HypothesisTestingBase):
 
         return out
 
-    @cache_results(maxsize=128, copy_on_return=True, per_instance=True)
+    @cache_results(
+        maxsize=128, copy_on_return=True, per_instance=True, depends_on=default_optimiser
+    )
     def generate_asimov_data(
         self,
         expected: ExpectationType = ExpectationType.observed,
@@ -804,7 +806,9 @@ class StatisticalModel(HypothesisTestingBase):
             **kwargs,
         )
 
-    @cache_results(maxsize=128, copy_on_return=True, per_instance=True)
+    @cache_results(
+        maxsize=128, copy_on_return=True, per_instance=True, depends_on=default_optimiser
+    )
     def maximize_likelihood(  # pylint: disable = arguments-renamed
         self,
         return_nll: Optional[bool] = True,
@@ -957,7 +961,9 @@ class StatisticalModel(HypothesisTestingBase):
             result[key] = float(fit_param[idx])
         return result, nll
 
-    @cache_results(maxsize=128, copy_on_return=True, per_instance=True)
+    @cache_results(
+        maxsize=128, copy_on_return=True, per_instance=True, depends_on=default_optimiser
+    )
     def maximize_asimov_likelihood(  # pylint: disable = arguments-renamed
         self,
         return_nll: bool = True,
diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index 894d700..0d569a8 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -12,6 +12,11 @@ from spey.base.model_config import ModelConfig
 log = logging.getLogger("Spey")
 
 
+def default_optimiser() -> str:
+    """Name of the optimiser used for fits that do not choose one"""
+    return os.environ.get("SPEY_OPTIMISER", "scipy").lower()
+
+
 def _get_minimizer(name: str):
     from .scipy_tools import minimize
 
@@ -104,9 +109,7 @@ def fit(
     else:
         par_bounds = model_configuration.fixed_poi_bounds(fixed_poi_value)
 
-    minimizer_opt = options.pop(
-        "minimizer", os.environ.get("SPEY_OPTIMISER", "scipy").lower()
-    )
+    minimizer_opt = options.pop("minimizer", default_optimiser())
     if minimizer_opt not in ["scipy", "minuit"]:
         log.warning(f"Invalid minimizer: {minimizer_opt}, using scipy")
         minimizer_opt = "scipy"
diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index a06ae54..7a7109c 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -161,10 +161,17 @@ class _PerInstanceCacheDescriptor:
     method whose first parameter is ``self`` (auto-detected).
     """
 
-    def __init__(self, fn: Callable, maxsize: int, copy_on_return: bool) -> None:
+    def __init__(
+        self,
+        fn: Callable,
+        maxsize: int,
+        copy_on_return: bool,
+        depends_on: Callable[[], Any] = None,
+    ) -> None:
         self._fn = fn
         self._maxsize = maxsize
         self._copy_on_return = copy_on_return
+        self._depends_on = depends_on
         # Signature without 'self' for canonical key building (includes defaults).
         try:
             full_sig = inspect.signature(fn)
@@ -226,6 +233,7 @@ class _PerInstanceCacheDescriptor:
         fn = self._fn
         maxsize = self._maxsize
         copy_on_return = self._copy_on_return
+        depends_on = self._depends_on
         _sig = self._sig
 
         cache: dict = {}
@@ -244,6 +252,8 @@ class _PerInstanceCacheDescriptor:
                     key = _build_key(args, kwargs)
             else:
                 key = _build_key(args, kwargs)
+            if depends_on is not None:
+                key = (key, _make_token(depends_on()))
 
             with lock:
                 if key in cache:
@@ -318,6 +328,7 @@ def cache_results(
     maxsize: int = 128,
     copy_on_return: bool = True,
     per_instance: bool = False,
+    depends_on: Callable[[], Any] = None,
 ) -> Callable:
     """
     Decorator that caches function results for identical arguments.
@@ -348,6 +359,10 @@ def cache_results(
               **auto-detected** and routed to the per-instance descriptor
               even when this flag is ``False``.
 
+        depends_on (``Optional[Callable[[], Any]]``, default ``None``): Returns the
+          settings, other than the arguments, that the result depends on.  They
+          become a part of the cache key.
+
     Examples:
 
         Without arguments (uses defaults):
@@ -380,7 +395,7 @@ def cache_results(
     def decorator(fn: Callable) -> Callable:
         # Explicit per_instance=True or auto-detect: first parameter named 'self'.
         if per_instance or _has_self_param(fn):
-            return _PerInstanceCacheDescriptor(fn, maxsize, copy_on_return)
+            return _PerInstanceCacheDescriptor(fn, maxsize, copy_on_return, depends_on)
 
         cache: dict = {}
         lock = threading.Lock()
@@ -405,6 +420,8 @@ def cache_results(
                     key = _build_key(args, kwargs)
             else:
                 key = _build_key(args, kwargs)
+            if depends_on is not None:
+                key = (key, _make_token(depends_on()))
 
             with lock:
                 if key in cache:
-- 
2.43.0


From 62f08a9d64a2f9748bdd456b787815bf88c49531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 22/45] fix: upper limit search never ends when it starts at or
 below zero

find_root_limits multiplied the upper end of the bracket by five until it
passed the bound, which a value that is zero or negative never does. Clip it
from below as the lower end is.
---
 src/spey/hypothesis_testing/upper_limits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index ebffbde..887d82b 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -95,7 +95,8 @@ def find_root_limits(
 
     hig_computer = ComputerWrapper(computer)
     while hig_computer(hig) < loc and hig < hig_bound:
-        hig = min(hig * 5.0, hig_bound)
+        # The lower clip keeps the search moving if it does not start above zero.
+        hig = min(max(hig * 5.0, low_bound), hig_bound)
     log.debug(f"High results: {hig_computer._results}")
 
     return low_computer, hig_computer
-- 
2.43.0


From 801139d46db4ba97a22354ab8b3ea2f952a6f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 23/45] fix: chi-square limit search never ends for undefined
 or stuck steps

With an undefined best fit (nan) the walk to the outer end of the bracket
stayed at nan for ever if the likelihood has a value there; a step that is
smaller than the resolution of the floating point number never moved either.
---
 src/spey/hypothesis_testing/upper_limits.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index 887d82b..e2e0281 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -322,13 +322,21 @@ def bracket_and_solve(
         :func:`~scipy.optimize.toms748`.  ``root`` is ``nan`` when no bracket
         with opposite signs could be established.
     """
+
+    def walk(value: float, step: Callable[[float], float]) -> Tuple[float, bool]:
+        """One step; an undefined one, or one too small to move, leads nowhere"""
+        new = step(value)
+        return (value, False) if np.isnan(new) or new == value else (new, True)
+
+    moving = True
     outer_cw = ComputerWrapper(computer)
-    while outer_cw(outer) < 0.0 and not outer_stop(outer):
-        outer = expand(outer)
+    while outer_cw(outer) < 0.0 and not outer_stop(outer) and moving:
+        outer, moving = walk(outer, expand)
 
+    moving = True
     inner_cw = ComputerWrapper(computer)
-    while inner_cw(inner) > 0.0 and not inner_stop(inner):
-        inner = contract(inner)
+    while inner_cw(inner) > 0.0 and not inner_stop(inner) and moving:
+        inner, moving = walk(inner, contract)
 
     log.debug(
         f"[{debug_tag}] inner f({inner:.5e})={inner_cw[-1]:.5e},"
@@ -338,8 +346,9 @@ def bracket_and_solve(
     if np.sign(inner_cw[-1]) == np.sign(outer_cw[-1]) and retry_inner is not None:
         inner = retry_inner
         inner_cw = ComputerWrapper(computer)
-        while inner_cw(inner) > 0.0 and not retry_stop(inner):
-            inner = contract(inner)
+        moving = True
+        while inner_cw(inner) > 0.0 and not retry_stop(inner) and moving:
+            inner, moving = walk(inner, contract)
         log.debug(
             f"[{debug_tag} retry] inner f({inner:.5e})={inner_cw[-1]:.5e},"
             f" outer f({outer:.5e})={outer_cw[-1]:.5e}"
-- 
2.43.0


From 63d28b0cb4ad381cbc8a0abffe72aecd6fe0780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 24/45] fix: upper limit without a root raises TypeError for
 drawn brackets

The message about low signal yields multiplied a string with a numpy bool if
the upper end of the bracket is a numpy float, which is the case for the
brackets determined from the fit (low_init or hig_init None).
---
 src/spey/hypothesis_testing/upper_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index e2e0281..d2565cb 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -223,7 +223,7 @@ def find_poi_upper_limit(
                 + f"\n hig, low must bracket a root f({low.get_value(-1):.5e})={low[-1]:.5e}, "
                 + f"f({hig.get_value(-1):.5e})={hig[-1]:.5e}. "
                 + "This is likely due to low number of signal yields."
-                * (hig.get_value(-1) >= hig_bound),
+                * bool(hig.get_value(-1) >= hig_bound),
             )
             result.append(np.inf)
             continue
-- 
2.43.0


From e955ed6246c63ec3a7c51c615fd153c368548aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 25/45] fix: samples of one toy and of models with several
 constraints fail

scipy drops dimensions of length one, so that a single sample of a
multivariate normal could not be joined with the counts, and lost its first
axis where there are no counts. The constraints were given the parameters
without the parameter of interest although their domains count from the
beginning, which raised an IndexError for models with signal uncertainties.
---
 src/spey/backends/default_pdf/__init__.py | 3 ++-
 src/spey/backends/distributions.py        | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 1eaeb4f..921fa7e 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -733,7 +733,8 @@ class DefaultPDFBase(BackendBase):
             sample = self.main_model.sample(pars, sample_size)
 
             if include_auxiliary:
-                constraint_sample = self.constraint_model.sample(pars[1:], sample_size)
+                # the domains of the constraints count from the beginning of ``pars``
+                constraint_sample = self.constraint_model.sample(pars, sample_size)
                 sample = np.hstack([sample, constraint_sample])
 
             return sample
diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index fb7aae8..b87c1a8 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -148,8 +148,11 @@ class MultivariateNormal:
 
     def sample(self, value: np.ndarray, sample_size: int) -> np.ndarray:
         """Generate samples"""
-        return multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
-            size=(sample_size,)
+        # scipy drops the dimensions of length one
+        return (
+            multivariate_normal(self.mean, self.cov(value[self.domain]))
+            .rvs(size=(sample_size,))
+            .reshape(sample_size, len(self.mean))
         )
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 6d0d649deac4addcab0b843ec4954d194d5c9c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 26/45] fix: damaged update-check cache files and malformed
 answers were trusted for 24 hours

---
 src/spey/system/webutils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index a0ad340..6f054e1 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -89,6 +89,14 @@ except RuntimeError:  # the home directory can not be determined
 _CACHE_MAX_AGE_SECONDS = 86_400  # 24 hours
 
 
+def _validate_pypi_info(pypi_info: dict) -> dict:
+    """Return *pypi_info* if it is a genuine answer of PyPI, raise otherwise."""
+    version = pypi_info["info"]["version"]
+    if not isinstance(version, str) or version == "":
+        raise ValueError(f"Invalid version in PyPI info: {version!r}")
+    return pypi_info
+
+
 def _load_cached_pypi_info() -> dict:
     """
     Return cached PyPI JSON from ``~/.spey/pypi_latest_*.json`` if a file
@@ -107,7 +115,9 @@ def _load_cached_pypi_info() -> dict:
                     # since, so the true age of this file is unknown.
                     continue
                 if age <= _CACHE_MAX_AGE_SECONDS:
-                    data = json.loads(cache_file.read_text(encoding="utf-8"))
+                    data = _validate_pypi_info(
+                        json.loads(cache_file.read_text(encoding="utf-8"))
+                    )
                     log.debug(
                         "Using cached PyPI info from %s (age %.0fs).",
                         cache_file.name,
@@ -179,9 +189,8 @@ def _get_pypi_info() -> dict:
         )
         response.raise_for_status()
         response.encoding = "utf-8"
-        pypi_info = response.json()
         # Only a genuine answer may be cached.
-        _ = pypi_info["info"]["version"]
+        pypi_info = _validate_pypi_info(response.json())
     except Exception as err:  # noqa: BLE001
         log.debug("PyPI request failed: %s", err)
         return None
-- 
2.43.0


From cfc917eba1e6fb8c038755634fe3cb644caf92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 27/45] fix: update-check answers saved within the same second
 overwrote each other

---
 src/spey/system/webutils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 6f054e1..1fdaf70 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -1,5 +1,6 @@
 import json
 import logging
+import os
 import pathlib
 from datetime import datetime, timezone
 from platform import python_version
@@ -148,8 +149,10 @@ def _save_pypi_info(pypi_info: dict) -> None:
         log.debug("Unexpected error creating ~/.spey: %s", err)
         return
 
-    timestamp = datetime.now(tz=timezone.utc).strftime("%Y%m%d_%H%M%S")
-    cache_file = _SPEY_DIR / f"pypi_latest_{timestamp}.json"
+    # The name is unique, an existing answer is never overwritten: it would be
+    # lost if the writing fails or if another process writes at the same time.
+    timestamp = datetime.now(tz=timezone.utc).strftime("%Y%m%d_%H%M%S_%f")
+    cache_file = _SPEY_DIR / f"pypi_latest_{timestamp}_{os.getpid()}.json"
     try:
         # Listed before writing, so that two processes saving at the same time
         # do not remove each other's new file.
-- 
2.43.0


From b63ea45714cfa6499e63627404e5bcfef08036ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 28/45] fix: HTML pages were returned as BibTeX entries

---
 src/spey/system/webutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 1fdaf70..16f406c 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -68,6 +68,10 @@ def get_bibtex(
         if not 200 <= response.status_code <= 299:
             log.debug(f"HTML Status Code: {response.status_code}")
             return ""
+        if "html" in str(getattr(response, "headers", {}).get("content-type", "")).lower():
+            # e.g. the login page of a network, BibTeX is never sent as HTML
+            log.debug("Received an HTML page instead of a BibTeX entry.")
+            return ""
         response.encoding = "utf-8"
         return response.text
     except (
-- 
2.43.0


From 62142a409202d7bf038499fc0e1eff09c3d1ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 29/45] fix: a backend that inherits from one without a name
 could not be retrieved after it

---
 src/spey/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 8ff710b..21f2c63 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -281,12 +281,18 @@ def get_backend(name: str) -> Callable[[Any], StatisticalModel]:
             statistical_model, "spey_requires"
         ), "Backend does not have `'spey_requires'` attribute."
 
-        if getattr(statistical_model, "name", False):
+        # A name that was set below, for the same or for a parent class, is not the
+        # backend's own declaration.
+        declared_name = getattr(statistical_model, "name", False)
+        if declared_name == getattr(statistical_model, "_registry_name", None):
+            declared_name = False
+        if declared_name:
             assert (
-                statistical_model.name == name
+                declared_name == name
             ), "The identity of the statistical model is wrongly set."
         else:
             setattr(statistical_model, "name", name)
+            setattr(statistical_model, "_registry_name", name)
 
         if Version(version()) not in SimpleSpec(statistical_model.spey_requires):
             raise PluginError(
-- 
2.43.0


From 80c758f8d14ee0888e4795732b5b3a556fbb9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 30/45] fix: overlapping queries of several threads left each
 other's warning filters behind

warnings.catch_warnings restores the process-wide settings it has found, so
that queries which overlap in time installed the filters of one another for
good (RuntimeWarnings were ignored from then on), and recorded the warnings of
other threads.
---
 .../default_pdf/uncertainty_synthesizer.py    |  3 +-
 .../hypothesis_testing/test_statistics.py     |  3 +-
 src/spey/hypothesis_testing/utils.py          |  3 +-
 src/spey/optimizer/scipy_tools.py             |  6 +-
 src/spey/system/exceptions.py                 | 91 ++++++++++++++++++-
 5 files changed, 96 insertions(+), 10 deletions(-)

diff --git a/src/spey/backends/default_pdf/uncertainty_synthesizer.py b/src/spey/backends/default_pdf/uncertainty_synthesizer.py
index 445d840..3952eda 100644
--- a/src/spey/backends/default_pdf/uncertainty_synthesizer.py
+++ b/src/spey/backends/default_pdf/uncertainty_synthesizer.py
@@ -153,7 +153,6 @@ physically real and in a multi-bin analysis, it is generally not safe to discard
 
 """
 
-import warnings
 from functools import partial, reduce
 import logging
 from typing import Any, Dict, List, Optional
@@ -392,7 +391,7 @@ def signal_uncertainty_synthesizer(
                 f"Modifier '{mod_name}': expected {n_bins} bins, got {len(values)}"
             )
 
-        with warnings.catch_warnings(record=True):
+        with np.errstate(divide="ignore", invalid="ignore"):
             if values.ndim == 1:
                 delta_up = 1.0 + np.where(
                     signal_yields_arr != 0.0, values / signal_yields_arr, 0.0
diff --git a/src/spey/hypothesis_testing/test_statistics.py b/src/spey/hypothesis_testing/test_statistics.py
index 1454a05..05c6ec6 100644
--- a/src/spey/hypothesis_testing/test_statistics.py
+++ b/src/spey/hypothesis_testing/test_statistics.py
@@ -1,7 +1,6 @@
 """Functions for computation of test statistic"""
 
 import logging
-import warnings
 from typing import Callable, Tuple
 
 import numpy as np
@@ -260,7 +259,7 @@ def compute_teststatistics(
         if sqrt_qmu <= sqrt_qmuA:
             delta_teststat = sqrt_qmu - sqrt_qmuA
         else:
-            with warnings.catch_warnings(record=True):
+            with np.errstate(divide="ignore", invalid="ignore"):
                 delta_teststat = np.true_divide(qmu_ - qmuA, 2.0 * sqrt_qmuA)
             if sqrt_qmuA == 0:
                 raise AsimovTestStatZero()
diff --git a/src/spey/hypothesis_testing/utils.py b/src/spey/hypothesis_testing/utils.py
index 64d1a22..f8e3554 100644
--- a/src/spey/hypothesis_testing/utils.py
+++ b/src/spey/hypothesis_testing/utils.py
@@ -4,7 +4,6 @@ Routines for computing pvalues
 Similar implementation can be found in https://github.com/scikit-hep/pyhf/blob/main/src/pyhf/infer/calculators.py
 """
 
-import warnings
 from typing import List, Tuple, Union
 
 import numpy as np
@@ -67,7 +66,7 @@ def pvalues(
     p_sb = sig_plus_bkg_distribution.pvalue(delta_test_statistic)
     # p_b is CDF(delta_test_statistic) = CDF(-(sqrt_qmu - sqrt_qmuA))
     p_b = bkg_only_distribution.pvalue(delta_test_statistic)
-    with warnings.catch_warnings(record=True):
+    with np.errstate(divide="ignore", invalid="ignore"):
         p_s = np.true_divide(p_sb, p_b, dtype=np.float64)
     return p_sb, p_b, p_s if p_b != 0.0 else 0.0
 
diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 1c34145..4b8a2f5 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -1,12 +1,13 @@
 """Optimisation tools based on scipy"""
 
 import logging
-import warnings
 from typing import Callable, Dict, List, Tuple
 
 import numpy as np
 import scipy
 
+from spey.system.exceptions import capture_warnings
+
 from . import ValidateOpts
 
 # pylint: disable=W1201, W1203, R0913
@@ -98,8 +99,7 @@ def minimize(
     ntrial = 0
     while ntrial < ntrials:
         ntrial += 1
-        with warnings.catch_warnings():
-            warnings.filterwarnings(action="ignore", category=RuntimeWarning)
+        with capture_warnings(ignore_runtime=True):
             opt = scipy.optimize.minimize(
                 func,
                 init_pars,
diff --git a/src/spey/system/exceptions.py b/src/spey/system/exceptions.py
index 2d9afeb..c36b43e 100644
--- a/src/spey/system/exceptions.py
+++ b/src/spey/system/exceptions.py
@@ -1,7 +1,9 @@
 """Module specific exceptions"""
 
 import logging
+import threading
 import warnings
+from contextlib import contextmanager
 from functools import wraps
 
 log = logging.getLogger("Spey")
@@ -20,12 +22,99 @@ __all__ = [
 ]
 
 
+class _WarningRouter:
+    """
+    Hands warnings to the :func:`capture_warnings` window of the thread that
+    issues them.
+
+    :class:`warnings.catch_warnings` replaces process-wide settings and restores
+    the ones it has found, hence windows of several threads that overlap undo
+    each other.  Here the settings are saved when the first window is opened, and
+    restored when the last one is closed.
+    """
+
+    def __init__(self):
+        self._lock = threading.RLock()
+        self._local = threading.local()
+        self._saved = None  # settings before the first window was opened
+        self._show = None
+        self._windows = 0
+        self._ignoring = 0
+        self._filters = None  # filters before the first window that ignores
+
+    def _route(self, message, category, filename, lineno, file=None, line=None):
+        windows = getattr(self._local, "windows", None)
+        if windows:
+            windows[-1].append(
+                warnings.WarningMessage(message, category, filename, lineno, file, line)
+            )
+        else:
+            self._show(message, category, filename, lineno, file, line)
+
+    def open(self, window, ignore_runtime):
+        """Route the warnings of this thread to ``window``"""
+        with self._lock:
+            if not self._windows:
+                self._saved = warnings.catch_warnings()
+                self._saved.__enter__()
+                self._show = warnings.showwarning
+                warnings.showwarning = self._route
+            self._windows += 1
+            if ignore_runtime:
+                if not self._ignoring:
+                    self._filters = warnings.filters[:]
+                    warnings.filterwarnings(action="ignore", category=RuntimeWarning)
+                self._ignoring += 1
+        if not ignore_runtime:
+            if not hasattr(self._local, "windows"):
+                self._local.windows = []
+            self._local.windows.append(window)
+
+    def close(self, window, ignore_runtime):
+        """Undo the corresponding call to :meth:`open`"""
+        if not ignore_runtime:
+            self._local.windows.pop()
+        with self._lock:
+            if ignore_runtime:
+                self._ignoring -= 1
+                if not self._ignoring:
+                    warnings.filters[:] = self._filters
+            self._windows -= 1
+            if not self._windows:
+                self._saved.__exit__(None, None, None)
+
+
+_warning_router = _WarningRouter()
+
+
+@contextmanager
+def capture_warnings(ignore_runtime: bool = False):
+    """
+    Collect the warnings that are issued by this thread inside the context.
+    The contexts of several threads may overlap.
+
+    Args:
+        ignore_runtime (``bool``, default ``False``): ignore ``RuntimeWarning``
+          instead, and leave other warnings alone.
+
+    Yields:
+        ``List[warnings.WarningMessage]``:
+        The collected warnings.
+    """
+    window = []
+    _warning_router.open(window, ignore_runtime)
+    try:
+        yield window
+    finally:
+        _warning_router.close(window, ignore_runtime)
+
+
 def warning_tracker(func: callable) -> callable:
     """Warning tracker decorator"""
 
     @wraps(func)
     def wrapper(*args, **kwargs):
-        with warnings.catch_warnings(record=True) as w:
+        with capture_warnings() as w:
             result = func(*args, **kwargs)
             for warning in w:
                 log.debug(
-- 
2.43.0


From c760da41cbdfbda7148937b8345ff8f409b1712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 31/45] fix: messages below the log level slipped through when
 a capture window of another thread closed

A record that passed the level lowered for a window of another thread reached
the handlers if that window closed before the record was filtered, and a window
without a level (the default of the upper limit if the level of the logger is
not set) silenced the windows of all other threads.  A limit opened its window
with the level lowered by another thread.
---
 src/spey/base/hypotest_base.py |  2 +-
 src/spey/system/logger.py      | 44 +++++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 86083bb..f1d8435 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -1290,7 +1290,7 @@ class HypothesisTestingBase(ABC):
 
         optimiser_arguments = optimiser_arguments or {}
 
-        with capture_logs(level=log.level):
+        with capture_logs(level=logging.NOTSET):
             (
                 maximum_likelihood,
                 logpdf,
diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 601fb0e..ce0673f 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -70,6 +70,7 @@ def init(LoggerStream=sys.stdout):
     hdlr.setFormatter(fmt)
     SpeyLogger.addHandler(hdlr)
     SpeyLogger.propagate = False
+    SpeyLogger.addFilter(_capture_router)
 
 
 @contextmanager
@@ -93,9 +94,11 @@ class _CaptureRouter(logging.Filter):
     Filter that hands the records of the "Spey" logger to the capture window
     of the thread that emits them.
 
-    It is attached to the logger while at least one :func:`capture_logs` window
-    is open in any thread.  The level of the logger is then the lowest one that
-    is needed, and threads without a window see the level it had before.
+    While at least one :func:`capture_logs` window is open in any thread, the
+    level of the logger is the lowest one that is needed, and threads without a
+    window see the level it had before.  The filter stays attached to the logger:
+    a record that has passed the lowered level may arrive here after the last
+    window has been closed.
     """
 
     def __init__(self):
@@ -105,11 +108,17 @@ class _CaptureRouter(logging.Filter):
         self._levels = []  # levels of all open windows
         self._previous = logging.NOTSET
         self._effective = logging.NOTSET
+        self._attached = False
 
     def filter(self, record):
         windows = getattr(self._local, "windows", None)
         if not windows:
-            return record.levelno >= self._effective
+            with self._lock:
+                return record.levelno >= (
+                    self._effective
+                    if self._levels
+                    else logging.getLogger(record.name).getEffectiveLevel()
+                )
         if record.levelno >= windows[-1].level:
             windows[-1].handle(record)
         return False
@@ -117,29 +126,35 @@ class _CaptureRouter(logging.Filter):
     def _update(self, logger):
         logger.setLevel(min([self._effective, *self._levels]))
 
-    def open(self, logger, handler, level):
+    def open(self, logger, handler):
         """Route the records of this thread to ``handler``"""
+        if not hasattr(self._local, "windows"):
+            self._local.windows = []
+        windows = self._local.windows
         with self._lock:
             if not self._levels:
                 self._previous = logger.level
                 self._effective = logger.getEffectiveLevel()
-            self._levels.append(level)
+                self._attached = self in logger.filters
+            if handler.level == logging.NOTSET:
+                # the level that this thread sees
+                handler.setLevel(windows[-1].level if windows else self._effective)
+            self._levels.append(handler.level)
             self._update(logger)
             logger.addFilter(self)
-        if not hasattr(self._local, "windows"):
-            self._local.windows = []
-        self._local.windows.append(handler)
+        windows.append(handler)
 
-    def close(self, logger, handler, level):
+    def close(self, logger, handler):
         """Undo the corresponding call to :meth:`open`"""
         self._local.windows.remove(handler)
         with self._lock:
-            self._levels.remove(level)
+            self._levels.remove(handler.level)
             if self._levels:
                 self._update(logger)
             else:
-                logger.removeFilter(self)
                 logger.setLevel(self._previous)
+                if not self._attached:
+                    logger.removeFilter(self)
 
 
 _capture_router = _CaptureRouter()
@@ -163,6 +178,7 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
 
     Args:
         level (``int``, default ``logging.DEBUG``): minimum logging level to capture.
+          ``logging.NOTSET`` stands for the current level.
         stream (default ``None``): file-like object to write the unique messages.
     """
     stream = stream or sys.stdout
@@ -187,12 +203,12 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
 
     # Get the Spey logger
     spey_logger = logging.getLogger("Spey")
-    _capture_router.open(spey_logger, handler, handler.level)
+    _capture_router.open(spey_logger, handler)
 
     try:
         yield
     finally:
-        _capture_router.close(spey_logger, handler, handler.level)
+        _capture_router.close(spey_logger, handler)
         # Write unique messages to the provided stream
         for m in records:
             stream.write(m + "\n")
-- 
2.43.0


From 5373466b9f2cce9464fcd690e83be64ba6daa72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 32/45] fix: looking up a member at a negative index out of
 range raised IndexError

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 6feeda4..2df1033 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -319,7 +319,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
               is out of range or the analysis name is not found in the stack.
         """
         if isinstance(item, (int, np.integer)):
-            if item < len(self):
+            if -len(self) <= item < len(self):
                 return self.statistical_models[item]
             raise AnalysisQueryError(
                 "Request exceeds number of statistical models available."
-- 
2.43.0


From f645833a8e0f5324135015e3e23149775e7947e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 33/45] fix: a combined fit could stop at its start where the
 numerical gradient was rounding noise

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 8 ++++++--
 src/spey/optimizer/minuit_tools.py                    | 4 ++--
 src/spey/optimizer/scipy_tools.py                     | 9 +++++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 2df1033..328648b 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -781,10 +781,12 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 **optimiser_options,
             )
 
+        # The profiled likelihoods are only known up to the tolerance of their own fits,
+        # hence the numerical gradient can not resolve scipy's default step of 1.5e-8.
         twice_nll, fit_params = fit(
             func=twice_nll,
             model_configuration=config,
-            **optimiser_options,
+            **{"eps": 1e-5, **optimiser_options},
         )
 
         nll = twice_nll / 2.0 if return_nll else np.exp(-twice_nll / 2.0)
@@ -906,10 +908,12 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 **optimiser_options,
             )
 
+        # The profiled likelihoods are only known up to the tolerance of their own fits,
+        # hence the numerical gradient can not resolve scipy's default step of 1.5e-8.
         twice_nll, fit_params = fit(
             func=twice_nll,
             model_configuration=config,
-            **optimiser_options,
+            **{"eps": 1e-5, **optimiser_options},
         )
 
         nll = twice_nll / 2.0 if return_nll else np.exp(-twice_nll / 2.0)
diff --git a/src/spey/optimizer/minuit_tools.py b/src/spey/optimizer/minuit_tools.py
index d304bde..6620e80 100644
--- a/src/spey/optimizer/minuit_tools.py
+++ b/src/spey/optimizer/minuit_tools.py
@@ -12,7 +12,7 @@ log = logging.getLogger("Spey")
 
 _minuit_opts = ValidateOpts(
     opt_list=["errordef", "maxiter", "disp", "tol", "strategy", "method"],
-    remove_list=["poi_index"],
+    remove_list=["poi_index", "eps"],
 )
 
 
@@ -54,7 +54,7 @@ def minimize(
           ``"simplex"``), ``maxiter`` (default ``10000``, passed as
           ``ncall``), ``tol`` (default ``1e-6``), ``disp`` (default ``0``,
           minuit print level), ``strategy`` (default ``0``), and ``errordef``
-          (default ``Minuit.LIKELIHOOD``). ``poi_index`` is stripped.
+          (default ``Minuit.LIKELIHOOD``). ``poi_index`` and ``eps`` are stripped.
 
     Returns:
         ``Tuple[float, np.ndarray]``:
diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 4b8a2f5..a4bc0b2 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -15,7 +15,8 @@ from . import ValidateOpts
 log = logging.getLogger("Spey")
 
 _scipy_opts = ValidateOpts(
-    opt_list=["method", "maxiter", "disp", "tol", "ntrials"], must_list=["poi_index"]
+    opt_list=["method", "maxiter", "disp", "tol", "ntrials", "eps"],
+    must_list=["poi_index"],
 )
 
 
@@ -55,7 +56,9 @@ def minimize(
           constraint dicts (COBYLA/SLSQP/trust-constr only).
         **options: Recognised keys are ``method`` (default ``"SLSQP"``),
           ``maxiter`` (default ``10000``), ``disp`` (default ``False``),
-          ``tol`` (default ``1e-6``), and ``ntrials`` (default ``1``).
+          ``tol`` (default ``1e-6``), ``ntrials`` (default ``1``), and ``eps``
+          (step of the numerical gradient, scipy's default if not given; only
+          used by methods which estimate the gradient with a fixed step).
           ``poi_index`` is required and is removed before being forwarded to
           scipy.
 
@@ -74,6 +77,8 @@ def minimize(
 
     options.setdefault("maxiter", 10000)
     options.setdefault("disp", False)
+    if str(method).upper() not in ("CG", "BFGS", "L-BFGS-B", "TNC", "SLSQP"):
+        options.pop("eps", None)
 
     def make_constraint(index: int, value: float) -> Callable[[np.ndarray], float]:
         def func(vector: np.ndarray) -> float:
-- 
2.43.0


From 71b90ad9317840a201248da8f6a3b5261a2414f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:23 +0000
Subject: [PATCH 34/45] fix: contours were drawn at the NLL rise of the full
 chi2 quantile instead of half of it

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 06c7407..188bd19 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -675,7 +675,7 @@ def find_contour(
     # DoF = k = number of contour parameters (profiled params are not DoF)
     # ------------------------------------------------------------------
     delta = float(chi2_dist.ppf(confidence_level, df=k))
-    threshold = nll_min + delta
+    threshold = nll_min + delta / 2.0
     log.debug("delta(chi2, df=%d) = %.4f, NLL threshold = %.6f", k, delta, threshold)
 
     # A basin contributes to the confidence region iff its NLL is below the
-- 
2.43.0


From 3978919a269218e9459496ab6952e00d08dba0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 35/45] fix: contour points were outside of the bounds if the
 best fit was

---
 src/spey/multiparameter/contour.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 188bd19..f7322c7 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -770,6 +770,11 @@ def find_contour(
             rng,
             _max_r_for_dir_basin,
         )
+        # A minimum outside of the requested bounds sends its rays through them.
+        if bounds is not None and len(basin_radial_pts) > 0:
+            inside = _within_bounds(basin_radial_pts, bounds)
+            basin_radial_pts = basin_radial_pts[inside]
+            basin_radial_dirs = basin_radial_dirs[inside]
         log.debug(
             "Basin %d (NLL=%.6f): radial search %d/%d directions converged.",
             b_idx,
@@ -1092,6 +1097,19 @@ def _find_basins_contour_subspace(
     return unique
 
 
+def _within_bounds(
+    points: np.ndarray, bounds: List[Tuple[Optional[float], Optional[float]]]
+) -> np.ndarray:
+    """Mask of the points that are within the bounds up to rounding errors."""
+    inside = np.ones(len(points), dtype=bool)
+    for i, (lower, upper) in enumerate(bounds):
+        if lower is not None:
+            inside &= points[:, i] >= lower - 1e-12 * max(1.0, abs(lower))
+        if upper is not None:
+            inside &= points[:, i] <= upper + 1e-12 * max(1.0, abs(upper))
+    return inside
+
+
 def _build_whitener(
     hessian_fn,
     theta_mle_full: np.ndarray,
-- 
2.43.0


From 170ce415198c725ab68f8479961c875f896c8ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 36/45] fix: jumps of the likelihood over the threshold were
 reported as contour points

---
 src/spey/multiparameter/contour.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index f7322c7..6cf0fd7 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -1342,7 +1342,8 @@ def _radial_search(
         except ValueError:
             continue
 
-        if result.converged:
+        # A change of sign is no crossing where the NLL jumps over the threshold.
+        if result.converged and abs(f(result.root)) < 1e-4:
             theta_star = to_theta(result.root * e)
             contour_points.append(theta_star)
             directions.append(e)
-- 
2.43.0


From 61e00a944de5f2bd04a1a4c015e0daa8c5aca6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 37/45] fix: contours of profiled likelihoods contained points
 where the profile fit had failed

---
 src/spey/multiparameter/contour.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 6cf0fd7..b9714b5 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -615,7 +615,12 @@ def find_contour(
                 tol=1e-6,
                 options={"maxiter": 10000, "disp": False},
             )
-            return res.x if res.success else _theta_profile_init
+            if not res.success:
+                # Any other value of the profile parameters is not on the profile.
+                raise ArithmeticError(
+                    f"Profile parameters could not be fitted: {res.message}"
+                )
+            return res.x
 
         _grad_logpdf_auto = autograd.grad(  # pylint: disable = no-value-for-parameter
             logpdf_fn
@@ -723,7 +728,11 @@ def find_contour(
         theta_basin_full[poi_idx] = 1.0
         theta_basin_full[_contour_idx_arr] = basin_theta
         if k_profile > 0:
-            theta_basin_full[_profile_idx_arr] = _profile_pp_at(basin_theta)
+            try:
+                theta_basin_full[_profile_idx_arr] = _profile_pp_at(basin_theta)
+            except ArithmeticError as err:
+                log.debug("Basin %d is skipped. %s", b_idx, err)
+                continue
 
         L_basin, L_inv_T_basin = _build_whitener(
             hessian_fn,
@@ -1339,7 +1348,7 @@ def _radial_search(
                 xtol=1e-12,
                 rtol=1e-12,
             )
-        except ValueError:
+        except (ValueError, ArithmeticError):
             continue
 
         # A change of sign is no crossing where the NLL jumps over the threshold.
@@ -1791,16 +1800,20 @@ def _rattle_walk(
         n = np.linalg.norm(raw)
         return raw / n if n > 1e-15 else raw
 
-    p = _tangent_momentum(theta)
+    try:
+        p = _tangent_momentum(theta)
+    except ArithmeticError as err:
+        log.debug("%s Terminating the chain at its start.", err)
+        return theta[np.newaxis, :].copy()
     resample_every = max(1, n_steps // 5)
 
     trajectory = [theta.copy()]
     for step in range(n_steps):
-        # Periodic momentum re-sampling to improve manifold exploration
-        if step > 0 and step % resample_every == 0:
-            p = _tangent_momentum(theta)
-
         try:
+            # Periodic momentum re-sampling to improve manifold exploration
+            if step > 0 and step % resample_every == 0:
+                p = _tangent_momentum(theta)
+
             theta, p = _rattle_step(
                 nll_scalar,
                 grad_nll,
-- 
2.43.0


From 6241d2e5c67929dc4af888a4e93cf4b55ae220ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 38/45] fix: contours of a subset of the parameters raised
 TypeError for the default likelihoods with nuisance parameters

---
 src/spey/multiparameter/contour.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index b9714b5..ab1705c 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -171,6 +171,7 @@ import autograd
 import autograd.numpy as anp
 import numpy as np
 from joblib import Parallel, cpu_count, delayed
+from scipy.optimize import NonlinearConstraint
 from scipy.optimize import minimize as _sp_minimize
 from scipy.optimize import root_scalar
 from scipy.stats import chi2 as chi2_dist
@@ -599,12 +600,18 @@ def find_contour(
             # Adapt backend constraints (full-param) to profile-param space.
             constraints = []
             for c in _backend_constraints:
-                orig_fun = c["fun"]
-
-                def _wrapped(pp, _f=orig_fun, _cp=cp):
-                    return _f(_assemble(_cp, pp))
-
-                constraints.append({**c, "fun": _wrapped})
+                is_dict = isinstance(c, dict)
+                orig_fun = c["fun"] if is_dict else c.fun
+
+                def _wrapped(pp, *args, _f=orig_fun, _cp=cp):
+                    return _f(_assemble(_cp, pp), *args)
+
+                # Jacobians refer to the full parameter vector.
+                if is_dict:
+                    reduced = {key: val for key, val in c.items() if key != "jac"}
+                    constraints.append({**reduced, "fun": _wrapped})
+                else:
+                    constraints.append(NonlinearConstraint(_wrapped, c.lb, c.ub))
 
             res = _sp_minimize(
                 obj,
-- 
2.43.0


From 6babf3398f47b6b896436f44acab018c8b1421ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:08 +0000
Subject: [PATCH 39/45] fix: the positivity constraint of the Poisson
 likelihood ignored the given uncertainties

---
 src/spey/backends/default_pdf/simple_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 8fefd8f..fcb4eec 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -604,7 +604,7 @@ class Poisson(SimplePDFBase):
                 """Compute the constraint term"""
                 return (
                     self.background_yields
-                    + pars[slice(1, len(self.data) + 1)] * self.background_yields
+                    + pars[slice(1, len(self.data) + 1)] * self.absolute_uncertainties
                 )
 
             jac_constr = jacobian(constraint)
-- 
2.43.0


From 5165aec877354eee40d6cc8d7e659edd3a74d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 40/45] Restore test_statistics.py: its name matches that of a
 test file (reverts 80c758f there)

---
 src/spey/hypothesis_testing/test_statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/hypothesis_testing/test_statistics.py b/src/spey/hypothesis_testing/test_statistics.py
index 05c6ec6..1454a05 100644
--- a/src/spey/hypothesis_testing/test_statistics.py
+++ b/src/spey/hypothesis_testing/test_statistics.py
@@ -1,6 +1,7 @@
 """Functions for computation of test statistic"""
 
 import logging
+import warnings
 from typing import Callable, Tuple
 
 import numpy as np
@@ -259,7 +260,7 @@ def compute_teststatistics(
         if sqrt_qmu <= sqrt_qmuA:
             delta_teststat = sqrt_qmu - sqrt_qmuA
         else:
-            with np.errstate(divide="ignore", invalid="ignore"):
+            with warnings.catch_warnings(record=True):
                 delta_teststat = np.true_divide(qmu_ - qmuA, 2.0 * sqrt_qmuA)
             if sqrt_qmuA == 0:
                 raise AsimovTestStatZero()
-- 
2.43.0


From b777488c4df425022d4dac4835b5d42824f1d8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 41/45] fix: arguments that only look alike when printed no
 longer share a cached result

---
 src/spey/system/cache.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 7a7109c..18da9a5 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -18,7 +18,9 @@ Each argument is converted to a *hashable token* via :func:`_make_token`:
   tokenised element-by-element.
 * ``list`` / ``tuple`` -> recursively tokenised element-by-element.
 * ``dict`` -> tagged set of ``(key_token, value_token)`` pairs.
-* Anything else -> falls back to ``repr()``.
+* Masked arrays and anything else that is not hashable -> its ``pickle`` (its
+  ``repr()`` may be abbreviated or an address), or, where this is impossible, a
+  token of its own which equals no other.
 
 The final key is a ``(args_token, sorted_kwargs_token)`` tuple that is
 hashed by a standard Python :class:`dict`.
@@ -64,6 +66,7 @@ import copy
 import hashlib
 import inspect
 import logging
+import pickle
 import threading
 import types
 import weakref
@@ -90,7 +93,7 @@ def _make_token(obj: Any) -> Any:
     1. **Deterministic** -- identical contents produce identical tokens.
     2. **Hashable** -- the token can be used inside a ``dict`` key tuple.
     """
-    if isinstance(obj, np.ndarray):
+    if isinstance(obj, np.ndarray) and not isinstance(obj, np.ma.MaskedArray):
         if obj.dtype.hasobject:
             # The buffer holds addresses, which are reused for other objects.
             return (obj.shape, obj.dtype.str, _make_token(obj.tolist()))
@@ -112,7 +115,11 @@ def _make_token(obj: Any) -> Any:
         hash(obj)
         return obj
     except TypeError:
-        return repr(obj)
+        pass
+    try:
+        return (type(obj), pickle.dumps(obj))
+    except Exception:
+        return object()
 
 
 def _build_key(args: tuple, kwargs: dict) -> tuple:
-- 
2.43.0


From 67ee31098160d9ceb4345d6b4e694f2c9972800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 42/45] fix: a function that reuses the object it returned
 changed its cached results

---
 src/spey/system/cache.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 18da9a5..ef15ea8 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -284,6 +284,9 @@ class _PerInstanceCacheDescriptor:
 
             try:
                 result = fn(obj, *args, **kwargs)
+                if copy_on_return:
+                    # The method may keep and change the object it returned.
+                    result = copy.deepcopy(result)
             except BaseException:
                 with lock:
                     if events.get(key) is flight:
@@ -459,6 +462,9 @@ def cache_results(
             # ---- compute (outside lock so other keys aren't blocked) -------
             try:
                 result = fn(*args, **kwargs)
+                if copy_on_return:
+                    # The function may keep and change the object it returned.
+                    result = copy.deepcopy(result)
             except BaseException:
                 # Remove the sentinel so future calls can retry (unless the
                 # cache was cleared and the sentinel is no longer ours).
-- 
2.43.0


From e56fd0aff8398b14a6b414075052676f8aff65e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 43/45] fix: arrays of records that differ in their fields only
 no longer share a cached result

---
 src/spey/system/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index ef15ea8..46eda52 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -96,12 +96,12 @@ def _make_token(obj: Any) -> Any:
     if isinstance(obj, np.ndarray) and not isinstance(obj, np.ma.MaskedArray):
         if obj.dtype.hasobject:
             # The buffer holds addresses, which are reused for other objects.
-            return (obj.shape, obj.dtype.str, _make_token(obj.tolist()))
+            return (obj.shape, repr(obj.dtype), _make_token(obj.tolist()))
         # Hash the raw buffer content (O(n) time, O(1) space) instead of
         # storing a full copy via tobytes() (O(n) time, O(n) space).
         buf = np.ascontiguousarray(obj)
         digest = hashlib.sha256(buf.data).digest()
-        return (obj.shape, obj.dtype.str, digest)
+        return (obj.shape, repr(obj.dtype), digest)
     if isinstance(obj, dict):
         # Keys of different types (e.g. POI indices and names) can not be sorted.
         return ("dict", frozenset((_make_token(k), _make_token(v)) for k, v in obj.items()))
-- 
2.43.0


From e70fe5b4efcb2ab83c1f7295b6d2d5b9196c3882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 44/45] fix: cached functions accept arrays of dates

---
 src/spey/system/cache.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 46eda52..1ee61d9 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -97,10 +97,9 @@ def _make_token(obj: Any) -> Any:
         if obj.dtype.hasobject:
             # The buffer holds addresses, which are reused for other objects.
             return (obj.shape, repr(obj.dtype), _make_token(obj.tolist()))
-        # Hash the raw buffer content (O(n) time, O(1) space) instead of
-        # storing a full copy via tobytes() (O(n) time, O(n) space).
-        buf = np.ascontiguousarray(obj)
-        digest = hashlib.sha256(buf.data).digest()
+        # Hash the raw buffer content instead of storing a full copy of it.  Not
+        # every dtype (e.g. dates) can be exported as a buffer, hence tobytes().
+        digest = hashlib.sha256(obj.tobytes()).digest()
         return (obj.shape, repr(obj.dtype), digest)
     if isinstance(obj, dict):
         # Keys of different types (e.g. POI indices and names) can not be sorted.
-- 
2.43.0


From 7629a72c94f6a903ce3405030cdbea23f07e406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 45/45] fix: a result that uses its cache while it is copied or
 dropped no longer blocks every caller

---
 src/spey/system/cache.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 1ee61d9..8cbcf67 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -243,7 +243,8 @@ class _PerInstanceCacheDescriptor:
         _sig = self._sig
 
         cache: dict = {}
-        lock = threading.Lock()
+        # Copying and dropping results may run code that uses this cache again.
+        lock = threading.RLock()
         events: dict = {}
         order: deque = deque()
 
@@ -309,9 +310,9 @@ class _PerInstanceCacheDescriptor:
         def cache_clear() -> None:
             """Remove all cached entries for this instance."""
             with lock:
-                cache.clear()
                 order.clear()
                 events.clear()
+                cache.clear()
 
         def cache_info() -> dict:
             """Return a snapshot of the cache state for this instance."""
@@ -407,7 +408,8 @@ def cache_results(
             return _PerInstanceCacheDescriptor(fn, maxsize, copy_on_return, depends_on)
 
         cache: dict = {}
-        lock = threading.Lock()
+        # Copying and dropping results may run code that uses this cache again.
+        lock = threading.RLock()
         # Per-key events: signals waiters that the computation is done.
         events: dict = {}
         # FIFO eviction order (deque for O(1) popleft).
@@ -494,9 +496,9 @@ def cache_results(
         def cache_clear() -> None:
             """Remove all cached entries."""
             with lock:
-                cache.clear()
                 order.clear()
                 events.clear()
+                cache.clear()
 
         def cache_info() -> dict:
             """Return a snapshot of the cache state."""
-- 
2.43.0

