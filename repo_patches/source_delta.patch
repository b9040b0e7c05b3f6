From 075ecae4c76620eb1c78990b8ddff841dbfbca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 01/46] fix: result cache keeps in-flight computations through
 eviction and clear

---
 src/spey/system/cache.py | 70 ++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index e744fbd..f2a4761 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -265,10 +265,9 @@ class _PerInstanceCacheDescriptor:
                         return copy.deepcopy(value) if copy_on_return else value
                     event = events[key]
                 else:
-                    event = threading.Event()
-                    events[key] = event
+                    own_event = threading.Event()
+                    events[key] = own_event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None
 
             if event is not None:
@@ -282,23 +281,24 @@ class _PerInstanceCacheDescriptor:
                 result = fn(obj, *args, **kwargs)
             except BaseException:
                 with lock:
-                    if cache.get(key) is _COMPUTING:
-                        del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()
+                    # The marker is gone if the cache was cleared in the meantime.
+                    if events.get(key) is own_event:
+                        del cache[key], events[key]
+                own_event.set()
                 raise
 
             with lock:
-                cache[key] = result
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()
+                if events.get(key) is own_event:
+                    cache[key] = result
+                    del events[key]
+                    # ``order`` lists completed entries only, hence an in-flight
+                    # computation is never evicted.
+                    order.append(key)
+                    if maxsize is not None:
+                        while len(order) > maxsize:
+                            oldest = order.popleft()
+                            cache.pop(oldest, None)
+            own_event.set()
 
             return copy.deepcopy(result) if copy_on_return else result
 
@@ -430,10 +430,9 @@ def cache_results(
                     event = events[key]
                 else:
                     # First caller for this key -- mark it as in-flight.
-                    event = threading.Event()
-                    events[key] = event
+                    own_event = threading.Event()
+                    events[key] = own_event
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None  # signals "I am the computing thread"
 
             if event is not None:
@@ -452,25 +451,26 @@ def cache_results(
             except BaseException:
                 # Remove the sentinel so future calls can retry.
                 with lock:
-                    if cache.get(key) is _COMPUTING:
-                        del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()  # wake up waiters
+                    # The marker is gone if the cache was cleared in the meantime.
+                    if events.get(key) is own_event:
+                        del cache[key], events[key]
+                own_event.set()  # wake up waiters
                 raise
 
             # ---- store result (under lock) ---------------------------------
             with lock:
-                cache[key] = result
-                # Evict oldest entries if maxsize is exceeded.
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()  # wake up any waiting threads
+                if events.get(key) is own_event:
+                    cache[key] = result
+                    del events[key]
+                    # ``order`` lists completed entries only, hence an in-flight
+                    # computation is never evicted.
+                    order.append(key)
+                    # Evict oldest entries if maxsize is exceeded.
+                    if maxsize is not None:
+                        while len(order) > maxsize:
+                            oldest = order.popleft()
+                            cache.pop(oldest, None)
+            own_event.set()  # wake up any waiting threads
 
             return copy.deepcopy(result) if copy_on_return else result
 
-- 
2.43.0


From 8fda71c9a51d9be07cd8d8a8802649a105ecb6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 02/46] fix: result cache accepts mappings with mixed key types
 and keeps them apart from sequences

---
 src/spey/system/cache.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index f2a4761..389f90f 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -96,7 +96,12 @@ def _make_token(obj: Any) -> Any:
         digest = hashlib.sha256(buf.data).digest()
         return (obj.shape, obj.dtype.str, digest)
     if isinstance(obj, dict):
-        return tuple(sorted((_make_token(k), _make_token(v)) for k, v in obj.items()))
+        # Unordered and tagged: keys may be of different (non-comparable) types, and a
+        # mapping must not be confused with a sequence of pairs.
+        return (
+            "mapping",
+            frozenset((_make_token(k), _make_token(v)) for k, v in obj.items()),
+        )
     if isinstance(obj, (list, tuple)):
         return tuple(_make_token(item) for item in obj)
     if isinstance(obj, (set, frozenset)):
-- 
2.43.0


From c7e7fcd89998d74d2789411143f4dcb3d144fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 03/46] fix: cached methods keep one cache per instance under
 super(), copies and concurrent first use

---
 src/spey/system/cache.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 389f90f..89e923e 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -140,10 +140,10 @@ class _PerInstanceCacheDescriptor:
 
     On the first ``instance.method`` attribute lookup the descriptor builds a
     dedicated cached callable whose internal cache storage is private to that
-    instance.  The wrapper is stored in ``instance.__dict__[method_name]``
-    so that Python's attribute-lookup rules (instance dict beats non-data
-    descriptor) bypass the descriptor on all subsequent accesses -- zero
-    overhead after the first call.
+    instance.  The wrapper is stored in ``instance.__dict__`` under a name
+    private to this descriptor and is only used for the instance it was built
+    for: overridden methods reached through ``super()`` and copies of the
+    instance get caches of their own.
 
     For classes that use ``__slots__`` without ``__dict__``, the descriptor
     falls back to a descriptor-level mapping keyed by ``id(obj)``.  If the
@@ -177,7 +177,7 @@ class _PerInstanceCacheDescriptor:
             self._sig = inspect.Signature(params)
         except (ValueError, TypeError):
             self._sig = None
-        # Method name used as the instance-dict key; updated by __set_name__.
+        # Method name, part of the instance-dict key; updated by __set_name__.
         self._name: str = fn.__name__
         # Propagate function metadata so the descriptor looks like the original.
         self.__wrapped__ = fn
@@ -202,13 +202,15 @@ class _PerInstanceCacheDescriptor:
             inst_dict = obj.__dict__
         except AttributeError:
             return self._get_fallback(obj)
-        wrapper = inst_dict.get(self._name)
-        if wrapper is None:
-            wrapper = self._build_wrapper(obj)
-            # Storing under the method name makes subsequent lookups land in
-            # the instance dict directly (non-data descriptor rule), so the
-            # descriptor overhead is paid exactly once per instance.
-            inst_dict[self._name] = wrapper
+        slot = f"_cached:{self._fn.__module__}.{self.__qualname__}:{self._name}"
+        wrapper = inst_dict.get(slot)
+        if wrapper is None or wrapper.instance is not obj:
+            # One wrapper per instance, also if several threads arrive at once.
+            with self._fallback_lock:
+                wrapper = inst_dict.get(slot)
+                if wrapper is None or wrapper.instance is not obj:
+                    wrapper = self._build_wrapper(obj)
+                    inst_dict[slot] = wrapper
         return wrapper
 
     def _get_fallback(self, obj: Any) -> Callable:
@@ -327,6 +329,7 @@ class _PerInstanceCacheDescriptor:
         wrapper.cache_clear = cache_clear
         wrapper.cache_info = cache_info
         wrapper.get_cache = get_cache
+        wrapper.instance = obj
         return wrapper
 
 
-- 
2.43.0


From ddbaa87631e13f3e738d7ffd265867e70fe40881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 04/46] fix: upper limits accept the expectation type by its
 documented name

---
 src/spey/hypothesis_testing/upper_limits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index ebffbde..62550da 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -173,7 +173,7 @@ def find_poi_upper_limit(
         "1sigma",
         "2sigma",
     ], f"Unknown pvalue range {expected_pvalue}"
-    if expected is ExpectationType.observed:
+    if expected == ExpectationType.observed:
         expected_pvalue = "nominal"
     test_stat = "q" if allow_negative_signal else "qtilde"
 
@@ -201,7 +201,7 @@ def find_poi_upper_limit(
 
     result = []
     index_range = {
-        "nominal": [0 if expected is ExpectationType.observed else 2],
+        "nominal": [0 if expected == ExpectationType.observed else 2],
         "1sigma": range(1, 4),
         "2sigma": range(0, 5),
     }
-- 
2.43.0


From 5bc84eb95a3ed3274877229a4b8062afb452ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 05/46] fix: chi2 scans keep double precision

---
 src/spey/base/hypotest_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 86083bb..709ae1b 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -633,7 +633,7 @@ class HypothesisTestingBase(ABC):
                         )
                         for p in poi_test
                     ),
-                    np.float32,
+                    np.float64,
                 )
         if isinstance(poi_test, dict):
             scan_list = [
@@ -641,7 +641,7 @@ class HypothesisTestingBase(ABC):
             ]
             if len(scan_list) == 1:
                 poi_list = np.atleast_1d(poi_test[scan_list[0]])
-                llhd = np.empty(len(poi_list), dtype=np.float32)
+                llhd = np.empty(len(poi_list), dtype=np.float64)
                 with capture_logs(logging.INFO) as _:
                     current_poi_test = poi_test.copy()
                     for i, param in enumerate(poi_list):
-- 
2.43.0


From d1dbd7f4edb868ef0ae65fdcd918dcc424bd1072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 06/46] fix: chi2_test brackets the endpoints around the best
 fit on coarse scans

---
 src/spey/base/hypotest_base.py | 1 +
 src/spey/base/utils.py         | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 709ae1b..a27baba 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -1637,6 +1637,7 @@ class HypothesisTestingBase(ABC):
                 xtol=xtol,
                 rtol=rtol,
                 maxiter=maxiter,
+                anchor=reference,
             )
             left_found = any(r < reference - 1e-12 for r in roots_sorted)
             right_found = any(r > reference + 1e-12 for r in roots_sorted)
diff --git a/src/spey/base/utils.py b/src/spey/base/utils.py
index dd2bc62..614adc2 100644
--- a/src/spey/base/utils.py
+++ b/src/spey/base/utils.py
@@ -1,4 +1,4 @@
-from typing import Callable, List, Tuple, Union
+from typing import Callable, List, Optional, Tuple, Union
 import logging
 import numpy as np
 
@@ -139,6 +139,7 @@ def _enumerate_crossings_1d(
     xtol: float = 2e-12,
     rtol: float = 1e-4,
     maxiter: int = 10000,
+    anchor: Optional[float] = None,
 ) -> List[float]:
     r"""
     Return **every** root of a 1D scalar function on ``[lo, hi]``.
@@ -161,6 +162,8 @@ def _enumerate_crossings_1d(
             feature is narrower than ``(hi-lo)/(n_scan-1)`` the feature may
             be skipped.
         xtol, rtol, maxiter: Forwarded to the inner root-finder.
+        anchor: Extra grid point, typically the minimum of ``f``, so that the
+            crossings that enclose it are bracketed however coarse the grid is.
 
     Returns:
         ``List[float]`` — sorted, deduplicated root list (possibly empty).
@@ -172,6 +175,9 @@ def _enumerate_crossings_1d(
     n_scan = max(3, int(n_scan))
 
     xs = np.linspace(float(lo), float(hi), n_scan)
+    if anchor is not None and lo < anchor < hi:
+        xs = np.unique(np.append(xs, float(anchor)))
+        n_scan = len(xs)
     fs = np.full(n_scan, np.nan, dtype=float)
     for i, x in enumerate(xs):
         try:
-- 
2.43.0


From 4b775455a8dafd79c43063208b71b58038fa6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:47 +0000
Subject: [PATCH 07/46] fix: Poisson likelihoods accept explicit data given as
 a list of floats

---
 src/spey/backends/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index cd34f2e..27ec41d 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -46,7 +46,8 @@ class Poisson:
     def log_prob(self, value: np.ndarray) -> np.ndarray:
         """Compute log-probability"""
         # for code efficiency
-        if np.array(value).dtype in [np.int32, np.int16, np.int64]:
+        value = np.array(value)
+        if value.dtype in [np.int32, np.int16, np.int64]:
             return logpmf(value, self.loc).astype(np.float64)
 
         return (value * np.log(self.loc) - self.loc - gammaln(value + 1.0)).astype(
-- 
2.43.0


From f9049eda9b494c845a4967468572eb06796303b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 08/46] fix: hypothesis tests accept any real number as tested
 value

---
 src/spey/base/hypotest_base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index a27baba..ebf99ae 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -21,6 +21,7 @@ import logging
 from abc import ABC, abstractmethod
 from collections.abc import Iterable
 from functools import partial
+from numbers import Real
 from typing import Any, Callable, Dict, List, Literal, Optional, Tuple, Union
 
 import numpy as np
@@ -796,14 +797,14 @@ class HypothesisTestingBase(ABC):
 
         def logpdf(mu: Union[float, np.ndarray]) -> float:
             return -self.likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if isinstance(mu, Real) else mu[0],
                 expected=expected,
                 **kwargs,
             )
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if isinstance(mu, Real) else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -889,7 +890,7 @@ class HypothesisTestingBase(ABC):
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=mu if isinstance(mu, float) else mu[0],
+                poi_test=float(mu) if isinstance(mu, Real) else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -985,7 +986,7 @@ class HypothesisTestingBase(ABC):
             ) -> float:
                 """Compute logpdf with respect to poi and given data"""
                 return -self.likelihood(
-                    poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                    poi_test=float(mu) if isinstance(mu, Real) else mu[0],
                     expected=expected,
                     data=data,
                     **kwargs,
-- 
2.43.0


From 708d1456c17d423f345f61c00212bc68554ffeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 09/46] fix: pull accepts the documented collections and
 mappings and vanishes at the best fit

---
 src/spey/base/hypotest_base.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index ebf99ae..b4f2d1a 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -713,11 +713,27 @@ class HypothesisTestingBase(ABC):
             ``float``:
             value of pull.
         """
-        muhat, min_nll = self.maximize_likelihood(
-            expected=expected, allow_negative_signal=allow_negative_signal, **kwargs
-        )
+        if isinstance(poi_test, Iterable) and not isinstance(poi_test, dict):
+            return np.array(
+                [self.pull(p, expected, allow_negative_signal, **kwargs) for p in poi_test]
+            )
+        if isinstance(poi_test, dict):
+            # the sign follows the first parameter of the mapping
+            param, value = next(iter(poi_test.items()))
+            best, min_nll = self.maximize_likelihood(
+                expected=expected,
+                allow_negative_signal=allow_negative_signal,
+                poi_indices=[param],
+                **kwargs,
+            )
+            muhat = best[param]
+        else:
+            value = poi_test
+            muhat, min_nll = self.maximize_likelihood(
+                expected=expected, allow_negative_signal=allow_negative_signal, **kwargs
+            )
         llhd = self.likelihood(poi_test=poi_test, expected=expected, **kwargs)
-        return np.sign(muhat - poi_test) * np.sqrt(2.0 * (llhd - min_nll))
+        return np.sign(muhat - value) * np.sqrt(np.clip(2.0 * (llhd - min_nll), 0.0, None))
 
     def _prepare_for_hypotest(
         self,
-- 
2.43.0


From dc5fde89e326405c0785a28ff3b1f36ac1763dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 10/46] fix: sigma_mu follows the documented Asimov formula for
 every test statistic

---
 src/spey/base/hypotest_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index b4f2d1a..4f20287 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -914,7 +914,9 @@ class HypothesisTestingBase(ABC):
 
         qmuA = teststat_func(poi_test, muhatA, -min_nllA, logpdf_asimov)
 
-        return 1.0 if qmuA <= 0.0 else np.true_divide(poi_test, np.sqrt(qmuA))
+        # the discovery statistic tests zero signal whatever the value of poi_test is
+        mu = 0.0 if test_statistics == "q0" else poi_test
+        return 1.0 if qmuA <= 0.0 else np.true_divide(abs(mu - muhatA), np.sqrt(qmuA))
 
     @warning_tracker
     def exclusion_confidence_level(
-- 
2.43.0


From b9935124cb51650b4710691d923e886bb53ad356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 11/46] fix: available calculators reflect what the backend
 implements

---
 src/spey/interface/statistical_model.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 19b7384..d7c9584 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -212,6 +212,14 @@ class StatisticalModel(HypothesisTestingBase):
         """Retreive model configuration"""
         return self.backend.config
 
+    def _backend_implements(self, method: str) -> bool:
+        """Whether the backend overrides the given :class:`~spey.BackendBase` method."""
+        implementation = getattr(self.backend, method)
+        # Bound methods never compare equal to the plain function of the base class.
+        return getattr(implementation, "__func__", implementation) is not getattr(
+            BackendBase, method
+        )
+
     @property
     def is_asymptotic_calculator_available(self) -> bool:
         """
@@ -228,11 +236,9 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the asymptotic calculator is available.
         """
-        return self.backend.expected_data != BackendBase.expected_data or (
-            self.backend.asimov_negative_loglikelihood
-            != BackendBase.asimov_negative_loglikelihood
-            and self.backend.minimize_asimov_negative_loglikelihood
-            != BackendBase.minimize_asimov_negative_loglikelihood
+        return self._backend_implements("expected_data") or (
+            self._backend_implements("asimov_negative_loglikelihood")
+            and self._backend_implements("minimize_asimov_negative_loglikelihood")
         )
 
     @property
@@ -246,7 +252,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the toy calculator is available.
         """
-        return self.backend.get_sampler != BackendBase.get_sampler
+        return self._backend_implements("get_sampler")
 
     @property
     def is_chi_square_calculator_available(self) -> bool:
-- 
2.43.0


From 8110c497ce3574803199accf80caee9481436c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 12/46] fix: fits write fixed values and backend constraints
 into copies of the given lists

---
 src/spey/interface/statistical_model.py | 2 +-
 src/spey/optimizer/core.py              | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index d7c9584..e78e9a6 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -423,7 +423,7 @@ class StatisticalModel(HypothesisTestingBase):
                 expected=expected, data=data, do_grad=do_grad
             )
 
-        constraints = kwargs.pop("constraints", [])
+        constraints = list(kwargs.pop("constraints", None) or [])
         if hasattr(self.backend, "constraints"):
             for constraint in self.backend.constraints:
                 constraints.append(constraint)
diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index c7fe0cb..0415acd 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -94,6 +94,8 @@ def fit(
         if isinstance(initial_parameters, (list, tuple, np.ndarray))
         else model_configuration.suggested_init
     )
+    # fixed values are written into a copy: the list belongs to the caller or the backend
+    init_pars = list(init_pars)
 
     if bounds is not None:
         par_bounds = [*bounds]
-- 
2.43.0


From b455f0aa450c442613d953d1f3dd27f08a71d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 13/46] fix: results of a backend's own likelihood routines are
 returned in the requested form

---
 src/spey/interface/statistical_model.py | 81 ++++++++++++++++++-------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index e78e9a6..c36a97b 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -378,6 +378,57 @@ class StatisticalModel(HypothesisTestingBase):
             return poi_test
         return self.backend.config().resolve_poi_indices(poi_test)
 
+    @staticmethod
+    def _native_likelihood(
+        native: Union[float, Tuple[float, np.ndarray]],
+        return_nll: bool,
+        return_parameters: bool = False,
+    ) -> Union[float, Tuple[float, np.ndarray]]:
+        """Bring a backend's own ``nll`` or ``(nll, pars)`` into the requested form."""
+        nll, *pars = native if isinstance(native, (tuple, list)) else (native,)
+        out = nll if return_nll else np.exp(-nll)
+        return (out, *pars) if return_parameters else out
+
+    def _native_maximum(
+        self,
+        native: Tuple,
+        return_nll: bool,
+        poi_indices: Optional[List[Union[int, str]]],
+    ) -> Tuple[Union[float, Dict[Union[int, str], float]], float]:
+        """
+        Bring a backend's own minimum into the requested form. Backends return ``(nll, pars)``
+        with all the fit parameters; ``(muhat, nll)`` is accepted as well.
+        """
+        first, second = native
+        if np.ndim(second) == 1:
+            muhat, nll = self._select_parameters(second, poi_indices), first
+        else:
+            muhat, nll = first, second
+        return muhat, nll if return_nll else np.exp(-nll)
+
+    def _select_parameters(
+        self,
+        fit_param: np.ndarray,
+        poi_indices: Optional[List[Union[int, str]]],
+    ) -> Union[float, Dict[Union[int, str], float]]:
+        """Pick the parameter of interest or the requested parameters from a fit."""
+        config = self.backend.config()
+        if poi_indices is None:
+            return fit_param[config.poi_index]
+
+        result: Dict[Union[int, str], float] = {}
+        for key in poi_indices:
+            if isinstance(key, str):
+                if config.parameter_names is None:
+                    raise ValueError(
+                        "Cannot resolve POI name: parameter_names not set in ModelConfig."
+                    )
+                idx = config.parameter_names.index(key)
+            else:
+                idx = int(key)
+            result[key] = float(fit_param[idx])
+        return result
+
     def prepare_for_fit(
         self,
         data: Optional[Union[List[float], np.ndarray]] = None,
@@ -532,7 +583,7 @@ class StatisticalModel(HypothesisTestingBase):
             Likelihood of the statistical model at a fixed signal strength.
         """
         try:
-            return self.backend.negative_loglikelihood(
+            native = self.backend.negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 data=data,
@@ -541,6 +592,7 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            return self._native_likelihood(native, return_nll, return_parameters)
         except NotImplementedError:
             log.debug(
                 "Backend does not implement negative_loglikelihood(), "
@@ -780,7 +832,7 @@ class StatisticalModel(HypothesisTestingBase):
             likelihood computed for asimov data
         """
         try:
-            return self.backend.asimov_negative_loglikelihood(
+            native = self.backend.asimov_negative_loglikelihood(
                 poi_test=poi_test,
                 expected=expected,
                 test_statistics=test_statistics,
@@ -788,6 +840,7 @@ class StatisticalModel(HypothesisTestingBase):
                 par_bounds=par_bounds,
                 **kwargs,
             )
+            return self._native_likelihood(native, return_nll)
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `asimov_negative_loglikelihood()`, "
@@ -914,7 +967,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_negative_loglikelihood(
+            native = self.backend.minimize_negative_loglikelihood(
                 expected=expected,
                 allow_negative_signal=allow_negative_signal,
                 data=data,
@@ -923,6 +976,7 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            return self._native_maximum(native, return_nll, poi_indices)
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_negative_loglikelihood()`, "
@@ -945,23 +999,7 @@ class StatisticalModel(HypothesisTestingBase):
         log.debug(f"fit parameters:\n\t {fit_param}")
 
         nll = -logpdf if return_nll else np.exp(logpdf)
-        if poi_indices is None:
-            muhat = fit_param[self.backend.config().poi_index]
-            return muhat, nll
-
-        config = self.backend.config()
-        result: Dict[Union[int, str], float] = {}
-        for key in poi_indices:
-            if isinstance(key, str):
-                if config.parameter_names is None:
-                    raise ValueError(
-                        "Cannot resolve POI name: parameter_names not set in ModelConfig."
-                    )
-                idx = config.parameter_names.index(key)
-            else:
-                idx = int(key)
-            result[key] = float(fit_param[idx])
-        return result, nll
+        return self._select_parameters(fit_param, poi_indices), nll
 
     @cache_results(maxsize=128, copy_on_return=True, per_instance=True)
     def maximize_asimov_likelihood(  # pylint: disable = arguments-renamed
@@ -1081,7 +1119,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``{index_or_name: fitted_value}`` and the (negative) log-likelihood.
         """
         try:
-            return self.backend.minimize_asimov_negative_loglikelihood(
+            native = self.backend.minimize_asimov_negative_loglikelihood(
                 expected=expected,
                 test_statistics=test_statistics,
                 init_pars=init_pars,
@@ -1089,6 +1127,7 @@ class StatisticalModel(HypothesisTestingBase):
                 poi_indices=poi_indices,
                 **kwargs,
             )
+            return self._native_maximum(native, return_nll, poi_indices)
         except NotImplementedError:
             log.debug(
                 "Backend does not implement `minimize_asimov_negative_loglikelihood()`, "
-- 
2.43.0


From 8a1ea74968f7d41c63f7b638a79e320b1fd6b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 14/46] fix: registered backends can be built and queried like
 installed ones

---
 src/spey/__init__.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 129d39a..1f7e1a0 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -269,11 +269,8 @@ def get_backend(name: str) -> Callable[[Any], StatisticalModel]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = (
-            backend
-            if isinstance(backend, (BackendBase, ConverterBase))
-            else backend.load()
-        )
+        # registered models are stored as classes, installed ones as entry points
+        statistical_model = backend if isinstance(backend, type) else backend.load()
 
         assert hasattr(
             statistical_model, "spey_requires"
@@ -348,7 +345,7 @@ def get_backend_metadata(name: str) -> Dict[str, Any]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = backend.load()
+        statistical_model = backend if isinstance(backend, type) else backend.load()
         return {
             "name": getattr(statistical_model, "name", "__unknown_model__"),
             "author": getattr(statistical_model, "author", "__unknown_author__"),
-- 
2.43.0


From 88a75c0809b8df376353fbc3bf153d4ceb8b211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 15/46] fix: bounds of fixed parameters stay ordered and
 contain the fixed value

---
 src/spey/base/model_config.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 65043b9..269f4d4 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -75,15 +75,7 @@ class ModelConfig:
         """
         if poi_value is None:
             return self.suggested_bounds
-        bounds = copy.deepcopy(self.suggested_bounds)
-        if any(b is None for b in bounds[self.poi_index]):
-            return bounds
-        if not bounds[self.poi_index][0] < poi_value < bounds[self.poi_index][1]:
-            bounds[self.poi_index] = (
-                self.minimum_poi if poi_value < 0.0 else 0.0,
-                max([poi_value + 1, self.minimum_poi if poi_value < 0.0 else 0.0]),
-            )
-        return bounds
+        return self.fixed_poi_bounds_multi({self.poi_index: poi_value})
 
     def resolve_poi_indices(
         self,
@@ -142,13 +134,20 @@ class ModelConfig:
             return self.suggested_bounds
         bounds = copy.deepcopy(self.suggested_bounds)
         for idx, val in poi_values.items():
-            if any(b is None for b in bounds[idx]):
+            lower, upper = bounds[idx]
+            if (lower is None or lower < val) and (upper is None or val < upper):
                 continue
-            if not bounds[idx][0] < val < bounds[idx][1]:
-                bounds[idx] = (
-                    self.minimum_poi if val < 0.0 else 0.0,
-                    val + 1,
-                )
+            if idx == self.poi_index:
+                # the signal strength can not go below its physical minimum
+                new_lower = self.minimum_poi if val < 0.0 else 0.0
+                new_upper = max(val + 1, new_lower)
+            else:
+                new_lower = val - 1 if lower is None else min(lower, val - 1)
+                new_upper = val + 1 if upper is None else max(upper, val + 1)
+            bounds[idx] = (
+                None if lower is None else new_lower,
+                None if upper is None else new_upper,
+            )
         return bounds
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
-- 
2.43.0


From 691ad8ce6a214fc3512d54eada49bad9fa208e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 16/46] fix: rescaled bounds without upper bound keep the
 suggested one

---
 src/spey/base/model_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 269f4d4..fc2a338 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -178,7 +178,7 @@ class ModelConfig:
             Updated bounds.
         """
         bounds = copy.deepcopy(self.suggested_bounds)
-        if poi_upper_bound:
+        if poi_upper_bound is not None:
             bounds[self.poi_index] = (
                 self.minimum_poi if allow_negative_signal else 0.0,
                 poi_upper_bound,
@@ -186,6 +186,6 @@ class ModelConfig:
         else:
             bounds[self.poi_index] = (
                 self.minimum_poi if allow_negative_signal else 0.0,
-                bounds[self.poi_index],
+                bounds[self.poi_index][1],
             )
         return bounds
-- 
2.43.0


From c9c30f97a8051409c00206b5306a8dc91a34b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 17/46] fix: parameters are renamed simultaneously, or not at
 all

---
 src/spey/base/model_config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index fc2a338..de521da 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -152,14 +152,14 @@ class ModelConfig:
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
         """Change the parameter names"""
-        new_names = []
-        for old, new in name_map.items():
-            if old not in self.parameter_names:
+        for old in name_map:
+            if old not in (self.parameter_names or []):
                 raise ValueError(f"Parameter '{old}' does not exist.")
-            if new in new_names:
-                raise ValueError("Each name has to be unique.")
-            new_names.append(new)
-            self.parameter_names[self.parameter_names.index(old)] = new
+        new_names = [name_map.get(name, name) for name in self.parameter_names or []]
+        if len(set(new_names)) != len(new_names):
+            raise ValueError("Each name has to be unique.")
+        if self.parameter_names is not None:
+            self.parameter_names[:] = new_names
 
     def rescale_poi_bounds(
         self, allow_negative_signal: bool = True, poi_upper_bound: Optional[float] = None
-- 
2.43.0


From cf3e0f26028507ee7fcedbe0df5c757711e2b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 18/46] fix: retried fits widen open-sided and negative bounds
 without shrinking them

---
 src/spey/optimizer/scipy_tools.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 6e99af2..aa3832f 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -119,11 +119,13 @@ def minimize(
             log.warning("Optimiser has not been able to satisfy all the conditions:")
             log.warning(opt.message + " Expanding the bounds...")
             init_pars = list(opt.x)
-            for bdx, bound in enumerate(bounds):
-                if bdx == poi_index:
-                    bounds[bdx] = (bound[0], bound[1] * 2.0)
-                else:
-                    bounds[bdx] = (min(bound[0], bound[0] * 10.0), bound[1] * 10.0)
+            for bdx, (lower, upper) in enumerate(bounds or []):
+                factor = 2.0 if bdx == poi_index else 10.0
+                if lower is not None and bdx != poi_index:
+                    lower = min(lower, lower * factor)
+                if upper is not None:
+                    upper = max(upper, upper * factor)
+                bounds[bdx] = (lower, upper)
         elif opt.success:
             break
 
-- 
2.43.0


From f35030d49c297c9b7bbcea4f61934d189e37229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 19/46] fix: merge_correlated_bins refuses overlapping groups
 as documented

---
 src/spey/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index 61a02b0..b22c553 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -185,7 +185,7 @@ def merge_correlated_bins(
     N = covariance_matrix.shape[0]
 
     # Flatten merge_groups and find missing indices
-    merged_indices = sorted({i for g in merge_groups for i in g})
+    merged_indices = sorted(i for g in merge_groups for i in g)
     assert len(set(merged_indices)) == len(
         merged_indices
     ), "Overlapping indices in merge_groups"
-- 
2.43.0


From 677fe95e605854d00089e3bac91667196feccfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 20/46] fix: Poisson positivity constraint uses the
 uncertainties as documented

---
 src/spey/backends/default_pdf/simple_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 8fefd8f..fcb4eec 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -604,7 +604,7 @@ class Poisson(SimplePDFBase):
                 """Compute the constraint term"""
                 return (
                     self.background_yields
-                    + pars[slice(1, len(self.data) + 1)] * self.background_yields
+                    + pars[slice(1, len(self.data) + 1)] * self.absolute_uncertainties
                 )
 
             jac_constr = jacobian(constraint)
-- 
2.43.0


From f7d119fe53d669776ae47d859390bab17e679635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 21/46] fix: find_most_sensitive returns the model instead of
 raising

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index d765803..2dbf692 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -378,7 +378,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
             :class:`~spey.StatisticalModel`:
             The model with the minimum value of :attr:`~spey.StatisticalModel.s95exp`.
         """
-        return self[np.argmin([model.s95exp for model in self])]
+        return self[int(np.argmin([model.s95exp for model in self]))]
 
     def likelihood(
         self,
-- 
2.43.0


From 5a1c84852dafc9a2c349fd54dc7b5548e6c7e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 22/46] fix: combiner refuses out of range negative indices as
 documented

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 2dbf692..4fb6808 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -319,7 +319,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
               is out of range or the analysis name is not found in the stack.
         """
         if isinstance(item, int):
-            if item < len(self):
+            if -len(self) <= item < len(self):
                 return self.statistical_models[item]
             raise AnalysisQueryError(
                 "Request exceeds number of statistical models available."
-- 
2.43.0


From 8882a7440dff779686b93b906a6e38a4aef68962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 23/46] fix: logger initialisation replaces every previous
 handler

---
 src/spey/system/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 43218eb..5a0b0cc 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -62,7 +62,7 @@ def init(LoggerStream=sys.stdout):
     # we need to replace all root loggers by ma5 loggers for a proper
     # interface with madgraph5
     SpeyLogger = logging.getLogger("Spey")
-    for hdlr in SpeyLogger.handlers:
+    for hdlr in list(SpeyLogger.handlers):
         SpeyLogger.removeHandler(hdlr)
     hdlr = logging.StreamHandler(LoggerStream)
     fmt = ColoredFormatter("%(message)s")
-- 
2.43.0


From 75d54403f090166b45f604709099542b434c924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 24/46] fix: coloured formatting leaves the log record
 unchanged

---
 src/spey/system/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 5a0b0cc..613fc40 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -1,4 +1,5 @@
 """Logging style for spey"""
+import copy
 import logging
 import sys
 from contextlib import contextmanager
@@ -36,6 +37,8 @@ class ColoredFormatter(logging.Formatter):
         else:  # ANYTHING ELSE
             color = "\x1b[0mSpey: "
 
+        # other handlers see the same record
+        record = copy.copy(record)
         record.msg = color + str(record.msg) + "\x1b[0m"
         return logging.Formatter.format(self, record)
 
-- 
2.43.0


From 7c017d8c6c29ebd5feb92f56a6237c765e2024b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 25/46] fix: only valid answers of the update check are
 remembered and reused

---
 src/spey/system/webutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 5ba082a..af46649 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -101,6 +101,8 @@ def _load_cached_pypi_info() -> dict:
                 age = now - cache_file.stat().st_mtime
                 if age <= _CACHE_MAX_AGE_SECONDS:
                     data = json.loads(cache_file.read_text(encoding="utf-8"))
+                    if not isinstance(data, dict):
+                        raise ValueError("not a valid PyPI record")
                     log.debug(
                         "Using cached PyPI info from %s (age %.0fs).",
                         cache_file.name,
@@ -166,8 +168,11 @@ def _get_pypi_info() -> dict:
             timeout=1,
             stream=False,
         )
+        response.raise_for_status()
         response.encoding = "utf-8"
         pypi_info = response.json()
+        if not isinstance(pypi_info, dict):
+            raise ValueError("Unexpected answer from PyPI.")
     except Exception as err:  # noqa: BLE001
         log.debug("PyPI request failed: %s", err)
         return None
-- 
2.43.0


From 7dc2f6a1604417228d01020ec23f14bb4bdcf155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 26/46] fix: configuration with another upper bound keeps
 negative signals when allowed

---
 src/spey/backends/default_pdf/__init__.py   | 3 ++-
 src/spey/backends/default_pdf/simple_pdf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 1eaeb4f..31a6423 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -431,7 +431,8 @@ class DefaultPDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + self._config.suggested_bounds[1:],
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + self._config.suggested_bounds[1:],
             parameter_names=self._config.parameter_names,
         )
 
diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index fcb4eec..d691c8c 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -265,7 +265,8 @@ class SimplePDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + extra_bounds,
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + extra_bounds,
             parameter_names=self._config.parameter_names,
         )
 
-- 
2.43.0


From 80d11471d51cc1f133c1cac7ce19829012eb53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 27/46] fix: constraint terms are sampled with the full
 parameter vector

---
 src/spey/backends/default_pdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 31a6423..5acbbcd 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -734,7 +734,7 @@ class DefaultPDFBase(BackendBase):
             sample = self.main_model.sample(pars, sample_size)
 
             if include_auxiliary:
-                constraint_sample = self.constraint_model.sample(pars[1:], sample_size)
+                constraint_sample = self.constraint_model.sample(pars, sample_size)
                 sample = np.hstack([sample, constraint_sample])
 
             return sample
-- 
2.43.0


From ba706e8106161c4009cb74c856d65ef38281d118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 28/46] fix: multivariate normal samples keep their shape for
 one sample or one bin

---
 src/spey/backends/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 27ec41d..580d7ec 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -148,9 +148,11 @@ class MultivariateNormal:
 
     def sample(self, value: np.ndarray, sample_size: int) -> np.ndarray:
         """Generate samples"""
-        return multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
+        sample = multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
             size=(sample_size,)
         )
+        # scipy drops dimensions of length one
+        return np.reshape(sample, (sample_size, len(self.mean)))
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
         """Compute log-probability"""
-- 
2.43.0


From 3aa47ec30b16ab7091147d303f45216749c2dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 29/46] fix: parameter dependent covariances keep
 log-determinants below zero

---
 src/spey/backends/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 580d7ec..15a408d 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -126,9 +126,7 @@ class MultivariateNormal:
 
         if callable(cov):
             self._inv_cov = lambda val: np.linalg.inv(cov(val))
-            self._logdet_cov = lambda val: np.clip(
-                np.linalg.slogdet(cov(val))[1], 1e-20, None
-            )
+            self._logdet_cov = lambda val: np.linalg.slogdet(cov(val))[1]
         else:
             # for code efficiency
             inv = np.linalg.inv(cov)
-- 
2.43.0


From 7ca640c40912c0ad6c587ab7ff4d46d5248a00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 30/46] fix: constraint distribution names are case insensitive
 as validated

---
 src/spey/backends/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 15a408d..5959234 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -276,7 +276,7 @@ class ConstraintModel:
             ], f"Unknown distribution type: {desc['distribution_type']}"
             log.debug(f"{desc}")
             self._pdfs.append(
-                distributions[desc["distribution_type"]](
+                distributions[desc["distribution_type"].lower()](
                     *desc.get("args", []), **desc.get("kwargs", {})
                 )
             )
-- 
2.43.0


From 82009201ad39e47e1c66ba99c24807c4a4c432cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 31/46] fix: contours lie at half the chi-square quantile above
 the best fit as documented

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index f6bbf79..d6719d8 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -675,7 +675,7 @@ def find_contour(
     # DoF = k = number of contour parameters (profiled params are not DoF)
     # ------------------------------------------------------------------
     delta = float(chi2_dist.ppf(confidence_level, df=k))
-    threshold = nll_min + delta
+    threshold = nll_min + delta / 2.0
     log.debug("delta(chi2, df=%d) = %.4f, NLL threshold = %.6f", k, delta, threshold)
 
     # A basin contributes to the confidence region iff its NLL is below the
-- 
2.43.0


From c92083aed32452e174d92c4302b7df44ce0d2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:05 +0000
Subject: [PATCH 32/46] fix: contours start from the best fit inside the
 requested bounds

---
 src/spey/multiparameter/contour.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index d6719d8..212ad1e 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -482,7 +482,10 @@ def find_contour(
     # ------------------------------------------------------------------
     logpdf_fn = stat_model.backend.get_logpdf_func()
 
-    theta_mle_all, nll_min = _find_mle(stat_model, all_signal_indices)
+    par_bounds = list(cfg_bounds)
+    for idx, bound in zip(contour_indices, bounds):
+        par_bounds[idx] = bound
+    theta_mle_all, nll_min = _find_mle(stat_model, all_signal_indices, par_bounds)
     log.debug("MLE all signal params = %s, NLL_min = %.6f", theta_mle_all, nll_min)
 
     # Map global indices → positions within all_signal_indices
@@ -935,6 +938,7 @@ def find_contour(
 def _find_mle(
     stat_model,
     signal_indices: List[int],
+    par_bounds: Optional[List[Tuple[Optional[float], Optional[float]]]] = None,
 ) -> Tuple[np.ndarray, float]:
     r"""
     Find the MLE of the signal parameters with :math:`\mu` fixed at **1**.
@@ -966,6 +970,7 @@ def _find_mle(
     signal_dict, nll_min = stat_model.maximize_likelihood(
         poi_indices=signal_indices,
         return_nll=True,
+        par_bounds=par_bounds,
         fixed_poi_value=1.0,  # fixes pars[poi_idx]=1; flows to fit()
     )
     theta_mle = np.array([signal_dict[i] for i in signal_indices], dtype=float)
-- 
2.43.0


From 49cc833a8a45fed808d1ba7a0421916ef213b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 33/46] fix: chi-square of a combination accepts the arguments
 of the common interface

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 4fb6808..aa668be 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -452,7 +452,8 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         nll = 0.0
         for statistical_model in self:
 
-            current_kwargs = {}
+            # options of a model take precedence over the common ones
+            current_kwargs = dict(kwargs)
             current_kwargs.update(
                 statistical_model_options.get(str(statistical_model.backend_type), {})
             )
@@ -464,7 +465,6 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                     expected=expected,
                     data=current_data,
                     **current_kwargs,
-                    **kwargs,
                 )
             except NegativeExpectedYields as err:
                 warnings.warn(
@@ -645,6 +645,7 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         par_bounds: Optional[List[Tuple[float, float]]] = None,
         statistical_model_options: Optional[Dict[str, Dict]] = None,
         poi_indices: Optional[List[Union[int, str]]] = None,
+        init_pars: Optional[List[float]] = None,
         **optimiser_options,
     ) -> Tuple[Union[float, Dict[Union[int, str], float]], float]:
         r"""
@@ -708,6 +709,8 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
               returned :math:`\hat\mu` is wrapped in a dictionary keyed by the entries
               of this list (useful when downstream code expects a mapping of POI names
               to values).
+            init_pars (``List[float]``, default ``None``): Initial parameters of the fit, i.e.
+              ``[initial_muhat_value]``. Ignored if ``initial_muhat_value`` is given.
             **optimiser_options: Additional keyword arguments forwarded to the
               :func:`~spey.optimizer.core.fit` routine.
 
@@ -721,6 +724,10 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         statistical_model_options = statistical_model_options or {}
         data = data or {}
 
+        # the combination has a single parameter, hence its initial value is that of muhat
+        if initial_muhat_value is None and init_pars is not None:
+            initial_muhat_value = init_pars[0]
+
         # muhat initial value estimation in gaussian limit
         mu_init = initial_muhat_value or 0.0
         if initial_muhat_value is None:
-- 
2.43.0


From 7a67f76c1027e59b16d42446346c025bc1dac47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 34/46] fix: leaving a log capture restores exactly the
 handlers found on entry

---
 src/spey/system/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 613fc40..e096fae 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -154,7 +154,9 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
         except Exception:
             pass
     finally:
-        spey_logger.removeHandler(handler)
+        # handlers attached inside the context are not kept either
+        for h in list(spey_logger.handlers):
+            spey_logger.removeHandler(h)
         spey_logger.setLevel(prev_level)
         spey_logger.propagate = prev_propagate
         # Restore original handlers
-- 
2.43.0


From 770513bec4e5f0c9de892a20b4142e48377aad69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 35/46] fix: merging bins refuses indices that are not bins

---
 src/spey/helper_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index b22c553..d389e34 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -159,6 +159,7 @@ def merge_correlated_bins(
         AssertionError:
           * If the lengths of the input arrays do not match or if the covariance matrix is not square.
           * If there are overlapping indices in ``merge_groups``.
+          * If ``merge_groups`` includes an index that does not correspond to a bin.
           * If the lengths of ``data``, ``background_yields``, and ``signal_yields`` do not match.
           * If the covariance matrix is not square.
           * If the lengths of ``data``, ``background_yields``, and ``signal_yields`` do not match.
@@ -191,6 +192,7 @@ def merge_correlated_bins(
     ), "Overlapping indices in merge_groups"
 
     all_indices = set(range(N))
+    assert set(merged_indices) <= all_indices, "Unknown indices in merge_groups"
     unmerged = sorted(all_indices - set(merged_indices))
 
     # Build full list of groups: merged + singletons
-- 
2.43.0


From 265399b478d9fd0037ff475333436274d5ac0b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 36/46] fix: options of one member of a combination take
 precedence over common ones in Asimov data and starting values

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index aa668be..e40eae3 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -542,7 +542,8 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
 
         data = {}
         for statistical_model in self:
-            current_kwargs = {}
+            # options of a model take precedence over the common ones
+            current_kwargs = dict(kwargs)
             current_kwargs.update(
                 statistical_model_options.get(str(statistical_model.backend_type), {})
             )
@@ -553,7 +554,6 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                         expected=expected,
                         test_statistic=test_statistic,
                         **current_kwargs,
-                        **kwargs,
                     )
                 }
             )
@@ -735,19 +735,18 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 _mu, _sigma_mu = np.zeros(len(self)), np.ones(len(self))
                 for idx, stat_model in enumerate(self):
 
-                    current_kwargs = {}
+                    current_kwargs = dict(optimiser_options)
                     current_kwargs.update(
                         statistical_model_options.get(str(stat_model.backend_type), {})
                     )
 
                     _mu[idx] = stat_model.maximize_likelihood(
-                        expected=expected, **current_kwargs, **optimiser_options
+                        expected=expected, **current_kwargs
                     )[0]
                     _sigma_mu[idx] = stat_model.sigma_mu(
                         poi_test=_mu[idx],
                         expected=expected,
                         **current_kwargs,
-                        **optimiser_options,
                     )
                 norm = np.sum(np.power(_sigma_mu, -2))
                 mu_init = np.true_divide(1.0, norm) * np.sum(
-- 
2.43.0


From d651e236835f046a62700b4bdcad25f9fbb79c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 37/46] fix: third-moment correlations are exact for bins
 without skewness at any scale

---
 src/spey/backends/default_pdf/third_moment.py | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index bfd371b..5833adf 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -153,8 +153,15 @@ def third_moment_expansion(
         \rho_{ij} = \frac{1}{4C_i C_j}
         \left(\sqrt{(B_i B_j)^2 + 8\,C_i C_j\,\Sigma_{ij}} - B_i B_j\right).
 
-    A small regularisation :math:`\varepsilon = 10^{-5}` is added to :math:`C_i`
-    in the denominator to avoid division by zero when :math:`C_i = 0`.
+    It is evaluated in the equivalent form
+
+    .. math::
+
+        \rho_{ij} = \frac{2\,\Sigma_{ij}}
+        {\sqrt{(B_i B_j)^2 + 8\,C_i C_j\,\Sigma_{ij}} + B_i B_j},
+
+    which is regular at :math:`C_i = 0`, where it reduces to
+    :math:`\Sigma_{ij} / (B_i B_j)`.
 
     .. attention::
 
@@ -209,21 +216,20 @@ def third_moment_expansion(
     log.debug(f"A: {A}")
 
     # arXiv:1809.05548 eq. 2.12
-    eps = 1e-5
     if return_correlation_matrix:
         corr = np.zeros((C.shape[0], C.shape[0]))
         for i in range(corr.shape[0]):
             for j in range(corr.shape[0]):
-                ci = C[i] + eps if C[i] >= 0 else C[i] - eps
-                cj = C[j] + eps if C[j] >= 0 else C[j] - eps
-                cicj = ci * cj
+                cicj = C[i] * C[j]
                 bibj = B[i] * B[j]
 
                 discr1 = bibj**2
                 discr2 = 8 * cicj * covariance_matrix[i, j]
                 discr = discr1 + discr2
 
-                corr[i, j] = (np.sqrt(abs(discr)) - bibj) / 4 / cicj
+                denominator = np.sqrt(abs(discr)) + bibj
+                if denominator > 0.0:
+                    corr[i, j] = 2.0 * covariance_matrix[i, j] / denominator
 
                 if i != j:
                     corr[j, i] = corr[i, j]
-- 
2.43.0


From 71179dbc48ed8a46033d40ee5c0c00ad279c173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 38/46] fix: third moments of asymmetric uncertainties at any
 scale and for one-sided ones

---
 src/spey/backends/default_pdf/third_moment.py | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index 5833adf..18e3e40 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -313,20 +313,30 @@ def compute_third_moments(
     """
 
     def compute_x3BifurgatedGaussian(x: float, upper: float, lower: float) -> float:
+        # x is in units of the width of its side
         Norm = 2.0 / (upper + lower)
         if x >= 0.0:
             # integrate from 0 to inf
-            return Norm * upper * x**3 * norm.pdf(x, 0.0, upper)
+            return Norm * upper**4 * x**3 * norm.pdf(x)
         # integrate from -inf to 0
-        return Norm * lower * x**3 * norm.pdf(x, 0.0, lower)
+        return Norm * lower**4 * x**3 * norm.pdf(x)
 
     third_moment, error = [], []
     for upper, lower in zip(absolute_upper_uncertainties, absolute_lower_uncertainties):
+        # integrate in units of the larger uncertainty: the integration tolerance is absolute
+        scale = max(abs(upper), abs(lower))
+        if scale == 0.0:
+            third_moment.append(0.0)
+            error.append(0.0)
+            continue
         third_moment_tmp, error_tmp = integrate.quad(
-            compute_x3BifurgatedGaussian, -np.inf, np.inf, args=(abs(upper), abs(lower))
+            compute_x3BifurgatedGaussian,
+            -np.inf,
+            np.inf,
+            args=(abs(upper) / scale, abs(lower) / scale),
         )
-        third_moment.append(third_moment_tmp)
-        error.append(error_tmp)
+        third_moment.append(third_moment_tmp * scale**3)
+        error.append(error_tmp * scale**3)
 
     if return_integration_error:
         return np.array(third_moment), np.array(error)
-- 
2.43.0


From 7057ec26334cd83d5234fc8fd8026369b74e59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 39/46] fix: draw the requested number of samples for any
 integer size

---
 src/spey/interface/statistical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index c36a97b..83fc422 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -1219,7 +1219,7 @@ class StatisticalModel(HypothesisTestingBase):
                 f"{self.backend_type} backend does not have sampling capabilities"
             ) from exc
 
-        return sampler(size) if isinstance(size, int) else sampler
+        return sampler if size is None else sampler(size)
 
     def sigma_mu_from_hessian(
         self,
-- 
2.43.0


From afcf99ffbe3c7d1c0b29e6cea73d640869f67f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:28 +0000
Subject: [PATCH 40/46] fix: key cached results by the contents of arrays of
 objects and dates and of objects that cannot be hashed

---
 src/spey/system/cache.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 89e923e..f545f59 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -64,6 +64,7 @@ import copy
 import hashlib
 import inspect
 import logging
+import pickle
 import threading
 import weakref
 from collections import deque
@@ -92,7 +93,15 @@ def _make_token(obj: Any) -> Any:
     if isinstance(obj, np.ndarray):
         # Hash the raw buffer content (O(n) time, O(1) space) instead of
         # storing a full copy via tobytes() (O(n) time, O(n) space).
+        if isinstance(obj, np.ma.MaskedArray):
+            mask = np.ma.getmaskarray(obj)
+            return ("masked", _make_token(obj.data), _make_token(mask))
+        if obj.dtype.hasobject or obj.dtype.names is not None:
+            # the buffer of objects holds addresses, that of records no names
+            return (obj.shape, obj.dtype, _make_token(obj.tolist()))
         buf = np.ascontiguousarray(obj)
+        if buf.dtype.kind in "mM":  # dates do not give access to their buffer
+            buf = buf.view(np.int64)
         digest = hashlib.sha256(buf.data).digest()
         return (obj.shape, obj.dtype.str, digest)
     if isinstance(obj, dict):
@@ -112,7 +121,13 @@ def _make_token(obj: Any) -> Any:
         hash(obj)
         return obj
     except TypeError:
-        return repr(obj)
+        pass
+    # The text of an object may leave out parts of its contents (e.g. large arrays).
+    try:
+        state = pickle.dumps(obj)
+    except Exception:  # noqa: BLE001
+        state = None
+    return (type(obj), repr(obj), state)
 
 
 def _build_key(args: tuple, kwargs: dict) -> tuple:
-- 
2.43.0


From bea8dc145a62e6cda6d03039ee6bb10e42279cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:40 +0000
Subject: [PATCH 41/46] fix: range of a combined fit includes the best fits of
 its members

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index e40eae3..1176029 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -730,9 +730,9 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
 
         # muhat initial value estimation in gaussian limit
         mu_init = initial_muhat_value or 0.0
+        _mu, _sigma_mu = np.zeros(len(self)), np.ones(len(self))
         if initial_muhat_value is None:
             try:
-                _mu, _sigma_mu = np.zeros(len(self)), np.ones(len(self))
                 for idx, stat_model in enumerate(self):
 
                     current_kwargs = dict(optimiser_options)
@@ -765,7 +765,8 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                 or [
                     (
                         self.minimum_poi if allow_negative_signal else 0.0,
-                        max(10.0, mu_init),
+                        # combined maximum can not exceed the largest one of the models
+                        max(10.0, mu_init, *_mu),
                     )
                 ]
             ),
-- 
2.43.0


From c53295c7402a1b82afa1ba8713cc1f8defcd6603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:48 +0000
Subject: [PATCH 42/46] fix: warning of a combination for parameters given by
 name or index

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 1176029..a1a9e51 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -467,8 +467,9 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                     **current_kwargs,
                 )
             except NegativeExpectedYields as err:
+                poi = poi_test if isinstance(poi_test, dict) else f"{poi_test:.3f}"
                 warnings.warn(
-                    err.args[0] + f"\nSetting NLL({poi_test:.3f}) = nan",
+                    err.args[0] + f"\nSetting NLL({poi}) = nan",
                     category=RuntimeWarning,
                 )
                 nll = np.nan
-- 
2.43.0


From 431e900b927a6aee37cb0128089b2eb70f8c59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:43 +0000
Subject: [PATCH 43/46] fix: expected data of built-in models at a point given
 as a list

---
 src/spey/backends/default_pdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 5acbbcd..ed01735 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -763,7 +763,7 @@ class DefaultPDFBase(BackendBase):
             Expected bin counts (length :math:`N`), plus auxiliary data if
             ``include_auxiliary=True``.
         """
-        data = self.main_model.expected_data(pars)
+        data = self.main_model.expected_data(np.asarray(pars))
 
         if include_auxiliary:
             data = np.hstack([data, self.constraint_model.expected_data()])
-- 
2.43.0


From 8cf365d12965e6edb1e2e6c76a36310698bf4091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:47 +0000
Subject: [PATCH 44/46] fix: range of a combined fit to given data follows
 those data

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index a1a9e51..dec2e26 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -742,7 +742,9 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
                     )
 
                     _mu[idx] = stat_model.maximize_likelihood(
-                        expected=expected, **current_kwargs
+                        expected=expected,
+                        data=data.get(stat_model.analysis, None),
+                        **current_kwargs,
                     )[0]
                     _sigma_mu[idx] = stat_model.sigma_mu(
                         poi_test=_mu[idx],
-- 
2.43.0


From 3802457ec51065a0e5031e85442aee48d5951ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 45/46] fix: evaluations of a multivariate normal model do not
 share their mean

---
 src/spey/backends/distributions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 5959234..f05fde3 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -1,6 +1,7 @@
 """Autograd based differentiable distribution classes"""
 
 import logging
+from copy import copy
 from typing import Any, Callable, Dict, List, Literal, Union
 
 import autograd.numpy as np
@@ -201,13 +202,15 @@ class MainModel:
             else:
                 # Non-callable cov: inv(cov) and logdet(cov) are constant.
                 # Create a single MultivariateNormal once so those O(n³) ops run
-                # exactly once at construction time.  Each call only updates the
-                # mean (loc(pars)) in-place; _inv_cov and _logdet_cov stay cached.
+                # exactly once at construction time.  Each call gets its own shallow
+                # copy with the mean of its parameters, hence evaluations do not share
+                # state (e.g. in threads); _inv_cov and _logdet_cov stay cached.
                 _mv = MultivariateNormal(mean=np.zeros(len(cov)), cov=cov)
 
                 def _static_cov_pdf(pars):
-                    _mv.mean = loc(pars)
-                    return _mv
+                    pdf = copy(_mv)
+                    pdf.mean = loc(pars)
+                    return pdf
 
                 self._pdf = _static_cov_pdf
         else:
-- 
2.43.0


From 07aa9fafcf7e2bcfc3122716577d8f7893ab7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:01 +0000
Subject: [PATCH 46/46] fix: overlapping log captures and disabling restore the
 logger

---
 src/spey/system/logger.py | 82 +++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 20 deletions(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index e096fae..5083304 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -2,7 +2,9 @@
 import copy
 import logging
 import sys
+import threading
 from contextlib import contextmanager
+from typing import Callable
 
 # pylint: disable=C0103
 
@@ -74,6 +76,34 @@ def init(LoggerStream=sys.stdout):
     SpeyLogger.propagate = False
 
 
+# Open scopes of the context managers below, in the order they were entered. Scopes of
+# different threads overlap, hence they are not necessarily left in the reverse order.
+_scope_lock = threading.RLock()
+_disable_scopes = []
+_capture_scopes = []
+
+
+def _enter_scope(scopes: list, restore: Callable[[], None]) -> dict:
+    """Register a scope with the function that restores what it has found."""
+    scope = {"restore": restore}
+    scopes.append(scope)
+    return scope
+
+
+def _leave_scope(scopes: list, scope: dict) -> None:
+    """
+    Leave a scope. If one that was entered later is still open, it is left to that one to
+    restore the configuration.
+    """
+    with _scope_lock:
+        position = next(i for i, item in enumerate(scopes) if item is scope)
+        del scopes[position]
+        if position == len(scopes):
+            scope["restore"]()
+        else:
+            scopes[position]["restore"] = scope["restore"]
+
+
 @contextmanager
 def disable_logging(highest_level: int = logging.CRITICAL):
     """
@@ -82,12 +112,18 @@ def disable_logging(highest_level: int = logging.CRITICAL):
     Args:
         highest_level (``int``, default ``logging.CRITICAL``): highest level to be set in logging
     """
-    previous_level = logging.root.manager.disable
-    logging.disable(highest_level)
+
+    def restore():
+        logging.disable(previous_level)
+
+    with _scope_lock:
+        previous_level = logging.root.manager.disable
+        logging.disable(highest_level)
+        scope = _enter_scope(_disable_scopes, restore)
     try:
         yield
     finally:
-        logging.disable(previous_level)
+        _leave_scope(_disable_scopes, scope)
 
 
 @contextmanager
@@ -132,17 +168,30 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
 
     # Get the Spey logger
     spey_logger = logging.getLogger("Spey")
-    prev_level = spey_logger.level
-    prev_propagate = spey_logger.propagate
 
-    # Store and remove existing handlers temporarily
-    prev_handlers = spey_logger.handlers[:]
-    for h in prev_handlers:
-        spey_logger.removeHandler(h)
+    def restore():
+        # handlers attached inside the context are not kept either
+        for h in list(spey_logger.handlers):
+            spey_logger.removeHandler(h)
+        spey_logger.setLevel(prev_level)
+        spey_logger.propagate = prev_propagate
+        # Restore original handlers
+        for h in prev_handlers:
+            spey_logger.addHandler(h)
+
+    with _scope_lock:
+        prev_level = spey_logger.level
+        prev_propagate = spey_logger.propagate
+
+        # Store and remove existing handlers temporarily
+        prev_handlers = spey_logger.handlers[:]
+        for h in prev_handlers:
+            spey_logger.removeHandler(h)
 
-    spey_logger.addHandler(handler)
-    spey_logger.setLevel(level)
-    spey_logger.propagate = False
+        spey_logger.addHandler(handler)
+        spey_logger.setLevel(level)
+        spey_logger.propagate = False
+        scope = _enter_scope(_capture_scopes, restore)
 
     try:
         yield
@@ -154,11 +203,4 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
         except Exception:
             pass
     finally:
-        # handlers attached inside the context are not kept either
-        for h in list(spey_logger.handlers):
-            spey_logger.removeHandler(h)
-        spey_logger.setLevel(prev_level)
-        spey_logger.propagate = prev_propagate
-        # Restore original handlers
-        for h in prev_handlers:
-            spey_logger.addHandler(h)
+        _leave_scope(_capture_scopes, scope)
-- 
2.43.0

