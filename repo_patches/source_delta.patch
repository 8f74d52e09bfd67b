From 05546c42bae6b56bb8c5c5694824a7ff8b4254d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:04 +0000
Subject: [PATCH 01/17] fix: do not overflow when constraining to two-sided
 bounds

exp(x) / (1 + exp(x)) is nan for large free values, so that fold returned
an invalid value.
---
 paragami/numeric_array_patterns.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/paragami/numeric_array_patterns.py b/paragami/numeric_array_patterns.py
index 83ea445..fbda67b 100644
--- a/paragami/numeric_array_patterns.py
+++ b/paragami/numeric_array_patterns.py
@@ -54,8 +54,9 @@ def _constrain_array(free_array, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_array)
         else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # This form does not overflow for large free values.
+            ratio = np.exp(free_array - np.logaddexp(0, free_array))
+            return (ub - lb) * ratio + lb
 
 
 def _constrain_array_jacobian(free_array, lb, ub):
@@ -72,8 +73,8 @@ def _constrain_array_jacobian(free_array, lb, ub):
         else:
             # d/dx exp(x) / (1 + exp(x)) =
             #    exp(x) / (1 + exp(x)) - exp(x) ** 2 / (1 + exp(x)) ** 2
-            exp_vec = np.exp(free_array)
-            ratio = exp_vec / (1 + exp_vec)
+            # This form does not overflow for large free values.
+            ratio = np.exp(free_array - np.logaddexp(0, free_array))
             return (ub - lb) * ratio * (1 - ratio)
 
 
@@ -107,8 +108,9 @@ def _constrain_array(free_array, lb, ub):
         if lb == -float("inf"):
             return ub - np.exp(-1 * free_array)
         else:
-            exp_vec = np.exp(free_array)
-            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
+            # This form does not overflow for large free values.
+            ratio = np.exp(free_array - np.logaddexp(0, free_array))
+            return (ub - lb) * ratio + lb
 
 
 class NumericArrayPattern(Pattern):
-- 
2.43.0


From 0be96ff06dd59eda2db284a6541c34a873256ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 02/17] fix: keep free_default in JSON and in pattern equality

PSDSymmetricMatrixPattern, SimplexArrayPattern, PatternDict and PatternArray
dropped free_default from as_dict, so that it was lost by to_json / from_json
and save_folded / load_folded and ignored by ==.
---
 paragami/pattern_containers.py | 11 +++++++----
 paragami/psdmatrix_patterns.py |  3 ++-
 paragami/simplex_patterns.py   |  6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 20c06c0..0d5d657 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -206,7 +206,8 @@ class PatternDict(Pattern):
         return {
             'pattern': self.json_typename(),
             'keys': keys,
-            'contents': contents}
+            'contents': contents,
+            'free_default': self.free_default}
 
     def _check_lock(self):
         if self.__lock:
@@ -376,7 +377,7 @@ class PatternDict(Pattern):
                  'pattern type was {}.').format(
                     cls.json_typename(), json_dict['pattern'])
             raise ValueError(error_string)
-        pattern_dict = cls()
+        pattern_dict = cls(free_default=json_dict.get('free_default'))
         for pattern_name in json_dict['keys']:
             pattern_dict[pattern_name] = get_pattern_from_json(
                 json_dict['contents'][pattern_name])
@@ -487,7 +488,8 @@ class PatternArray(Pattern):
             'pattern': self.json_typename(),
             'shape': self.__shape,
             'array_shape': self.__array_shape,
-            'base_pattern': self.__base_pattern.to_json() }
+            'base_pattern': self.__base_pattern.to_json(),
+            'free_default': self.free_default}
 
     def array_shape(self):
         """The shape of the array of parameters.
@@ -639,7 +641,8 @@ class PatternArray(Pattern):
             raise ValueError(error_string)
         base_pattern = get_pattern_from_json(json_dict['base_pattern'])
         return cls(
-            array_shape=json_dict['array_shape'], base_pattern=base_pattern)
+            array_shape=json_dict['array_shape'], base_pattern=base_pattern,
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         free = self._free_with_default(free)
diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index 43affc4..e38f6f2 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -212,7 +212,8 @@ class PSDSymmetricMatrixPattern(Pattern):
             'pattern': self.json_typename(),
             'size': self.__size,
             'diag_lb': self.__diag_lb,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def size(self):
         """Returns the matrix size.
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 78ca980..e05356a 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -130,7 +130,8 @@ class SimplexArrayPattern(Pattern):
             'pattern': self.json_typename(),
             'simplex_size': self.__simplex_size,
             'array_shape': self.__array_shape,
-            'default_validate': self.default_validate}
+            'default_validate': self.default_validate,
+            'free_default': self.free_default}
 
     def empty(self, valid):
         if valid:
@@ -219,7 +220,8 @@ class SimplexArrayPattern(Pattern):
         return cls(
             simplex_size=json_dict['simplex_size'],
             array_shape=tuple(json_dict['array_shape']),
-            default_validate=json_dict['default_validate'])
+            default_validate=json_dict['default_validate'],
+            free_default=json_dict.get('free_default'))
 
     def flat_indices(self, folded_bool, free=None):
         # If no indices are specified, save time and return an empty array.
-- 
2.43.0


From b7122c91c7e1302a799f06c63497f93be1d69c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 03/17] fix: SimplexArrayPattern.fold rejects arguments that
 are not vectors

An array with more than one dimension and the right first dimension passed
the length check.
---
 paragami/simplex_patterns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index e05356a..6b470f7 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -162,6 +162,9 @@ class SimplexArrayPattern(Pattern):
     def fold(self, flat_val, free=None, validate_value=None):
         free = self._free_with_default(free)
         flat_size = self.flat_length(free)
+        flat_val = np.atleast_1d(flat_val)
+        if len(flat_val.shape) != 1:
+            raise ValueError('The argument to fold must be a 1d vector.')
         if len(flat_val) != flat_size:
             raise ValueError('flat_val is the wrong length.')
         if free:
-- 
2.43.0


From b0d5a6969441b4d5204f9a8f75d6a672afa43d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 04/17] fix: validate_folded returns False for a wrong shape

The PSD and simplex patterns raised ValueError instead of returning the
documented (is_valid, err_msg).
---
 paragami/psdmatrix_patterns.py | 2 +-
 paragami/simplex_patterns.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/psdmatrix_patterns.py b/paragami/psdmatrix_patterns.py
index e38f6f2..45a1efa 100644
--- a/paragami/psdmatrix_patterns.py
+++ b/paragami/psdmatrix_patterns.py
@@ -273,7 +273,7 @@ class PSDSymmetricMatrixPattern(Pattern):
         """
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
 
         if validate_value is None:
             validate_value = self.default_validate
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 6b470f7..253e1b7 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -148,7 +148,7 @@ class SimplexArrayPattern(Pattern):
     def validate_folded(self, folded_val, validate_value=None):
         shape_ok, err_msg = self._validate_folded_shape(folded_val)
         if not shape_ok:
-            raise ValueError(err_msg)
+            return shape_ok, err_msg
         if validate_value is None:
             validate_value = self.default_validate
         if validate_value:
-- 
2.43.0


From fded2c5b851fbf05d1299beb57b550100bd09de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 05/17] fix: truncate_eigenvalues does not round the limits for
 integer arrays

---
 paragami/optimization_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index ea2a538..3679b38 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -31,7 +31,8 @@ def truncate_eigenvalues(evals, ev_min=None, ev_max=None):
     eig_val_trunc
         A truncated version of ``evals``.
     """
-    eig_val_trunc = copy.deepcopy(evals)
+    # Integer arrays could not hold the limits.
+    eig_val_trunc = np.array(evals, dtype=np.result_type(evals, float))
     if not ev_min is None:
         if not np.isreal(ev_min):
             raise ValueError('ev_min must be real-valued.')
-- 
2.43.0


From 603610f0795e7565650d7d89fb025828b8c85f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 06/17] fix: log a copy of the argument in
 OptimizationObjective

Optimizers update x in place, so that every entry of the log changed to the
latest value.
---
 paragami/optimization_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 3679b38..41446c9 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -459,7 +459,7 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        self.optimization_log.append((num_f_evals, x, f_val))
+        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0


From a89a832317db28b241382977d964ea0b2860f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 07/17] fix: dense simplex Jacobians are arrays, not
 numpy.matrix

---
 paragami/simplex_patterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 253e1b7..8455ef7 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -198,7 +198,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         array_ranges = [ range(i) for i in self.__array_shape ]
@@ -211,7 +211,7 @@ class SimplexArrayPattern(Pattern):
         if sparse:
             return sp_jac
         else:
-            return sp_jac.todense()
+            return np.array(sp_jac.todense())
 
     @classmethod
     def from_json(cls, json_string):
-- 
2.43.0


From dec1ee5fa5af4281c9f94891cab34cc7fa9a9df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 08/17] fix: PatternDict.flat_names uses the dictionary's
 free_default

free=None was passed on to the members, which resolved it with their own
defaults.
---
 paragami/pattern_containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 0d5d657..93083ac 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -407,6 +407,7 @@ class PatternDict(Pattern):
             return np.array([], dtype=int)
 
     def flat_names(self, free, delim='_'):
+        free = self._free_with_default(free)
         flat_names_list = []
         for pattern_name, pattern in self.__pattern_dict.items():
             pattern_flat_names = pattern.flat_names(free)
-- 
2.43.0


From 8dfcddb848b257b40add6f35b27e3e1f6e40ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 09/17] fix: missing return values raise ValueError for
 callables without a name

---
 paragami/function_patterns.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paragami/function_patterns.py b/paragami/function_patterns.py
index c10a421..0badee7 100644
--- a/paragami/function_patterns.py
+++ b/paragami/function_patterns.py
@@ -222,7 +222,8 @@ class TransformFunctionOutput:
             if not self._retnums == [0]:
                 err_msg = ('{} returned only one value, but multiple' +
                            'retnums were specified: {}'.format(
-                            self._fun.__name__, self._retnums))
+                            getattr(self._fun, '__name__', self._fun),
+                            self._retnums))
                 raise ValueError(err_msg)
             if self._original_is_flat:
                 return self._patterns[0].fold(rets, free=self.free[0])
@@ -237,7 +238,7 @@ class TransformFunctionOutput:
             if len(rets) <= retnum:
                 err_msg = ('Not enough return values in {} ({}) for' +
                            'specified retnums {}.'.format(
-                            self._fun.__name__,
+                            getattr(self._fun, '__name__', self._fun),
                             len(rets),
                             self._retnums))
                 raise ValueError(err_msg)
-- 
2.43.0


From 3c97bdd4968c6c3f86ea7836deea620bd1faac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 10/17] fix: grouped_sum refuses negative groups instead of
 wrapping around

---
 paragami/autograd_supplement_lib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 75d47fe..0dc09f0 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -208,6 +208,8 @@ def grouped_sum(x, groups, num_groups=None):
     n_obs = len(groups)
     if x.shape[0] != n_obs:
         raise ValueError('The first dimension of x must match the length of groups')
+    if n_obs > 0 and np.min(groups) < 0:
+        raise ValueError('The groups must be non-negative.')
     max_group = np.max(groups)
     if num_groups is None:
         num_groups = max_group + 1
-- 
2.43.0


From a0d6fee89755a833a498ffd569391ef0efb73313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 11/17] fix: grouped_sum of no observations

---
 paragami/autograd_supplement_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 0dc09f0..767353b 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -210,7 +210,7 @@ def grouped_sum(x, groups, num_groups=None):
         raise ValueError('The first dimension of x must match the length of groups')
     if n_obs > 0 and np.min(groups) < 0:
         raise ValueError('The groups must be non-negative.')
-    max_group = np.max(groups)
+    max_group = np.max(groups) if n_obs > 0 else -1
     if num_groups is None:
         num_groups = max_group + 1
     else:
-- 
2.43.0


From 021e04127db5ae1d82d3d076fe8dad05309608ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 12/17] fix: the reverse rule of grouped_sum takes the groups
 that grouped_sum takes

---
 paragami/autograd_supplement_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 767353b..baf4ebd 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -234,7 +234,7 @@ def _ungroup(v, groups):
 
 def grouped_sum_vjp(ans, x, groups, num_groups=None):
     def vjp(v):
-        return _ungroup(v, groups)
+        return _ungroup(v, np.atleast_1d(groups).astype('int64'))
     return vjp
 defvjp(grouped_sum, grouped_sum_vjp)
 
-- 
2.43.0


From d2eddfc6cfa0cb892bcc4bf681d230c8d73598cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:46 +0000
Subject: [PATCH 13/17] fix: the forward rule of replace for arrays that are
 not vectors

---
 paragami/autograd_supplement_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index baf4ebd..4215c43 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -272,6 +272,6 @@ defvjp(replace,
        None)
 
 defjvp(replace,
-       lambda g, ans, x_sub, x, inds: replace(g, np.zeros(len(x)), inds),
+       lambda g, ans, x_sub, x, inds: replace(g, np.zeros(x.shape), inds),
        lambda g, ans, x_sub, x, inds: replace(0, g, inds),
        None)
-- 
2.43.0


From 73489ac3970201238b6855c2f668dbb7c8042356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 14/17] fix: the forward rule of solve for right-hand sides
 stacked over one matrix

---
 paragami/autograd_supplement_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/autograd_supplement_lib.py b/paragami/autograd_supplement_lib.py
index 4215c43..ce06424 100644
--- a/paragami/autograd_supplement_lib.py
+++ b/paragami/autograd_supplement_lib.py
@@ -43,7 +43,7 @@ defjvp(inv, inv_jvp)
 def jvp_solve(argnum, g, ans, a, b):
     def broadcast_matmul(a, b):
         return \
-            np.matmul(a, b) if b.ndim == a.ndim \
+            np.matmul(a, b) if b.ndim >= a.ndim \
             else np.matmul(a, b[..., None])[..., 0]
     if argnum == 0:
         return -broadcast_matmul(np.linalg.solve(a, g), ans)
-- 
2.43.0


From 3751a7d0981ead804d871a7c2a027449e7a44907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:16 +0000
Subject: [PATCH 15/17] fix: containers without members flatten, name and
 differentiate; lengths stay integers

---
 paragami/pattern_containers.py | 32 +++++++++++++++++++++++---------
 paragami/simplex_patterns.py   |  6 +++---
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 93083ac..03afe1d 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -134,6 +134,20 @@ def load_folded(file):
 ##########################
 # Dictionary of patterns.
 
+def _hstack_or_empty(arrays, dtype=float):
+    # Stack the members' arrays, of which a container may have none.
+    if len(arrays) == 0:
+        return np.array([], dtype=dtype)
+    return np.hstack(arrays)
+
+
+def _block_diag_or_empty(jacobians):
+    # ``block_diag`` fails if there are no blocks.
+    if len(jacobians) == 0:
+        return coo_matrix((0, 0))
+    return block_diag(jacobians, format='coo')
+
+
 class PatternDict(Pattern):
     """
     A dictionary of patterns (which is itself a pattern).
@@ -318,13 +332,13 @@ class PatternDict(Pattern):
                     free=free,
                     validate_value=validate_value))
             #offset += pattern_flat_length
-        return np.hstack(flat_vals)
+        return _hstack_or_empty(flat_vals)
 
     def _update_flat_length(self, free):
         # This is a little wasteful with the benefit of being less error-prone
         # than adding and subtracting lengths as keys are changed.
-        return np.sum([pattern.flat_length(free) for pattern_name, pattern in
-                       self.__pattern_dict.items()])
+        return sum([pattern.flat_length(free) for pattern_name, pattern in
+                    self.__pattern_dict.items()])
 
     def unfreeing_jacobian(self, folded_val, sparse=True):
         jacobians = []
@@ -333,7 +347,7 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
-        sp_jac = block_diag(jacobians, format='coo')
+        sp_jac = _block_diag_or_empty(jacobians)
 
         if sparse:
             return sp_jac
@@ -347,7 +361,7 @@ class PatternDict(Pattern):
                 folded_val[pattern_name], sparse=True)
             jacobians.append(jac)
 
-        sp_jac = block_diag(jacobians, format='coo')
+        sp_jac = _block_diag_or_empty(jacobians)
         if sparse:
             return sp_jac
         else:
@@ -415,7 +429,7 @@ class PatternDict(Pattern):
             pattern_flat_names = \
                 [ pattern_name + delim + t for t in pattern_flat_names]
             flat_names_list.append(pattern_flat_names)
-        return np.hstack(flat_names_list)
+        return _hstack_or_empty(flat_names_list, dtype=str)
 
 
 
@@ -589,7 +603,7 @@ class PatternArray(Pattern):
         if not valid:
             raise ValueError(msg)
 
-        return np.hstack(np.array([
+        return _hstack_or_empty(np.array([
             self.__base_pattern.flatten(
                 folded_val[item], free=free, validate_value=validate_value)
             for item in itertools.product(*self.__array_ranges)]))
@@ -607,7 +621,7 @@ class PatternArray(Pattern):
             jac = self.__base_pattern.unfreeing_jacobian(
                 folded_val[item], sparse=True)
             jacobians.append(jac)
-        sp_jac = block_diag(jacobians, format='coo')
+        sp_jac = _block_diag_or_empty(jacobians)
 
         if sparse:
             return sp_jac
@@ -623,7 +637,7 @@ class PatternArray(Pattern):
             jac = self.__base_pattern.freeing_jacobian(
                 folded_val[item], sparse=True)
             jacobians.append(jac)
-        sp_jac = block_diag(jacobians, format='coo')
+        sp_jac = _block_diag_or_empty(jacobians)
 
         if sparse:
             return sp_jac
diff --git a/paragami/simplex_patterns.py b/paragami/simplex_patterns.py
index 8455ef7..c498af8 100644
--- a/paragami/simplex_patterns.py
+++ b/paragami/simplex_patterns.py
@@ -1,6 +1,6 @@
 
 from .base_patterns import Pattern
-from .pattern_containers import register_pattern_json
+from .pattern_containers import register_pattern_json, _block_diag_or_empty
 
 import autograd.numpy as np
 import autograd.scipy as sp
@@ -193,7 +193,7 @@ class SimplexArrayPattern(Pattern):
         for item in itertools.product(*array_ranges):
             jac = _unconstrain_simplex_jacobian(folded_val[item][:])
             jacobians.append(jac)
-        sp_jac = block_diag(jacobians, format='coo')
+        sp_jac = _block_diag_or_empty(jacobians)
 
         if sparse:
             return sp_jac
@@ -206,7 +206,7 @@ class SimplexArrayPattern(Pattern):
         for item in itertools.product(*array_ranges):
             jac = _constrain_simplex_jacobian(folded_val[item][:])
             jacobians.append(jac)
-        sp_jac = block_diag(jacobians, format='coo')
+        sp_jac = _block_diag_or_empty(jacobians)
 
         if sparse:
             return sp_jac
-- 
2.43.0


From 14ebc18664a437f1c36b35ae88485ec7ab89c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:29 +0000
Subject: [PATCH 16/17] fix: lengths of a PatternArray of empty shape are
 integers

np.prod(()) is the float 1.0, so flat_length() of an array pattern with
array_shape=() was a float, and empty_bool(), random(), flat_names() and
folding within a PatternDict raised TypeError.
---
 paragami/pattern_containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paragami/pattern_containers.py b/paragami/pattern_containers.py
index 03afe1d..ca5e8a4 100644
--- a/paragami/pattern_containers.py
+++ b/paragami/pattern_containers.py
@@ -464,7 +464,8 @@ class PatternArray(Pattern):
         self.__array_shape = tuple(array_shape)
         self.__array_ranges = [range(0, t) for t in self.__array_shape]
 
-        num_elements = np.prod(self.__array_shape)
+        # The product of an empty shape is a float.
+        num_elements = int(np.prod(self.__array_shape))
         self.__base_pattern = base_pattern
 
         # Check whether the base_pattern takes values that are numpy arrays.
-- 
2.43.0


From 636e795bd612db0101e6e9e947a88e5002c7273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:18 +0000
Subject: [PATCH 17/17] fix: log a deep copy of the argument of the objective

A shallow copy of a container of arrays (such as a folded value) still
shares its arrays with the caller, who may change them in place.
---
 paragami/optimization_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paragami/optimization_lib.py b/paragami/optimization_lib.py
index 41446c9..1c85617 100644
--- a/paragami/optimization_lib.py
+++ b/paragami/optimization_lib.py
@@ -459,7 +459,7 @@ class OptimizationObjective():
         f_val:
             The value of the objective at ``x``.
         """
-        self.optimization_log.append((num_f_evals, copy.copy(x), f_val))
+        self.optimization_log.append((num_f_evals, copy.deepcopy(x), f_val))
 
     def f(self, x):
         f_val = self._objective_fun(x)
-- 
2.43.0

