From 8dd7aa06c69936b4c8e3b6113988b8d8bab91108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:53 +0000
Subject: [PATCH 01/18] fix: store the full kernel matrix only when complete,
 dense and sparse apart

A kernel evaluation failing midway left a NaN-filled matrix that later reads
returned; a sparse read changed what full, centered, frob_norm and KM[:, :]
gave afterwards, and reads in other threads saw a half-filled matrix.
---
 kernelmethods/base.py | 44 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f84bc4a..87794e9 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -21,7 +21,7 @@ from kernelmethods.operations import (center_km, frobenius_norm, is_PSD,
                                       normalize_km_2sample)
 from kernelmethods.utils import (check_callable, contains_nan_inf, ensure_ndarray_1D,
                                  ensure_ndarray_2D, get_callable_name, not_symmetric)
-from scipy.sparse import issparse, lil_matrix
+from scipy.sparse import lil_matrix
 
 
 class BaseKernelFunction(ABC):
@@ -357,7 +357,7 @@ class KernelMatrix(object):
         """Convenience routine to reset internal state"""
 
         # deleting all imp attributes
-        for attr in ('_full_km', '_normed_km', '_frob_norm'):
+        for attr in ('_full_km', '_sparse_km', '_normed_km', '_frob_norm'):
             if hasattr(self, attr):
                 delattr(self, attr)
 
@@ -624,7 +624,7 @@ class KernelMatrix(object):
         # the entire kernel matrix with KM[:,:],
         # without exploiting the fact that KM is symmetric
         if are_all_selected_dim_one and are_all_selected_dim_two:
-            return self._populate_fully(fill_lower_tri=True)
+            return self._populate_fully(fill_lower_tri=True, dense_fmt=True)
         else:
             return self._compute_for_index_combinations(set_one, set_two)
 
@@ -708,13 +708,17 @@ class KernelMatrix(object):
         #   so we need only to STORE half the matrix!
         # as we are computing the full matrix anyways, it's better to keep a copy
         #   to avoid recomputing it for each access of self.full* attributes
-        if not self._populated_fully and not hasattr(self, '_full_km'):
+        # dense and sparse forms are kept separately, and stored only when complete:
+        #   nothing must be left behind when a kernel evaluation fails midway
+        cached = '_full_km' if dense_fmt else '_sparse_km'
+        is_ready = hasattr(self, cached)
+        if not is_ready:
             if not dense_fmt:
-                self._full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
+                full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
             else:
                 # filling with nan to avoid unexpected usage!
-                self._full_km = np.full(self.shape, fill_value=np.nan,
-                                        dtype=cfg.km_dtype)
+                full_km = np.full(self.shape, fill_value=np.nan,
+                                  dtype=cfg.km_dtype)
 
             try:
                 # kernel matrix is symmetric (in a single sample case)
@@ -724,40 +728,40 @@ class KernelMatrix(object):
                 #   refers to sample_two in the two_samples case
                 for ix_one in range(self.shape[0]): # number of rows!
                     for ix_two in range(ix_one, self.shape[1]): # from second sample!
-                        self._full_km[ix_one, ix_two] = \
+                        full_km[ix_one, ix_two] = \
                             self._eval_kernel(ix_one, ix_two)
             except:
                 raise RuntimeError('Unable to fully compute the kernel matrix!')
-            else:
-                self._populated_fully = True
 
-        if fill_lower_tri and not self._lower_tri_km_filled:
+        if fill_lower_tri and not is_ready:
             try:
                 # choosing k=-1 as main diag is already covered above (nested for
                 # loop)
                 ix_lower_tri = np.tril_indices(self.shape[0], m=self.shape[1], k=-1)
 
                 if not self._two_samples and self.shape[0] == self.shape[1]:
-                    self._full_km[ix_lower_tri] = self._full_km.T[ix_lower_tri]
+                    full_km[ix_lower_tri] = full_km.T[ix_lower_tri]
                 else:
                     # evaluating it for the lower triangle as well!
                     for ix_one, ix_two in zip(*ix_lower_tri):
-                        self._full_km[ix_one, ix_two] = self._eval_kernel(ix_one,
-                                                                          ix_two)
+                        full_km[ix_one, ix_two] = self._eval_kernel(ix_one, ix_two)
             except:
                 raise RuntimeError('Unable to symmetrize the kernel matrix!')
-            else:
-                self._lower_tri_km_filled = True
 
-        if issparse(self._full_km) and dense_fmt:
-            self._full_km = self._full_km.todense()
+        if is_ready:
+            return getattr(self, cached)
 
-        if contains_nan_inf(self._full_km):
+        if contains_nan_inf(full_km):
             warn('Kernel matrix computation resulted in Inf or NaN values!'
                  ' Check your parameters and data!\n Kernel function: {}'
                  ''.format(self.kernel), KernelMethodsWarning)
 
-        return self._full_km
+        setattr(self, cached, full_km)
+        if dense_fmt:
+            self._lower_tri_km_filled = fill_lower_tri
+            self._populated_fully = True
+
+        return full_km
 
 
     def __str__(self):
-- 
2.43.0


From e2dbca56d84f119fe71c6cd1e1530e4b92508e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:53 +0000
Subject: [PATCH 02/18] fix: a refused attachment leaves the kernel matrix or
 set unchanged

KernelMatrix.attach_to replaced the first sample before checking the second,
and KernelSet.attach_to replaced its sample, and attached some members, before
finding out that it has to refuse.
---
 kernelmethods/base.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 87794e9..d10ed92 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -248,7 +248,15 @@ class KernelMatrix(object):
             Name for the second sample.
         """
 
-        self._sample = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        # validating all inputs first, so a refused attachment changes nothing
+        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        if sample_two is not None:
+            sample_two = ensure_ndarray_2D(sample_two, ensure_dtype=sample_two.dtype)
+
+            if sample_one.shape[1] != sample_two.shape[1]:
+                raise ValueError('Dimensionalities of the two samples differ!')
+
+        self._sample = sample_one
         self._sample_name = name_one
 
         if sample_two is None:
@@ -263,12 +271,7 @@ class KernelMatrix(object):
                                                 self._sample.shape)
 
         else:
-            self._sample_two = ensure_ndarray_2D(sample_two,
-                                                 ensure_dtype=sample_two.dtype)
-
-            if self._sample.shape[1] != self._sample_two.shape[1]:
-                raise ValueError('Dimensionalities of the two samples differ!')
-
+            self._sample_two = sample_two
             self._name_two = name_two
             self._num_samples = (self._sample.shape[0], self._sample_two.shape[0])
             self.shape = (self._sample.shape[0], self._sample_two.shape[0])
@@ -1282,11 +1285,16 @@ class KernelSet(object):
 
         """
 
-        self.sample = ensure_ndarray_2D(sample)
+        checked_sample = ensure_ndarray_2D(sample)
         if self._num_samples is not None and sample.shape[0] != self._num_samples:
             raise ValueError('Number of samples in input differ from this KernelSet')
-        else:
-            self._num_samples = sample.shape[0]
+
+        if not all(hasattr(km, 'attach_to') for km in self._km_set):
+            raise TypeError('Some members of this KernelSet can not be attached to '
+                            'a sample, e.g. precomputed kernel matrices!')
+
+        self._num_samples = sample.shape[0]
+        self.sample = checked_sample
 
         for index in range(self.size):
             self._km_set[index].attach_to(sample, name_one=name)
-- 
2.43.0


From e73cace903b5ec6d4b21b22a4f9cc7bfcc0867a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:23 +0000
Subject: [PATCH 03/18] fix: kernels made from callables can be formatted

The warning about NaN or Inf values formats the kernel function, and failed
with a TypeError instead.
---
 kernelmethods/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index d10ed92..f29c1f2 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -142,7 +142,6 @@ class KernelFromCallable(BaseKernelFunction):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
-- 
2.43.0


From 59ec6c7db71efd8477aa16f6d38795d950435259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:54 +0000
Subject: [PATCH 04/18] fix: a refused extension or attribute change leaves the
 kernel set unchanged

---
 kernelmethods/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f29c1f2..9f4ac6d 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1314,6 +1314,11 @@ class KernelSet(object):
             raise KMSetAdditionError('The two KernelSets are not compatible'
                                      ', in size (# samples)')
 
+        # members may have been attached to other samples individually since
+        if any(km.num_samples != self.num_samples for km in another_km_set):
+            raise KMSetAdditionError('Some members of the input KernelSet are not '
+                                     'compatible in size (# samples)')
+
         for km in another_km_set:
             self.append(km)
 
@@ -1348,6 +1353,10 @@ class KernelSet(object):
                              'providing a separate value for each element.'
                              'It is {}'.format(self.size, len(values)))
 
+        if not all(hasattr(km, 'set_attr') for km in self._km_set):
+            raise TypeError('Some members of this KernelSet can not have attributes, '
+                            'e.g. precomputed kernel matrices!')
+
         for index in range(self.size):
             self._km_set[index].set_attr(name, values[index])
 
-- 
2.43.0


From f78db640a88beb9b75311ad33bb0b851ec83d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:59 +0000
Subject: [PATCH 05/18] fix: composite kernels never expose a partial
 combination

---
 kernelmethods/base.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 9f4ac6d..abcddf3 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1486,10 +1486,11 @@ class SumKernel(CompositeKernel):
                                  'Must be an array of length exactly {}'
                                  ''.format(self.km_set.size))
 
-        self.KM = np.zeros((self.num_samples, self.num_samples))
+        KM = np.zeros((self.num_samples, self.num_samples))
         for weight, km in zip(kernel_weights, self.km_set):
-            self.KM = self.KM + weight * km.full
+            KM = KM + weight * km.full
 
+        self.KM = KM
         self._is_fitted = True
 
 
@@ -1516,10 +1517,11 @@ class ProductKernel(CompositeKernel):
     def fit(self):
         """Computes the product kernel."""
 
-        self.KM = np.ones((self.num_samples, self.num_samples))
+        KM = np.ones((self.num_samples, self.num_samples))
         for km in self.km_set:
-            self.KM = self.KM * km.full  # * is element-wise multiplication here
+            KM = KM * km.full  # * is element-wise multiplication here
 
+        self.KM = KM
         self._is_fitted = True
 
 
@@ -1545,12 +1547,12 @@ class AverageKernel(CompositeKernel):
     def fit(self):
         """Computes the average kernel"""
 
-        self.KM = np.zeros((self.num_samples, self.num_samples))
+        KM = np.zeros((self.num_samples, self.num_samples))
         for km in self.km_set:
-            self.KM = self.KM + km.full  # * is element-wise multiplication here
+            KM = KM + km.full  # * is element-wise multiplication here
 
         # dividing by N, to make it an average
-        self.KM = self.KM / self.km_set.size
+        self.KM = KM / self.km_set.size
 
         self._is_fitted = True
 
@@ -1588,8 +1590,14 @@ class WeightedAverageKernel(CompositeKernel):
     def fit(self):
         """Computes the weighted average kernel"""
 
-        self.KM = np.zeros((self.num_samples, self.num_samples))
+        if self.km_set.size != len(self.weights):
+            raise ValueError('Number of weights ({}) differ from the '
+                             'kernel set size ({})'
+                             ''.format(len(self.weights), self.km_set.size))
+
+        KM = np.zeros((self.num_samples, self.num_samples))
         for weight, km in zip(self.weights, self.km_set):
-            self.KM = self.KM + weight * km.full
+            KM = KM + weight * km.full
 
+        self.KM = KM
         self._is_fitted = True
-- 
2.43.0


From 0a408d0a377d396f61c1df8321b07819407aa948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 06/18] fix: optimal-kernel estimators work with the alignment
 ranking

---
 kernelmethods/ranking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index a360b9c..069459a 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -143,6 +143,8 @@ def alignment_ranking(kernel_bucket, targets, **method_params):
     targets = np.asarray(targets)
     target_kernel = np.outer(targets, targets)
     method_params.setdefault('value_if_zero_division', 0.0)
+    # optimal kernel estimators pass it regardless of the ranking method
+    method_params.pop('estimator_name', None)
 
     return np.array([
         alignment_centered(km.full, target_kernel, **method_params)
-- 
2.43.0


From c5958c91b672b78238e4fb836cd10e94371d018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:17 +0000
Subject: [PATCH 07/18] fix: a kernel without a usable score is never selected

---
 kernelmethods/ranking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index 069459a..fd04ebc 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -52,7 +52,8 @@ def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
     kernel_bucket.attach_to(sample=sample)
     metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
 
-    return kernel_bucket[np.argmax(metric)]
+    # a kernel whose score could not be computed (NaN) must never be selected
+    return kernel_bucket[np.nanargmax(metric)]
 
 
 def rank_kernels(kernel_bucket, targets, method='align/corr', **method_params):
-- 
2.43.0


From df9d37574ada305aeffa6c340c09ae9b6f079ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:58 +0000
Subject: [PATCH 08/18] fix: kernel machines predict from one complete fit,
 without changing it

---
 kernelmethods/algorithms.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 4c69fc8..88e2142 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -101,21 +101,25 @@ class BaseKernelMachine(BaseEstimator):
         """
 
         if is_regressor(self):
-            self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)
-            self._train_y = self._train_y.astype(np.float64)
+            train_X, train_y = check_X_y(X, y, y_numeric=True)
+            train_y = train_y.astype(np.float64)
         else:
-            self._train_X, self._train_y = check_X_y(X, y)
+            train_X, train_y = check_X_y(X, y)
 
-        self._km = KernelMatrix(self.k_func, name='train_km',
-                                normalized=self.normalized)
-        self._km.attach_to(self._train_X)
+        km = KernelMatrix(self.k_func, name='train_km',
+                          normalized=self.normalized)
+        km.attach_to(train_X)
 
-        self._estimator, self.param_grid = get_estimator(self.learner_id)
-        self._estimator.fit(X=self._km.full, y=self._train_y,
-                            sample_weight=sample_weight)
+        estimator, param_grid = get_estimator(self.learner_id)
+        estimator.fit(X=km.full, y=train_y, sample_weight=sample_weight)
 
+        fitted = dict(_train_X=train_X, _train_y=train_y, _km=km,
+                      _estimator=estimator, param_grid=param_grid)
         if is_classifier(self):
-            self.classes_ = self._estimator.classes_
+            fitted['classes_'] = estimator.classes_
+
+        # all at once: a failed fit must not leave parts of a new model behind
+        vars(self).update(fitted)
 
         return self
 
@@ -141,14 +145,14 @@ class BaseKernelMachine(BaseEstimator):
 
         test_X = check_array(X)
 
-        # this is a fresh new KM
-        self._km = KernelMatrix(self.k_func, name='test_km',
-                                normalized=self.normalized)
+        # this is a fresh new KM, with the kernel and normalization used in fit
+        km = KernelMatrix(self._km.kernel, name='test_km',
+                          normalized=self._km._keep_normed)
 
         # sample_one must be test data to get the right shape for sklearn X
-        self._km.attach_to(sample_one=test_X, sample_two=self._train_X)
+        km.attach_to(sample_one=test_X, sample_two=self._train_X)
 
-        predicted_y = self._estimator.predict(self._km.full)
+        predicted_y = self._estimator.predict(km.full)
 
         return np.asarray(predicted_y, dtype=self._train_y.dtype)
 
-- 
2.43.0


From f5815c7dbe8ff30f51bc2a00ef18b2f84dface5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:12 +0000
Subject: [PATCH 09/18] fix: optimal-kernel estimators predict from one
 complete fit, without changing it

---
 kernelmethods/algorithms.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 88e2142..247df10 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -6,7 +6,7 @@ Module to gather various high-level algorithms based on the kernel methods,
 """
 
 from abc import abstractmethod
-from copy import deepcopy
+from copy import copy, deepcopy
 
 import numpy as np
 from sklearn.base import (BaseEstimator, ClassifierMixin, RegressorMixin,
@@ -338,10 +338,14 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         """
 
+        # fitting a copy, whose state is taken over only when complete: a failed fit
+        # must not leave parts of a new model behind
+        model = copy(self)
+
         if isinstance(self.k_bucket, str):
             try:
                 # using a new internal variable to retain user supplied param
-                self._k_bucket = make_kernel_bucket(self.k_bucket)
+                model._k_bucket = make_kernel_bucket(self.k_bucket)
             except:
                 raise ValueError('Input for k_func can only an instance of '
                                  'KernelBucket or a sampling strategy to generate '
@@ -349,22 +353,25 @@ class BaseOptimalKernelMachine(BaseEstimator):
                                  'sampling strategy must be one of {}'
                                  ''.format(cfg.kernel_bucket_strategies))
         elif isinstance(self.k_bucket, KernelBucket):
-            self._k_bucket = deepcopy(self.k_bucket)
+            model._k_bucket = deepcopy(self.k_bucket)
         else:
             raise ValueError('Input for k_func can only an instance of '
                              'KernelBucket or a sampling strategy to generate '
                              'one with make_kernel_bucket')
 
-        self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)
+        model._train_X, model._train_y = check_X_y(X, y, y_numeric=True)
 
-        self.opt_kernel_ = self._find_optimal_kernel()
+        model.opt_kernel_ = model._find_optimal_kernel()
 
-        super().fit(X=self.opt_kernel_.full, y=self._train_y,
-                    sample_weight=sample_weight)
+        super(BaseOptimalKernelMachine, model).fit(X=model.opt_kernel_.full,
+                                                   y=model._train_y,
+                                                   sample_weight=sample_weight)
 
         # temporary hack to pass sklearn estimator checks till a bug is fixed
         # for more see: https://github.com/scikit-learn/scikit-learn/issues/14712
-        self.n_iter_ = 1
+        model.n_iter_ = 1
+
+        vars(self).update(vars(model))
 
         return self
 
@@ -390,9 +397,13 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         X = check_array(X)
 
+        # not attaching opt_kernel_ itself, it must stay attached to the training data
+        km = KernelMatrix(self.opt_kernel_.kernel, name='test_km',
+                          normalized=self.opt_kernel_._keep_normed)
+
         # sample_one must be test data to get the right shape for sklearn X
-        self.opt_kernel_.attach_to(sample_one=X, sample_two=self._train_X)
-        test_train_KM = self.opt_kernel_.full
+        km.attach_to(sample_one=X, sample_two=self._train_X)
+        test_train_KM = km.full
         predicted_y = super().predict(test_train_KM)
 
         # data type coversion is done in child class, esp. for classification
-- 
2.43.0


From b6aa1b7dbf6b7baafa39cb2a16e7390024a811b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:19 +0000
Subject: [PATCH 10/18] fix: interrupting a computation is not turned into an
 ordinary error

---
 kernelmethods/algorithms.py | 2 +-
 kernelmethods/base.py       | 6 +++---
 kernelmethods/operations.py | 2 +-
 kernelmethods/sampling.py   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 247df10..adbc127 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -346,7 +346,7 @@ class BaseOptimalKernelMachine(BaseEstimator):
             try:
                 # using a new internal variable to retain user supplied param
                 model._k_bucket = make_kernel_bucket(self.k_bucket)
-            except:
+            except Exception:
                 raise ValueError('Input for k_func can only an instance of '
                                  'KernelBucket or a sampling strategy to generate '
                                  'one with make_kernel_bucket.'
diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index abcddf3..8157a60 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -732,7 +732,7 @@ class KernelMatrix(object):
                     for ix_two in range(ix_one, self.shape[1]): # from second sample!
                         full_km[ix_one, ix_two] = \
                             self._eval_kernel(ix_one, ix_two)
-            except:
+            except Exception:
                 raise RuntimeError('Unable to fully compute the kernel matrix!')
 
         if fill_lower_tri and not is_ready:
@@ -747,7 +747,7 @@ class KernelMatrix(object):
                     # evaluating it for the lower triangle as well!
                     for ix_one, ix_two in zip(*ix_lower_tri):
                         full_km[ix_one, ix_two] = self._eval_kernel(ix_one, ix_two)
-            except:
+            except Exception:
                 raise RuntimeError('Unable to symmetrize the kernel matrix!')
 
         if is_ready:
@@ -857,7 +857,7 @@ class KernelMatrixPrecomputed(object):
 
         try:
             return self._KM[index_obj]
-        except:
+        except Exception:
             raise KMAccessError('Invalid attempt to access the 2D kernel matrix!')
 
 
diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index 7c597e8..7bc9c2a 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -80,7 +80,7 @@ def is_positive_semidefinite(sym_matrix,
         # testable!
         print('LinAlgError raised - eigen value computation failed --> not PSD')
         psd = False
-    except:
+    except Exception:
         if verbose:
             traceback.print_exc()
         warn('Unknown exception during eigen value computation --> not PSD')
diff --git a/kernelmethods/sampling.py b/kernelmethods/sampling.py
index a93e771..0c2d9ae 100644
--- a/kernelmethods/sampling.py
+++ b/kernelmethods/sampling.py
@@ -176,7 +176,7 @@ class KernelBucket(KernelSet):
                               'skip_input_checks': self._skip_input_checks}
                 self.append(KernelMatrix(kernel_func(**param_dict),
                                          normalized=self._norm_kernels))
-            except:
+            except Exception:
                 warn('Unable to add {} to the bucket for {}={}. Skipping it.'
                      ''.format(kernel_func, param, val), KernelMethodsWarning)
 
-- 
2.43.0


From d33456b652433199cd3e976437fe0eed0f8ed21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:35 +0000
Subject: [PATCH 11/18] fix: NaN eigenvalues never certify a matrix as PSD

---
 kernelmethods/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index 7bc9c2a..f87f0af 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -89,7 +89,8 @@ def is_positive_semidefinite(sym_matrix,
         if verbose:
             print('Smallest eigen values are:\n'
                   '{}'.format(eig_values[:min(10, len(eig_values))]))
-        if any(eig_values < -tolerance):  # notice the negative sign before tolerance
+        # notice the negative sign before tolerance; NaN is never above it
+        if not all(eig_values >= -tolerance):
             psd = False
         else:
             psd = True
-- 
2.43.0


From 33e6fa7e57942fd6deb388d3184b32eb14490382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:12 +0000
Subject: [PATCH 12/18] fix: put the scikit-learn mixins first, so kernel
 machines are known as classifiers and regressors

With the mixin last, scikit-learn takes a KernelMachineRegressor for neither: integer targets were not
converted, and its predictions were truncated to integers. KernelMachine had no classes_.
---
 kernelmethods/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index adbc127..3d7581b 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -188,11 +188,11 @@ class BaseKernelMachine(BaseEstimator):
             return dict()
 
 
-class KernelMachine(BaseKernelMachine, ClassifierMixin):
+class KernelMachine(ClassifierMixin, BaseKernelMachine):
     """Classifier version of the KernelMachine"""
 
 
-class KernelMachineRegressor(BaseKernelMachine, RegressorMixin):
+class KernelMachineRegressor(RegressorMixin, BaseKernelMachine):
     """Regressor version of the KernelMachine
 
     Parameters
-- 
2.43.0


From 09ec68c51cbc20c0d471ca7ddb127163e94642ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:25 +0000
Subject: [PATCH 13/18] fix: numeric kernels wrapped around on small-integer
 samples (e.g. uint8 images)

---
 kernelmethods/numeric_kernels.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/numeric_kernels.py b/kernelmethods/numeric_kernels.py
index 41d937c..09456a9 100644
--- a/kernelmethods/numeric_kernels.py
+++ b/kernelmethods/numeric_kernels.py
@@ -65,7 +65,7 @@ class HadamardKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         abs_x_a = np.power(np.abs(x), self.alpha)
         abs_y_a = np.power(np.abs(y), self.alpha)
@@ -139,7 +139,7 @@ class PolyKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return (self.b + self.gamma * np.dot(x, y)) ** self.degree
 
@@ -197,7 +197,7 @@ class GaussianKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return np.exp(-self.gamma * np.linalg.norm(x - y, ord=2) ** 2)
 
@@ -251,7 +251,7 @@ class LaplacianKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return np.exp(-self.gamma * np.sum(np.abs(x - y)))
 
@@ -391,7 +391,7 @@ class SigmoidKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return np.tanh(self.offset + (self.gamma * np.dot(x, y)))
 
@@ -435,7 +435,7 @@ class LinearKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.float64)
 
         return x.dot(y.T)
 
-- 
2.43.0


From 95f5a3806425578b64e021c087351cc1eab41a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 14/18] fix: target kernels wrapped around on small-integer
 targets (e.g. int8 labels)

---
 kernelmethods/ranking.py  | 2 +-
 kernelmethods/sampling.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index fd04ebc..c038913 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -141,7 +141,7 @@ def alignment_ranking(kernel_bucket, targets, **method_params):
 
     """
 
-    targets = np.asarray(targets)
+    targets = np.asarray(targets, dtype=np.float64)
     target_kernel = np.outer(targets, targets)
     method_params.setdefault('value_if_zero_division', 0.0)
     # optimal kernel estimators pass it regardless of the ranking method
diff --git a/kernelmethods/sampling.py b/kernelmethods/sampling.py
index 0c2d9ae..a76855f 100644
--- a/kernelmethods/sampling.py
+++ b/kernelmethods/sampling.py
@@ -263,7 +263,8 @@ def ideal_kernel(targets):
 
     """
 
-    targets = np.array(targets).reshape((-1, 1))  # row vector
+    # as floats: products of small integers (e.g. int8 labels) would wrap around
+    targets = np.array(targets, dtype=np.float64).reshape((-1, 1))  # row vector
 
     return targets.dot(targets.T)
 
-- 
2.43.0


From 291cf6808e1ea6a533700fac28f5baeffbeee76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:00 +0000
Subject: [PATCH 15/18] fix: weighted combinations wrapped around with
 small-integer weights and matrices

---
 kernelmethods/base.py       | 4 ++--
 kernelmethods/operations.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 8157a60..60ea87f 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1480,7 +1480,7 @@ class SumKernel(CompositeKernel):
         if kernel_weights is None:
             kernel_weights = np.ones(self.km_set.size)
         else:
-            kernel_weights = ensure_ndarray_1D(kernel_weights)
+            kernel_weights = ensure_ndarray_1D(kernel_weights, np.float64)
             if kernel_weights.size != self.km_set.size:
                 raise ValueError('Incompatible set of kernel_weights given.'
                                  'Must be an array of length exactly {}'
@@ -1580,7 +1580,7 @@ class WeightedAverageKernel(CompositeKernel):
         super().__init__(km_set, name=name)
 
         if self.km_set.size == len(weights):
-            self.weights = ensure_ndarray_1D(weights)
+            self.weights = ensure_ndarray_1D(weights, np.float64)
         else:
             raise ValueError('Number of weights ({}) supplied differ from the '
                              'kernel set size ({})'
diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index f87f0af..e5fdd22 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -411,7 +411,7 @@ def linear_combination(km_set, weights, norm_weights=False):
     """
 
     if km_set.size == len(weights):
-        weights = ensure_ndarray_1D(weights)
+        weights = ensure_ndarray_1D(weights, np.float64)
     else:
         raise ValueError('Number of weights ({}) supplied differ '
                          'from the kernel set size ({})'
-- 
2.43.0


From f31d8bbdca94e94beb6ecea898d89ab6ee5c7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:50 +0000
Subject: [PATCH 16/18] fix: Frobenius products of small-integer matrices
 wrapped around

---
 kernelmethods/operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index e5fdd22..540a98b 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -290,7 +290,9 @@ def frobenius_product(A, B):
                          'to compute Frobenious product! They differ: {}, {}'
                          ''.format(A.shape, B.shape))
 
-    return np.sum(elem_wise_multiply(A, B), axis=None)
+    # in floats at least: products of small integers would wrap around
+    dtype = np.result_type(A, B, np.float64)
+    return np.sum(elem_wise_multiply(A, B, dtype=dtype), axis=None)
 
 
 def frobenius_norm(A):
-- 
2.43.0


From 8a565801e9924cc570c88938651b879be6e0c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 17/18] fix: attaching a set with an unhashable attribute name
 was refused only after its members were attached

---
 kernelmethods/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 60ea87f..7783e0c 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1292,6 +1292,9 @@ class KernelSet(object):
             raise TypeError('Some members of this KernelSet can not be attached to '
                             'a sample, e.g. precomputed kernel matrices!')
 
+        if attr_name is not None:
+            hash(attr_name)  # raises TypeError if it can not name an attribute
+
         self._num_samples = sample.shape[0]
         self.sample = checked_sample
 
-- 
2.43.0


From 857eb7a511cc57635ba09b98e864d4d1048861d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 18/18] fix: a normalized matrix with non-finite values was
 handed out unannounced after the announcement was cut short

---
 kernelmethods/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 7783e0c..8bba93a 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -501,13 +501,14 @@ class KernelMatrix(object):
                 self._normed_km = normalize_km_2sample(self._full_km,
                                                        KM_XX.diagonal(),
                                                        KM_YY.diagonal())
-            self._is_normed = True
-
             if contains_nan_inf(self._normed_km):
                 warn('Kernel matrix computation resulted in Inf or NaN values!'
                      ' Check your parameters and data!\n Kernel function: {}'
                      ''.format(self.kernel), KernelMethodsWarning)
 
+            # only once announced: when interrupted before, the next access must warn
+            self._is_normed = True
+
 
     @property
     def centered(self):
-- 
2.43.0

