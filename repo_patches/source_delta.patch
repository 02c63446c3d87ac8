From 832114c9926d706cc09ec02bdb7ebeb40a3b595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 01/57] fix: crisp conversion of binary probability vectors
 crashed and lost class labels

---
 quantificationlib/base.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index d297236..6ae847b 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -331,15 +331,10 @@ class UsingClassifiers(BaseQuantifier):
             return preds
         if preds.ndim == 1 or preds.shape[1] == 1:
             #  binary problem
-            if preds.ndim == 1:
-                preds_mod = np.copy(preds)
-            else:
-                preds_mod = np.copy(preds.squeeze())
-            if isinstance(preds_mod[0], np.float):
-                # it contains probs
-                preds_mod[preds_mod >= 0.5] = 1
-                preds_mod[preds_mod < 0.5] = 0
-                return preds_mod.astype(int)
+            preds_mod = np.copy(preds).reshape(-1)
+            if np.issubdtype(preds_mod.dtype, np.floating):
+                # it contains probs of the positive class
+                return labels.take((preds_mod >= 0.5).astype(int), axis=0)
             else:
                 return preds_mod
         else:
-- 
2.43.0


From 7ec92513da62296c7cdfda757454f95e4d1b902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 02/57] fix: Frank and Hall class probability is e_{i-1}.right
 x e_i.left

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 0d56f10..487774b 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -250,7 +250,7 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
         # of the right group of the c_i-1 estimator, and the probability of the left group of the c_i estimator
         for c_i in range(1, n_classes - 1):
             # Pr(y = c_i) = p_right_estimator_i-1 * p_left_estimator_i
-            probs_samples[:, c_i] = 1 - predictions[:, c_i - 1] * predictions[:, c_i]
+            probs_samples[:, c_i] = (1 - predictions[:, c_i - 1]) * predictions[:, c_i]
         # the probability of the last class is the probability of the right group of the last estimator
         probs_samples[:, n_classes - 1] = 1 - predictions[:, n_classes - 1 - 1]
 
-- 
2.43.0


From 3a5a4d11f517b509ca329a31cb768dfab69106f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 03/57] fix: monotone Frank and Hall never corrected
 inconsistent probabilities

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 487774b..ab38188 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -535,7 +535,7 @@ class FrankAndHallMonotoneClassifier(FrankAndHallClassifier):
             Sep 2014, Nancy, France. pp.323 - 337, 2014,
         """
         ascending = np.all(probabilities[:, 1:] >= probabilities[:, :-1], axis=1)
-        samples_to_correct = np.nonzero(ascending is False)[0]
+        samples_to_correct = np.nonzero(~ascending)[0]
         if len(samples_to_correct) == 0:
             return probabilities
         else:
-- 
2.43.0


From 129e6a9fc64badf9d7d531aa2cb32e48c1d2c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 04/57] fix: quantification tree compared predicted left
 prevalence with true right prevalence

---
 quantificationlib/estimators/frank_and_hall.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index ab38188..d1730b0 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -797,7 +797,7 @@ class FrankAndHallTreeClassifier(FrankAndHallClassifier):
         for i in range(n_estimators):
             # compute the true prevalence of the left group for such estimator
             y_val_bin = self.label_binarizer_.transform(y)[:, i]
-            num_left = np.count_nonzero(y_val_bin == 0)  # left 0, right +1
+            num_left = np.count_nonzero(y_val_bin == 1)  # left +1, right 0
             p_true = num_left / float(n_samples)
             scores[i] = self.performance_measure(p_true, p_pred[i])
             if self.verbose:
-- 
2.43.0


From 96b9487d53450ef08731792efd483eeb64440a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 05/57] fix: every member of an ensemble of classifiers was the
 same estimator, fitted with the last bag

---
 quantificationlib/estimators/ensembles.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 43b2303..3404390 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -12,6 +12,8 @@ Estimators for an Ensemble of Quantifiers
 
 import numpy as np
 
+from copy import deepcopy
+
 from sklearn.base import BaseEstimator, ClassifierMixin
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
@@ -109,8 +111,9 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
 
             # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
             # performance due to the overhead of spawning threads.  See joblib issue #112.
-            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(self.base_estimator.fit)(X[indexes[:, n_est], :],
-                                                                                             y[indexes[:, n_est]])
+            # Each bag fits its own copy, base_estimator is just the template
+            self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(deepcopy(self.base_estimator).fit)(
+                                                                X[indexes[:, n_est], :], y[indexes[:, n_est]])
                                                             for n_est in range(self.n_estimators_))
 
         self.classes_ = np.unique(y)
-- 
2.43.0


From e6b4d2f1922216d17b6efe3d6408bf7ee3fe179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 06/57] fix: ensemble of classifiers mixed up class
 probabilities when a bag lacks a class

---
 quantificationlib/estimators/ensembles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 3404390..7a32e4a 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -173,7 +173,8 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
         #  different than len(X)
         p_0 = self.estimators_[0].predict_proba(X)
         preds = np.zeros((len(p_0), self.n_estimators_, len(self.classes_)), dtype=p_0.dtype)
-        preds[:, 0, :] = p_0
         for i in range(self.n_estimators_):
-            preds[:, i, :] = self.estimators_[i].predict_proba(X)
+            # the training bag of an estimator may have no examples of some classes
+            known = np.isin(self.classes_, self.estimators_[i].classes_)
+            preds[:, i, known] = p_0 if i == 0 else self.estimators_[i].predict_proba(X)
         return preds
-- 
2.43.0


From 94f4529661d9c3c293b732112498a88719d63533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 07/57] fix: uniform bags never used the last cut point,
 rejecting or looping forever on tight min_prevalence

---
 quantificationlib/bag_generator.py | 39 +++++++++---------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index e5bcb22..31955d2 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -202,47 +202,30 @@ class PriorShift_BagGenerator(BagGenerator):
         #  computing min number of examples for each class and low value (for the first class) and the
         #  high value (for the last class)
         #  The idea is to perform a efficient comprobation. For binary problems all random generation will be correct
-        #  becuase the values low-high are fixed appropriately. For multiclass problems (min_examples will be
-        #  not None) we need to check it
+        #  becuase the values low-high are fixed appropriately. For multiclass problems we need to check the classes
+        #  in the middle
         if self.min_prevalence is None:
-            min_nexamples = None
-            low = 0
-            high = self.bag_size
-        elif n_classes == 2:
-            #  binary problem
-            if np.isscalar(self.min_prevalence):
-                # same prevalence
-                min_nexamples = None
-                low = round(self.bag_size * self.min_prevalence)
-                high = int(self.bag_size * (1 - self.min_prevalence))
-            else:
-                # different prevalence
-                min_nexamples = None
-                low = round(self.bag_size * self.min_prevalence[0])
-                high = int(self.bag_size * (1 - self.min_prevalence[1]))
-        elif np.isscalar(self.min_prevalence):
-            #  multiclass problem, min prevalence equal to all classes
-            min_nexamples = np.round(np.ones(n_classes) * self.min_prevalence * self.bag_size)
-            low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
+            min_nexamples = np.zeros(n_classes, dtype=int)
         else:
-            #  multiclass problem, different prevalences
-            min_nexamples = np.round(self.min_prevalence * self.bag_size)
-            low = min_nexamples[0]
-            high = self.bag_size - min_nexamples[-1]
+            min_nexamples = np.round(np.ones(n_classes) * self.min_prevalence * self.bag_size).astype(int)
+        if np.sum(min_nexamples) > self.bag_size:
+            raise ValueError('The values for min_prevalence cannot be satisfied with bags of %d examples'
+                             % self.bag_size)
+        low = min_nexamples[0]
+        high = self.bag_size - min_nexamples[-1]
 
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
         n_bag = 0
         while n_bag < self.n_bags:
             # Kraemer method:
-            ps = self.random_state.randint(low, high, n_classes - 1)
+            ps = self.random_state.randint(low, high + 1, n_classes - 1)  # high is a valid cut point too
             ps = np.append(ps, [0, self.bag_size])
             ps = np.diff(np.sort(ps))  # number of samples for each class
 
             #  checking if the combination is correct, only needed in multiclass problems. Only the values for the
             #  classes in the middle must be checked
-            if min_nexamples is None or (ps[1:-1] >= min_nexamples[1:-1]).all():
+            if (ps[1:-1] >= min_nexamples[1:-1]).all():
                 self.prevalences_[:, n_bag] = ps / self.bag_size  # to obtain prevalences
                 position = 0
                 for cls, n_examples in zip(classes, np.array(ps)):
-- 
2.43.0


From 20096fd97acbc5a5ae214246f0ba6bbb886a557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 08/57] fix: Dirichlet prevalences ignored random_state

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 31955d2..b2c56d3 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -272,7 +272,7 @@ class PriorShift_BagGenerator(BagGenerator):
                 if len(self.alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = np.random.dirichlet(self.alphas, size=self.n_bags).transpose()
+        self.prevalences_ = self.random_state.dirichlet(self.alphas, size=self.n_bags).transpose()
         self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
-- 
2.43.0


From ed4ef7e5edc8e59a40b1975f5b6d392ee0af1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 09/57] fix: prior and covariate shift generator crashed with
 the default bag_size

---
 quantificationlib/bag_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index b2c56d3..8e2e99f 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -527,7 +527,7 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
         classes = np.unique(y)
         n_classes = len(classes)
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.indexes_ = np.zeros((len(y) if self.bag_size is None else self.bag_size, self.n_bags), dtype=np.uint32)
 
         self.prevalences_[:, 0:n_bags_prior], self.indexes_[:, 0:n_bags_prior] = prior.generate_bags(X, y)
         self.prevalences_[:, n_bags_prior:], self.indexes_[:, n_bags_prior:] = covariate.generate_bags(X, y)
-- 
2.43.0


From 3a29da0a90ee7eff238e1bd50bca1f493b79c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 10/57] fix: bag generators returned the bags of a previous
 dataset and overwrote their own parameters

---
 quantificationlib/bag_generator.py | 115 ++++++++++++++++++-----------
 1 file changed, 73 insertions(+), 42 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index 8e2e99f..abc9ccb 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -23,9 +23,32 @@ from quantificationlib.multiclass.df import compute_bincuts
 class BagGenerator(metaclass=ABCMeta):
     """ Base class for bag generator classes
     """
+    data_ = None  # data used to generate the stored bags
+
     def generate_bags(self, X, y):
         raise NotImplementedError()
 
+    def _discard_bags_of_other_data(self, X, y):
+        """ Forget the stored bags when they were generated for other data or they are not n_bags bags
+        """
+        data = [None if X is None else np.array(X), np.array(y)]
+        if self.data_ is not None and not (self.prevalences_ is not None and
+                                           self.prevalences_.shape[1] == self.n_bags and
+                                           np.array_equal(self.data_[0], data[0]) and
+                                           np.array_equal(self.data_[1], data[1])):
+            self.prevalences_ = None
+            self.indexes_ = None
+        self.data_ = data
+
+    def _get_random_state(self):
+        """ Return the random number generator, without replacing the seed selected by the user
+        """
+        if isinstance(self.random_state, (numbers.Integral, np.integer)):
+            return np.random.RandomState(self.random_state)
+        if not isinstance(self.random_state, np.random.RandomState):
+            raise ValueError('Invalid random generaror object')
+        return self.random_state
+
 
 class PriorShift_BagGenerator(BagGenerator):
     """ Generate bags with prior probability shift
@@ -134,25 +157,22 @@ class PriorShift_BagGenerator(BagGenerator):
                 is not implemented or when the parameters for the selected method are incorrect
         """
 
+        self._discard_bags_of_other_data(X, y)
         if self.prevalences_ is not None and self.indexes_ is not None:
             return self.prevalences_, self.indexes_
 
-        if isinstance(self.random_state, (numbers.Integral, np.integer)):
-            self.random_state = np.random.RandomState(self.random_state)
-        if not isinstance(self.random_state, np.random.RandomState):
-            raise ValueError('Invalid random generaror object')
+        random_state = self._get_random_state()
 
-        if self.bag_size is None:
-            self.bag_size = len(y)
+        bag_size = len(y) if self.bag_size is None else self.bag_size
 
         if self.method == 'Uniform':
-            return self._generate_uniform(X, y)
+            return self._generate_uniform(X, y, bag_size, random_state)
         elif self.method == 'Dirichlet':
-            return self._generate_dirichlet(X, y)
+            return self._generate_dirichlet(X, y, bag_size, random_state)
         else:
             raise ValueError('Invalid method for random generaror object')
 
-    def _generate_uniform(self, X, y):
+    def _generate_uniform(self, X, y, bag_size, random_state):
         """ Create bags of examples simulating prior probability shift using an uniform distribution of the prevalences
 
             The implemented algorithm was proposed by Kramer, see references
@@ -165,6 +185,12 @@ class PriorShift_BagGenerator(BagGenerator):
             y : array-like, shape (n_examples, )
                 True classes
 
+            bag_size : int
+                Number of examples in each bag
+
+            random_state : RandomState instance
+                To generate random numbers
+
             Returns
             ------
             prevalences : numpy array, shape (n_bags, n_classes)
@@ -207,37 +233,37 @@ class PriorShift_BagGenerator(BagGenerator):
         if self.min_prevalence is None:
             min_nexamples = np.zeros(n_classes, dtype=int)
         else:
-            min_nexamples = np.round(np.ones(n_classes) * self.min_prevalence * self.bag_size).astype(int)
-        if np.sum(min_nexamples) > self.bag_size:
+            min_nexamples = np.round(np.ones(n_classes) * self.min_prevalence * bag_size).astype(int)
+        if np.sum(min_nexamples) > bag_size:
             raise ValueError('The values for min_prevalence cannot be satisfied with bags of %d examples'
-                             % self.bag_size)
+                             % bag_size)
         low = min_nexamples[0]
-        high = self.bag_size - min_nexamples[-1]
+        high = bag_size - min_nexamples[-1]
 
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
         n_bag = 0
         while n_bag < self.n_bags:
             # Kraemer method:
-            ps = self.random_state.randint(low, high + 1, n_classes - 1)  # high is a valid cut point too
-            ps = np.append(ps, [0, self.bag_size])
+            ps = random_state.randint(low, high + 1, n_classes - 1)  # high is a valid cut point too
+            ps = np.append(ps, [0, bag_size])
             ps = np.diff(np.sort(ps))  # number of samples for each class
 
             #  checking if the combination is correct, only needed in multiclass problems. Only the values for the
             #  classes in the middle must be checked
             if (ps[1:-1] >= min_nexamples[1:-1]).all():
-                self.prevalences_[:, n_bag] = ps / self.bag_size  # to obtain prevalences
+                self.prevalences_[:, n_bag] = ps / bag_size  # to obtain prevalences
                 position = 0
                 for cls, n_examples in zip(classes, np.array(ps)):
                     if n_examples != 0:
-                        indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                        indexes = random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
                         self.indexes_[position:position+len(indexes), n_bag] = indexes
                         position = position + len(indexes)
 
                 n_bag = n_bag + 1
         return self.prevalences_, self.indexes_
 
-    def _generate_dirichlet(self, X, y):
+    def _generate_dirichlet(self, X, y, bag_size, random_state):
         """ Create bags of examples simulating prior probability shift using the Dirichlet distribution
 
             Parameters
@@ -248,6 +274,12 @@ class PriorShift_BagGenerator(BagGenerator):
             y : array-like, shape (n_examples, )
                 True classes
 
+            bag_size : int
+                Number of examples in each bag
+
+            random_state : RandomState instance
+                To generate random numbers
+
             Returns
             ------
             prevalences : numpy array, shape (n_bags, n_classes)
@@ -263,32 +295,33 @@ class PriorShift_BagGenerator(BagGenerator):
         n_classes = len(classes)
 
         # checking if alphas  has correct values
-        if isinstance(self.alphas, list):
-            self.alphas = np.array(self.alphas)
-        if self.alphas is not None:
-            if np.isscalar(self.alphas):
-                self.alphas = np.ones(n_classes) * self.alphas
+        alphas = self.alphas
+        if isinstance(alphas, list):
+            alphas = np.array(alphas)
+        if alphas is not None:
+            if np.isscalar(alphas):
+                alphas = np.ones(n_classes) * alphas
             else:
-                if len(self.alphas) != n_classes:
+                if len(alphas) != n_classes:
                     raise ValueError('the size of alphas parameter does not match the number of classes')
 
-        self.prevalences_ = self.random_state.dirichlet(self.alphas, size=self.n_bags).transpose()
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.prevalences_ = random_state.dirichlet(alphas, size=self.n_bags).transpose()
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         for n_bag in range(self.n_bags):
             position = 0
             for n_cls, cls in enumerate(classes):
                 #  compute the number of examples given the prevalence
                 if n_cls < n_classes - 1:
-                    n_examples = min(self.bag_size - position,
-                                     int(np.round(self.prevalences_[n_cls, n_bag] * self.bag_size)))
+                    n_examples = min(bag_size - position,
+                                     int(np.round(self.prevalences_[n_cls, n_bag] * bag_size)))
                 else:
-                    n_examples = self.bag_size - position
+                    n_examples = bag_size - position
                 #  adjust the true prevalence given the number of examples
-                self.prevalences_[n_cls, n_bag] = n_examples / self.bag_size
+                self.prevalences_[n_cls, n_bag] = n_examples / bag_size
 
                 if n_examples != 0:
-                    indexes = self.random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
+                    indexes = random_state.choice(np.where(y == cls)[0], n_examples, replace=True)
                     self.indexes_[position:position + len(indexes), n_bag] = indexes
                     position = position + len(indexes)
 
@@ -377,25 +410,22 @@ class CovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
+        self._discard_bags_of_other_data(X, y)
         if self.prevalences_ is not None and self.indexes_ is not None:
             return self.prevalences_, self.indexes_
 
-        if isinstance(self.random_state, (numbers.Integral, np.integer)):
-            self.random_state = np.random.RandomState(self.random_state)
-        if not isinstance(self.random_state, np.random.RandomState):
-            raise ValueError('Invalid random generaror object')
+        random_state = self._get_random_state()
 
         X, y = check_X_y(X, y)
         classes = np.unique(y)
         n_classes = len(classes)
-        if self.bag_size is None:
-            self.bag_size = len(X)
+        bag_size = len(X) if self.bag_size is None else self.bag_size
 
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
-        self.indexes_ = np.zeros((self.bag_size, self.n_bags), dtype=np.uint32)
+        self.indexes_ = np.zeros((bag_size, self.n_bags), dtype=np.uint32)
 
         #  selecting the center example for each bag
-        centers = self.random_state.randint(0, len(X), self.n_bags)
+        centers = random_state.randint(0, len(X), self.n_bags)
 
         for n_bag in range(self.n_bags):
             #  compute similarity using RBF kernel using the default value for gamma 1/num_features
@@ -403,9 +433,9 @@ class CovariateShift_BagGenerator(BagGenerator):
             #  the probability to select an example for the bag is proportional to its similarity
             probs = similarity / np.sum(similarity)
 
-            self.indexes_[:, n_bag] = self.random_state.choice(range(len(X)), self.bag_size, p=probs[0, :])
+            self.indexes_[:, n_bag] = random_state.choice(range(len(X)), bag_size, p=probs[0, :])
             for n_cls, cls in enumerate(classes):
-                self.prevalences_[n_cls, n_bag] = np.sum(y[self.indexes_[:, n_bag]] == cls) / self.bag_size
+                self.prevalences_[n_cls, n_bag] = np.sum(y[self.indexes_[:, n_bag]] == cls) / bag_size
 
         return self.prevalences_, self.indexes_
 
@@ -511,6 +541,7 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
                 When random_state is neither a int nor a RandomState object
         """
 
+        self._discard_bags_of_other_data(X, y)
         if self.prevalences_ is not None and self.indexes_ is not None:
             return self.prevalences_, self.indexes_
 
-- 
2.43.0


From b5599c6ac768912d3033499169459f2711d92fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 11/57] fix: ensemble with repeated predictions crashed when
 bag size differs from training size

---
 quantificationlib/ensembles/eoq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 537bb09..2198867 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -333,7 +333,7 @@ class EoQ(WithoutClassifiers):
             else:
                 n_repetitions = len(predictions_train) // len(y)
                 y_ext = np.tile(y, n_repetitions)
-                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(y))
+                adapt_indexs = np.repeat(np.array(range(0, len(y) * n_repetitions, len(y))), len(self.indexes_))
                 indexes_ext = np.tile(self.indexes_, (n_repetitions, 1)) + np.transpose(np.tile(adapt_indexs,
                                                                                                 (
                                                                                                     self.n_quantifiers,
-- 
2.43.0


From cf8f19d79cc2274646f8b84f6d47ef3d64bd7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 12/57] fix: distribution similarity compared every member's
 distribution over the whole training set, CDF crashed

---
 quantificationlib/ensembles/eoq.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 2198867..7a636ba 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -241,10 +241,10 @@ class EoQ(WithoutClassifiers):
             if self.verbose > 0:
                 print('Class %s: Training quantifiers...' % self.__class__.__name__, end='')
 
-            self.bincuts_ = np.zeros((X.shape[1], 100 + 1))
+            self.bincuts_ = np.zeros((X.shape[1], self.n_bins + 1))
             for att in range(X.shape[1]):
-                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=None, classes=self.classes_,
-                                                        n_bins=self.n_bins, bin_strategy='equal_width')
+                self.bincuts_[att, :] = compute_bincuts(x=X[:, att], y=y, classes=self.classes_,
+                                                        n_bins=self.n_bins, bin_strategy=self.bin_strategy)
 
             self.quantifiers_ = np.zeros(self.n_quantifiers, dtype=object)
             for i in range(self.n_quantifiers):
@@ -256,10 +256,11 @@ class EoQ(WithoutClassifiers):
             for i in range(self.n_quantifiers):
                 for att in range(X.shape[1]):
                     self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                        np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
+                        np.histogram(X[self.indexes_[:, i], att],
+                                     bins=self.bincuts_[att, :])[0] / len(self.indexes_)
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, att * self.n_bins:(att + 1) * self.n_bins])
 
         elif isinstance(self.base_quantifier, UsingClassifiers):
 
@@ -379,16 +380,16 @@ class EoQ(WithoutClassifiers):
                 for descr in range(n_descriptors):
                     if predictions_train.ndim == 2:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                             np.histogram(predictions_train[:, descr],
-                                          bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                             np.histogram(predictions_train[indexes_ext[:, i], descr],
+                                          bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     elif predictions_train.ndim == 3:
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.histogram(predictions_train.mean(axis=1)[:, descr],
-                                         bins=self.bincuts_[descr, :])[0] / len(predictions_train)
+                            np.histogram(predictions_train.mean(axis=1)[indexes_ext[:, i], descr],
+                                         bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins])
 
         else:
             raise ValueError("Base quantifiers of class %s not implemented in EoQ"
@@ -466,8 +467,8 @@ class EoQ(WithoutClassifiers):
                     test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
                         np.histogram(X[:, att], bins=self.bincuts_[att, :])[0] / len(X)
                     if self.distribution_function == 'CDF':
-                        test_distributions[0, att * self.n_bins:(att + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins], axis=1)
+                        test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins] = \
+                            np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins])
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
                 if predictions_test.ndim == 1:
@@ -493,7 +494,7 @@ class EoQ(WithoutClassifiers):
                     # compute cdf if necessary
                     if self.distribution_function == 'CDF':
                         test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins] = \
-                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins], axis=1)
+                            np.cumsum(test_distribution[0, descr * self.n_bins:(descr + 1) * self.n_bins])
             else:
                 raise ValueError("Base quantifiers of class %s not implemented in EoQ"
                                  % self.base_quantifier.__class__.__name__)
-- 
2.43.0


From 4b7846eb90186d3241e5149a1a3cd146f5e74d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 13/57] fix: similarity strategies returned NaN when the
 percentage selects no model

---
 quantificationlib/ensembles/eoq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 7a636ba..6b8a7a8 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -450,13 +450,15 @@ class EoQ(WithoutClassifiers):
                     #  3 dimensions, an EnsembleOfClassifiers is used
                     prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test[:, i, :])
 
+        #  at least one model must be selected
+        n_selected = max(1, round(self.n_quantifiers * self.percentage_of_selected_models))
         if self.combination_strategy == 'prevalence_similarity' or self.combination_strategy == 'all':
             p = np.mean(prevalences, axis=0)
             difference = np.zeros(self.n_quantifiers)
             for i in range(self.n_quantifiers):
                 difference[i] = mean_absolute_error(p, prevalences[i])
             indxs = np.argsort(difference)
-            prevalence_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            prevalence_similarity_selected = indxs[0:n_selected]
 
         if self.combination_strategy == 'distribution_similarity' or self.combination_strategy == 'all':
 
@@ -499,8 +501,8 @@ class EoQ(WithoutClassifiers):
                 raise ValueError("Base quantifiers of class %s not implemented in EoQ"
                                  % self.base_quantifier.__class__.__name__)
             distances = cdist(test_distribution, self.distributions_, metric=self.distance_bags)
-            indxs = np.argsort(distances.squeeze())
-            distribution_similarity_selected = indxs[0:round(self.n_quantifiers * self.percentage_of_selected_models)]
+            indxs = np.argsort(distances[0])
+            distribution_similarity_selected = indxs[0:n_selected]
 
         prediction = 0
         if self.combination_strategy == 'mean':
-- 
2.43.0


From 5091f83b50f129c634a42d6072a39782611e1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 14/57] fix: ensemble read the crisp predictions of its members
 as class probabilities

---
 quantificationlib/ensembles/eoq.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 6b8a7a8..11d3bc2 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -349,6 +349,10 @@ class EoQ(WithoutClassifiers):
                 if predictions_train.ndim == 1:
                     self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
                                              predictions_train=predictions_train[indexes_ext[:, i]])
+                elif self._crisp_by_member(predictions_train):
+                    #  crisp predictions of an EnsembleOfClassifiers, i-th column contains those of i-th estimator
+                    self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
+                                             predictions_train=predictions_train[indexes_ext[:, i], i])
                 elif predictions_train.ndim == 2:
                     self.quantifiers_[i].fit(X=None, y=y_ext[indexes_ext[:, i]],
                                              predictions_train=predictions_train[indexes_ext[:, i], :])
@@ -365,7 +369,7 @@ class EoQ(WithoutClassifiers):
             # compute bincuts according to bin_strategy
             self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
             for descr in range(n_descriptors):
-                if predictions_train.ndim == 2:
+                if predictions_train.ndim == 2 and not self._crisp_by_member(predictions_train):
                     self.bincuts_[descr, :] = compute_bincuts(x=predictions_train[:, descr], y=y_ext,
                                                               classes=self.classes_,
                                                               n_bins=self.n_bins, bin_strategy=self.bin_strategy)
@@ -378,7 +382,7 @@ class EoQ(WithoutClassifiers):
             self.distributions_ = np.zeros((self.n_quantifiers, self.n_bins * n_descriptors))
             for i in range(self.n_quantifiers):
                 for descr in range(n_descriptors):
-                    if predictions_train.ndim == 2:
+                    if predictions_train.ndim == 2 and not self._crisp_by_member(predictions_train):
                         self.distributions_[i, descr * self.n_bins:(descr + 1) * self.n_bins] = \
                              np.histogram(predictions_train[indexes_ext[:, i], descr],
                                           bins=self.bincuts_[descr, :])[0] / len(indexes_ext)
@@ -400,6 +404,12 @@ class EoQ(WithoutClassifiers):
 
         return self
 
+    def _crisp_by_member(self, predictions):
+        """ Check if predictions are the crisp predictions of an EnsembleOfClassifiers, shape (n_examples, n_estimators)
+        """
+        return (not self.base_quantifier.probabilistic_predictions and predictions.ndim == 2
+                and not np.issubdtype(predictions.dtype, np.floating))
+
     def predict(self, X, predictions_test=None):
         """
 
@@ -444,7 +454,9 @@ class EoQ(WithoutClassifiers):
                     predictions_test = self.ensemble_estimator_test.predict(X)
 
             for i in range(self.n_quantifiers):
-                if predictions_test.ndim <= 2:
+                if self._crisp_by_member(predictions_test):
+                    prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test[:, i])
+                elif predictions_test.ndim <= 2:
                     prevalences[i, :] = self.quantifiers_[i].predict(X=None, predictions_test=predictions_test)
                 else:
                     #  3 dimensions, an EnsembleOfClassifiers is used
@@ -473,7 +485,7 @@ class EoQ(WithoutClassifiers):
                             np.cumsum(test_distribution[0, att * self.n_bins:(att + 1) * self.n_bins])
             elif isinstance(self.base_quantifier, UsingClassifiers):
 
-                if predictions_test.ndim == 1:
+                if predictions_test.ndim == 1 or self._crisp_by_member(predictions_test):
                     raise ValueError("Class %s: distribution_similarity not implemented with quantifiers that use "
                                      "crisp preditions, used prevalence_similarity instead", self.__class__.__name__)
 
-- 
2.43.0


From 26b64ada4b6425da954cc8f06b22b354a2a7e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 15/57] fix: bin cuts of repeated predictions used labels of a
 different length

---
 quantificationlib/multiclass/df.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 7341aa5..f2b7fc6 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -249,7 +249,7 @@ class DFy(UsingClassifiers):
         # compute bincuts according to bin_strategy
         self.bincuts_ = np.zeros((n_descriptors, self.n_bins + 1))
         for descr in range(n_descriptors):
-            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=y, classes=self.classes_,
+            self.bincuts_[descr, :] = compute_bincuts(x=self.predictions_train_[:, descr], y=self.y_ext_, classes=self.classes_,
                                                       n_bins=self.n_bins, bin_strategy=self.bin_strategy,
                                                       att_range=[0, 1])
 
-- 
2.43.0


From b9df2d7838d0c9c2ceb7a5be0550034795e336d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 16/57] fix: equal_count bins were not increasing or crashed
 with less examples than bins

---
 quantificationlib/multiclass/df.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index f2b7fc6..184fede 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -704,7 +704,8 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         bincuts[-1] = np.inf
         for i in range(1, n_bins):
             cutpoint = int(round(len(x) * i / n_bins))
-            bincuts[i] = (sorted_values[cutpoint - 1] + sorted_values[cutpoint]) / 2
+            #  with less examples than bins, the cut point may be before the first value or after the last one
+            bincuts[i] = (sorted_values[max(cutpoint - 1, 0)] + sorted_values[min(cutpoint, len(x) - 1)]) / 2
     elif bin_strategy == 'binormal':
         # only for binary quantification
         n_classes = len(classes)
-- 
2.43.0


From 868f52a7af79271966c64a604b186aa286e5dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 17/57] fix: normal and binormal bins of a constant feature did
 not cover the real line

---
 quantificationlib/multiclass/df.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 184fede..369cf1f 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -722,7 +722,9 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         if std > 0:
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
-            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[mu, mu])
+            bincuts[0] = -np.inf
+            bincuts[-1] = np.inf
     elif bin_strategy == 'normal':
         weights = np.ones((x.shape[0],))
         for n_cls, cls in enumerate(classes):
@@ -733,7 +735,9 @@ def compute_bincuts(x, y=None, classes=None, n_bins=8, bin_strategy='equal_width
         if std > 0:
             bincuts = [std * norm.ppf(i / n_bins) + mu for i in range(0, n_bins + 1)]
         else:
-            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[0, 0])
+            bincuts = np.histogram_bin_edges(x, bins=n_bins, range=[mu, mu])
+            bincuts[0] = -np.inf
+            bincuts[-1] = np.inf
     else:
         raise ValueError('Unknown bin strategy (possible values: ''equal_width'', ''binormal'', ''normal''')
 
-- 
2.43.0


From a6f3218f43936d9dbec961947257db8fe9f72199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 18/57] fix: Hellinger distance ignored the mass of
 unnormalized distributions (CDFs) and used feastol 1e6

---
 quantificationlib/optimization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index c033cb0..8edfccb 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -119,15 +119,17 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
         s = cvxpy.multiply(test_d, train_distrib @ prevalences)
         test_d.value = np.squeeze(test_distrib)
-        objective = cvxpy.Minimize(1 - cvxpy.sum(cvxpy.sqrt(s)))
+        #  the masses must be considered because train_distrib may contain CDFs
+        mass = cvxpy.sum(train_distrib @ prevalences) + cvxpy.sum(test_d)
+        objective = cvxpy.Minimize(mass / 2 - cvxpy.sum(cvxpy.sqrt(s)))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
-        problem.solve(solver=solver, feastol=1e6)
+        problem.solve(solver=solver, feastol=1e-6)
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
         problem.parameters()[0].value = np.squeeze(test_distrib)
-        problem.solve(warm_start=True, solver=solver, feastol=1e6)
+        problem.solve(warm_start=True, solver=solver, feastol=1e-6)
 
         return problem, list(problem.solution.primal_vars.values())[0]
 
-- 
2.43.0


From cd431b03fb852f4590c2e34bae1ec079bdd0cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 19/57] fix: global search looked around increasing points
 instead of local minima

---
 quantificationlib/search.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 1cb4bfd..d80f17b 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -85,26 +85,20 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
         for i in range(0, 101):
             losses[i] = distance_func(mixture_func(prevalence=i / 100, **kwargs), test_distrib)
 
-    n_mins = 0
-    p_estimated = 2
+    if np.all(losses == losses[0]):
+        raise ValueError("Search: there are infinite minima according to the distance function used")
+
+    p_estimated = None
     minimum_loss = np.inf
-    for i in range(1, 100):
-        if losses[i - 1] < losses[i] < losses[i + 1]:
-            n_mins = n_mins + 1
+    for i in range(0, 101):
+        #  local minima, the end points included
+        if losses[i] <= losses[max(i - 1, 0)] and losses[i] <= losses[min(i + 1, 100)]:
             loss, p = golden_section_search(distance_func, mixture_func, test_distrib, tol,
                                             max(i - 2, 0) / 100, min(i + 2, 100) / 100, **kwargs)
             if loss < minimum_loss:
                 minimum_loss = loss
                 p_estimated = p
 
-    if n_mins == 0:
-        if losses[0] == losses[100]:
-            raise ValueError("Search: there are infinite minima according to the distance function used")
-        elif losses[0] < losses[100]:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.0, 0.02, **kwargs)
-        else:
-            _, p_estimated = golden_section_search(distance_func, mixture_func, test_distrib, tol, 0.98, 1.0, **kwargs)
-
     if return_mixtures:
         return mixtures, p_estimated
     else:
-- 
2.43.0


From 506cd24c615340850a58420d672e69da2464e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 20/57] fix: global search passed precomputed mixtures with
 other shape than the distribution compared

---
 quantificationlib/search.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index d80f17b..bc777d6 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -74,15 +74,14 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
         mix_0 = mixture_func(prevalence=0, **kwargs)
         mixtures = np.zeros((101, len(mix_0)))
         mixtures[0, :] = np.squeeze(mix_0)
-        losses[0] = distance_func(mixtures[0, :], test_distrib)
         for i in range(1, 101):
             mixtures[i, :] = np.squeeze(mixture_func(prevalence=i / 100, **kwargs))
-            losses[i] = distance_func(mixtures[i, :], test_distrib)
-    elif mixtures is not None:
-        for i in range(0, 101):
-            losses[i] = distance_func(mixtures[i, :], test_distrib)
-    else:
-        for i in range(0, 101):
+
+    for i in range(0, 101):
+        if mixtures is not None:
+            #  distance_func must receive arrays with the same shape
+            losses[i] = distance_func(mixtures[i, :].reshape(np.shape(test_distrib)), test_distrib)
+        else:
             losses[i] = distance_func(mixture_func(prevalence=i / 100, **kwargs), test_distrib)
 
     if np.all(losses == losses[0]):
-- 
2.43.0


From b503c4e3f1d425fb42528e7c1da2532203a54bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 21/57] fix: Kullback-Leibler divergences were NaN when a true
 prevalence is 0

---
 quantificationlib/metrics/binary.py     | 10 ++--------
 quantificationlib/metrics/multiclass.py |  2 +-
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/quantificationlib/metrics/binary.py b/quantificationlib/metrics/binary.py
index eee791e..4a0026b 100644
--- a/quantificationlib/metrics/binary.py
+++ b/quantificationlib/metrics/binary.py
@@ -33,14 +33,8 @@ def binary_kld(p_true, p_pred, eps=1e-12):
         KLD: float
              The Kullback-Leiber divergence for binary problems
     """
-    if p_pred == 0:
-        kld = p_true * np.log2(p_true / eps)
-    else:
-        kld = p_true * np.log2(p_true / p_pred)
-    if p_pred == 1:
-        kld = kld + (1 - p_true) * np.log2((1 - p_true) / eps)
-    else:
-        kld = kld + (1 - p_true) * np.log2((1 - p_true) / (1 - p_pred))
+    kld = p_true * np.log2((p_true + eps) / (p_pred + eps))
+    kld = kld + (1 - p_true) * np.log2((1 - p_true + eps) / (1 - p_pred + eps))
     return kld
 
 
diff --git a/quantificationlib/metrics/multiclass.py b/quantificationlib/metrics/multiclass.py
index 20ddfb9..3f67a99 100644
--- a/quantificationlib/metrics/multiclass.py
+++ b/quantificationlib/metrics/multiclass.py
@@ -80,7 +80,7 @@ def kld(p_true, p_pred, eps=1e-12):
             The Kullback-Leiber divergence
     """
     p_true, p_pred = check_prevalences(p_true, p_pred)
-    return np.sum(p_true * np.log2(p_true / (p_pred + eps)))
+    return np.sum(p_true * np.log2((p_true + eps) / (p_pred + eps)))
 
 
 def mean_absolute_error(p_true, p_pred):
-- 
2.43.0


From 02ad37b15def2da2ac3e3e8a1c9600b305262e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 22/57] fix: CV_estimator predicted training examples with
 models trained on them when the splitter is not repeatable; default cv
 crashed

---
 .../estimators/cross_validation.py             | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index c089f9c..91d16d1 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -40,7 +40,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         cv : int, cross-validation generator or an iterable, optional
             Determines the cross-validation splitting strategy. Possible inputs for cv are:
 
-            - None, to use the default 3-fold cross validation,
+            - None, to use the default cross validation,
             - integer, to specify the number of folds in a `(Stratified)KFold`,
             - :term:`CV splitter`,
             - An iterable yielding (train, test) splits as arrays of indices.
@@ -98,6 +98,9 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             - 'hard', applying majority rule voting
             - 'soft', based on the argmax of the sums of the predicted probabilities
 
+        splits_ : list of (train, test) indices
+            The split used to train each estimator in `estimators_`
+
         le_ : a LabelEncoder fitted object
             Used to compute the class labels
 
@@ -114,7 +117,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             The verbosity level.
     """
 
-    def __init__(self, estimator, groups=None, cv='warn', n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
+    def __init__(self, estimator, groups=None, cv=None, n_jobs=None, fit_params=None, pre_dispatch='2*n_jobs',
                  averaged_predictions=True, voting='hard', verbose=0):
         self.estimator = estimator
         self.groups = groups
@@ -130,6 +133,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.classes_ = None
         self.X_train_ = None
         self.y_train_ = None
+        self.splits_ = None
 
     def fit(self, X, y):
         """ Fit the models
@@ -150,10 +154,12 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         self.classes_ = np.unique(y)
         self.le_ = LabelEncoder().fit(y)
         # check cv
-        self.cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        cv = check_cv(self.cv, y, classifier=is_classifier(self.estimator))
+        # the same splits have to be used for training the models and for predicting the training examples
+        self.splits_ = list(cv.split(X, y, self.groups))
         # train CV and save the estimators for each fold
         cvresults = cross_validate(self.estimator, X, y,
-                                   groups=self.groups, cv=self.cv, n_jobs=self.n_jobs,
+                                   cv=self.splits_, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
                                    return_estimator=True)
         self.estimators_ = cvresults['estimator']
@@ -265,14 +271,14 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
             # predicting over training examples, same partitions
             #  computing number of repetitions
             n_preds = 0
-            for (train_index, test_index) in self.cv.split(self.X_train_, self.y_train_):
+            for (train_index, test_index) in self.splits_:
                 n_preds = n_preds + len(test_index)
             n_repeats = n_preds // n_examples
             #  storing predictions
             preds = np.zeros((n_repeats, n_examples, len(self.classes_)), dtype=float)
             n_rep = 0
             n_preds = 0
-            for nfold, (train_index, test_index) in enumerate(self.cv.split(self.X_train_, self.y_train_)):
+            for nfold, (train_index, test_index) in enumerate(self.splits_):
                 X_test = X[test_index]
                 preds[n_rep, test_index, :] = self.estimators_[nfold].predict_proba(X_test)
                 n_preds = n_preds + len(test_index)
-- 
2.43.0


From 7a045ce534c15964dbec1b0a0a91a6b9c222e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 23/57] fix: regression quantifiers normalized the histograms
 of the bags with the size of the training set

---
 quantificationlib/multiclass/regression.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index ef72826..a1ce271 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -142,7 +142,6 @@ class REG(six.with_metaclass(ABCMeta)):
 
         classes = np.unique(y)
         self.n_classes_ = len(classes)
-        n_examples = X.shape[0]
         if len(X.shape) == 1:
             n_features = 1
         else:
@@ -164,7 +163,7 @@ class REG(six.with_metaclass(ABCMeta)):
         for nbag in range(self.bag_generator.n_bags):
             for att in range(n_features):
                 self.dataX_[nbag, att * self.n_bins:(att + 1) * self.n_bins] = \
-                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / n_examples
+                    np.histogram(X[indexes[:, nbag], att], bins=self.bincuts_[att, :])[0] / indexes.shape[0]
 
     def fit_regressor(self):
         """ This method trains the regressor model using `dataX_` and `dataY_`
-- 
2.43.0


From 72f659ab77c12dca541970885976ba281284fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 24/57] fix: binary regression quantifiers fitted the regressor
 of the user, shared by other quantifiers

---
 quantificationlib/multiclass/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index a1ce271..f4fe3cf 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -172,7 +172,7 @@ class REG(six.with_metaclass(ABCMeta)):
         if self.n_classes_ == 2:
             self.dataY_ = self.dataY_[:, 1]
             if self.regression_estimator is not None:
-                self.estimators_ = self.regression_estimator.fit(self.dataX_, self.dataY_)
+                self.estimators_ = deepcopy(self.regression_estimator).fit(self.dataX_, self.dataY_)
             else:
                 self.estimators_ = sm.GLM(endog=self.dataY_, exog=self.dataX_, family=sm.families.Binomial())
                 self.models_ = self.estimators_.fit()
-- 
2.43.0


From 95ea9eccf8e936d7806ee9fb6d9eae9dcfcfebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 25/57] fix: multiclass regression quantifiers returned NaN
 when all the prevalences are 0

---
 quantificationlib/multiclass/regression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/multiclass/regression.py b/quantificationlib/multiclass/regression.py
index f4fe3cf..db0dac4 100644
--- a/quantificationlib/multiclass/regression.py
+++ b/quantificationlib/multiclass/regression.py
@@ -232,7 +232,10 @@ class REG(six.with_metaclass(ABCMeta)):
                     prevalences[n_cls] = self.estimators_[n_cls].predict(bagX.reshape(1, -1))
 
             prevalences = np.clip(prevalences, 0, 1)
-            prevalences = prevalences / float(np.sum(prevalences))
+            if np.sum(prevalences) > 0:
+                prevalences = prevalences / float(np.sum(prevalences))
+            else:
+                raise ValueError('predicted prevalences by object of class %s are all 0', self.__class__.__name__)
             return prevalences.reshape(-1)
 
 
-- 
2.43.0


From e2dc7a5d0debdfd8825ef7264591011bb21f38dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:32 +0000
Subject: [PATCH 26/57] fix: several estimators did not store their parameters,
 get_params, clone and repr failed

---
 quantificationlib/estimators/weighted_knn.py |  9 +++++++++
 quantificationlib/multiclass/em.py           | 12 ++++++------
 quantificationlib/multiclass/energy.py       |  8 ++++----
 quantificationlib/multiclass/knn.py          |  6 ++++++
 quantificationlib/ordinal/trees.py           |  6 ++++--
 5 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/quantificationlib/estimators/weighted_knn.py b/quantificationlib/estimators/weighted_knn.py
index 514cd3b..1526af5 100644
--- a/quantificationlib/estimators/weighted_knn.py
+++ b/quantificationlib/estimators/weighted_knn.py
@@ -85,6 +85,13 @@ class PWK(BaseEstimator, ClassifierMixin):
     """
     def __init__(self, n_neighbors=10, algorithm='auto', leaf_size=30, p=2, metric='minkowski', metric_params=None,
                  n_jobs=None):
+        self.n_neighbors = n_neighbors
+        self.algorithm = algorithm
+        self.leaf_size = leaf_size
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
+        self.n_jobs = n_jobs
         self.knn_ = KNeighborsClassifier(n_neighbors=n_neighbors, algorithm=algorithm, leaf_size=leaf_size,
                                          metric=metric, p=p, metric_params=metric_params, n_jobs=n_jobs)
         self.classes_ = None
@@ -108,6 +115,8 @@ class PWK(BaseEstimator, ClassifierMixin):
         for n_cls, cls in enumerate(self.classes_):
             self.weights_[y == cls] = 1 - (np.sum(self.y_ == cls) / X.shape[0])
 
+        self.knn_.set_params(n_neighbors=self.n_neighbors, algorithm=self.algorithm, leaf_size=self.leaf_size,
+                             metric=self.metric, p=self.p, metric_params=self.metric_params, n_jobs=self.n_jobs)
         self.knn_.fit(X, y)
         return self
 
diff --git a/quantificationlib/multiclass/em.py b/quantificationlib/multiclass/em.py
index 4c04940..3c872e7 100644
--- a/quantificationlib/multiclass/em.py
+++ b/quantificationlib/multiclass/em.py
@@ -78,11 +78,11 @@ class EM(UsingClassifiers):
         verbose : int
             The verbosity level
 
-        epsilon_: float
+        epsilon: float
             EM algorithm (its loop) stops when the mean absolute error between the prevalences of two
             consecutive iterations is lower than epsilon
 
-        max_iter_: int
+        max_iter: int
             The maximum number of iterations for the loop of the EM algorithm
 
         prevalences_train_ : ndarray, shape (n_classes, )
@@ -103,8 +103,8 @@ class EM(UsingClassifiers):
     def __init__(self, estimator_train=None, estimator_test=None, verbose=0, epsilon=1e-4, max_iter=1000):
         super(EM, self).__init__(estimator_train=estimator_train, estimator_test=estimator_test,
                                  needs_predictions_train=True, probabilistic_predictions=True, verbose=verbose)
-        self.epsilon_ = epsilon
-        self.max_iter_ = max_iter
+        self.epsilon = epsilon
+        self.max_iter = max_iter
         self.prevalences_train_ = None
 
     def fit(self, X, y, predictions_train=None):
@@ -191,7 +191,7 @@ class EM(UsingClassifiers):
         prevalences = np.copy(self.prevalences_train_)
         prevalences_prev = np.ones(n_classes)
 
-        while iterations < self.max_iter_ and (mean_absolute_error(prevalences, prevalences_prev) > self.epsilon_
+        while iterations < self.max_iter and (mean_absolute_error(prevalences, prevalences_prev) > self.epsilon
                                                or iterations < 10):
 
             nonorm_posteriors = np.multiply(self.predictions_test_, np.divide(prevalences, self.prevalences_train_))
@@ -204,7 +204,7 @@ class EM(UsingClassifiers):
             iterations = iterations + 1
 
         if self.verbose > 0:
-            if iterations < self.max_iter_:
+            if iterations < self.max_iter:
                 print('done')
             else:
                 print('done but it might have not converged, max_iter reached')
diff --git a/quantificationlib/multiclass/energy.py b/quantificationlib/multiclass/energy.py
index c8b09bb..36cf5c9 100644
--- a/quantificationlib/multiclass/energy.py
+++ b/quantificationlib/multiclass/energy.py
@@ -458,7 +458,7 @@ class EDX(WithoutClassifiers):
 
         Attributes
         ----------
-        distance_ : distance function
+        distance : distance function
             The distance fuction used for computing the distance between every pair of examples
 
         classes_ : ndarray, shape (n_classes, )
@@ -490,7 +490,7 @@ class EDX(WithoutClassifiers):
     def __init__(self, distance=euclidean_distances, verbose=0):
         super(EDX, self).__init__(verbose=verbose)
         # variables to represent the distributions using the main idea of ED-based algorithms
-        self.distance_ = distance
+        self.distance = distance
         self.train_n_cls_i_ = None
         self.train_distrib_ = None
         self.K_ = None
@@ -525,7 +525,7 @@ class EDX(WithoutClassifiers):
             self.train_distrib_[cls] = X[y == cls]
             self.train_n_cls_i_[n_cls, 0] = len(self.train_distrib_[cls])
 
-        self.K_, self.G_, self.C_, self.b_ = compute_ed_param_train(self.distance_, self.train_distrib_,
+        self.K_, self.G_, self.C_, self.b_ = compute_ed_param_train(self.distance, self.train_distrib_,
                                                                     self.classes_, self.train_n_cls_i_)
         if self.verbose > 0:
             print('done')
@@ -553,7 +553,7 @@ class EDX(WithoutClassifiers):
 
         check_array(X, accept_sparse=True)
 
-        a = compute_ed_param_test(self.distance_, self.train_distrib_, X, self.K_, self.classes_,
+        a = compute_ed_param_test(self.distance, self.train_distrib_, X, self.K_, self.classes_,
                                   self.train_n_cls_i_)
 
         prevalences = solve_ed(G=self.G_, a=a, C=self.C_, b=self.b_)
diff --git a/quantificationlib/multiclass/knn.py b/quantificationlib/multiclass/knn.py
index deea5f9..a123dd8 100644
--- a/quantificationlib/multiclass/knn.py
+++ b/quantificationlib/multiclass/knn.py
@@ -73,6 +73,10 @@ class PWKQuantifier(WithoutClassifiers):
     """
     def __init__(self, n_neighbors=10, p=2, metric='minkowski', metric_params=None, verbose=0):
         super(PWKQuantifier, self).__init__(verbose=verbose)
+        self.n_neighbors = n_neighbors
+        self.p = p
+        self.metric = metric
+        self.metric_params = metric_params
         #  Attributes
         self.knn_estimator_ = PWK(n_neighbors=n_neighbors, p=p, metric=metric, metric_params=metric_params)
         self.cm_ = None
@@ -94,6 +98,8 @@ class PWKQuantifier(WithoutClassifiers):
         """
         super().fit(X, y)
 
+        self.knn_estimator_.set_params(n_neighbors=self.n_neighbors, p=self.p, metric=self.metric,
+                                       metric_params=self.metric_params)
         self.knn_estimator_.fit(X, y)
         predictions_train = self.knn_estimator_.predict(X)
 
diff --git a/quantificationlib/ordinal/trees.py b/quantificationlib/ordinal/trees.py
index a3afdf9..78a7a74 100644
--- a/quantificationlib/ordinal/trees.py
+++ b/quantificationlib/ordinal/trees.py
@@ -35,5 +35,7 @@ class OrdinalQuantificationTree(PCC):
         Association for Computational Linguistics, A, 5863.
     """
     def __init__(self, estimator_test=None, verbose=0):
-        super(OrdinalQuantificationTree, self).__init__(estimator_test=FrankAndHallTreeClassifier(estimator_test),
-                                                        verbose=verbose)
+        # estimator_test is already a tree when the object is a clone
+        if not isinstance(estimator_test, FrankAndHallTreeClassifier):
+            estimator_test = FrankAndHallTreeClassifier(estimator_test)
+        super(OrdinalQuantificationTree, self).__init__(estimator_test=estimator_test, verbose=verbose)
-- 
2.43.0


From f52f0c58e4509b92c6e854aa682574c00304e3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 27/57] fix: AC and PAC inverted singular matrices hidden by
 rounding errors

---
 quantificationlib/baselines/ac.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantificationlib/baselines/ac.py b/quantificationlib/baselines/ac.py
index 6d7b9fb..bf3c4fa 100644
--- a/quantificationlib/baselines/ac.py
+++ b/quantificationlib/baselines/ac.py
@@ -246,6 +246,9 @@ class AC(UsingClassifiers):
             prevalences = prevalences.squeeze()
         else:
             try:
+                # rounding errors may hide that the matrix is singular
+                if np.linalg.matrix_rank(self.cm_) < n_classes:
+                    raise np.linalg.LinAlgError('singular matrix')
                 inv_cm = linalg.inv(self.cm_.T)
                 prevalences = inv_cm.dot(prevalences_0)
 
@@ -498,6 +501,9 @@ class PAC(UsingClassifiers):
             prevalences = prevalences.squeeze()
         else:
             try:
+                # rounding errors may hide that the matrix is singular
+                if np.linalg.matrix_rank(self.cm_) < n_classes:
+                    raise np.linalg.LinAlgError('singular matrix')
                 inv_cm = linalg.inv(self.cm_.T)
                 prevalences = inv_cm.dot(prevalences_0)
 
-- 
2.43.0


From 79531d685385aabc86feb0b2f4e0014f50214253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 28/57] fix: sorting rows reversed the list of columns of the
 caller

---
 quantificationlib/plot/qlplot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantificationlib/plot/qlplot.py b/quantificationlib/plot/qlplot.py
index 5027a59..b2830f3 100644
--- a/quantificationlib/plot/qlplot.py
+++ b/quantificationlib/plot/qlplot.py
@@ -18,8 +18,7 @@ def _sort_rows_bycolumns(m, columns=[0], order='ascending'):
     Sort rows of matrix based on the list of columns. 
     By default sort based on the firt column ascending
     """
-    columns.reverse() 
-    sort_order = np.lexsort(tuple(m[:, i] for i in columns))
+    sort_order = np.lexsort(tuple(m[:, i] for i in columns[::-1]))
     if order=='descending':
         sort_order = sort_order[::-1]
     m_sorted = m[sort_order]
-- 
2.43.0


From 8503761e6001c127f224effb44f59c99df4b04d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 29/57] fix: DeBias returned NaN when all the training
 predictions are equal to the prevalence

---
 quantificationlib/binary/debias.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/binary/debias.py b/quantificationlib/binary/debias.py
index 24f4e57..f95e3fd 100644
--- a/quantificationlib/binary/debias.py
+++ b/quantificationlib/binary/debias.py
@@ -181,7 +181,10 @@ class DeBias(UsingClassifiers):
         if self.verbose > 0:
             print('Class %s: Computing prevalences for testing distribution...' % self.__class__.__name__, end='')
 
-        p = self.train_prevs_[1] + (np.mean(self.predictions_test_, axis=0)[1] - self.train_prevs_[1]) / self.Vt_
+        p = np.mean(self.predictions_test_, axis=0)[1]
+        # the predictions cannot be adjusted when Vt is 0 (all the training examples have the same prediction)
+        if self.Vt_ > 0:
+            p = self.train_prevs_[1] + (p - self.train_prevs_[1]) / self.Vt_
         prevalences = np.array([1 - p, p])
 
         prevalences = np.clip(prevalences, 0, 1)
-- 
2.43.0


From 1fd5c2b0a739ff29ad7b4dbd67cc0d76686893c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 30/57] fix: SORDy crashed when the class labels are not
 numbers

---
 quantificationlib/binary/emd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/binary/emd.py b/quantificationlib/binary/emd.py
index ca38116..e512158 100644
--- a/quantificationlib/binary/emd.py
+++ b/quantificationlib/binary/emd.py
@@ -202,8 +202,9 @@ class SORDy(UsingClassifiers):
         self.union_distrib_ = np.hstack((self.train_distrib_, self.predictions_test_[:, 1]))
         indx = np.argsort(self.union_distrib_)
         self.union_distrib_ = self.union_distrib_[indx]
-        test_label = np.max(self.classes_)+1
-        self.union_labels_ = np.hstack((self.train_labels_,
+        #  labels are the positions of the classes, the class labels may not be numbers
+        test_label = len(self.classes_)
+        self.union_labels_ = np.hstack((np.searchsorted(self.classes_, self.train_labels_),
                                         np.full(len(self.predictions_test_[:, 1]), test_label)))
         self.union_labels_ = self.union_labels_[indx]
 
@@ -214,7 +215,7 @@ class SORDy(UsingClassifiers):
         _, prevalences = golden_section_search(distance_func=sord, mixture_func=compute_sord_weights,
                                                test_distrib=self.union_distrib_, tol=self.tol, a=0.0, b=1.0,
                                                union_labels=self.union_labels_,
-                                               classes=self.classes_)
+                                               classes=np.arange(len(self.classes_)))
         if self.verbose > 0:
             print('done')
 
-- 
2.43.0


From d8c4b6d3af65d2933cdab4273de13f6d6ef374de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 31/57] fix: one-vs-rest quantifier returned all zeros when no
 class is detected

---
 quantificationlib/decomposition/multiclass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/decomposition/multiclass.py b/quantificationlib/decomposition/multiclass.py
index 93d50cb..4f36cf2 100644
--- a/quantificationlib/decomposition/multiclass.py
+++ b/quantificationlib/decomposition/multiclass.py
@@ -172,7 +172,7 @@ class OneVsRestQuantifier(UsingClassifiers):
         """ Aggregates the prevalences of the `quantifiers_` to compute the final prediction
 
             Just one aggregation strategy is implemented. It normalizes the prevalences given by each quantifier
-            to sum 1
+            to sum 1. When all the quantifiers predict 0, the prevalence of every class is the same
 
             Parameters
             ----------
@@ -199,5 +199,7 @@ class OneVsRestQuantifier(UsingClassifiers):
 
         if np.sum(prevalences) > 0:
             prevalences = prevalences / float(np.sum(prevalences))
+        else:
+            prevalences = np.full(len(self.classes_), 1 / len(self.classes_))
 
         return prevalences
-- 
2.43.0


From fcea8abd8a6df285e466e61629e35ae50950ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 32/57] fix: energy quantifiers returned NaN when the classes
 have the same distribution

---
 quantificationlib/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index 8edfccb..ea08d2e 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -280,7 +280,8 @@ def nearest_pd(A):
     if is_pd(A3):
         return A3
 
-    spacing = np.spacing(np.linalg.norm(A))
+    # the spacing of 0 (A is a matrix of zeros) is a denormal number, too small to solve any problem with the result
+    spacing = np.spacing(max(np.linalg.norm(A), np.finfo(float).eps))
     # The above is different from [1]. It appears that MATLAB's `chol` Cholesky
     # decomposition will accept matrixes with exactly 0-eigenvalue, whereas
     # Numpy's will not. So where [1] uses `eps(mineig)` (where `eps` is Matlab
-- 
2.43.0


From b9f276b93699a4f595ae75dd84d3cb8088252ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 33/57] fix: EoQ returned NaN when the medians of all the
 prevalences are zero

---
 quantificationlib/ensembles/eoq.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 11d3bc2..7794680 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -410,6 +410,14 @@ class EoQ(WithoutClassifiers):
         return (not self.base_quantifier.probabilistic_predictions and predictions.ndim == 2
                 and not np.issubdtype(predictions.dtype, np.floating))
 
+    @staticmethod
+    def _median(prevalences):
+        """ Normalized median of the prevalences, or their mean when the medians of all the classes are 0 """
+        prediction = np.median(prevalences, axis=0)
+        if np.sum(prediction) == 0:
+            prediction = np.mean(prevalences, axis=0)
+        return prediction / float(np.sum(prediction))
+
     def predict(self, X, predictions_test=None):
         """
 
@@ -521,8 +529,7 @@ class EoQ(WithoutClassifiers):
             prediction = np.mean(prevalences, axis=0)
             prediction = prediction / float(np.sum(prediction))
         elif self.combination_strategy == 'median':
-            prediction = np.median(prevalences, axis=0)
-            prediction = prediction / float(np.sum(prediction))
+            prediction = self._median(prevalences)
         elif self.combination_strategy == 'prevalence_similarity':
             prediction = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
             prediction = prediction / float(np.sum(prediction))
@@ -534,8 +541,7 @@ class EoQ(WithoutClassifiers):
             m0 = np.mean(prevalences, axis=0)
             m0 = m0 / float(np.sum(m0))
             prediction['mean'] = m0
-            m1 = np.median(prevalences, axis=0)
-            m1 = m1 / float(np.sum(m1))
+            m1 = self._median(prevalences)
             prediction['median'] = m1
             m2 = np.mean(prevalences[prevalence_similarity_selected, :], axis=0)
             m2 = m2 / float(np.sum(m2))
-- 
2.43.0


From 02d3500a90fc8cf00cfc4981b5e4c1b0ca959367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 34/57] fix: PDFOrdinaly dropped examples whose score is out of
 range by rounding errors

---
 quantificationlib/ordinal/pdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 6fdc646..2431ccb 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -189,6 +189,9 @@ class PDFOrdinaly(UsingClassifiers):
         else:
             raise ValueError('Method %s not implemented with objects of class %s', self.method, self.__class__.__name__)
 
+        # rounding errors (or probabilities that do not sum 1) may give scores outside the range of the histograms
+        scores = np.clip(scores, 1, n_classes)
+
         effective_n_bins = self.n_bins * (n_classes - 1)
         self.train_distrib_ = np.zeros((effective_n_bins, n_classes))
         for n_cls, cls in enumerate(self.classes_):
@@ -257,6 +260,8 @@ class PDFOrdinaly(UsingClassifiers):
         else:
             raise ValueError('Method %s not implemented with objects of class %s', self.method, self.__class__.__name__)
 
+        scores = np.clip(scores, 1, n_classes)
+
         effective_n_bins = self.n_bins * (n_classes - 1)
         self.test_distrib_ = np.histogram(scores, bins=effective_n_bins, range=(1., float(n_classes)))[0]
         self.test_distrib_ = self.test_distrib_ / len(self.predictions_test_)
-- 
2.43.0


From 22624b3290ec6b766e7f6cddaa7a553a0c5c7d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 35/57] fix: PDFOrdinaly returned None with an unknown distance

---
 quantificationlib/ordinal/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/ordinal/pdf.py b/quantificationlib/ordinal/pdf.py
index 2431ccb..6fe3a82 100644
--- a/quantificationlib/ordinal/pdf.py
+++ b/quantificationlib/ordinal/pdf.py
@@ -284,7 +284,7 @@ class PDFOrdinaly(UsingClassifiers):
             if np.sum(prevalences) > 0:
                 prevalences = prevalences / float(np.sum(prevalences))
         else:
-            prevalences = None
+            raise ValueError('Class %s: distance function not supported' % self.__class__.__name__)
 
         if self.verbose > 0:
             print('done')
-- 
2.43.0


From 2eb15d6acd4e2f94f622ab322b2f212213ebad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 36/57] fix: distance functions with more than two classes
 silently ignored all the classes but two

---
 quantificationlib/multiclass/df.py       | 6 ++++++
 quantificationlib/multiclass/friedman.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 369cf1f..4340c14 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -345,6 +345,9 @@ class DFy(UsingClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes > 2:
+                raise ValueError('Class %s: distance functions can only be used for binary quantification' %
+                                 self.__class__.__name__)
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_, tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
@@ -612,6 +615,9 @@ class DFX(WithoutClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes > 2:
+                raise ValueError('Class %s: distance functions can only be used for binary quantification' %
+                                 self.__class__.__name__)
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_, tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
diff --git a/quantificationlib/multiclass/friedman.py b/quantificationlib/multiclass/friedman.py
index b9f300e..be5d597 100644
--- a/quantificationlib/multiclass/friedman.py
+++ b/quantificationlib/multiclass/friedman.py
@@ -260,6 +260,9 @@ class FriedmanME(UsingClassifiers):
             self.problem_, prevalences = solve_l1(train_distrib=self.train_distrib_, test_distrib=self.test_distrib_,
                                                   n_classes=n_classes, problem=self.problem_)
         else:
+            if n_classes > 2:
+                raise ValueError('Class %s: distance functions can only be used for binary quantification' %
+                                 self.__class__.__name__)
             self.mixtures_, prevalences = global_search(distance_func=self.distance, mixture_func=mixture_of_pdfs,
                                                         test_distrib=self.test_distrib_, tol=self.tol,
                                                         mixtures=self.mixtures_, return_mixtures=True,
-- 
2.43.0


From fd0d29d17e2a6e77091beb5b22d0634cdfc96eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 37/57] fix: solvers failed with distributions of one bin

---
 quantificationlib/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index ea08d2e..bee28fc 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -64,7 +64,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
         objective = cvxpy.Minimize(cvxpy.norm(test_d - train_distrib @ prevalences, 1))
-        test_d.value = np.squeeze(test_distrib)
+        test_d.value = np.ravel(test_distrib)
         contraints = [cvxpy.sum(prevalences) == 1]
 
         problem = cvxpy.Problem(objective, contraints)
@@ -75,7 +75,7 @@ def solve_l1(train_distrib, test_distrib, n_classes, problem=None, solver=None):
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.squeeze(test_distrib)
+        problem.parameters()[0].value = np.ravel(test_distrib)
         if solver is None:
             problem.solve(warm_start=True)
         else:
@@ -118,7 +118,7 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
         s = cvxpy.multiply(test_d, train_distrib @ prevalences)
-        test_d.value = np.squeeze(test_distrib)
+        test_d.value = np.ravel(test_distrib)
         #  the masses must be considered because train_distrib may contain CDFs
         mass = cvxpy.sum(train_distrib @ prevalences) + cvxpy.sum(test_d)
         objective = cvxpy.Minimize(mass / 2 - cvxpy.sum(cvxpy.sqrt(s)))
@@ -128,7 +128,7 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.squeeze(test_distrib)
+        problem.parameters()[0].value = np.ravel(test_distrib)
         problem.solve(warm_start=True, solver=solver, feastol=1e-6)
 
         return problem, list(problem.solution.primal_vars.values())[0]
-- 
2.43.0


From 52d19049332f716cbfe8fb9fbdf8ea2ed9c15a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 38/57] fix: energy quantifiers could fail when the classes
 have the same distribution

---
 quantificationlib/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index bee28fc..f66c572 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -281,7 +281,7 @@ def nearest_pd(A):
         return A3
 
     # the spacing of 0 (A is a matrix of zeros) is a denormal number, too small to solve any problem with the result
-    spacing = np.spacing(max(np.linalg.norm(A), np.finfo(float).eps))
+    spacing = np.spacing(max(np.linalg.norm(A), 1e-8))
     # The above is different from [1]. It appears that MATLAB's `chol` Cholesky
     # decomposition will accept matrixes with exactly 0-eigenvalue, whereas
     # Numpy's will not. So where [1] uses `eps(mineig)` (where `eps` is Matlab
-- 
2.43.0


From 47f2b5f1563037c9005fafd3c410f022c7f90b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 39/57] fix: one-vs-rest quantifier returned negative
 prevalences when no class is detected

---
 quantificationlib/decomposition/multiclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/decomposition/multiclass.py b/quantificationlib/decomposition/multiclass.py
index 4f36cf2..6da0a60 100644
--- a/quantificationlib/decomposition/multiclass.py
+++ b/quantificationlib/decomposition/multiclass.py
@@ -197,6 +197,9 @@ class OneVsRestQuantifier(UsingClassifiers):
                     preds = np.array([1 - predictions_test[:, i], predictions_test[:, i]]).T
                     prevalences[i] = self.quantifiers_[i].predict(X, predictions_test=preds)[1]
 
+        # the solvers can return prevalences that are slightly negative instead of 0
+        prevalences = np.clip(prevalences, 0, 1)
+
         if np.sum(prevalences) > 0:
             prevalences = prevalences / float(np.sum(prevalences))
         else:
-- 
2.43.0


From 8f8f5e53522cb9804c0fb427f1a9e8ee42e9df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 40/57] fix: least squares could return values out of [0, 1]
 with matrices on the border of positive definiteness

---
 quantificationlib/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index f66c572..2a2f2f5 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -276,6 +276,8 @@ def nearest_pd(A):
     A2 = (B + H) / 2
 
     A3 = (A2 + A2.T) / 2
+    # matrices on the border of positive definiteness are too ill-conditioned for the solver
+    A3 += np.eye(A.shape[0]) * 1e-12 * np.linalg.norm(A)
 
     if is_pd(A3):
         return A3
-- 
2.43.0


From 288e2dc177b573f33730bf11944885715d5624f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 41/57] fix: an ensemble whose training failed can be trained
 again

---
 quantificationlib/estimators/ensembles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantificationlib/estimators/ensembles.py b/quantificationlib/estimators/ensembles.py
index 7a32e4a..bac9a8b 100644
--- a/quantificationlib/estimators/ensembles.py
+++ b/quantificationlib/estimators/ensembles.py
@@ -106,9 +106,8 @@ class EnsembleOfClassifiers(BaseEstimator, ClassifierMixin):
             X, y = check_X_y(X, y, accept_sparse=True)
 
             self.n_estimators_ = indexes.shape[1]
-            # fit the estimator for each binary combination of classes, n_estimators = n_classes -1
-            self.estimators_ = np.empty(self.n_estimators_, dtype=object)
 
+            # estimators_ is not assigned until all the estimators are fitted, if any of them fails the object is not fitted
             # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
             # performance due to the overhead of spawning threads.  See joblib issue #112.
             # Each bag fits its own copy, base_estimator is just the template
-- 
2.43.0


From a1df66358aca8beb61795716a1c47bbad9a76b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 42/57] fix: copies of a quantifier work after predicting

---
 quantificationlib/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/base.py b/quantificationlib/base.py
index 6ae847b..a5f8c92 100644
--- a/quantificationlib/base.py
+++ b/quantificationlib/base.py
@@ -21,7 +21,16 @@ from sklearn.utils import check_X_y, check_array
 class BaseQuantifier(six.with_metaclass(ABCMeta, BaseEstimator)):
     """ Base class for binary, multiclass and ordinal quantifiers
     """
-    pass
+    def __getstate__(self):
+        """ State of the object for its copies (copy, deepcopy, pickle)
+
+            A cvxpy problem does not work once it is copied (it is linked to the ids of its variables and parameters), so
+            the copies create their own problem the first time they predict
+        """
+        state = dict(super().__getstate__())
+        if 'problem_' in state:
+            state['problem_'] = None
+        return state
 
 
 class WithoutClassifiers(BaseQuantifier):
-- 
2.43.0


From 3c60d737a94cd1e5b856d2a643e21c74e875e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 43/57] fix: EoQ does not change the bag generator of the user

---
 quantificationlib/ensembles/eoq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 7794680..6fdf8cb 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from copy import deepcopy
+from copy import copy, deepcopy
 
 from sklearn.utils import check_X_y
 from sklearn.exceptions import NotFittedError
@@ -229,8 +229,10 @@ class EoQ(WithoutClassifiers):
             if not isinstance(self.bag_generator, BagGenerator):
                 raise ValueError("Invalid bag generaror object")
 
-            self.bag_generator.n_bags = self.n_quantifiers
-            self.prevalences_, self.indexes_ = self.bag_generator.generate_bags(X, y)
+            # the object of the user may be used for other purposes with another number of bags
+            bag_generator = copy(self.bag_generator)
+            bag_generator.n_bags = self.n_quantifiers
+            self.prevalences_, self.indexes_ = bag_generator.generate_bags(X, y)
         else:
             self.prevalences_ = prevalences
             self.indexes_ = indexes
-- 
2.43.0


From dedc4bed95694a9470b10141ae5325566dbc2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 44/57] fix: DDAGClassifier does not write on the predictions
 returned by its models

---
 quantificationlib/estimators/ordinal_ddag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/ordinal_ddag.py b/quantificationlib/estimators/ordinal_ddag.py
index 6478635..5c4ac89 100644
--- a/quantificationlib/estimators/ordinal_ddag.py
+++ b/quantificationlib/estimators/ordinal_ddag.py
@@ -306,7 +306,8 @@ class DDAGClassifier(OneVsOneClassifier):
             n_classes = len(self.classes_)
 
             pos_estim = sum(list(range(n_classes - left_class, n_classes))) + (right_class - left_class - 1)
-            predictions = self.estimators_[pos_estim].predict_proba(X)
+            # a copy, the array returned belongs to the model
+            predictions = np.array(self.estimators_[pos_estim].predict_proba(X))
 
             n_samples = len(predictions)
 
-- 
2.43.0


From 69084b9f56a82308354f44db1cc2493d3795de1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 45/57] fix: bag generator of prior and covariate shift does
 not keep empty bags when one of its generators fails

---
 quantificationlib/bag_generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/bag_generator.py b/quantificationlib/bag_generator.py
index abc9ccb..d48a63f 100644
--- a/quantificationlib/bag_generator.py
+++ b/quantificationlib/bag_generator.py
@@ -555,12 +555,16 @@ class PriorAndCovariateShift_BagGenerator(BagGenerator):
                                                 random_state=self.random_state,
                                                 verbose=self.verbose)
 
+        #  the bags are stored when all of them have been generated
+        prior_bags = prior.generate_bags(X, y)
+        covariate_bags = covariate.generate_bags(X, y)
+
         classes = np.unique(y)
         n_classes = len(classes)
         self.prevalences_ = np.zeros((n_classes, self.n_bags))
         self.indexes_ = np.zeros((len(y) if self.bag_size is None else self.bag_size, self.n_bags), dtype=np.uint32)
 
-        self.prevalences_[:, 0:n_bags_prior], self.indexes_[:, 0:n_bags_prior] = prior.generate_bags(X, y)
-        self.prevalences_[:, n_bags_prior:], self.indexes_[:, n_bags_prior:] = covariate.generate_bags(X, y)
+        self.prevalences_[:, 0:n_bags_prior], self.indexes_[:, 0:n_bags_prior] = prior_bags
+        self.prevalences_[:, n_bags_prior:], self.indexes_[:, n_bags_prior:] = covariate_bags
 
         return self.prevalences_, self.indexes_
-- 
2.43.0


From 8c68bc26ccf2da94d84015a4b65295206643b73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 46/57] fix: global_search detects equal losses that differ in
 rounding errors

---
 quantificationlib/search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index bc777d6..3cb4feb 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -84,7 +84,7 @@ def global_search(distance_func, mixture_func, test_distrib, tol, mixtures, retu
         else:
             losses[i] = distance_func(mixture_func(prevalence=i / 100, **kwargs), test_distrib)
 
-    if np.all(losses == losses[0]):
+    if np.allclose(losses, losses[0], rtol=1e-12, atol=1e-12):  # equal except for rounding errors
         raise ValueError("Search: there are infinite minima according to the distance function used")
 
     p_estimated = None
-- 
2.43.0


From 0c503359888d8048a52753466ff76993a3409841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 47/57] fix: positive definiteness is checked with a margin for
 the rounding errors of the solver

---
 quantificationlib/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index 2a2f2f5..a06e148 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -362,7 +362,9 @@ def is_pd(m):
         A boolean, True when m is positive definite and False otherwise
 
     """
-    return dpofa(m)[0] == 0
+    # the rounding errors of the solver are not the same, its factorization must be possible in spite of them
+    margin = len(m) * np.spacing(np.linalg.norm(m))
+    return dpofa(m - margin * np.eye(len(m)))[0] == 0
 
 
 ############
-- 
2.43.0


From ff0fce43291ce3d1414a0d85e3106d55a1651b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:52 +0000
Subject: [PATCH 48/57] fix: Hellinger distance is minimized with the default
 precision of the solver

---
 quantificationlib/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index a06e148..c99e9be 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -124,12 +124,12 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
         objective = cvxpy.Minimize(mass / 2 - cvxpy.sum(cvxpy.sqrt(s)))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
-        problem.solve(solver=solver, feastol=1e-6)
+        problem.solve(solver=solver)
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
         problem.parameters()[0].value = np.ravel(test_distrib)
-        problem.solve(warm_start=True, solver=solver, feastol=1e-6)
+        problem.solve(warm_start=True, solver=solver)
 
         return problem, list(problem.solution.primal_vars.values())[0]
 
-- 
2.43.0


From 2f7a517586048fb899e51e56691b42c7efd8cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:58 +0000
Subject: [PATCH 49/57] fix: Hellinger distance is minimized with an objective
 that the solver solves precisely

---
 quantificationlib/optimization.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index c99e9be..4804c16 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -116,19 +116,19 @@ def solve_hd(train_distrib, test_distrib, n_classes, problem=None, solver='ECOS'
     """
     if problem is None:
         prevalences = cvxpy.Variable(n_classes, nonneg=True)
+        #  square roots of the testing distribution, the solver is not precise with the square roots of the products
         test_d = cvxpy.Parameter(len(test_distrib), nonneg=True)
-        s = cvxpy.multiply(test_d, train_distrib @ prevalences)
-        test_d.value = np.ravel(test_distrib)
-        #  the masses must be considered because train_distrib may contain CDFs
-        mass = cvxpy.sum(train_distrib @ prevalences) + cvxpy.sum(test_d)
-        objective = cvxpy.Minimize(mass / 2 - cvxpy.sum(cvxpy.sqrt(s)))
+        test_d.value = np.sqrt(np.ravel(test_distrib))
+        train_d = train_distrib @ prevalences
+        #  the mass must be considered because train_distrib may contain CDFs
+        objective = cvxpy.Minimize(cvxpy.sum(train_d) / 2 - test_d @ cvxpy.sqrt(train_d))
         contraints = [cvxpy.sum(prevalences) == 1]
         problem = cvxpy.Problem(objective, contraints)
         problem.solve(solver=solver)
 
         return problem, np.array(prevalences[0:n_classes].value).squeeze()
     else:
-        problem.parameters()[0].value = np.ravel(test_distrib)
+        problem.parameters()[0].value = np.sqrt(np.ravel(test_distrib))
         problem.solve(warm_start=True, solver=solver)
 
         return problem, list(problem.solution.primal_vars.values())[0]
-- 
2.43.0


From 9c439eaa18100660ce4e8ddbad68dd9e2f66b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:09 +0000
Subject: [PATCH 50/57] fix: CDFs of the class probabilities are computed by
 class, the Hellinger distance depended on the order of the classes

---
 quantificationlib/multiclass/df.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantificationlib/multiclass/df.py b/quantificationlib/multiclass/df.py
index 4340c14..3d22eff 100644
--- a/quantificationlib/multiclass/df.py
+++ b/quantificationlib/multiclass/df.py
@@ -263,7 +263,9 @@ class DFy(UsingClassifiers):
 
         # compute cdf if necessary
         if self.distribution_function == 'CDF':
-            self.train_distrib_ = np.cumsum(self.train_distrib_, axis=0)
+            for descr in range(n_descriptors):
+                self.train_distrib_[descr * self.n_bins:(descr + 1) * self.n_bins, :] = \
+                    np.cumsum(self.train_distrib_[descr * self.n_bins:(descr + 1) * self.n_bins, :], axis=0)
 
         if self.distance == 'L2':
             self.G_, self.C_, self.b_ = compute_l2_param_train(self.train_distrib_, self.classes_)
@@ -330,7 +332,9 @@ class DFy(UsingClassifiers):
 
         #  compute cdf if necessary
         if self.distribution_function == 'CDF':
-            self.test_distrib_ = np.cumsum(self.test_distrib_, axis=0)
+            for descr in range(n_descriptors):
+                self.test_distrib_[descr * self.n_bins:(descr + 1) * self.n_bins, :] = \
+                    np.cumsum(self.test_distrib_[descr * self.n_bins:(descr + 1) * self.n_bins, :], axis=0)
 
         if self.verbose > 0:
             print('Class %s: Computing prevalences...' % self.__class__.__name__, end='')
-- 
2.43.0


From b1504fdad0fc267416d55700f0e074899f1eaed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:26 +0000
Subject: [PATCH 51/57] fix: energy distances of any scale can be minimized,
 quadprog failed with features in large units

---
 quantificationlib/optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/optimization.py b/quantificationlib/optimization.py
index 4804c16..ae785dd 100644
--- a/quantificationlib/optimization.py
+++ b/quantificationlib/optimization.py
@@ -407,7 +407,11 @@ def solve_ed(G, a, C, b):
         class-prior estimation under class balance change using energy distance. Transactions on Information
         and Systems 99, 1 (2016), 176–186.
     """
-    sol = quadprog.solve_qp(G=G, a=a, C=C, b=b)
+    #  the solution does not depend on the scale of the distances, but quadprog is not precise with large numbers
+    scale = max(np.abs(G).max(), np.abs(a).max())
+    #  when there are no differences between the classes (G is almost 0), a just contains rounding errors
+    G = G / scale + (1e-12 * np.eye(len(G)) if np.abs(G).max() < 1e-12 * scale else 0)
+    sol = quadprog.solve_qp(G=G, a=a / scale, C=C, b=b)
     prevalences = sol[0]
     # the last class was removed from the problem, its prevalence is 1 - the sum of prevalences for the other classes
     return np.append(prevalences, 1 - prevalences.sum())
-- 
2.43.0


From b5539bedf2b0017f75252149a2ea2f26b73be99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:04 +0000
Subject: [PATCH 52/57] fix: errors of the distance functions are not hidden by
 golden section search

---
 quantificationlib/search.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/quantificationlib/search.py b/quantificationlib/search.py
index 3cb4feb..16b9d3e 100644
--- a/quantificationlib/search.py
+++ b/quantificationlib/search.py
@@ -173,13 +173,7 @@ def golden_section_search(distance_func, mixture_func, test_distrib, tol, a, b,
             h = invphi * h
             c = a + invphi2 * h
             train_mixture_distrib = mixture_func(prevalence=c, **kwargs)
-            try:
-                fc = distance_func(train_mixture_distrib, test_distrib)
-            except:
-                print(train_mixture_distrib)
-                print(c)
-                for key, value in kwargs.items():
-                    print("%s == %s" % (key, value))
+            fc = distance_func(train_mixture_distrib, test_distrib)
         else:
             a = c
             c = d
@@ -187,13 +181,7 @@ def golden_section_search(distance_func, mixture_func, test_distrib, tol, a, b,
             h = invphi * h
             d = a + invphi * h
             train_mixture_distrib = mixture_func(prevalence=d, **kwargs)
-            try:
-                fd = distance_func(train_mixture_distrib, test_distrib)
-            except:
-                print(train_mixture_distrib)
-                print(c)
-                for key, value in kwargs.items():
-                    print("%s == %s" % (key, value))
+            fd = distance_func(train_mixture_distrib, test_distrib)
 
     if fc < fd:
         return fc, np.array([1 - (a + d) / 2, (a + d) / 2])
-- 
2.43.0


From 39c4e33e9efed1196a39672556b24a9bf15a3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:38 +0000
Subject: [PATCH 53/57] fix: failures training the models of a cross validation
 are not hidden

---
 quantificationlib/estimators/cross_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/cross_validation.py b/quantificationlib/estimators/cross_validation.py
index 91d16d1..a718b80 100644
--- a/quantificationlib/estimators/cross_validation.py
+++ b/quantificationlib/estimators/cross_validation.py
@@ -161,7 +161,7 @@ class CV_estimator(BaseEstimator, ClassifierMixin):
         cvresults = cross_validate(self.estimator, X, y,
                                    cv=self.splits_, n_jobs=self.n_jobs,
                                    verbose=self.verbose, fit_params=self.fit_params, pre_dispatch=self.pre_dispatch,
-                                   return_estimator=True)
+                                   return_estimator=True, error_score='raise')
         self.estimators_ = cvresults['estimator']
 
         return self
-- 
2.43.0


From b412b15cc3dc68ffafc8989341bcd1701fdaace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:27 +0000
Subject: [PATCH 54/57] fix: classifiers with several estimators are not fitted
 until all of them are trained, a failure left them unusable

---
 quantificationlib/estimators/frank_and_hall.py | 17 +++++++++++------
 quantificationlib/estimators/ordinal_ddag.py   | 18 ++++++++++++++++++
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index d1730b0..4fa2b00 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -107,7 +107,8 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
                 last class that belongs to the left group
         """
         if self.verbose:
-            print("Fitting estimator [1..{}] vs [{}..{}]".format(pos_class + 1, pos_class + 2, len(self.classes_)))
+            print("Fitting estimator [1..{}] vs [{}..{}]".format(pos_class + 1, pos_class + 2,
+                                                                len(self.label_binarizer_.classes_)))
         clf = deepcopy(self.estimator)
         ######
         if self.params_fit is not None:
@@ -149,18 +150,17 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
 
         self.label_binarizer_ = FHLabelBinarizer()
         y_bin_fh = self.label_binarizer_.fit_transform(y)  # column i contains y_bin for estimator i (in FH order)
-        self.classes_ = self.label_binarizer_.classes_
-        n_classes = len(self.classes_)
+        n_classes = len(self.label_binarizer_.classes_)
 
         X, y = check_X_y(X, y, accept_sparse=True)
 
         # fit the estimator for each binary combination of classes, n_estimators = n_classes -1
-        self.estimators_ = np.empty((n_classes - 1,), dtype=object)
-
         # In cases where individual estimators are very fast to train, setting n_jobs > 1 can result in slower
         # performance due to the overhead of spawning threads.  See joblib issue #112.
         self.estimators_ = Parallel(n_jobs=self.n_jobs)(delayed(self._fit_binary)(X, y_bin_fh[:, pos_class], pos_class)
                                                         for pos_class in range(n_classes - 1))
+        # the object is not fitted until all the estimators are trained
+        self.classes_ = self.label_binarizer_.classes_
         return self
 
     def predict(self, X):
@@ -677,7 +677,12 @@ class FrankAndHallTreeClassifier(FrankAndHallClassifier):
         super().fit(X, y)
 
         # building the tree
-        self.__generate_tree(X, y)
+        try:
+            self.__generate_tree(X, y)
+        except BaseException:
+            # without the tree the object is not fitted
+            self.classes_ = None
+            raise
         if self.verbose > 0:
             print(self.tree_)
         return self
diff --git a/quantificationlib/estimators/ordinal_ddag.py b/quantificationlib/estimators/ordinal_ddag.py
index 5c4ac89..4f0bc95 100644
--- a/quantificationlib/estimators/ordinal_ddag.py
+++ b/quantificationlib/estimators/ordinal_ddag.py
@@ -206,6 +206,24 @@ class DDAGClassifier(OneVsOneClassifier):
         self.verbose = verbose
         self.classes_ = None
 
+    def fit(self, X, y):
+        """ Fits the set of binary estimators, see OneVsOneClassifier
+
+            Parameters
+            ----------
+            X : (sparse) array-like, shape (n_examples, n_features)
+                Data
+
+            y : (sparse) array-like, shape (n_examples, )
+                True classes
+        """
+        try:
+            return super().fit(X, y)
+        except BaseException:
+            # the object is not fitted until all the estimators are trained
+            self.classes_ = None
+            raise
+
     def predict(self, X):
         """ Predict the class for each testing example
 
-- 
2.43.0


From d8923e518278c024bbefc486dcedceaf916e2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:11 +0000
Subject: [PATCH 55/57] fix: parameters of Frank and Hall estimators are not
 printed in silent mode

---
 quantificationlib/estimators/frank_and_hall.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantificationlib/estimators/frank_and_hall.py b/quantificationlib/estimators/frank_and_hall.py
index 4fa2b00..0b31edc 100644
--- a/quantificationlib/estimators/frank_and_hall.py
+++ b/quantificationlib/estimators/frank_and_hall.py
@@ -114,7 +114,8 @@ class FrankAndHallClassifier(BaseEstimator, ClassifierMixin):
         if self.params_fit is not None:
             params = self.params_fit[pos_class]
             clf.set_params(**params)
-            print("Estimator ", pos_class, " params: ", params)
+            if self.verbose:
+                print("Estimator ", pos_class, " params: ", params)
         #######
         clf.fit(X, y_bin)
         return clf
-- 
2.43.0


From ea6706fdc54a74a43748341a0313e451fb6ed9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:22 +0000
Subject: [PATCH 56/57] fix: unknown combination strategies are refused by EoQ,
 it answered 0

---
 quantificationlib/ensembles/eoq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantificationlib/ensembles/eoq.py b/quantificationlib/ensembles/eoq.py
index 6fdf8cb..055ee8b 100644
--- a/quantificationlib/ensembles/eoq.py
+++ b/quantificationlib/ensembles/eoq.py
@@ -552,5 +552,8 @@ class EoQ(WithoutClassifiers):
             m3 = m3 / float(np.sum(m3))
             prediction['distribution_similarity'] = m3
             prediction['all'] = (m0 + m1 + m2 + m3)/4
+        else:
+            raise ValueError("Combination strategy %s not implemented with objects of class %s"
+                             % (self.combination_strategy, self.__class__.__name__))
 
         return prediction
-- 
2.43.0


From 234ac1076ba3d8451c774029b44264845815ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:00 +0000
Subject: [PATCH 57/57] fix: loading data_utils does not silence the data
 conversion warnings of the program

---
 quantificationlib/data_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quantificationlib/data_utils.py b/quantificationlib/data_utils.py
index b7ea5bc..859ca49 100644
--- a/quantificationlib/data_utils.py
+++ b/quantificationlib/data_utils.py
@@ -8,14 +8,14 @@ import warnings
 from sklearn.preprocessing import StandardScaler
 from sklearn.exceptions import DataConversionWarning
 
-warnings.simplefilter("ignore", DataConversionWarning)
-
 
 def normalize(X_train, X_test):
     scaler = StandardScaler()
-    scaler.fit(X_train)
-    X_train = scaler.transform(X_train)
-    X_test = scaler.transform(X_test)
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore", DataConversionWarning)
+        scaler.fit(X_train)
+        X_train = scaler.transform(X_train)
+        X_test = scaler.transform(X_test)
     return X_train, X_test
 
 
-- 
2.43.0

