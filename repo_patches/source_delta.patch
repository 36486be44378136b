From f30833c5296da2bd2c38eebc2cc99bb6415bdb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 01/38] fix: check_random_state crashed on numpy RandomState
 instances

---
 implicit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index 4e86ee7..bdf8468 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -76,7 +76,7 @@ def check_random_state(random_state):
     """
     # backwards compatibility
     if isinstance(random_state, np.random.RandomState):
-        return np.random.default_rng(random_state.rand_int(2**31))
+        return np.random.default_rng(random_state.randint(2**31))
 
     # otherwise try to initialize a new one, and let it fail through
     # on the numpy side if it doesn't work
-- 
2.43.0


From 2e2853edc9a7b82e98f05c041fb106580f37f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 02/38] fix: random_state=0 was ignored by GPU models

---
 implicit/gpu/matrix_factorization_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/implicit/gpu/matrix_factorization_base.py b/implicit/gpu/matrix_factorization_base.py
index 4b5933c..0f1cb02 100644
--- a/implicit/gpu/matrix_factorization_base.py
+++ b/implicit/gpu/matrix_factorization_base.py
@@ -253,4 +253,6 @@ def check_random_state(random_state):
 
     # otherwise try to initialize a new one, and let it fail through
     # on the numpy side if it doesn't work
-    return implicit.gpu.RandomState(random_state or int(time.time()))
+    if random_state is None:
+        random_state = int(time.time())
+    return implicit.gpu.RandomState(random_state)
-- 
2.43.0


From cc3a33f2cd400ecb691eabcc522c76a640f99970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 03/38] fix: FaissModel.similar_items overwrote the item
 factors of the model

---
 implicit/ann/faiss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 8fcb356..b05252d 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -162,10 +162,11 @@ class FaissModel(RecommenderBase):
                 factors = factors.to_numpy()
 
         if np.isscalar(itemid):
-            factors /= np.linalg.norm(factors)
             factors = factors.reshape(1, -1)
-        else:
-            factors /= np.linalg.norm(factors, axis=1)[:, None]
+
+        norms = np.linalg.norm(factors, axis=1)
+        norms[norms == 0] = 1e-10
+        factors = factors / norms[:, None]
 
         scores, ids = self.similar_items_index.search(factors.astype("float32"), count)
 
-- 
2.43.0


From 9ca8cacc5041d7f698416a34e75109cb3ed2ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 04/38] fix: AnnoyModel.similar_items returned fewer than N
 results with filter_items

---
 implicit/ann/annoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 87d1c44..82f7448 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -139,7 +139,7 @@ class AnnoyModel(RecommenderBase):
             factor = factor.squeeze()
 
         ids, scores = self.similar_items_index.get_nns_by_vector(
-            factor, N, search_k=self.search_k, include_distances=True
+            factor, count, search_k=self.search_k, include_distances=True
         )
         ids, scores = np.array(ids), np.array(scores)
 
-- 
2.43.0


From 1df4a6848950ece7a7b81a7d40ce4b0c739949fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 05/38] fix: ANN models failed when filter_items was a numpy
 array

---
 implicit/ann/annoy.py  | 2 +-
 implicit/ann/faiss.py  | 2 +-
 implicit/ann/nmslib.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 82f7448..dae3011 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -205,7 +205,7 @@ class AnnoyModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index b05252d..3dcf473 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -237,7 +237,7 @@ class FaissModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 320e9fd..26b2a21 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -213,7 +213,7 @@ class NMSLibModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
-- 
2.43.0


From e8a3231e93fab60f173992322ec72d1015af7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 06/38] fix: MF models mishandled numpy array filters combined
 with an items list

---
 implicit/cpu/matrix_factorization_base.py | 6 +++---
 implicit/gpu/matrix_factorization_base.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index dcd37fa..50b216a 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -56,7 +56,7 @@ class MatrixFactorizationBase(RecommenderBase):
         # and filter_query_items
         if items is not None:
             N = min(N, len(items))
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in recommend call")
 
             items = np.array(items)
@@ -152,7 +152,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an user list to restrict down to, we need to filter the user_factors
         if users is not None:
-            if filter_users:
+            if filter_users is not None and len(filter_users):
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
             users = np.array(users)
@@ -193,7 +193,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an item list to restrict down to, we need to filter the item_factors
         if items is not None:
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
             items = np.array(items)
diff --git a/implicit/gpu/matrix_factorization_base.py b/implicit/gpu/matrix_factorization_base.py
index 0f1cb02..c183d6a 100644
--- a/implicit/gpu/matrix_factorization_base.py
+++ b/implicit/gpu/matrix_factorization_base.py
@@ -56,7 +56,7 @@ class MatrixFactorizationBase(RecommenderBase):
         item_factors = self.item_factors
         if items is not None:
             N = min(N, len(items))
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in recommend call")
 
             items = np.array(items)
@@ -126,7 +126,7 @@ class MatrixFactorizationBase(RecommenderBase):
         norms = self.user_norms
         user_factors = self.user_factors
         if users is not None:
-            if filter_users:
+            if filter_users is not None and len(filter_users):
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
             users = np.array(users)
@@ -165,7 +165,7 @@ class MatrixFactorizationBase(RecommenderBase):
         item_factors = self.item_factors
         norms = self.item_norms
         if items is not None:
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
             items = np.array(items)
-- 
2.43.0


From c0fda83f60eef27d81d9bb1663353df068ced5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 07/38] fix: ANN models never supported recalculate_user
 because of a typo

---
 implicit/ann/annoy.py  | 2 +-
 implicit/ann/faiss.py  | 2 +-
 implicit/ann/nmslib.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index dae3011..5b7b08c 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -191,7 +191,7 @@ class AnnoyModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 3dcf473..df4433e 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -223,7 +223,7 @@ class FaissModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 26b2a21..826e72b 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -199,7 +199,7 @@ class NMSLibModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
-- 
2.43.0


From 0a86a6d6edd56f5222ea8bae6a9ee9c123187361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:50 +0000
Subject: [PATCH 08/38] fix: FaissModel.recommend crashed with
 approximate_recommend=False

---
 implicit/ann/faiss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index df4433e..e27c4d0 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -211,7 +211,7 @@ class FaissModel(RecommenderBase):
             )
 
         if not self.approximate_recommend:
-            warnings.warning("Calling recommend on a FaissModel with approximate_recommend=False")
+            warnings.warn("Calling recommend on a FaissModel with approximate_recommend=False")
             return self.model.recommend(
                 userid,
                 user_items,
-- 
2.43.0


From 66fbe16d6ec814c889d4b8342f1f1eadbbbaaad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 09/38] fix: refitting a LogisticMatrixFactorization model kept
 stale cached norms

---
 implicit/cpu/lmf.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 7349470..6205fa6 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -164,6 +164,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        # invalidate cached norms
+        self._user_norms = self._item_norms = None
+
         # For Adagrad update
         user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
         item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
-- 
2.43.0


From 30f5547873d1ed8d8d8139f174227043ca1ed0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 10/38] fix: values cached by a fit callback stayed stale after
 later iterations

---
 implicit/cpu/als.py  | 3 +++
 implicit/cpu/bpr.pyx | 2 ++
 implicit/cpu/lmf.pyx | 2 ++
 implicit/gpu/als.py  | 3 +++
 implicit/gpu/bpr.py  | 2 ++
 5 files changed, 12 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 1ec7a91..33a88ce 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -160,6 +160,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             # alternate between learning the user_factors from the item_factors and vice-versa
             for iteration in range(self.iterations):
                 s = time.time()
+                # callbacks can fill the cached values: invalidate before updating factors again
+                self._item_norms = self._user_norms = None
+                self._YtY = self._XtX = None
                 solver(
                     Cui,
                     self.user_factors,
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 16dd2a6..627bf5f 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -190,6 +190,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for epoch in range(self.iterations):
                 s = time.time()
+                # callbacks can fill the cached values: invalidate before updating factors again
+                self._user_norms = self._item_norms = None
                 correct, skipped = bpr_update(rng, userids, user_items.indices, user_items.indptr,
                                               self.user_factors, self.item_factors,
                                               self.learning_rate, self.regularization, num_threads,
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 6205fa6..33d64cb 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -183,6 +183,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for epoch in range(self.iterations):
                 s = time.time()
+                # callbacks can fill the cached values: invalidate before updating factors again
+                self._user_norms = self._item_norms = None
                 # user update
                 lmf_update(rng, user_vec_deriv_sum,
                            self.user_factors, self.item_factors,
diff --git a/implicit/gpu/als.py b/implicit/gpu/als.py
index c1ab1fe..81d1c4a 100644
--- a/implicit/gpu/als.py
+++ b/implicit/gpu/als.py
@@ -155,6 +155,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for iteration in range(self.iterations):
                 s = time.time()
+                # callbacks can fill the cached values: invalidate before updating factors again
+                self._item_norms = self._user_norms = None
+                self._YtY = self._XtX = None
                 self.solver.calculate_yty(Y, _YtY, self.regularization)
                 self.solver.least_squares(Cui, X, _YtY, Y, self.cg_steps)
 
diff --git a/implicit/gpu/bpr.py b/implicit/gpu/bpr.py
index cffc471..a02c34d 100644
--- a/implicit/gpu/bpr.py
+++ b/implicit/gpu/bpr.py
@@ -134,6 +134,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
         with tqdm(total=self.iterations, disable=not show_progress) as progress:
             for _epoch in range(self.iterations):
                 s = time.time()
+                # callbacks can fill the cached values: invalidate before updating factors again
+                self._item_norms = self._user_norms = None
                 correct, skipped = implicit.gpu.bpr_update(
                     userids,
                     itemids,
-- 
2.43.0


From 683f4725d4520e91d5c68cf28a870f796719a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 11/38] fix: BPR and LMF fit reordered the indices of the
 matrix passed in

---
 implicit/cpu/bpr.pyx | 2 +-
 implicit/cpu/lmf.pyx | 2 +-
 implicit/gpu/bpr.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 627bf5f..0546ca6 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -145,7 +145,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         # We need efficient user lookup for case of removing own likes
         if self.verify_negative_samples and not user_items.has_sorted_indices:
-            user_items.sort_indices()
+            user_items = user_items.sorted_indices()
 
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 33d64cb..734664f 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -139,7 +139,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         if not item_users.has_sorted_indices:
             item_users.sort_indices()
         if not user_items.has_sorted_indices:
-            user_items.sort_indices()
+            user_items = user_items.sorted_indices()
 
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
diff --git a/implicit/gpu/bpr.py b/implicit/gpu/bpr.py
index a02c34d..925866f 100644
--- a/implicit/gpu/bpr.py
+++ b/implicit/gpu/bpr.py
@@ -92,7 +92,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
         # We need efficient user lookup for case of removing own likes
         if self.verify_negative_samples and not user_items.has_sorted_indices:
-            user_items.sort_indices()
+            user_items = user_items.sorted_indices()
 
         # this basically calculates the 'row' attribute of a COO matrix
         # without requiring us to get the whole COO matrix
-- 
2.43.0


From 24b7e1bf48aa822ad7154a307bc7c34a790cfad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 12/38] fix: the GPU ALS model ignored alpha when fitting

---
 implicit/gpu/als.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/implicit/gpu/als.py b/implicit/gpu/als.py
index 81d1c4a..36f75ef 100644
--- a/implicit/gpu/als.py
+++ b/implicit/gpu/als.py
@@ -114,6 +114,10 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         if Cui.dtype != np.float32:
             Cui = Cui.astype(np.float32)
 
+        # Give the positive examples more weight if asked for
+        if self.alpha != 1.0:
+            Cui = self.alpha * Cui
+
         s = time.time()
         Ciu = Cui.T.tocsr()
         log.debug("Calculated transpose in %.3fs", time.time() - s)
-- 
2.43.0


From dd80b995069df63a4115eba44080e3c75dbd3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 13/38] fix: GPU similar_items scaled recalculated items by the
 norm of the stored item

---
 implicit/gpu/matrix_factorization_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/implicit/gpu/matrix_factorization_base.py b/implicit/gpu/matrix_factorization_base.py
index c183d6a..294d40a 100644
--- a/implicit/gpu/matrix_factorization_base.py
+++ b/implicit/gpu/matrix_factorization_base.py
@@ -191,7 +191,11 @@ class MatrixFactorizationBase(RecommenderBase):
         if items is not None:
             ids = items[ids]
 
-        item_norms = self._item_norms_host[itemid]
+        if recalculate_item:
+            item_norms = implicit.gpu.calculate_norms(query_factors).to_numpy().ravel()
+            item_norms = item_norms[0] if np.isscalar(itemid) else item_norms
+        else:
+            item_norms = self._item_norms_host[itemid]
         if np.isscalar(itemid):
             ids, scores = ids[0], scores[0]
             scores /= item_norms
-- 
2.43.0


From ff804ba59e32ea60c480f94def2639b356894973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 14/38] fix: converting ALS models between cpu and gpu lost
 cg_steps

---
 implicit/cpu/als.py | 1 +
 implicit/gpu/als.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 33a88ce..2bc4106 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -451,6 +451,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             calculate_training_loss=self.calculate_training_loss,
             random_state=self.random_state,
         )
+        ret.cg_steps = self.cg_steps
         if self.user_factors is not None:
             ret.user_factors = implicit.gpu.Matrix(self.user_factors)
         if self.item_factors is not None:
diff --git a/implicit/gpu/als.py b/implicit/gpu/als.py
index 36f75ef..fe3122b 100644
--- a/implicit/gpu/als.py
+++ b/implicit/gpu/als.py
@@ -312,6 +312,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             calculate_training_loss=self.calculate_training_loss,
             random_state=self.random_state,
         )
+        ret.cg_steps = self.cg_steps
         ret.user_factors = self.user_factors.to_numpy() if self.user_factors is not None else None
         ret.item_factors = self.item_factors.to_numpy() if self.item_factors is not None else None
         return ret
-- 
2.43.0


From 8c2b82fb0329f1bea04809a02519cdd59f429eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 15/38] fix: recommend_all with users_items_offset always
 raised a row count mismatch

---
 implicit/cpu/matrix_factorization_base.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 50b216a..0a2d857 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -2,7 +2,7 @@
 import warnings
 
 import numpy as np
-from scipy.sparse import csr_matrix, lil_matrix
+from scipy.sparse import csr_matrix
 
 from ..recommender_base import ModelFitError, RecommenderBase
 from .topk import topk
@@ -109,14 +109,6 @@ class MatrixFactorizationBase(RecommenderBase):
         )
 
         userids = np.arange(user_items.shape[0]) + users_items_offset
-        if users_items_offset:
-            adjusted = lil_matrix(
-                (user_items.shape[0] + users_items_offset, user_items.shape[1]),
-                dtype=user_items.dtype,
-            )
-            adjusted[users_items_offset:] = user_items
-            user_items = adjusted.tocsr()
-
         ids, _ = self.recommend(
             userids,
             user_items,
-- 
2.43.0


From eb899ada3901186f93f97eeb22c378e691cdc583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 16/38] fix: an interrupted dataset download was used as a
 cached dataset

---
 implicit/datasets/_download.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 0b25227..e8c2488 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -24,4 +24,9 @@ def download_file(url, local_filename):
             progress.total = total
             progress.update(chunksize)
 
-        return urlretrieve(url, local_filename, reporthook=report)
+        # download to a temporary name first, so that an interrupted download isn't
+        # picked up as a cached dataset
+        temp_filename = local_filename + ".download"
+        _, headers = urlretrieve(url, temp_filename, reporthook=report)
+        os.replace(temp_filename, local_filename)
+        return local_filename, headers
-- 
2.43.0


From a86c17ffcf5db0e7608fdb2d2c205514292947ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 17/38] fix: generating datasets failed with numpy>=1.24
 (np.object was removed)

---
 implicit/datasets/million_song_dataset.py | 2 +-
 implicit/datasets/movielens.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/datasets/million_song_dataset.py b/implicit/datasets/million_song_dataset.py
index e0dc049..9858a8e 100644
--- a/implicit/datasets/million_song_dataset.py
+++ b/implicit/datasets/million_song_dataset.py
@@ -91,7 +91,7 @@ def _join_summary_file(data, summary_filename="msd_summary_file.h5"):
     track_lookup = dict((t.encode("utf8"), i) for i, t in enumerate(data["track"].cat.categories))
 
     # join on trackid to the summary file to get the artist/album/songname
-    track_info = np.empty(shape=(len(track_lookup), 4), dtype=np.object)
+    track_info = np.empty(shape=(len(track_lookup), 4), dtype=object)
     with tqdm(total=len(track_info)) as progress:
         for song in msd["metadata"]["songs"]:
             trackid = song[17]
diff --git a/implicit/datasets/movielens.py b/implicit/datasets/movielens.py
index 0afd88b..5c1d2b3 100644
--- a/implicit/datasets/movielens.py
+++ b/implicit/datasets/movielens.py
@@ -122,7 +122,7 @@ def _hfd5_from_dataframe(ratings, movies, outputfilename):
         g.create_dataset("indices", data=m.indices)
 
         # write out the titles as a numpy array
-        titles = np.empty(shape=(movies.movieId.max() + 1,), dtype=np.object)
+        titles = np.empty(shape=(movies.movieId.max() + 1,), dtype=object)
         titles[movies.movieId] = movies.title
         dt = h5py.special_dtype(vlen=str)
         dset = f.create_dataset("movie", (len(titles),), dtype=dt)
-- 
2.43.0


From 0661691f28c627c1db2c4cc2013b856f0268ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 18/38] fix: million song dataset generation ignored the
 triplets filename

---
 implicit/datasets/million_song_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/datasets/million_song_dataset.py b/implicit/datasets/million_song_dataset.py
index 9858a8e..8ced273 100644
--- a/implicit/datasets/million_song_dataset.py
+++ b/implicit/datasets/million_song_dataset.py
@@ -71,7 +71,7 @@ def _read_triplets_dataframe(filename):
     # get a model based off the input params
     start = time.time()
     log.debug("reading data from %s", filename)
-    data = pandas.read_table("train_triplets.txt", names=["user", "track", "plays"])
+    data = pandas.read_table(filename, names=["user", "track", "plays"])
 
     # map each artist and user to a unique numeric value
     data["user"] = data["user"].astype("category")
-- 
2.43.0


From 9be6f2b8e6ccdc7fb57c50758c27bef1aa28f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:25 +0000
Subject: [PATCH 19/38] fix: 32 bit overflow of output offsets on large batches
 or item counts

---
 implicit/_nearest_neighbours.pyx | 12 +++++++-----
 implicit/cpu/select.h            |  6 +++---
 implicit/cpu/topk.pyx            |  5 ++++-
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 84fa810..85baed6 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -117,6 +117,7 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
 
     cdef int item_count = items.shape[0]
     cdef int i, u, index1, index2, j
+    cdef size_t out
     cdef double w1, w2
 
     cdef int[:] item_indptr = items.indptr, item_indices = items.indices
@@ -152,13 +153,14 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
                 topk.results.clear()
                 neighbours.foreach(dereference(topk))
 
-                index2 = K * i
+                # K * i can overflow a 32 bit int with a large number of items
+                out = <size_t> K * i
 
                 for result in topk.results:
-                    rows[index2] = i
-                    cols[index2] = result.second
-                    values[index2] = result.first
-                    index2 = index2 + 1
+                    rows[out] = i
+                    cols[out] = result.second
+                    values[out] = result.first
+                    out = out + 1
                 with gil:
                     progress.update(1)
 
diff --git a/implicit/cpu/select.h b/implicit/cpu/select.h
index 2199b85..92ed8da 100644
--- a/implicit/cpu/select.h
+++ b/implicit/cpu/select.h
@@ -18,7 +18,7 @@ inline void select(const T *batch, int rows, int cols, int k, int *ids,
   for (int row = 0; row < rows; ++row) {
     results.clear();
     for (int col = 0; col < cols; ++col) {
-      T score = batch[row * cols + col];
+      T score = batch[static_cast<size_t>(row) * cols + col];
 
       if ((results.size() < k) || (score > results[0].first)) {
         if (results.size() >= k) {
@@ -33,8 +33,8 @@ inline void select(const T *batch, int rows, int cols, int k, int *ids,
     std::sort_heap(results.begin(), results.end(), heap_order);
 
     for (size_t i = 0; i < results.size(); ++i) {
-      ids[row * k + i] = results[i].second;
-      distances[row * k + i] = results[i].first;
+      ids[static_cast<size_t>(row) * k + i] = results[i].second;
+      distances[static_cast<size_t>(row) * k + i] = results[i].first;
     }
   }
 }
diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 05dca11..fa9b21a 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -63,6 +63,9 @@ def _topk_batch(items, query, int k, int startidx, int endidx, int[:, :] indices
     cdef int rows = batch_view.shape[0]
     cdef int cols = batch_view.shape[1]
 
+    # startidx * k can overflow a 32 bit int on large outputs
+    cdef size_t offset = <size_t> startidx * k
+
     with nogil:
-        select(c_batch, rows, cols, k, c_indices + startidx * k, c_distances + startidx * k)
+        select(c_batch, rows, cols, k, c_indices + offset, c_distances + offset)
 
-- 
2.43.0


From f216a80e4980c0b0cdfde7b99edc2d96d4efaadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 20/38] fix: 32 bit overflow when sizing the neighbour output
 arrays

---
 implicit/_nearest_neighbours.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 85baed6..cc60d66 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -131,9 +131,9 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
     cdef pair[double, int] result
 
     # holds triples of output
-    cdef double[:] values = np.zeros(item_count * K)
-    cdef long[:] rows = np.zeros(item_count * K, dtype=int)
-    cdef long[:] cols = np.zeros(item_count * K, dtype=int)
+    cdef double[:] values = np.zeros(<size_t> item_count * K)
+    cdef long[:] rows = np.zeros(<size_t> item_count * K, dtype=int)
+    cdef long[:] cols = np.zeros(<size_t> item_count * K, dtype=int)
 
     progress = tqdm(total=item_count, disable=not show_progress)
     with nogil, parallel(num_threads=num_threads):
-- 
2.43.0


From 12230d830b13d2a970d9078ba6284c9a912dcf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 21/38] fix: leave_k_out_split ignored random_state when
 picking the held out items

---
 implicit/evaluation.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index bd59040..046e9f4 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -74,7 +74,7 @@ cdef _choose(rng, int n, float frac):
     return arr
 
 
-cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
+cdef _take_tails(rng, arr, int n, return_complement=False, shuffled=False):
     """
     Given an array of (optionally shuffled) integers in the range 0->n, take the indices
     of the last 'n' occurrences of each integer (tail) -- subject to shuffling.
@@ -93,6 +93,8 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
 
     Parameters
     ----------
+    rng : Generator
+        The random generator used for shuffling.
     arr: ndarray
         The input array. This should be an array of integers in the range 0->n, where
         the ordered unique set of integers in said array should produce an array of
@@ -125,7 +127,7 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     ranges = np.linspace(start, end, num=n + 1, dtype=int)[1:]
 
     if shuffled:
-        shuffled_idx = (sorted_arr + np.random.random(arr.shape)).argsort()
+        shuffled_idx = (sorted_arr + rng.random(arr.shape)).argsort()
         tails = shuffled_idx[np.ravel(ranges, order="f")]
     else:
         tails = np.ravel(ranges, order="f")
@@ -204,7 +206,7 @@ cpdef leave_k_out_split(
     candidate_data = data[full_candidate_mask]
 
     test_idx, train_idx = _take_tails(
-        candidate_users, K, shuffled=True, return_complement=True
+        random_state, candidate_users, K, shuffled=True, return_complement=True
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From 71a3bfdabe49a8dad7fd6c534c71464025eff757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 22/38] fix: leave_k_out_split duplicated test ratings when
 userids are not consecutive

---
 implicit/evaluation.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 046e9f4..2cc9766 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -205,8 +205,10 @@ cpdef leave_k_out_split(
     candidate_items = items[full_candidate_mask]
     candidate_data = data[full_candidate_mask]
 
+    # _take_tails needs consecutive ids, some users might have been excluded above
+    _, candidate_rows = np.unique(candidate_users, return_inverse=True)
     test_idx, train_idx = _take_tails(
-        random_state, candidate_users, K, shuffled=True, return_complement=True
+        random_state, candidate_rows, K, shuffled=True, return_complement=True
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From a4f30147f0a9636fa959ff5373fe55ad1ba18b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 23/38] fix: leave_k_out_split compared positions to userids
 for train only users

---
 implicit/evaluation.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 2cc9766..f90f1a9 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -191,7 +191,7 @@ cpdef leave_k_out_split(
     # keep a given subset of users _only_ in the training set.
     if train_only_size > 0.0:
         train_only_mask = ~np.isin(
-            unique_users, _choose(random_state, len(unique_users), train_only_size)
+            unique_users, unique_users[_choose(random_state, len(unique_users), train_only_size)]
         )
         candidate_mask = train_only_mask & candidate_mask
 
-- 
2.43.0


From c04fea355d54c9b626a695f59f30b14e2cfaf122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 24/38] fix: results were padded with item 0 when N is more
 than the number of items

---
 implicit/cpu/topk.pyx   | 3 +++
 implicit/evaluation.pyx | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index fa9b21a..59ad216 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -16,6 +16,9 @@ def topk(items, query, int k, item_norms=None, filter_query_items=None, filter_i
     if len(query.shape) == 1:
         query = query.reshape((1, len(query)))
 
+    # we can't return more results than there are items
+    k = min(k, items.shape[0])
+
     cdef int query_rows = query.shape[0]
     indices = np.zeros((query_rows, k), dtype="int32")
     distances = np.zeros((query_rows, k), dtype=query.dtype)
diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index f90f1a9..d3b1f44 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -403,7 +403,7 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
         test_user_items = test_user_items.tocsr()
 
     cdef int users = test_user_items.shape[0], items = test_user_items.shape[1]
-    cdef int u, i, batch_idx
+    cdef int u, i, batch_idx, count
     # precision
     cdef double relevant = 0, pr_div = 0, total = 0
     # map
@@ -438,6 +438,9 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
         ids, _ = model.recommend(batch, train_user_items[batch], N=K)
         start_idx += batch_size
 
+        # models can return less than K results when there are fewer than K items
+        count = min(K, ids.shape[1])
+
         with nogil:
             for batch_idx in range(len(batch)):
                 u = batch[batch_idx]
@@ -454,7 +457,7 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                 num_pos_items = likes.size()
                 num_neg_items = items - num_pos_items
 
-                for i in range(K):
+                for i in range(count):
                     if likes.find(ids[batch_idx, i]) != likes.end():
                         relevant += 1
                         hit += 1
-- 
2.43.0


From d0cd4df17526d86bd9dbdf43074c4c69bbeaed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 25/38] fix: nearest neighbour recommend silently used row 0 of
 a multi row user_items

---
 implicit/nearest_neighbours.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d33717d..2d0ef65 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -53,10 +53,11 @@ class ItemItemRecommender(RecommenderBase):
         if not isinstance(user_items, csr_matrix):
             raise ValueError("user_items needs to be a CSR sparse matrix")
 
-        if not np.isscalar(userid):
-            if user_items.shape[0] != len(userid):
-                raise ValueError("user_items must contain 1 row for every user in userids")
+        user_count = 1 if np.isscalar(userid) else len(userid)
+        if user_items.shape[0] != user_count:
+            raise ValueError("user_items must contain 1 row for every user in userids")
 
+        if not np.isscalar(userid):
             return _batch_call(
                 self.recommend,
                 userid,
-- 
2.43.0


From 3e31e9e794bb1b94c22f00151b88b93b5c99fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 26/38] fix: nearest neighbour recommend returned more than N
 results

---
 implicit/nearest_neighbours.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 2d0ef65..e98f0c4 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -72,20 +72,21 @@ class ItemItemRecommender(RecommenderBase):
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
+        count = N
         if filter_items is not None:
-            N += len(filter_items)
+            count += len(filter_items)
         elif items is not None:
             items = np.array(items)
-            N = self.similarity.shape[0]
+            count = self.similarity.shape[0]
             # check if items contains itemids that are not in the model(user_items)
-            if items.max() >= N or items.min() < 0:
+            if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
             user_items.data,
-            K=N,
+            K=count,
             remove_own_likes=filter_already_liked_items,
         )
 
@@ -102,6 +103,7 @@ class ItemItemRecommender(RecommenderBase):
             if missing.size:
                 ids = np.append(ids, missing)
                 scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))
+            ids, scores = ids[:N], scores[:N]
 
         return ids, scores
 
-- 
2.43.0


From 1e20f2d92a21ae05e42abcf23fa54dc04b676153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 27/38] fix: nearest neighbour similar_items failed on lists
 and returned unknown itemids

---
 implicit/nearest_neighbours.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index e98f0c4..e99d360 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -135,6 +135,10 @@ class ItemItemRecommender(RecommenderBase):
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
+            items = np.array(items)
+            if items.max() >= self.similarity.shape[0] or items.min() < 0:
+                raise IndexError("Some of selected itemids are not in the model")
+
             mask = np.in1d(ids, items)
             ids, scores = ids[mask], scores[mask]
 
-- 
2.43.0


From a55809474e6e4edeaabe4bcc518ae49e91dcf68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 28/38] fix: nearest neighbour recommend accessed memory out of
 bounds for unknown items

---
 implicit/_nearest_neighbours.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index cc60d66..83c19dd 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -68,6 +68,11 @@ cdef class NearestNeighboursScorer(object):
         cdef int[:] indices
         cdef double[:] data
 
+        cdef int item_count = self.neighbours.sums.size()
+        for index1 in range(user_indptr[0], user_indptr[1]):
+            if user_indices[index1] < 0 or user_indices[index1] >= item_count:
+                raise ValueError("user_items contains itemids that are not in the model")
+
         cdef TopK[int, double] * topK = new TopK[int, double](K)
         try:
             with self.lock:
-- 
2.43.0


From 354d9e76392f64b990b0831de897204a9598bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 29/38] fix: saving nearest neighbour models lost num_threads,
 K1 and B

---
 implicit/nearest_neighbours.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index e99d360..9f67ce9 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -165,7 +165,7 @@ class ItemItemRecommender(RecommenderBase):
             self.scorer = None
 
     def save(self, fileobj_or_path):
-        args = {"K": self.K}
+        args = {k: v for k, v in self.__dict__.items() if k not in ("similarity", "scorer")}
         m = self.similarity
         if m is not None:
             args.update(
@@ -187,7 +187,9 @@ class ItemItemRecommender(RecommenderBase):
                 )
                 ret.similarity = similarity
                 ret.scorer = NearestNeighboursScorer(similarity)
-            ret.K = data["K"]
+            for k in data.files:
+                if k not in ("shape", "data", "indptr", "indices"):
+                    setattr(ret, k, data[k].item())
             return ret
 
 
-- 
2.43.0


From 2c1f459e15f3e5624b7a1af3840cd101cf231205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:33 +0000
Subject: [PATCH 30/38] fix: models with a numpy random generator were saved to
 unloadable files

---
 implicit/cpu/als.py  | 13 ++++++++-----
 implicit/cpu/bpr.pyx |  7 ++-----
 implicit/cpu/lmf.pyx |  7 ++-----
 implicit/utils.py    |  7 +++++++
 4 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 2bc4106..16490f3 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -9,7 +9,13 @@ import scipy
 import scipy.sparse
 from tqdm.auto import tqdm
 
-from ..utils import check_blas_config, check_csr, check_random_state, nonzeros
+from ..utils import (
+    check_blas_config,
+    check_csr,
+    check_random_state,
+    filter_save_args,
+    nonzeros,
+)
 from . import _als
 from .matrix_factorization_base import MatrixFactorizationBase
 
@@ -474,10 +480,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             "random_state": self.random_state,
             "alpha": self.alpha,
         }
-        # filter out 'None' valued args, since we can't go np.load on
-        # them without using pickle
-        args = {k: v for k, v in args.items() if v is not None}
-        np.savez(fileobj_or_path, **args)
+        np.savez(fileobj_or_path, **filter_save_args(args))
 
 
 def least_squares(Cui, X, Y, regularization, num_threads=0):
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 0546ca6..556a313 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -20,7 +20,7 @@ import scipy.sparse
 
 from libcpp.vector cimport vector
 
-from ..utils import check_csr, check_random_state
+from ..utils import check_csr, check_random_state, filter_save_args
 from .matrix_factorization_base import MatrixFactorizationBase
 
 log = logging.getLogger("implicit")
@@ -240,10 +240,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
             random_state=self.random_state
         )
 
-        # filter out 'None' valued args, since we can't go np.load on
-        # them without using pickle
-        args = {k:v for k,v in args.items() if v is not None}
-        np.savez(fileobj_or_path, **args)
+        np.savez(fileobj_or_path, **filter_save_args(args))
 
 
 @cython.cdivision(True)
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 734664f..adaeb10 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -22,7 +22,7 @@ import scipy.sparse
 
 from libcpp.vector cimport vector
 
-from ..utils import check_csr, check_random_state
+from ..utils import check_csr, check_random_state, filter_save_args
 from .matrix_factorization_base import MatrixFactorizationBase
 
 log = logging.getLogger("implicit")
@@ -216,10 +216,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             dtype=self.dtype.name,
             random_state=self.random_state)
 
-        # filter out 'None' valued args, since we can't go np.load on
-        # them without using pickle
-        args = {k:v for k,v in args.items() if v is not None}
-        np.savez(fileobj_or_path, **args)
+        np.savez(fileobj_or_path, **filter_save_args(args))
 
 
 @cython.cdivision(True)
diff --git a/implicit/utils.py b/implicit/utils.py
index bdf8468..6b9a455 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -83,6 +83,13 @@ def check_random_state(random_state):
     return np.random.default_rng(random_state)
 
 
+def filter_save_args(args):
+    """Filters out the args that can't be loaded back by np.load without using pickle: 'None'
+    values and random generator objects"""
+    unsupported = (type(None), np.random.RandomState, np.random.Generator)
+    return {k: v for k, v in args.items() if not isinstance(v, unsupported)}
+
+
 def augment_inner_product_matrix(factors):
     """This function transforms a factor matrix such that an angular nearest neighbours search
     will return top related items of the inner product.
-- 
2.43.0


From 3554e44e7ebd70ca0c82e71854866840742f0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 31/38] fix: ALS accessed memory out of bounds when the input
 did not match the factors

---
 implicit/cpu/_als.pyx | 10 ++++++++++
 implicit/cpu/als.py   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index 630e3f1..afdbb44 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -64,9 +64,17 @@ def _check_als_dtype(X):
                          f"Allowed dtypes are: {_ALLOWED_DTYPES}")
 
 
+def _check_als_shapes(Cui, X, Y):
+    # the native code doesn't do any bounds checking
+    if Cui.shape[0] != X.shape[0] or Cui.shape[1] > Y.shape[0] or X.shape[1] != Y.shape[1]:
+        raise ValueError(f"Sparse matrix of shape {Cui.shape} doesn't match factors with shapes "
+                         f"{X.shape} and {Y.shape}")
+
+
 def least_squares(Cui, X, Y, regularization, num_threads=0):
     _check_als_dtype(X)
     _check_als_dtype(Y)
+    _check_als_shapes(Cui, X, Y)
     YtY = np.dot(np.transpose(Y), Y)
     _least_squares(YtY, Cui.indptr, Cui.indices, Cui.data.astype('float32'),
                    X, Y, regularization, num_threads)
@@ -145,6 +153,7 @@ def _least_squares(YtY, integral[:] indptr, integral[:] indices, float[:] data,
 def least_squares_cg(Cui, X, Y, regularization, num_threads=0, cg_steps=3):
     _check_als_dtype(X)
     _check_als_dtype(Y)
+    _check_als_shapes(Cui, X, Y)
     return _least_squares_cg(Cui.indptr, Cui.indices, Cui.data.astype('float32'),
                              X, Y, regularization, num_threads, cg_steps)
 
@@ -250,6 +259,7 @@ def _least_squares_cg(integral[:] indptr, integral[:] indices, float[:] data,
 
 def calculate_loss(Cui, X, Y, regularization, num_threads=0):
     """ Calculates the loss for an ALS model """
+    _check_als_shapes(Cui, X, Y)
     return _calculate_loss(Cui, Cui.indptr, Cui.indices, Cui.data.astype('float32'),
                            X, Y, regularization, num_threads)
 
diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 16490f3..7d90bd3 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -236,6 +236,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             user_items = self.alpha * user_items
 
         user_factors = np.zeros((users, self.factors), dtype=self.dtype)
+        _als._check_als_shapes(user_items, user_factors, self.item_factors)
         _als._least_squares(
             self.YtY,
             user_items.indptr,
@@ -269,6 +270,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         items = 1 if np.isscalar(itemid) else len(itemid)
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
+        _als._check_als_shapes(item_users, item_factors, self.user_factors)
         _als._least_squares(
             self.XtX,
             item_users.indptr,
-- 
2.43.0


From 3760c7137e46b8ea4ca53462fe1a8bc9a051db3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 32/38] fix: refitting BPR or LMF with a larger matrix accessed
 memory out of bounds

---
 implicit/cpu/bpr.pyx | 4 ++++
 implicit/cpu/lmf.pyx | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 556a313..238146b 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -172,6 +172,10 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
             self.user_factors[:, self.factors] = 1.0
 
+        # the native code doesn't do any bounds checking
+        if users > self.user_factors.shape[0] or items > self.item_factors.shape[0]:
+            raise ValueError("user_items has more users or items than the model was fit with")
+
         # invalidate cached norms
         self._user_norms = self._item_norms = None
 
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index adaeb10..cf70cf8 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -164,6 +164,10 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        # the native code doesn't do any bounds checking
+        if users != self.user_factors.shape[0] or items != self.item_factors.shape[0]:
+            raise ValueError("user_items doesn't match the shape of the already fitted factors")
+
         # invalidate cached norms
         self._user_norms = self._item_norms = None
 
-- 
2.43.0


From 6d1c99bb20dfa39cb9b602b6f8ed23f677a06d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:32 +0000
Subject: [PATCH 33/38] fix: LogisticMatrixFactorization ignored its dtype
 parameter

---
 implicit/cpu/lmf.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index cf70cf8..c28b92e 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -127,9 +127,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         """
         rs = check_random_state(self.random_state)
 
-        # for now, all we handle is float 32 values
-        if user_items.dtype != np.float32:
-            user_items = user_items.astype(np.float32)
+        # the update needs the same type for the values and the factors
+        if user_items.dtype != self.dtype:
+            user_items = user_items.astype(self.dtype)
 
         users, items = user_items.shape
 
@@ -151,14 +151,14 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         # user_factors[-2] = user bias, item factors[-1] = item bias
         # This significantly simplifies both training, and serving
         if self.item_factors is None:
-            self.item_factors = rs.standard_normal(size=(items, self.factors + 2), dtype=np.float32)
+            self.item_factors = rs.standard_normal(size=(items, self.factors + 2), dtype=self.dtype)
             self.item_factors[:, -1] = 1.0
 
             # set factors to all zeros for items without any ratings
             self.item_factors[item_counts == 0] = np.zeros(self.factors + 2)
 
         if self.user_factors is None:
-            self.user_factors = rs.standard_normal(size=(users, self.factors + 2), dtype=np.float32)
+            self.user_factors = rs.standard_normal(size=(users, self.factors + 2), dtype=self.dtype)
             self.user_factors[:, -2] = 1.0
 
             # set factors to all zeros for users without any ratings
@@ -172,8 +172,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         self._user_norms = self._item_norms = None
 
         # For Adagrad update
-        user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
-        item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
+        user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(self.dtype)
+        item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(self.dtype)
 
         cdef int num_threads = self.num_threads
         if not num_threads:
-- 
2.43.0


From 4fbd1ef6968767900298a8b24919c0d4a5eb393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:43 +0000
Subject: [PATCH 34/38] fix: filter explicitly stored zero interactions when
 recommending from an item subset

---
 implicit/cpu/matrix_factorization_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 0a2d857..6ffec9b 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -249,6 +249,9 @@ def _filter_items_from_sparse_matrix(items, query_items):
     in the items filter. Requires items to be sorted"""
     filter_query_items = query_items.tocoo()
 
+    # explicitly stored zeros are interactions too: don't lose them in eliminate_zeros below
+    filter_query_items.data = np.ones_like(filter_query_items.data)
+
     positions = np.searchsorted(items, filter_query_items.col)
     positions = np.clip(positions, 0, len(items) - 1)
 
-- 
2.43.0


From eb2e2986f4609209b7e64657ba1bd672d4c946f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:40 +0000
Subject: [PATCH 35/38] fix: nearest neighbour models read out of bounds when
 asked for zero results

---
 implicit/_nearest_neighbours.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 83c19dd..d1c9b0d 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -73,6 +73,10 @@ cdef class NearestNeighboursScorer(object):
             if user_indices[index1] < 0 or user_indices[index1] >= item_count:
                 raise ValueError("user_items contains itemids that are not in the model")
 
+        # the TopK heap can't be empty when comparing scores
+        if K < 1:
+            return np.zeros(0, dtype=np.int32), np.zeros(0)
+
         cdef TopK[int, double] * topK = new TopK[int, double](K)
         try:
             with self.lock:
@@ -117,6 +121,9 @@ cdef class NearestNeighboursScorer(object):
 def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=True):
     """ Returns the top K nearest neighbours for each row in the matrix.
     """
+    if K < 1:
+        raise ValueError("K must be at least 1")
+
     users = check_csr(users)
     items = users.T.tocsr()
 
-- 
2.43.0


From 16422351c093166df3a6485702c009aee06191a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:19 +0000
Subject: [PATCH 36/38] fix: NMSLib recommend index ignored the method setting

---
 implicit/ann/nmslib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 826e72b..c2fc2be 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -106,7 +106,7 @@ class NMSLibModel(RecommenderBase):
         if self.approximate_recommend:
             log.debug("Building nmslib recommendation index")
             self.max_norm, extra = augment_inner_product_matrix(item_factors)
-            self.recommend_index = nmslib.init(method="hnsw", space="cosinesimil")
+            self.recommend_index = nmslib.init(method=self.method, space="cosinesimil")
             self.recommend_index.addDataPointBatch(extra)
             self.recommend_index.createIndex(self.index_params, print_progress=show_progress)
             self.recommend_index.setQueryTimeParams(self.query_params)
-- 
2.43.0


From c9a2db888f22aa84882803afebbaf9e45b4c2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:16 +0000
Subject: [PATCH 37/38] fix: lastfm generator stored its matrix as users by
 artists

---
 implicit/datasets/lastfm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/datasets/lastfm.py b/implicit/datasets/lastfm.py
index b650921..dbe3255 100644
--- a/implicit/datasets/lastfm.py
+++ b/implicit/datasets/lastfm.py
@@ -74,7 +74,7 @@ def _hfd5_from_dataframe(data, outputfilename):
     plays = coo_matrix(
         (
             data["plays"].astype(np.float32),
-            (data["user"].cat.codes.copy(), data["artist"].cat.codes.copy()),
+            (data["artist"].cat.codes.copy(), data["user"].cat.codes.copy()),
         )
     ).tocsr()
 
-- 
2.43.0


From 2ff276484af2eae5759ad4fa7e4142c4d9f95b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:15 +0000
Subject: [PATCH 38/38] fix: don't count a constant error for disliked items in
 the ALS training loss

The preference of an item with a negative confidence is 0, so its error is
c * (0 - x.y)^2. calculate_loss added the constant term of a liked item as well.
---
 implicit/cpu/_als.pyx | 3 ++-
 implicit/gpu/als.cu   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index afdbb44..5518cf6 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -295,6 +295,8 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
 
                     if confidence > 0:
                         temp = -2 * confidence
+                        # Pui is 0 for disliked items, so these don't have a constant term
+                        loss += confidence
                     else:
                         temp = 0
                         confidence = -1 * confidence
@@ -303,7 +305,6 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
                     axpy(&N, &temp, &Y[i, 0], &one, r, &one)
 
                     total_confidence += confidence
-                    loss += confidence
 
                 loss += dot(&N, r, &one, &X[u, 0], &one)
                 user_norm += dot(&N, &X[u, 0], &one, &X[u, 0], &one)
diff --git a/implicit/gpu/als.cu b/implicit/gpu/als.cu
index 58ad047..d59f35d 100644
--- a/implicit/gpu/als.cu
+++ b/implicit/gpu/als.cu
@@ -226,11 +226,12 @@ __global__ void calculate_loss_kernel(int factors, size_t user_count,
       if (confidence > 0) {
         r +=
             ((confidence - 1) * dot(Yi, x_value, shared) - 2 * confidence) * Yi;
+        // Pui is 0 for disliked items, so these don't have a constant term
+        loss += confidence;
       } else {
         confidence *= -1;
         r += ((confidence - 1) * dot(Yi, x_value, shared)) * Yi;
       }
-      loss += confidence;
       total_confidence += confidence;
     }
     loss += dot(x_value, r, shared);
-- 
2.43.0

