From 075129b5460e9ebae56dbc6703bc5aa3130bb63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:21 +0000
Subject: [PATCH 001/123] fix: use bool rather than np.bool, which NumPy has
 removed

Pruning a dataset, doc-completion splits with a minimum word-count and the
TF-IDF recommender all raised AttributeError.
---
 sidetopics/model/common.py        | 6 +++---
 sidetopics/model/sim_based_rec.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 3ec49ee..43c5ab9 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -339,7 +339,7 @@ class DataSet:
         """
         rng = rd.RandomState(seed)
 
-        tmp = self._words.astype(np.bool).astype(np.int32)
+        tmp = self._words.astype(bool).astype(np.int32)
 
         unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
         if unique_word_counts.min() < min_unique_word_count:
@@ -479,8 +479,8 @@ class DataSet:
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(np.bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(np.bool).sum(axis=1)))
+            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
+            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 5c73813..b192959 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -180,7 +180,7 @@ def train (data, model, query, trainPlan, isQuery=False):
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
         reps = ssp.diags(np.reciprocal(docLens), 0).dot(reps)
 
-        occ  = data.words.astype(np.bool).astype(dtype)
+        occ  = data.words.astype(bool).astype(dtype)
         docCount = np.squeeze(np.array(occ.sum(axis=0)))
         docCount += 1
         idf = np.log(D / docCount)
-- 
2.43.0


From 92ff0f05ec550117a72f16e20e5946e7a93769e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:21 +0000
Subject: [PATCH 002/123] fix: link_prediction_split used a float as a slice
 bound

Both the symmetric and the plain split raised TypeError.
---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 43c5ab9..9ecf85c 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -614,7 +614,7 @@ def _split(X, rng):
 
     ind = np.arange(nnz)
     rng.shuffle (ind)
-    split_point = nnz / 2
+    split_point = nnz // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
@@ -665,7 +665,7 @@ def _split_symm(X, rng):
 
     ind = np.array([i for i in range(nnz) if row[i] >= col[i]], dtype=np.int32)
     rng.shuffle(ind)
-    split_point = len(ind) / 2
+    split_point = len(ind) // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
-- 
2.43.0


From cc85b1dea410c1948b9a6b4da454cba1f0aeea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:21 +0000
Subject: [PATCH 003/123] fix: symmetric link splits doubled the links on the
 diagonal

The two halves are meant to sum to the original matrix.
---
 sidetopics/model/common.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 9ecf85c..f1dc683 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -630,20 +630,11 @@ def _symm_csr(dat, row, col, shape):
     where the coorindates are for the upper triangle only. These are then copied
     to create the lower-triangle. The returned matrix is in CSR format.
     """
-    count = len(dat)
+    off_diag = row != col # elements on the diagonal must not be counted twice
 
-    nu_dat = np.ndarray(shape=(count*2,), dtype=dat.dtype)
-    nu_row = np.ndarray(shape=(count*2,),  dtype=row.dtype)
-    nu_col = np.ndarray(shape=(count*2,),  dtype=col.dtype)
-
-    nu_dat[:count] = dat
-    nu_dat[count:] = dat
-
-    nu_row[:count] = row
-    nu_row[count:] = col
-
-    nu_col[:count] = col
-    nu_col[count:] = row
+    nu_dat = np.concatenate((dat, dat[off_diag]))
+    nu_row = np.concatenate((row, col[off_diag]))
+    nu_col = np.concatenate((col, row[off_diag]))
 
     return ssp.coo_matrix((nu_dat, (nu_row, nu_col)), shape=shape).tocsr()
 
-- 
2.43.0


From be35291dc037fa713ea959de00d403f0ca3686ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:21 +0000
Subject: [PATCH 004/123] fix: doc_completion_split could create negative word
 counts

With est_prop above a half the jitter often pushed the estimation share of
a word above its count, leaving a negative evaluation count.
---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index f1dc683..97871e9 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -469,7 +469,7 @@ class DataSet:
         dat    = self._words.data
         jitter = rng.normal(scale=est_prop * 0.666, size=len(dat))
         evl    = dat + jitter
-        est    = np.around(evl * est_prop)
+        est    = np.clip(np.around(evl * est_prop), 0, dat)
         evl    = dat - est
 
         est = est.astype(self._words.dtype)
-- 
2.43.0


From 33aa106804b8c4da517b0e756df03171cb5c201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:21 +0000
Subject: [PATCH 005/123] fix: malformed message made doc_completion_split fail
 when it dropped documents

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 97871e9..a0692e6 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -488,7 +488,7 @@ class DataSet:
             if len(tq_good) != words_train.shape[0]:
                 words_train = words_train[tq_good,:]
                 words_query = words_query[tq_good,:]
-                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good)), min_unique_word_count, len(tq_good))
+                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good), min_unique_word_count, len(tq_good)))
                 
                 # FIXME Need to handle links and feats as well...
                 if (self._feats is not None) or (self._links is not None):
-- 
2.43.0


From 62d15448e4bee1f2f57863b5d3d39656b3f652ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:54 +0000
Subject: [PATCH 006/123] fix: reordering and splitting failed without
 categories, or with a list of them

from_files() reads categories as a list of lists, and most datasets have none.
---
 sidetopics/model/common.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index a0692e6..d41fcdd 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -301,7 +301,7 @@ class DataSet:
         Maybe this should update the order property as well...
         """
         self._words = self._words[order, :]
-        self._doc_categories = self._doc_categories[list(order)]
+        self._doc_categories = _reorder_categories(self._doc_categories, order)
         self._feats = None if self._feats is None else self._feats[order, :]
         self._links = _reorder_link_matrix(self._links, order)
 
@@ -420,7 +420,7 @@ class DataSet:
             None if self._feats is None else self._feats[train_range],
             None if self._links is None else self._links[train_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(train_range)],
+            doc_categories=_reorder_categories(self._doc_categories, train_range),
             order=self._order[train_range],
             debug=debug
         )
@@ -429,7 +429,7 @@ class DataSet:
             None if self._feats is None else self._feats[query_range],
             None if self._links is None else self._links[query_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(query_range)],
+            doc_categories=_reorder_categories(self._doc_categories, query_range),
             order=self._order[query_range],
             debug=debug
         )
@@ -734,6 +734,19 @@ def _folded_split(X, fold_id, fold_count, min_link_count):
     return L, R, docSubset
 
 
+def _reorder_categories(categories, order):
+    """
+    Returns the categories of the given documents (in order), or None if there
+    are no categories. Categories may be in an array, or in a list as they are
+    when read from a file.
+    """
+    if categories is None:
+        return None
+    if isinstance(categories, np.ndarray):
+        return categories[order]
+    return [categories[d] for d in order]
+
+
 def _reorder_link_matrix(matrix, order):
     """
     Returns a matrix containing only the given rows (in order).
-- 
2.43.0


From 7425849e2a92b1c9a371f17e075249b9605aa9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:54 +0000
Subject: [PATCH 007/123] fix: doc_completion_split lost the order, and failed
 on categories when it dropped documents

---
 sidetopics/model/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index d41fcdd..8a9419f 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -478,6 +478,7 @@ class DataSet:
         words_train = ssp.csr_matrix((est, self._words.indices, self._words.indptr), shape=self._words.shape)
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
+        doc_categories, order = self._doc_categories, self._order
         if min_unique_word_count > 0:
             t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
             q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
@@ -488,6 +489,8 @@ class DataSet:
             if len(tq_good) != words_train.shape[0]:
                 words_train = words_train[tq_good,:]
                 words_query = words_query[tq_good,:]
+                doc_categories = _reorder_categories(doc_categories, tq_good)
+                order = order[tq_good]
                 print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good), min_unique_word_count, len(tq_good)))
                 
                 # FIXME Need to handle links and feats as well...
@@ -495,8 +498,8 @@ class DataSet:
                     raise ValueError ("Not implemented for features and/or links")
 
         return \
-            DataSet(words_train, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug), \
-            DataSet(words_query, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug)
+            DataSet(words_train, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug), \
+            DataSet(words_query, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug)
 
 
     def link_prediction_split(self, symmetric=True, seed=0xC0FFEE):
-- 
2.43.0


From 2a2c963dd27b240efc033c8210d4868e34c21c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:54 +0000
Subject: [PATCH 008/123] fix: link prediction splits lost the order of the
 documents

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 8a9419f..3810a89 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -522,8 +522,8 @@ class DataSet:
             links_train, links_query = _split(self._links, rng)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories)
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order)
 
 
     def folded_link_prediction_split(self, min_link_count, fold_id, fold_count, symmetric=False):
@@ -545,8 +545,8 @@ class DataSet:
             links_train, links_query, docSubset = _folded_split(self._links, fold_id, fold_count, min_link_count)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories), \
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order), \
             docSubset
 
     def split_on_feature(self, features):
-- 
2.43.0


From 0b19f2b0740a79690a04901045c8f95ca4271221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:54 +0000
Subject: [PATCH 009/123] fix: DataSet.copy(deep=True) raised TypeError, no
 matrix copy() takes deep

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 3810a89..dc5b457 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -144,12 +144,12 @@ class DataSet:
     def copy(self, deep=False):
         if deep:
             return DataSet(
-                self._words.copy(deep=True),
-                self._feats.copy(deep=True) if self._feats is not None else None,
-                self._links.copy(deep=True) if self._links is not None else None,
+                self._words.copy(),
+                self._feats.copy() if self._feats is not None else None,
+                self._links.copy() if self._links is not None else None,
                 list(self._word_dict) if self._word_dict is not None else None,
                 list(self._doc_categories) if self._doc_categories is not None else None,
-                self._order.copy(deep=True) if self._order is not None else None
+                self._order.copy() if self._order is not None else None
             )
         else:
             return DataSet(
-- 
2.43.0


From bb9968684035adbd1de5eaf58df7269739eb383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:54 +0000
Subject: [PATCH 010/123] fix: words_with_min_freq failed without a dictionary,
 or with a list for one

---
 sidetopics/model/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index dc5b457..6776141 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -166,7 +166,9 @@ class DataSet:
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
-        pruned_dict = self._word_dict[list(retain_word_ids)]
+        pruned_dict = None if self._word_dict is None \
+            else self._word_dict[list(retain_word_ids)] if isinstance(self._word_dict, np.ndarray) \
+            else [self._word_dict[w] for w in retain_word_ids]
 
         return DataSet(
             pruned_words,
-- 
2.43.0


From 5acc8466e39a1d7e13527a85a3af60f36d94f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:20 +0000
Subject: [PATCH 011/123] fix: limit left every document in the dataset, and
 from_files() did not record its order

Only the order was cut to the limit, so it no longer matched the matrices.
---
 sidetopics/model/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 6776141..5d1e26f 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -60,6 +60,7 @@ class DataSet:
                 if order is None \
                 else order[:limit]
             num_docs = limit
+            self._reorder(np.arange(num_docs))
 
         if order is not None:
             self._order = order
@@ -125,9 +126,11 @@ class DataSet:
 
         result = DataSet(words, feats, links,
                          doc_categories=doc_categories, word_dict=word_dict,
-                         order=None, limit=limit)
+                         order=None, limit=limit if order is None else 0)
         if order is not None:
+            order = np.asarray(order[:limit] if limit > 0 else order)
             result._reorder(order)
+            result._order = order
 
         return result
 
-- 
2.43.0


From 09098502e84657ce6564d287673dba9a390a5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:20 +0000
Subject: [PATCH 012/123] fix: split_on_feature misread features that aren't
 64-bit floats, and needed links

The raw bytes of the column were reinterpreted as float64.
---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 5d1e26f..2650e08 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -565,7 +565,7 @@ class DataSet:
         data
         """
         def two_dim_reorder(matrix, row_order, col_order):
-            return (matrix[row_order,:])[:,col_order]
+            return None if matrix is None else (matrix[row_order,:])[:,col_order]
 
         Epsilon = 1E-30
         assert self._feats is not None, "Need features to make this split"
@@ -573,7 +573,7 @@ class DataSet:
 
         mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
         trainDocs = np.where(mask < Epsilon)[0]
-        queryDocs = np.where(np.ndarray(buffer=self._feats[:,features[0]].todense(), shape=(self._feats.shape[0],)) > Epsilon)[0]
+        queryDocs = np.where(np.asarray(self._feats[:,[features[0]]].todense()).ravel() > Epsilon)[0]
 
         return DataSet(words=self._words[trainDocs,:],
                        feats=self._feats[trainDocs,:],
-- 
2.43.0


From db32104a8786db73150ca232167c12912ee90b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:20 +0000
Subject: [PATCH 013/123] fix: a feature averaging one or more was mistaken for
 an intercept

Only a feature that is one for every document is an intercept.
---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 2650e08..9c38db8 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -289,8 +289,8 @@ class DataSet:
         if self._feats is None:
             return;
 
-        means = self._feats.mean(axis=0)
-        if means.max() < (1-1E-30):
+        differences = np.abs(self._feats - np.ones(self._feats.shape))
+        if differences.max(axis=0).min() > 1E-30:
             self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1))), "csr")
             return True
 
-- 
2.43.0


From a834377a8120db1d6fc686195e5e44b1d21d7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:29 +0000
Subject: [PATCH 014/123] fix: an intercept could not be added to dense
 features

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 9c38db8..7a9bf44 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -291,7 +291,7 @@ class DataSet:
 
         differences = np.abs(self._feats - np.ones(self._feats.shape))
         if differences.max(axis=0).min() > 1E-30:
-            self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1))), "csr")
+            self._feats = ssp.hstack((ssp.csr_matrix(self._feats), np.ones((self.doc_count, 1))), "csr")
             return True
 
         return False
-- 
2.43.0


From 62bc492ddfe3e5225e7f6fdc92ba0b2b4c49c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:47 +0000
Subject: [PATCH 015/123] fix: prune_and_shuffle discarded any order the
 dataset already had

The order is the rows originally read in, so the shuffle has to be applied to it.
---
 sidetopics/model/common.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 7a9bf44..31f2702 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -349,17 +349,16 @@ class DataSet:
         unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
         if unique_word_counts.min() < min_unique_word_count:
             good_rows = (np.where(unique_word_counts >= min_unique_word_count))[0]
-            self._order = good_rows
+            keep = good_rows
             print ("Removed %d documents with fewer than %d unique words. %d documents remain" \
                    % (len(unique_word_counts) - len(good_rows), min_unique_word_count, len(good_rows)))
         else:
             doc_count = self._words.shape[0]
-            if self._order is not None:
-                print("Overwriting old _order member")
-            self._order = np.linspace(0, doc_count - 1, doc_count).astype(np.int32)
+            keep = np.linspace(0, doc_count - 1, doc_count).astype(np.int32)
 
-        rng.shuffle(self._order)
-        self._reorder(self._order)
+        rng.shuffle(keep)
+        self._reorder(keep)
+        self._order = self._order[keep]
 
         if min_link_count == 0 or not self.has_links():
             return self._order
-- 
2.43.0


From 4d862d190999e6743d497ffebf3a52f2d49b5173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:21 +0000
Subject: [PATCH 016/123] fix: precision and recall at m looked at m+1 links

Precision could exceed one.
---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 73a866c..38860dc 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -149,7 +149,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
         for i in range(len(ms)):
             m = ms[i]
             # Calculate the precision at m
-            recv_set = set(recv_indices[:(m+1)])
+            recv_set = set(recv_indices[:m])
             if len (recv_set) == 0:
                 print ("Ruh-ro")
                 continue
-- 
2.43.0


From 59b8157bf09266b7f52fb56cb1bc1343c53c1830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:21 +0000
Subject: [PATCH 017/123] fix: mean_prec_rec_at failed on documents outside
 every group

In particular it always failed with the default groups.
---
 sidetopics/model/evals.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 38860dc..2a69e31 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -107,11 +107,11 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     '''
     def find_group (outLinkCount, rangeTuples):
         i = 0
-        while rangeTuples[i][0] == AllGroups[0] \
+        while i < len(rangeTuples) and (rangeTuples[i][0] == AllGroups[0] \
             or outLinkCount < rangeTuples[i][0] \
-            or outLinkCount > rangeTuples[i][1]:
+            or outLinkCount > rangeTuples[i][1]):
             i += 1
-        return rangeTuples[i]
+        return rangeTuples[i] if i < len(rangeTuples) else AllGroups
 
     if at is None:
         at = [100]
@@ -157,13 +157,15 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
             prec_at_m = len(recv_set.intersection(expt_set)) / m
             rec_at_m  = len(recv_set.intersection(expt_set)) / len(expt_set)
 
-            precs_at_m[g][i] += prec_at_m
-            recs_at_m[g][i]  += rec_at_m
+            if g != AllGroups:
+                precs_at_m[g][i] += prec_at_m
+                recs_at_m[g][i]  += rec_at_m
 
             precs_at_m[AllGroups][i] += prec_at_m
             recs_at_m[AllGroups][i]  += rec_at_m
 
-        docCounts[g] += 1
+        if g != AllGroups:
+            docCounts[g] += 1
         docCounts[AllGroups] += 1
 
     # Return the mean of average-precisions
-- 
2.43.0


From 1f9563917632b2a2bbe7b1660f9c70fe90677445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:21 +0000
Subject: [PATCH 018/123] fix: mean_prec_rec_at changed the list of groups it
 was given

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 2a69e31..1750e7d 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -123,7 +123,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     if groups is None:
         groups = [ AllGroups ]
     if not AllGroups in groups:
-        groups.append(AllGroups)
+        groups = groups + [ AllGroups ]
 
     precs_at_m = {group : [0] * len(ms) for group in groups}
     recs_at_m  = {group : [0] * len(ms) for group in groups}
-- 
2.43.0


From 7c76cfa33d4197ef94327e182c78a69d8658adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:48 +0000
Subject: [PATCH 019/123] fix: split_on_feature failed on datasets with
 categories

---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 31f2702..532ee37 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -578,13 +578,13 @@ class DataSet:
                        feats=self._feats[trainDocs,:],
                        links=two_dim_reorder(self._links, trainDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_reorder_categories(self._doc_categories, trainDocs),
                        order=self._order[trainDocs]), \
                DataSet(words=self._words[queryDocs,:],
                        feats=self._feats[queryDocs,:],
                        links=two_dim_reorder(self._links, queryDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_reorder_categories(self._doc_categories, queryDocs),
                        order=self._order[queryDocs]), \
                trainDocs
 
-- 
2.43.0


From 507bd925192ccccc871329ee46b62c2e14e643ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:49 +0000
Subject: [PATCH 020/123] fix: split_on_feature failed on dense features, or on
 a single document

---
 sidetopics/model/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 532ee37..ea1c153 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -570,9 +570,9 @@ class DataSet:
         assert self._feats is not None, "Need features to make this split"
         assert len(features) > 0, "Need at least two features for this to work"
 
-        mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
+        mask      = np.asarray(np.abs(self._feats[:,features].sum(axis=1))).ravel()
         trainDocs = np.where(mask < Epsilon)[0]
-        queryDocs = np.where(np.asarray(self._feats[:,[features[0]]].todense()).ravel() > Epsilon)[0]
+        queryDocs = np.where(np.asarray(self._feats[:,[features[0]]].sum(axis=1)).ravel() > Epsilon)[0]
 
         return DataSet(words=self._words[trainDocs,:],
                        feats=self._feats[trainDocs,:],
-- 
2.43.0


From 16bcfdd4a0b1db28cb923331b0f44720288a87cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:16 +0000
Subject: [PATCH 021/123] fix: vec-transpose failed on anything but floats (and
 sparse 32-bit integers)

---
 sidetopics/util/vectrans.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sidetopics/util/vectrans.py b/sidetopics/util/vectrans.py
index ce1b3b0..99ffe21 100644
--- a/sidetopics/util/vectrans.py
+++ b/sidetopics/util/vectrans.py
@@ -86,7 +86,7 @@ def _vec_transpose_csr_jit(data, indices, indptr, shape, p):
     rows = np.ndarray((length,), dtype=np.int32)
     cols = np.ndarray((length,), dtype=np.int32)
     
-    newRows, newCols = shape[1] * p, shape[0] / p
+    newRows, newCols = shape[1] * p, shape[0] // p
     oldRow, oldCol = 0, 0
     
     dataPtr = 0
@@ -118,18 +118,16 @@ def vec_transpose(A, p):
         return np.array (compiled.vec_transpose_f8r (A, p))
     elif A.dtype == np.float32:
         return np.array(compiled.vec_transpose_f4r (A, p))
-    elif A.order == 'F':
-        raise ValueError ("Not implemented for Fortran order matrices")
     
     # Fall back to pure Python 
     (oldRows, oldCols) = A.shape
-    newRows, newCols = oldCols * p, oldRows / p
+    newRows, newCols = oldCols * p, oldRows // p
     out = np.ndarray((newRows, newCols), dtype=A.dtype)
     
     for oldRow in range(oldRows):
         for oldCol in range(oldCols):
             newRow = oldCol * p + oldRow % p
-            newCol = oldRow / p
+            newCol = oldRow // p
             out[newRow, newCol] = A[oldRow, oldCol]
         
     return out
-- 
2.43.0


From ea0f674f7863c8c726067adf7795203da073dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:16 +0000
Subject: [PATCH 022/123] fix: sparse element-wise operations on a window of
 rows read the matrix's first rows instead

---
 sidetopics/util/se_fast.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sidetopics/util/se_fast.pyx b/sidetopics/util/se_fast.pyx
index 0b6d7b7..6f2ed25 100644
--- a/sidetopics/util/se_fast.pyx
+++ b/sidetopics/util/se_fast.pyx
@@ -282,8 +282,8 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f8(B_row,col,B,C)
+                    col = A_indices[A_ptr[A_row] + e]
+                    out_data[i] = A_data[A_ptr[A_row] + e] / dotProduct_f8(B_row,col,B,C)
                     i += 1
                     e += 1
                 B_row += 1
@@ -329,8 +329,8 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f4(B_row,col,B,C)
+                    col = A_indices[A_ptr[A_row] + e]
+                    out_data[i] = A_data[A_ptr[A_row] + e] / dotProduct_f4(B_row,col,B,C)
                     i += 1
                     e += 1
                 B_row += 1
@@ -519,9 +519,9 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col         = A_indices[i]
+                    col         = A_indices[A_ptr[A_row] + e]
                     dotProd     = dotProduct_f8(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
+                    out_data[i] = A_data[A_ptr[A_row] + e] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
                     i += 1
                     e += 1
                 B_row += 1
@@ -594,9 +594,9 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col         = A_indices[i]
+                    col         = A_indices[A_ptr[A_row] + e]
                     dotProd     = dotProduct_f4(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
+                    out_data[i] = A_data[A_ptr[A_row] + e] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
                     i += 1
                     e += 1
                 B_row += 1
-- 
2.43.0


From 324b8b6419f83d1940336e523e82ff1d1249d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:16 +0000
Subject: [PATCH 023/123] fix: sparseScalarProductOfSafeLnDot ignored the out
 parameter

---
 sidetopics/util/sparse_elementwise.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index dde26ab..64bf267 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -277,17 +277,7 @@ def sparseScalarProductOfSafeLnDot (A, B, C, out=None, start=None, end=None):
     if out is None:
         out = A[start:end,:].copy()
 
-    if (start, end) == (0, A.shape[0]) and A.dtype == np.float64:
-        # out = A.copy()
-        # oldWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8_full(
-        #      A.data, A.indices, A.indptr, B, C, out.data))
-        out = A.copy()
-        newWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8(
-             A.data, A.indices, A.indptr, B, C, out.data, 0, A.shape[0]))
-
-        # print ("The old way was " + str(oldWay) + " and the new way was " + str(newWay))
-        # raise ValueError("Mixed types")
-    elif A.dtype == np.float64:
+    if A.dtype == np.float64:
         compiled.sparseScalarProductOfSafeLnDot_f8(A.data, A.indices, A.indptr, B, C, out.data, start, end)
     elif A.dtype == np.float32:
         compiled.sparseScalarProductOfSafeLnDot_f4(A.data, A.indices, A.indptr, B, C, out.data, start, end)
-- 
2.43.0


From 4074ac45a70e77640364a255ad9e67ef058ac412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:16 +0000
Subject: [PATCH 024/123] fix: entropyOfDot_py indexed the vocabulary by
 document

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index 64bf267..ce3e17a 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -121,7 +121,7 @@ def entropyOfDot_py (topics, vocab):
         
         for k in range(K):
             for t in range(T):
-                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[d,k])
+                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[k,t])
     
     return result
 
-- 
2.43.0


From 0e795a6e5843267e4f59a523612e7000ffdb2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:16 +0000
Subject: [PATCH 025/123] fix: scaledSelfSoftDot ignored its scale

---
 sidetopics/util/sig_fast.pyx     | 8 ++++----
 sidetopics/util/sigmoid_utils.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/util/sig_fast.pyx b/sidetopics/util/sig_fast.pyx
index ef49f44..cd7b1cd 100644
--- a/sidetopics/util/sig_fast.pyx
+++ b/sidetopics/util/sig_fast.pyx
@@ -113,7 +113,7 @@ def selfSoftDot_f8_i8(double[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -148,7 +148,7 @@ def selfSoftDot_f4_i8(float[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -184,7 +184,7 @@ def selfSoftDot_f8_f8(double[:,:] mat, double[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -219,7 +219,7 @@ def selfSoftDot_f4_f4(float[:,:] mat, float[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
diff --git a/sidetopics/util/sigmoid_utils.py b/sidetopics/util/sigmoid_utils.py
index 54a7113..b07ff0c 100644
--- a/sidetopics/util/sigmoid_utils.py
+++ b/sidetopics/util/sigmoid_utils.py
@@ -102,5 +102,5 @@ def scaledSelfSoftDot(matrix, scale):
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (scaledSelfSoftDot)")
-    return np.sum(matrix * rowwise_softmax(matrix))
+    return np.sum(scale[:, np.newaxis] * matrix * rowwise_softmax(matrix))
 
-- 
2.43.0


From 88093dd9194724c80763e330e7263259c142bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:21 +0000
Subject: [PATCH 026/123] fix: pure-python sparse products indexed with a list
 instead of a (rows, columns) pair

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index ce3e17a..b0dfae0 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -380,4 +380,4 @@ def csr_indices(ptr, ind):
             rows[totalElemCount : totalElemCount + elemCount] = [r] * elemCount
         totalElemCount += elemCount
 
-    return [rows, ind.tolist()]
+    return rows, ind.tolist()
-- 
2.43.0


From 39095b426d0f9f1bec667ff8d51fbf16daafef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:44 +0000
Subject: [PATCH 027/123] fix: the softmax of whole numbers could not be
 stored, so selfSoftDot's fallback always failed

---
 sidetopics/util/sigmoid_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/util/sigmoid_utils.py b/sidetopics/util/sigmoid_utils.py
index b07ff0c..0e06314 100644
--- a/sidetopics/util/sigmoid_utils.py
+++ b/sidetopics/util/sigmoid_utils.py
@@ -18,7 +18,7 @@ def rowwise_softmax (matrix, out=None):
     scaling to ensure that we never overflow.
     '''
     if out is None:
-        out = np.ndarray(shape=matrix.shape, dtype=matrix.dtype)
+        out = np.ndarray(shape=matrix.shape, dtype=np.result_type(matrix.dtype, np.float32))
     
     row_maxes = matrix.max(axis=1) # Underflow makes sense i.e. Pr(K=k) = 0. Overflow doesn't, i.e Pr(K=k) = \infty
     np.exp(matrix - row_maxes[:, np.newaxis], out=out)
@@ -32,7 +32,7 @@ def colwise_softmax (matrix, out=None):
     scaling to ensure that we never overflow.
     '''
     if out is None:
-        out = np.ndarray(shape=matrix.shape, dtype=matrix.dtype)
+        out = np.ndarray(shape=matrix.shape, dtype=np.result_type(matrix.dtype, np.float32))
 
     col_maxes = matrix.max(axis=0) # Underflow makes sense i.e. Pr(K=k) = 0. Overflow doesn't, i.e Pr(K=k) = \infty
     np.exp(matrix - col_maxes[np.newaxis, :], out=out)
-- 
2.43.0


From 5a89a11cff6de3b045567ca25ca5f13ca8bae6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:59 +0000
Subject: [PATCH 028/123] fix: safe_log_one_plus used its approximation around
 zero for every negative argument

---
 sidetopics/util/overflow_safe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/util/overflow_safe.py b/sidetopics/util/overflow_safe.py
index dde5ad5..7647ca9 100644
--- a/sidetopics/util/overflow_safe.py
+++ b/sidetopics/util/overflow_safe.py
@@ -140,7 +140,8 @@ def safe_log_one_plus(x):
     '''
     
     out = np.ndarray(x.shape)
-    out[x > 0.375] = np.log(1. + x[x > 0.375])
+    small = np.abs(x) <= 0.375
+    out[~small] = np.log(1. + x[~small])
 
     # For smaller arguments we use a rational approximation
     # to the function log(1+x) to avoid the loss of precision
@@ -154,13 +155,13 @@ def safe_log_one_plus(x):
     q2 =   0.747811014037616e+00;
     q3 =  -0.845104217945565e-01;
 
-    buf = x[x <= 0.375]
+    buf = x[small]
     
     t = buf /(buf + 2.0);
     t2 = t*t;
     w = (((p3*t2 + p2)*t2 + p1)*t2 + 1.0)/(((q3*t2 + q2)*t2 + q1)*t2 + 1.0);
     
-    out[x <= 0.375] = 2.0*t*w
+    out[small] = 2.0*t*w
     
     return out
 
-- 
2.43.0


From 68ddff435ff1df559dd5affc04e4283ba0eb552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:00 +0000
Subject: [PATCH 029/123] fix: sparse_elementwise.selfSoftDot looked for its
 compiled form in the wrong module

---
 sidetopics/util/sparse_elementwise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index b0dfae0..759471e 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -8,6 +8,7 @@ import os
 import numpy as np
 import scipy.sparse as ssp
 import sidetopics.util.se_fast as compiled
+import sidetopics.util.sig_fast as compiled_sig
 from math import log
 import sys
 from sidetopics.util.overflow_safe import safe_log
@@ -61,9 +62,9 @@ def selfSoftDot(matrix):
     '''
     assert not np.isfortran(matrix), "Matrix is not stored in row-major form"
     if matrix.dtype == np.float64:
-        return compiled.selfSoftDot_f8(matrix)
+        return compiled_sig.selfSoftDot_f8(matrix)
     elif matrix.dtype == np.float32:
-        return compiled.selfSoftDot_f4(matrix)
+        return compiled_sig.selfSoftDot_f4(matrix)
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (selfSoftDot)")
-- 
2.43.0


From e7fe5aead9f38ca11b1799f53e451f46b1ba6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:18 +0000
Subject: [PATCH 030/123] fix: a corpus of a single document could not be
 expanded into tokens

---
 sidetopics/model/dmr_fast.pyx       | 2 +-
 sidetopics/model/lda_cvb.py         | 2 +-
 sidetopics/model/lda_cvb0.py        | 2 +-
 sidetopics/model/lda_gibbs_fast.pyx | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 276c3f3..987f68d 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -366,7 +366,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.asarray(sparseMat.sum(axis=1)).reshape(-1)
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
 
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7479cf7..e9ccc50 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -177,7 +177,7 @@ def wordDists(model):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).reshape(-1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 0316bfb..a85d530 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -162,7 +162,7 @@ def newQueryState(data, modelState, debug=False):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).reshape(-1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index c3c5674..2b0cf46 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -307,7 +307,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.asarray(sparseMat.sum(axis=1)).reshape(-1)
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
     
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
-- 
2.43.0


From 29cf4e6a15e7bc1497dcd664cae9523ce108516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:19 +0000
Subject: [PATCH 031/123] fix: querying an lda_vb_python model retrained it

---
 sidetopics/model/lda_vb_python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index c6a0a10..2872017 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -407,6 +407,9 @@ def train(data, model, query, plan, updateVocab=True):
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
             grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
 
+        if not updateVocab:
+            continue
+
         if rateAlgor == RateAlgorBatch:
             wordDists[:, :] = grad[:, :]
         else:
-- 
2.43.0


From efdc4fcce666a50aba8a1832282034db884080f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 032/123] fix: querying an lda_gibbs model divided its word
 sums by the query's sample count

---
 sidetopics/model/lda_gibbs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 980f956..cccbe53 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -226,8 +226,8 @@ def query (data, model, query, plan):
         plan.iterations, plan.burnIn, plan.thin, plan.logFrequency, plan.debug
     w_list, z_list, docLens, _, _ = \
         query.w_list, query.z_list, query.docLens, query.topicSum, query.numSamples
-    K, T, topicPrior, vocabPrior, _, _, _, dtype, name = \
-        model.K, model.T, model.topicPrior, model.vocabPrior, model.topicSum, model.vocabSum, model.numSamples, model.dtype, model.name
+    K, T, topicPrior, dtype = \
+        model.K, model.T, model.topicPrior, model.dtype
 
     assert model.dtype == np.float64, "This is only implements for 64-bit floats"
     D = docLens.shape[0]
@@ -253,7 +253,7 @@ def query (data, model, query, plan):
             topicPrior, adjustedVocabPrior, True, debug)
 
     return \
-        ModelState (K, T, topicPrior, vocabPrior, topicSum, vocabSum, numSamples, model.processed, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, numSamples, True)
 
 
-- 
2.43.0


From 0b61869d9d56d1dff87f0139868eac5aadf5fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 033/123] fix: an lda_gibbs query added its initial random
 topics to the model's word counts for good

---
 sidetopics/model/lda_gibbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index cccbe53..7cf19a7 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -240,7 +240,8 @@ def query (data, model, query, plan):
     topicSum = np.zeros((D,K), dtype=dtype)
     vocabSum = model.vocabSum
 
-    compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
+    # nkv and nk are the model's, and held fixed, so the query's own tokens must stay out of them
+    compiled.sumSuffStats(w_list, z_list, docLens, ndk, np.zeros_like(nkv), np.zeros_like(nk))
 
     # Burn in
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
-- 
2.43.0


From c9360aa436406d014c089bdd1ba4db8c6bed1f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 034/123] fix: lda_gibbs.seed_rng ignored the seed it was given

---
 sidetopics/model/lda_gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 7cf19a7..2fbd535 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -176,8 +176,8 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
 
 
 def seed_rng(seed):
-    rd.seed(0xC0FFEE)
-    compiled.initGlobalRng(0xC0FFEE)
+    rd.seed(seed)
+    compiled.initGlobalRng(seed & 0x7FFFFFFF) # takes a C int
 
 
 def train (_, model, query, plan):
-- 
2.43.0


From b56dcd848387a89cda9f3d95126bb89aefa56fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 035/123] fix: lda_gibbs took no samples, and so returned NaNs,
 when iterations was under the default thinning

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 2fbd535..cfa51df 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -171,6 +171,7 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
         thin = 5 if iterations <= 100 \
             else 10 if iterations <= 1000 \
             else 50
+        thin = max(1, min(thin, iterations)) # otherwise there'd be no samples at all
 
     return TrainPlan(iterations + burnIn, burnIn, thin, logFrequency, debug)
 
-- 
2.43.0


From 664ca7f09c142dbaaa4a61e1d793318bbf705cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:09 +0000
Subject: [PATCH 036/123] fix: a draw of exactly zero put a token in topic 255,
 and its count out of bounds

---
 sidetopics/model/dmr_fast.pyx       | 4 ++--
 sidetopics/model/lda_gibbs_fast.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 987f68d..1d58e1b 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -254,8 +254,8 @@ def sample ( \
                         distNorm += dist[j]
 
                     # Choose a new topic for the current word
-                    k = -1
-                    draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
+                    k = 0 # even if the draw is exactly zero
+                    draw = (<double> rand()) / RAND_MAX * distNorm - dist[0] #gsl_rng_uniform (global_rng) * distNorm
                     while draw > 0:
                         k = (k + 1) % K # shouldn't need mod, but to be safe...
                         draw -= dist[k]
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index 2b0cf46..c7d0bcb 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -243,8 +243,8 @@ def sample ( \
                         distNorm += dist[j]
 
                     # Choose a new topic for the current word
-                    k = -1
-                    draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
+                    k = 0 # even if the draw is exactly zero
+                    draw = (<double> rand()) / RAND_MAX * distNorm - dist[0] #gsl_rng_uniform (global_rng) * distNorm
                     while draw > 0:
                         k = (k + 1) % K # shouldn't need mod, but to be safe...
                         draw -= dist[k]
-- 
2.43.0


From bef51b3fd8440869e35751c7dabdac30bac38a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 037/123] fix: scalar priors were only accepted by some models,
 and then only as Python floats

---
 sidetopics/model/lda_cvb.py       | 2 ++
 sidetopics/model/lda_cvb0.py      | 2 ++
 sidetopics/model/lda_gibbs.py     | 4 ++--
 sidetopics/model/lda_vb_python.py | 2 +-
 sidetopics/model/mom_em.py        | 2 +-
 sidetopics/model/mom_gibbs.py     | 2 +-
 6 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index e9ccc50..a0f0206 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -107,6 +107,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
 
     if topicPrior is None:
         topicPrior = constantArray((K,), (50.0 / K) + 0.5, dtype=dtype) # From Griffiths and Steyvers 2004
+    elif np.isscalar(topicPrior):
+        topicPrior = constantArray((K,), topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = 0.1 + 0.5
 
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index a85d530..84e43df 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -106,6 +106,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
 
     if topicPrior is None:
         topicPrior = constantArray((K,), (50.0 / K) + 0.5, dtype=dtype) # From Griffiths and Steyvers 2004
+    elif np.isscalar(topicPrior):
+        topicPrior = constantArray((K,), topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = 0.1 + 0.5
 
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index cfa51df..a2a06f6 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -90,11 +90,11 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 50.0 / K, dtype=dtype) # From Griffiths and Steyvers 2004
-    if type(topicPrior) == float or type(topicPrior) == int:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = constantArray((T,), 0.1, dtype=dtype) # Also from G&S
-    elif type(vocabPrior) is float:
+    elif np.isscalar(vocabPrior):
         vocabPrior = constantArray((T,), vocabPrior, dtype=dtype) # Also from G&S
 
     topicSum  = None # These start out at none until we actually
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 2872017..f8752d2 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -89,7 +89,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype) # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype) # From Griffiths and Steyvers 2004
     if vocabPrior is None:
         vocabPrior = VocabPrior
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index b08f882..e9f9617 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -86,7 +86,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VOCAB_PRIOR, dtype=DTY
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype)  # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype)
     if vocabPrior is None:
         vocabPrior = VOCAB_PRIOR
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 917be31..d109c95 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -78,7 +78,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype)  # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.isscalar(topicPrior):
         topicPrior = constantArray((K,), topicPrior, dtype)  # From Griffiths and Steyvers 2004
     if vocabPrior is None:
         vocabPrior = VocabPrior
-- 
2.43.0


From 9cc6c5bc80c146439ef122a01d5f3dbb033e6558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 038/123] fix: lda_vb_python failed on a vector prior over
 words

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index f8752d2..85a9ac7 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -399,7 +399,7 @@ def train(data, model, query, plan, updateVocab=True):
     # Start traininng
     d = -1
     for b in range(batchCount * iterations):
-        grad.fill(vocabPrior)
+        grad[:, :] = vocabPrior
         # firstD = d
         for s in range(batchSize):
             d = d + 1 if (d + 1) < D else 0
-- 
2.43.0


From df77c2d24dca8bacfb26f00c651bf9b5ef22cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 039/123] fix: no query state could be created for a single
 document

---
 sidetopics/model/lda_vb_python.py | 2 +-
 sidetopics/model/mom_em.py        | 2 +-
 sidetopics/model/mom_gibbs.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 85a9ac7..587fb1d 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -122,7 +122,7 @@ def newQueryState(data, modelState, debug=False):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index e9f9617..667cef1 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -127,7 +127,7 @@ def newQueryState(data, modelState, debug):
     if debug:
         print("Ignoring setting of debug to True")
 
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index d109c95..436cfbc 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -113,7 +113,7 @@ def newQueryState(data, modelState, debug):
     '''
     if debug:
         print("Ignoring setting of debug to True")
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
-- 
2.43.0


From 09085ae3d5f68beec7ce153bbbc42c49a159ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 040/123] fix: asking for fewer iterations than lie between log
 points ran too many of them

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index a0f0206..0c4d1ee 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -241,7 +241,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 84e43df..d9f0a58 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -230,7 +230,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
-- 
2.43.0


From fc7c543fa0c54b725ddde92af21b3e0324375020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 041/123] fix: training an lda_cvb model further replaced its
 topic counts with variances

---
 sidetopics/model/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 0c4d1ee..cc22e68 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -321,7 +321,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
                                  # sum of old and new, and can just be copied across
             m_v_dk = np.vstack((m_v_dk, q_v_dk))
             m_v_kt[:,:] = q_v_kt
-            m_n_k[:]    = q_v_k
+            m_v_k[:]    = q_v_k
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
-- 
2.43.0


From 74e52cafe0d05aeae53eeb5f00c63355b355ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 042/123] fix: a copy of an lda_cvb model got means for
 variances

---
 sidetopics/model/lda_cvb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index cc22e68..55582c2 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -76,9 +76,9 @@ def newModelFromExisting(model):
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
-        None if model.v_dk is None else model.n_dk.copy(), \
-        None if model.v_kt is None else model.n_kt.copy(), \
-        None if model.v_k  is None else model.n_k.copy(),  \
+        None if model.v_dk is None else model.v_dk.copy(), \
+        None if model.v_kt is None else model.v_kt.copy(), \
+        None if model.v_k  is None else model.v_k.copy(),  \
         model.dtype,       \
         model.name)
 
-- 
2.43.0


From 0fa58320860b98b7b24b3c642b34f06dd52711e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 043/123] fix: a resumed CVB query state still held the model's
 counts after a second fit

---
 sidetopics/model/lda_cvb.py  | 10 +++++-----
 sidetopics/model/lda_cvb0.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 55582c2..ca3cdf1 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -316,12 +316,12 @@ def train (data, modelState, queryState, trainPlan, query=False):
     else: # train # Model is changed. Query is changed
         if m_n_dk is not None: # Amend existing
             m_n_dk = np.vstack((m_n_dk, q_n_dk))
-            m_n_kt[:,:] = q_n_kt # Recall we _added_ the m_n_kt counts to the query
-            m_n_k[:]    = q_n_k  # before training, so now the query-counts contain the
-                                 # sum of old and new, and can just be copied across
+            m_n_kt, q_n_kt = q_n_kt, q_n_kt - m_n_kt # Recall we _added_ the m_n_kt counts to the query
+            m_n_k,  q_n_k  = q_n_k,  q_n_k  - m_n_k  # before training, so now the query-counts contain the
+                                                     # sum of old and new. The query gets its own back.
             m_v_dk = np.vstack((m_v_dk, q_v_dk))
-            m_v_kt[:,:] = q_v_kt
-            m_v_k[:]    = q_v_k
+            m_v_kt, q_v_kt = q_v_kt, q_v_kt - m_v_kt
+            m_v_k,  q_v_k  = q_v_k,  q_v_k  - m_v_k
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index d9f0a58..b12a8ca 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -297,8 +297,8 @@ def train (data, modelState, queryState, trainPlan, query=False):
     else: # train # Model is changed (or flat-out created). Query is changed
         if m_n_dk is not None: # Amend existing
             m_n_dk = np.vstack((m_n_dk, q_n_dk))
-            m_n_kt[:,:] = q_n_kt
-            m_n_k[:]    = q_n_k
+            m_n_kt, q_n_kt = q_n_kt, q_n_kt - m_n_kt # the query gets just its own counts back
+            m_n_k,  q_n_k  = q_n_k,  q_n_k  - m_n_k
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
-- 
2.43.0


From ae5ebaaabfc5aeb60948cb6354fb23d026b282d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:33 +0000
Subject: [PATCH 044/123] fix: 32-bit CVB counted a token's mean in place of
 its variance

---
 sidetopics/model/lda_cvb_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index 4a5965a..6b47293 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -501,7 +501,7 @@ def iterate_f32(int iterations, int D_query, int D_train, int K, int T, \
                             q_n_kt[k,t] += diff
                             q_n_k[k]    += diff
 
-                            diff         = mems[k] - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
+                            diff         = (mems[k] * (1 - mems[k])) - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
                             q_v_dk[d,k] += diff
                             q_v_kt[k,t] += diff
                             q_v_k[k]    += diff
-- 
2.43.0


From b44af14377d40e67cf12030a844fb7d5baa6d6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:33 +0000
Subject: [PATCH 045/123] fix: mom_gibbs divided by zero on fewer than ten
 iterations, and never thinned on more

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 436cfbc..a5bdcca 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -140,7 +140,7 @@ def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=F
     if burnIn is None:
         burnIn = iterations // 4
     if thinning is None:
-        thinning = min(1, iterations // 10)
+        thinning = max(1, iterations // 10)
 
     return TrainPlan(iterations, epsilon, logFrequency, fastButInaccurate, debug, burnIn, thinning)
 
-- 
2.43.0


From b2fe79f475d6e3600c58df66ed5fcf3dd2de89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:33 +0000
Subject: [PATCH 046/123] fix: a mom_gibbs query of too few iterations to take
 a sample returned NaNs

---
 sidetopics/model/mom_gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index a5bdcca..c24ff45 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -330,6 +330,9 @@ def query(data, model, queryState, queryPlan):
             sample_accum += topicDists
             sample_count += 1
 
+    if sample_count == 0: # too few iterations to get past burn-in, so use what we have
+        sample_accum, sample_count = sample_accum + topicDists, 1
+
     sample_accum /= sample_count
     return model, QueryState(queryState.docLens, sample_accum, True)
 
-- 
2.43.0


From ca856348091abea5897a333e46e06d22c920c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:33 +0000
Subject: [PATCH 047/123] fix: mom_gibbs failed when logging, as it called a
 function that doesn't exist

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index c24ff45..22502c6 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -282,7 +282,7 @@ def train(data, model, query, plan, updateVocab=True):
 
             iters.append(itr)
             bnds.append(var_bound(data, m, q))
-            likes.append(log_likelihood(data, m, q))
+            likes.append(log_likelihood_point(data, m, q))
 
             perp = perplexity_from_like(likes[-1], W.sum())
             print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (itr, perp, bnds[-1]))
-- 
2.43.0


From 948044c7b122976be591b767f35d0bd5791f1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:57 +0000
Subject: [PATCH 048/123] fix: mom_gibbs gave an empty topic a zero or negative
 probability when its prior was one or less

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 22502c6..bd7c861 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -183,7 +183,7 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
 def sample_memberships(W, alpha, wordDists, memberships):
     _, K = memberships.shape
 
-    priorNum = memberships.sum(axis=0) + alpha - 1
+    priorNum = memberships.sum(axis=0) + alpha
     prior = priorNum.copy()
     sample_dists = W.dot(safe_log(wordDists).T)  # d x k
 
-- 
2.43.0


From 7b750f5d62a4f390155bfb04cebc2d0deaf9b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:57 +0000
Subject: [PATCH 049/123] fix: mom_em failed when logging, as its bound used
 attributes its model doesn't have

---
 sidetopics/model/mom_em.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 667cef1..694058e 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -397,25 +397,15 @@ def var_bound(data, model, query, topicDistOverride=None):
     # Unpack the the structs, for ease of access and efficiency
     docLens, topicMeans = \
         query.docLens, query.topicDists
-    K, topicPrior, vocabPrior, wordDists, corpusTopicDist, dtype = \
-        model.K, model.topicPrior, model.vocabPrior, model.wordDists, model.corpusTopicDist, model.dtype
+    if topicDistOverride is not None:
+        topicMeans = topicDistOverride
 
-    tops = topicDistOverride \
-        if topicDistOverride is not None \
-        else topicDists(query)
-
-    # Initialize z matrix if necessary
     W = data.words
-    D, T = W.shape
-
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
-    topicLikely = topicMeans.dot(fns.digamma(corpusTopicDist) - fns.digamma(corpusTopicDist.sum()))
-
 
     # Expected joint
-    like = W.dot(safe_log(wordDists).T) # D*K
-    like += corpusTopicDist[np.newaxis,:]
-    like *= safe_log(topicMeans)
+    like = W.dot(safe_log(wordDists(model)).T) # D*K
+    like += safe_log(corpusTopicDist(model))[np.newaxis,:]
+    like *= topicMeans
 
     # Entropy
     ent = (-topicMeans * safe_log(topicMeans)).sum()
-- 
2.43.0


From 1dda725e6618ec6b4986c8156e46c755285fd6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:57 +0000
Subject: [PATCH 050/123] fix: a lda_gibbs model could not be scored by
 perplexity

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index a2a06f6..cea65db 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -25,6 +25,7 @@ import sidetopics.model.lda_gibbs_fast as compiled
 
 from sidetopics.util.misc import constantArray
 from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
+from sidetopics.model.evals import perplexity_from_like
 import sidetopics.model.lda_vb_python as lda_vb
 
 # ==============================================================
-- 
2.43.0


From a7ec27ece422857e3c4e0c6078c9fe5c7846c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:57 +0000
Subject: [PATCH 051/123] fix: a model trained for fewer than ten iterations
 made queries of none

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 3a7cc7a..eaa84a5 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -197,7 +197,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         self.bound_ = math.nan
 
         self.iterations = iterations
-        self.query_iterations = query_iterations or self.iterations // 10
+        self.query_iterations = query_iterations or max(1, self.iterations // 10)
         self.perp_tolerance = perp_tolerance or 0.1
         self.use_approximations = use_approximations
         self.log_frequency = log_frequency
-- 
2.43.0


From 8522aaad5f2e0766e9fb7a49a8444498ba864346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:57 +0000
Subject: [PATCH 052/123] fix: a mixture model's score missed the log from its
 log-sum-exp

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index eaa84a5..2348e6a 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -557,7 +557,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # sum to get overall likelihood across all topics, adding back in the factor we used
             # to control overflow.
-            result = adj_per_doc_likes.sum(axis=1)
+            result = np.log(adj_per_doc_likes.sum(axis=1))
             result += max_log_like
 
             return result
-- 
2.43.0


From 5c12edc8e4bf5a2982c11efd6bab4fc7978c4256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:57 +0000
Subject: [PATCH 053/123] fix: an expected score failed unless it was given a
 query state

---
 sidetopics/model/sklearn/lda_cvb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 2348e6a..213bbb4 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -451,7 +451,10 @@ class TopicModel(BaseEstimator, TransformerMixin):
         elif (y is None) and (y_query_state is None):
             if not method.is_doc_completion():
                 logging.warning("No representation (y), or distribution (y_query_state), querying for y instead")
-                y = self.transform(X)
+                if method.is_point_estimate():
+                    y = self.transform(X)
+                else:
+                    query_state = self.find_query_state_via_transform(X, {}, persist_query_state=False)
             else:
                 test_infer, test_eval = X.doc_completion_split()
                 y = self.transform(test_infer)
-- 
2.43.0


From 6456aada1de9464c982002af61922ec735bc6fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:57 +0000
Subject: [PATCH 054/123] fix: a topic model could not be copied, whatever its
 kind

---
 sidetopics/model/sklearn/lda_cvb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 213bbb4..64fa991 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -230,10 +230,11 @@ class TopicModel(BaseEstimator, TransformerMixin):
         Slightly shallow copy, last query state is not amended
         :return:
         """
-        result = TopicModel()
-        result.set_params(**result.get_params())
-        result._model_state = _lda_cvb0.newModelFromExisting(self._model_state)
+        result = TopicModel(**self.get_params())
+        if self._model_state is not None:
+            result._model_state = TopicModelType[self.kind].value.newModelFromExisting(self._model_state)
         result._last_query_state = self._last_query_state
+        result._last_X = self._last_X
         return result
     
     
-- 
2.43.0


From f843ebebd49d51f7f25bae63102abe26427356ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 055/123] fix: a dataset of a single document had a number for
 its document lengths

---
 sidetopics/model/common.py | 14 +++++++-------
 sidetopics/model/mom_em.py |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index ea1c153..f57a55d 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -165,7 +165,7 @@ class DataSet:
             )
 
     def words_with_min_freq(self, min_doc_count_incl: int = 10) -> "DataSet":
-        docs_per_word_count = np.squeeze(np.array(self.words.astype(bool).sum(axis=0)))
+        docs_per_word_count = np.array(self.words.astype(bool).sum(axis=0)).reshape(-1)
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
@@ -218,7 +218,7 @@ class DataSet:
 
     @property
     def doc_lens(self):
-        return np.squeeze(np.array(self.words.sum(axis=1)))
+        return np.array(self.words.sum(axis=1)).reshape(-1)
 
     @property
     def order(self):
@@ -346,7 +346,7 @@ class DataSet:
 
         tmp = self._words.astype(bool).astype(np.int32)
 
-        unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
+        unique_word_counts = np.asarray(tmp.sum(axis=1)).reshape(-1)
         if unique_word_counts.min() < min_unique_word_count:
             good_rows = (np.where(unique_word_counts >= min_unique_word_count))[0]
             keep = good_rows
@@ -365,13 +365,13 @@ class DataSet:
 
         trimmed = False
         original_num_docs = self.doc_count
-        link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+        link_counts = np.array(self._links.sum(axis=1)).reshape(-1)
         sufficient_docs = np.where(link_counts >= min_link_count)[0]
         while len(sufficient_docs) < self._links.shape[0]:
             trimmed = True
             self._reorder(sufficient_docs)
             self._order = self._order[sufficient_docs]
-            link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+            link_counts = np.array(self._links.sum(axis=1)).reshape(-1)
             sufficient_docs = np.where(link_counts >= min_link_count)[0]
 
         if trimmed:
@@ -484,8 +484,8 @@ class DataSet:
 
         doc_categories, order = self._doc_categories, self._order
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
+            t_lens = np.asarray(words_train.astype(bool).sum(axis=1)).reshape(-1)
+            q_lens = np.asarray(words_query.astype(bool).sum(axis=1)).reshape(-1)
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 694058e..ba26a0a 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -343,7 +343,7 @@ def log_likelihood_expected(data: DataSet, model: ModelState, query: QueryState)
     #     lls += np.log(corpusTopicDist(model))[np.newaxis, :]
 
     # p(X = x|z=k, beta)
-    doc_lens = np.squeeze(np.array(data.words.sum(axis=1)))
+    doc_lens = np.array(data.words.sum(axis=1)).reshape(-1)
 
     beta = wordDistsDirichletParam(model)  # K x T
     beta_sum = beta.sum(axis=1)  # K x 1
-- 
2.43.0


From 2c4070827ae97a49e7d5a80541832ecb8c4d1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:27 +0000
Subject: [PATCH 056/123] fix: a model whose first fit failed passed for a
 trained one

---
 sidetopics/model/sklearn/lda_cvb.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 64fa991..fcdb983 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -272,7 +272,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
             X = DataSet(words=X)
 
         module = TopicModelType[self.kind].value
-        if self._model_state is None:
+        is_new_model = self._model_state is None
+        if is_new_model:
             logging.info("Creating new model-state at random")
             self._model_state = module.newModelAtRandom(data=X,
                                                         topicPrior=self.doc_topic_prior,
@@ -281,12 +282,16 @@ class TopicModel(BaseEstimator, TransformerMixin):
         else:
             logging.info("Resuming fit using previous model state")
 
-
-        iters = kwargs.get('iterations') or self.iterations
-        train_plan = self._new_train_plan(module, iters, **kwargs)
-        input_query = self.make_or_resume_query_state(X, kwargs.get('resume'))
-
-        self._model_state, inferred_query_state, m = module.train(X, self._model_state, input_query, train_plan)
+        try:
+            iters = kwargs.get('iterations') or self.iterations
+            train_plan = self._new_train_plan(module, iters, **kwargs)
+            input_query = self.make_or_resume_query_state(X, kwargs.get('resume'))
+
+            self._model_state, inferred_query_state, m = module.train(X, self._model_state, input_query, train_plan)
+        except Exception:
+            if is_new_model: # otherwise we'd be left with an untrained model that looks like a trained one
+                self._model_state = None
+            raise
         self.bound_ = math.nan
         self._set_or_clear_last_query_state(X, inferred_query_state, kwargs.get('persist_query_state'))
 
-- 
2.43.0


From e13596666182fcd6cc2805c34e7587b0e53bd6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:39 +0000
Subject: [PATCH 057/123] fix: fit_transform always failed on a plain matrix

---
 sidetopics/model/sklearn/lda_cvb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index fcdb983..43e615b 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -240,6 +240,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
     
 
     def fit_transform(self,  X: Union[np.ndarray, DataSet], y: np.ndarray = None, **kwargs) -> np.ndarray:
+        if type(X) is not DataSet: # transform can only resume with the very dataset that was fit
+            X = DataSet(words=X)
         return self.fit(
             X, y,
             persist_query_state=True,
-- 
2.43.0


From 2bcc12bc39495b18f4d8770c0a5110ce509ca316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:39 +0000
Subject: [PATCH 058/123] fix: resuming a mixture model altered the topic
 mixtures it had already returned

---
 sidetopics/model/mom_em.py    | 2 +-
 sidetopics/model/mom_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index ba26a0a..fb69970 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -178,7 +178,7 @@ def topicDists(queryState: QueryState) -> np.ndarray:
     The D x K matrix of distributions over K topics for each of the
     D documents
     '''
-    return queryState.topicDists
+    return queryState.topicDists.copy()
 
 
 def topicDistsDirichletParam(queryState: QueryState) -> np.array:
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index bd7c861..23e2373 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -161,7 +161,7 @@ def topicDists(queryState):
     The D x T matrix of distributions over K topics for each of the
     D documents
     '''
-    return queryState.topicDists
+    return queryState.topicDists.copy()
 
 
 # TODO Verify this is correct
-- 
2.43.0


From 2198c95d1c9349bce59a1c6850883b3656298115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:11 +0000
Subject: [PATCH 059/123] fix: auto_convert_to_sparse let dense matrices in
 without converting them

---
 sidetopics/model/common.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index f57a55d..a6b822e 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -39,13 +39,13 @@ class DataSet:
             assert links is None or (type(links) is ssp.csr_matrix or auto_convert_to_sparse), "Links are not stored as a sparse CSR matrix"
             if words.shape[1] < 100:
                 logging.warning("Fewer than 100 words in the document-words matrix, which seems unlikely")
-        else:
-            if type(words) is not ssp.csr_matrix:
-                logging.warning("Converting words to sparse CSR matrix")
-                words = ssp.csr_matrix(words)
-            if (links is not None) and (type(links) is not ssp.csr_matrix):
-                logging.warning("Converting links to sparse CSR matrix")
-                links = ssp.csr_matrix(links)
+
+        if type(words) is not ssp.csr_matrix:
+            logging.warning("Converting words to sparse CSR matrix")
+            words = ssp.csr_matrix(words)
+        if (links is not None) and (type(links) is not ssp.csr_matrix):
+            logging.warning("Converting links to sparse CSR matrix")
+            links = ssp.csr_matrix(links)
 
         # Now that the checks are done with, assign the values and apply the ordering.
         self._words = words
-- 
2.43.0


From e3638dd009e1b48fae034c7062a1cdaa4e8887e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:07 +0000
Subject: [PATCH 060/123] fix: resuming from a copied model changed the query
 state kept by the original

---
 sidetopics/model/sklearn/lda_cvb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 43e615b..d9dfa0b 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -6,6 +6,7 @@ frameworks.
 
 from typing import Union, Dict, Optional
 from types import ModuleType
+from copy import deepcopy
 import enum
 
 from sklearn.base import BaseEstimator
@@ -233,7 +234,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         result = TopicModel(**self.get_params())
         if self._model_state is not None:
             result._model_state = TopicModelType[self.kind].value.newModelFromExisting(self._model_state)
-        result._last_query_state = self._last_query_state
+        result._last_query_state = deepcopy(self._last_query_state) # as resuming updates it in-place
         result._last_X = self._last_X
         return result
     
-- 
2.43.0


From 6c71129327c860879aff0ba2ab4cc3f46e6b157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:55 +0000
Subject: [PATCH 061/123] fix: Gibbs sampling with explicit thinning larger
 than the (query) iterations reported NaNs

---
 sidetopics/model/lda_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index cea65db..f727252 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -172,7 +172,7 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
         thin = 5 if iterations <= 100 \
             else 10 if iterations <= 1000 \
             else 50
-        thin = max(1, min(thin, iterations)) # otherwise there'd be no samples at all
+    thin = max(1, min(thin, iterations)) # otherwise there'd be no samples at all
 
     return TrainPlan(iterations + burnIn, burnIn, thin, logFrequency, debug)
 
-- 
2.43.0


From 717ff7d0704e8740a4798f54e5f5b7335fe0508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:09 +0000
Subject: [PATCH 062/123] fix: first steps of mini-batch variational LDA were
 larger than one, leaving negative topic probabilities

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 587fb1d..5d4decb 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -414,7 +414,7 @@ def train(data, model, query, plan, updateVocab=True):
             wordDists[:, :] = grad[:, :]
         else:
             if rateAlgor == RateAlgorTimeKappa:
-                stepSize[:] = (b + plan.rate_delay)**(-plan.forgetting_rate)
+                stepSize[:] = min(1.0, (b + plan.rate_delay)**(-plan.forgetting_rate)) # more would be a step past the batch, to negative values
             elif rateAlgor == RateAlgorVariance:
                 update_inplace_v(gradStep, ex_grad, change=grad)
                 gtg = stepSize.copy()
-- 
2.43.0


From 914c41e139bd0f87ba5556b734fe9f41327c3621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:32 +0000
Subject: [PATCH 063/123] fix: scoring given topic assignments failed unless
 they had the precision of the model

---
 sidetopics/model/sklearn/lda_cvb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index d9dfa0b..496abcb 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -547,6 +547,8 @@ class TopicModel(BaseEstimator, TransformerMixin):
             words = X.words
             if words.dtype != components.dtype:
                 words = words.astype(components.dtype)
+            if weightings.dtype != components.dtype:
+                weightings = weightings.astype(components.dtype)
 
             #       Returns X.words * np.log(weightings @ components)
             return sparseScalarProductOfSafeLnDot(words, weightings, components)
-- 
2.43.0


From 26e3683a9bce1efc774242e401a6c333b0332060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 064/123] fix: making the links of a dataset binary changed the
 caller's matrix, and those of shallow copies

---
 sidetopics/model/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index a6b822e..68bccb2 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -325,6 +325,7 @@ class DataSet:
         Converts the link matrix to a binary 0-1 matrix in-place.
         """
         assert self._links is not None, "Can't call this if there are no links"
+        self._links = self._links.copy() # as it may be shared with the caller, or with another dataset
         self._links.data.fill(1)
 
 
-- 
2.43.0


From 26fddb1fa6a3cfeae1e5ff38288fbde14fd1c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:16 +0000
Subject: [PATCH 065/123] fix: training a sampled mixture failed while logging
 if word counts were not double precision

---
 sidetopics/model/mom_gibbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 23e2373..5b46cf3 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -175,7 +175,8 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
+    words = data.words.astype(tops.dtype) # all three need the one precision, whatever the counts are kept in
+    wordLikely = sparseScalarProductOfSafeLnDot(words, tops, wordDists(model)).sum()
     return wordLikely
     # return (data.words.dot(wordDists(model).T) * model.corpusTopicDist).sum()
 
-- 
2.43.0


From 47805c17b12b3f817a0cb97be8e31b3925bc59b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 066/123] fix: the feature-dependent prior was sampled with as
 features times weights, which can be negative, rather than the exponential
 its weights are fitted with

---
 sidetopics/model/dmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 6fa3761..6c9a8d8 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -196,7 +196,7 @@ def train (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     if debug: print ("Burning")
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
@@ -206,7 +206,7 @@ def train (data, model, query, plan):
     if debug: print ("Training")
     sample_count = 0
     for _ in range(0, iterations - burnIn, weightUpdateInterval):
-        alphas[:,:] = X.dot(weights.T)
+        alphas[:,:] = np.exp(X.dot(weights.T))
         sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
                 alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
                 vocabPrior, False, debug)
@@ -339,7 +339,7 @@ def query (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
-- 
2.43.0


From 2e5bed40c2bad73aa3a05ec6b04af8b7dcc98004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 067/123] fix: samples of feature-dependent topic counts were
 overwritten between updates of the weights, and written past the end of their
 array in short runs

---
 sidetopics/model/dmr.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 6c9a8d8..4ee7d89 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -205,10 +205,10 @@ def train (data, model, query, plan):
     # True samples
     if debug: print ("Training")
     sample_count = 0
-    for _ in range(0, iterations - burnIn, weightUpdateInterval):
+    for done in range(0, iterations - burnIn, weightUpdateInterval):
         alphas[:,:] = np.exp(X.dot(weights.T))
-        sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
-                alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
+        sample_count += compiled.sample (min(weightUpdateInterval, iterations - burnIn - done), thin, w_list, z_list, docLens, \
+                alphas, ndk, nkv, nk, n_dk_samples[:,:,sample_count:], topicSum, vocabSum, \
                 vocabPrior, False, debug)
 
         if debug: # Print out the perplexity so far
@@ -218,7 +218,8 @@ def train (data, model, query, plan):
             perp = perplexity_from_like(likely, data)
             print ("Sample-Count = %3d  Perplexity = %7.2f" % (sample_count, perp))
 
-        updateWeights(n_dk_samples, sample_count, X, weights, debug)
+        if sample_count > 0:
+            updateWeights(n_dk_samples, sample_count, X, weights, debug)
     
 #     compiled.freeGlobalRng()
     
@@ -345,7 +346,7 @@ def query (data, model, query, plan):
             vocabPrior, True, debug)
     
     # True samples
-    sample_count = compiled.sample (iterations, thin, w_list, z_list, docLens, \
+    sample_count = compiled.sample (iterations - burnIn, thin, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
     
-- 
2.43.0


From 4a1ece25ecd54444a57a976a5d01cac9fd9d842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 068/123] fix: querying the feature-dependent model changed its
 topics

---
 sidetopics/model/dmr.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 4ee7d89..01a67e7 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -333,25 +333,27 @@ def query (data, model, query, plan):
     ndk = np.zeros((D, K), dtype=np.uint16)
     nkv = (wordDists(model) * 1000000).astype(np.int32)
     nk  = nkv.sum(axis=1).astype(np.int32)
+    adjustedVocabPrior = np.zeros((T,), dtype=dtype) # already incorporated into nkv
     
     topicSum = np.zeros((D,K), dtype=dtype)
     vocabSum = model.vocabSum
     
-    compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
+    # nkv and nk are the model's, and held fixed, so the query's own tokens must stay out of them
+    compiled.sumSuffStats(w_list, z_list, docLens, ndk, np.zeros_like(nkv), np.zeros_like(nk))
     
     # Burn in
     alphas = np.exp(X.dot(weights.T))
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
-            vocabPrior, True, debug)
+            adjustedVocabPrior, True, debug)
     
     # True samples
     sample_count = compiled.sample (iterations - burnIn, thin, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
-            vocabPrior, True, debug)
+            adjustedVocabPrior, True, debug)
     
     return \
-        ModelState (K, T, weights, topicPrior, vocabPrior, n_dk_samples, topicSum, vocabSum, sample_count, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, sample_count)
 
 
-- 
2.43.0


From 1baeded0d1ef62b11ed12039e944e5c6ea232481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 069/123] fix: short runs of the feature-dependent model took
 no sample, and so had no topics

---
 sidetopics/model/dmr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 01a67e7..8c1fc1e 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -163,6 +163,7 @@ def newTrainPlan (iterations, burnIn = -1, thin = -1, weightUpdateInterval = -1,
     if burnIn < 0:
         burnIn = iterations // 4
         iterations += burnIn
+    thin = max(1, min(thin, iterations - burnIn)) # take at least one sample
 
     if weightUpdateInterval < 0:
         weightUpdateInterval = thin * 10 # TODO Revert to 5
-- 
2.43.0


From 27888230ba9e8361a8c98223f15065777efa7c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:21 +0000
Subject: [PATCH 070/123] fix: the feature-dependent model could not take a
 scalar prior over words

---
 sidetopics/model/dmr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 8c1fc1e..ded2f1b 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -98,6 +98,8 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
         topicPrior = constantArray((K,), topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = constantArray((T,), 0.1, dtype=dtype) # Also from G&S
+    elif np.isscalar(vocabPrior):
+        vocabPrior = constantArray((T,), vocabPrior, dtype=dtype)
         
     n_dk_samples = None # These start out at none until we actually
     topicSum     = None
-- 
2.43.0


From f17b5f47d3cd80474095f0453a9538e2b42e59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 071/123] fix: a group after one that is used up was passed
 over when selecting contributions

---
 sidetopics/run/selectusers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/selectusers.py b/sidetopics/run/selectusers.py
index f80b502..ec65abd 100644
--- a/sidetopics/run/selectusers.py
+++ b/sidetopics/run/selectusers.py
@@ -81,7 +81,7 @@ def select_group_contribs(user_counts, target):
     total_assigned = 0
     while total_assigned < target:
         group_target = 1 + (target - total_assigned) // len(candidates)
-        for group in candidates:
+        for group in list(candidates): # as we remove those which are used up
             if group_counts[group] < group_target:
                 group_contribs[group] += group_counts[group]
                 total_assigned        += group_counts[group]
-- 
2.43.0


From 4a777e59532524bdfb43a95bc9c21e5825c8f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 072/123] fix: selecting contributions failed when the groups
 together have too little

---
 sidetopics/run/selectusers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/selectusers.py b/sidetopics/run/selectusers.py
index ec65abd..6243411 100644
--- a/sidetopics/run/selectusers.py
+++ b/sidetopics/run/selectusers.py
@@ -79,7 +79,7 @@ def select_group_contribs(user_counts, target):
     candidates = [g for g in group_counts.keys()]
     group_contribs = {g:0 for g in candidates}
     total_assigned = 0
-    while total_assigned < target:
+    while total_assigned < target and len(candidates) > 0:
         group_target = 1 + (target - total_assigned) // len(candidates)
         for group in list(candidates): # as we remove those which are used up
             if group_counts[group] < group_target:
-- 
2.43.0


From 4d69929cc244ee2e82d3c97f08ed85eccad39fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 073/123] fix: an algorithm could not be written without a
 quoting function

---
 sidetopics/run/reshape_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 3af598e..03f276c 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -55,7 +55,7 @@ class Algorithm:
     def __str__(self):
         return self.algorithm + ", K=" + self.topicCount + " " + self.trainingDescription
 
-    def to_delim_str(self, delim="\t", quoteFunc=id):
+    def to_delim_str(self, delim="\t", quoteFunc=str):
         return quoteFunc(self.algorithm) + delim + self.topicCount + delim + quoteFunc(self.trainingDescription)
 
 
-- 
2.43.0


From 306d882e1cc64e2702bfb0cee90c69076fc98b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 074/123] fix: averaging result groups without documents
 divided by zero

---
 sidetopics/run/reshape_results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 03f276c..63587c5 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -155,8 +155,9 @@ def roll_up_and_average(dic, dst, srcs):
         dic[dst][DocCount] += dic[src][DocCount]
         for m in Ms:
             dic[dst][m] += dic[src][m] * dic[src][DocCount]
-    for m in Ms:
-        dic[dst][m] = dic[dst][m] / dic[dst][DocCount]
+    if dic[dst][DocCount] > 0:
+        for m in Ms:
+            dic[dst][m] = dic[dst][m] / dic[dst][DocCount]
 
 
 def read_mrr(line, file):
-- 
2.43.0


From 6890fcbe88eac8fdeb170cfde585c9a43de1dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 075/123] fix: results following another directly, or one
 without an average precision, were lost

---
 sidetopics/run/reshape_results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 63587c5..e0b3b16 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -177,7 +177,7 @@ def read_map(line, file):
         if line.startswith(MapPrefix):
             return float(line[len(MapPrefix):]), file.readline()
         if line == "":
-            return -1, line
+            return -1, "\n" # a blank line, not the end of the file
         line = file.readline()
 
     return -1, line
@@ -204,7 +204,7 @@ def read_all_results(path):
     with open (path, "r") as file:
         line = "\n"
         while line != "":
-            line, file = skip_to_non_empty_line(file.readline(), file)
+            line, file = skip_to_non_empty_line(line, file)
             if line == "":
                 break
 
-- 
2.43.0


From f7919802061c0ed4d2aeb1271f0dec6eeda76615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 076/123] fix: very many blank lines between results exceeded
 the recursion limit

---
 sidetopics/run/reshape_results.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index e0b3b16..03aec56 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -191,13 +191,13 @@ def skip_to_non_empty_line(line, file):
     or "", the latter indicating that we've reached the end of the file.
     '''
 
-    if line == "": # End of file
-        return "", file
-    stripped = line.strip()
-    if not (stripped == "" or stripped.startswith('#')): # Non-Empty, non-commented line
-        return line, file
+    while line != "": # End of file
+        stripped = line.strip()
+        if not (stripped == "" or stripped.startswith('#')): # Non-Empty, non-commented line
+            return line, file
+        line = file.readline()
 
-    return skip_to_non_empty_line(file.readline(), file)
+    return "", file
 
 def read_all_results(path):
     results = dict()
-- 
2.43.0


From 8bfd44bc6059265768d90eeeb5a9ef7e47055f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 077/123] fix: quotes in the settings of an algorithm were
 written four times

---
 sidetopics/run/reshape_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 03aec56..5f612d1 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -238,7 +238,8 @@ def write_all_results(path, results_dict):
     def quoteText(value):
         # Use Pascal / Excel style quote escaping
         value = value.replace(TextLeftQuote,  TextQuoteEscape + TextLeftQuote)
-        value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
+        if TextRightQuote != TextLeftQuote:
+            value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
         value = TextLeftQuote + value + TextRightQuote
         return value
 
-- 
2.43.0


From 9e4c24161ec212125c7888ca0da1b9ac490fd346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 078/123] fix: "and" after a comma was taken for part of the
 author's name

---
 sidetopics/run/arxiv_to_aan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/arxiv_to_aan.py b/sidetopics/run/arxiv_to_aan.py
index b48ee6f..7de8ed6 100644
--- a/sidetopics/run/arxiv_to_aan.py
+++ b/sidetopics/run/arxiv_to_aan.py
@@ -7,7 +7,7 @@ import re
 LatexEscape = re.compile(r"\\['`^" + '"' + r"H~ckl=b.druvtoi]")
 Dashes = re.compile(r"^-{15,}$")
 StartsWithWhiteSpace = re.compile(r"^\s{2,}\S.*$")
-BibTextNameDelimiter = re.compile(r"(?:\s*,\s*|\s+and\s+)")
+BibTextNameDelimiter = re.compile(r"(?:\s*,\s*and\s+|\s*,\s*|\s+and\s+)")
 
 class PaperMetadata():
 
-- 
2.43.0


From 4b68071d3bc656d09a63aeee13d0dc16ee7b489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 079/123] fix: spaces left within an author's name were taken
 for further names

---
 sidetopics/run/arxiv_to_aan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/arxiv_to_aan.py b/sidetopics/run/arxiv_to_aan.py
index 7de8ed6..0447e2f 100644
--- a/sidetopics/run/arxiv_to_aan.py
+++ b/sidetopics/run/arxiv_to_aan.py
@@ -52,7 +52,7 @@ def bibtex_to_acl_author (bib_author):
     Takes an author name formated in the BibTex style, and re-write
     it in the ACL style
     '''
-    parts = bib_author.strip().split(" ")
+    parts = " ".join(bib_author.split()).split(" ")
 
     if len(parts) == 1:
         parts = parts[0].split(".")
-- 
2.43.0


From c98f0de4f2547545b88c13be4d3d5e180aec52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 080/123] fix: similarity recommender: integer word counts gave
 every document an all-zero representation

---
 sidetopics/model/sim_based_rec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index b192959..a4cf481 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -178,7 +178,7 @@ def train (data, model, query, trainPlan, isQuery=False):
         docLens = np.squeeze(np.array(data.words.sum(axis=1)))
         reps = data.words.copy()
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
-        reps = ssp.diags(np.reciprocal(docLens), 0).dot(reps)
+        reps = ssp.diags(1.0 / docLens, 0).dot(reps)
 
         occ  = data.words.astype(bool).astype(dtype)
         docCount = np.squeeze(np.array(occ.sum(axis=0)))
-- 
2.43.0


From f0bfe30d4620ef999e0d9a21648a192f50e8b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 081/123] fix: similarity recommender failed on corpora or
 queries of a single document

---
 sidetopics/model/sim_based_rec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index a4cf481..28e40bf 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -175,13 +175,13 @@ def train (data, model, query, trainPlan, isQuery=False):
     # Step 1: Learn the topics using vanilla LDA
     if method == TF_IDF:
         # First do TF
-        docLens = np.squeeze(np.array(data.words.sum(axis=1)))
+        docLens = np.array(data.words.sum(axis=1)).reshape(-1)
         reps = data.words.copy()
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
         reps = ssp.diags(1.0 / docLens, 0).dot(reps)
 
         occ  = data.words.astype(bool).astype(dtype)
-        docCount = np.squeeze(np.array(occ.sum(axis=0)))
+        docCount = np.array(occ.sum(axis=0)).reshape(-1)
         docCount += 1
         idf = np.log(D / docCount)
 
@@ -373,7 +373,7 @@ def link_probs_tfidf(model, train_tops, query_tops, min_link_probs, docSubset=No
     for src in docSubset:
         outRow += 1
 
-        probs = np.squeeze(np.asarray(dst_reps.dot(src_reps[src,:].T).todense()))
+        probs = np.asarray(dst_reps.dot(src_reps[src,:].T).todense()).reshape(-1)
         probs /= dst_norms
         probs /= src_norms[src]
 
@@ -397,7 +397,7 @@ def csr_row_norms(X):
 
     X2 = ssp.csr_matrix((norm_dat, X.indices, X.indptr), shape=X.shape)
 
-    norms = np.squeeze(np.array(X2.sum(axis=1)))
+    norms = np.array(X2.sum(axis=1)).reshape(-1)
     norms **= 0.5
 
     return norms
-- 
2.43.0


From 43e69c0e03b07cb9984b436c51f09135ea9a05b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 082/123] fix: similarity recommender lost every link of a
 document without any informative word

---
 sidetopics/model/sim_based_rec.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 28e40bf..bb868f7 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -290,7 +290,7 @@ def min_link_probs_tfidf(model, train_tops, query_tops, query_links, docSubset):
             dst = query_links[src,:].indices[i]          # which we denote dst
             linkProbMat = src_reps[src,:].dot(dst_reps[dst,:].T)
             linkProb = 0 if linkProbMat.nnz == 0 else linkProbMat.data[0]
-            linkProb /= src_norms[src] * dst_norms[dst]
+            linkProb /= max(src_norms[src] * dst_norms[dst], 1E-30)
             probs.append(linkProb)
         mins[outRow] = min(probs) if len(probs) > 0 else -1
 
@@ -374,8 +374,7 @@ def link_probs_tfidf(model, train_tops, query_tops, min_link_probs, docSubset=No
         outRow += 1
 
         probs = np.asarray(dst_reps.dot(src_reps[src,:].T).todense()).reshape(-1)
-        probs /= dst_norms
-        probs /= src_norms[src]
+        probs /= np.maximum(dst_norms * src_norms[src], 1E-30)
 
         relevant = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
 
-- 
2.43.0


From cc792294804fe5533eca02cbaa9a6d10ba2d7ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 083/123] fix: similarity recommender lost expected links to
 rounding of the thresholds

---
 sidetopics/model/sim_based_rec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index bb868f7..0ba09f5 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -376,7 +376,8 @@ def link_probs_tfidf(model, train_tops, query_tops, min_link_probs, docSubset=No
         probs = np.asarray(dst_reps.dot(src_reps[src,:].T).todense()).reshape(-1)
         probs /= np.maximum(dst_norms * src_norms[src], 1E-30)
 
-        relevant = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        minProb  = min_link_probs[outRow]
+        relevant = np.where(probs >= minProb - 1E-5 * abs(minProb) - 1E-9)[0]
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
@@ -432,7 +433,8 @@ def link_probs_lda(model, train_tops, query_tops, min_link_probs, docSubset=None
         probs[probs < 1E-30] = 1E-30
         probs = SQRT_TWO / probs
 
-        relevant = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        minProb  = min_link_probs[outRow]
+        relevant = np.where(probs >= minProb - 1E-5 * abs(minProb) - 1E-9)[0]
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
-- 
2.43.0


From 5e0c89d705470ce9f68fb03fccfdf3e2844321fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 084/123] fix: similarity recommender: stored zeros of a
 document without words became NaNs

---
 sidetopics/model/sim_based_rec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 0ba09f5..1256833 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -176,6 +176,7 @@ def train (data, model, query, trainPlan, isQuery=False):
     if method == TF_IDF:
         # First do TF
         docLens = np.array(data.words.sum(axis=1)).reshape(-1)
+        docLens[docLens == 0] = 1 # lest any stored zeros become NaNs
         reps = data.words.copy()
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
         reps = ssp.diags(1.0 / docLens, 0).dot(reps)
-- 
2.43.0


From 6498c37b3f1a491926208e388ec9ab23b4b59ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:00 +0000
Subject: [PATCH 085/123] fix: CTM training has room for every measurement it
 takes, and can take none

---
 sidetopics/model/ctm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 1f2ade9..e331b4c 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -182,9 +182,10 @@ def train (dataset, modelState, queryState, trainPlan):
     K, topicMean, sigT, vocab, vocabPrior, dtype = modelState.K, modelState.topicMean, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters   = np.zeros(shape=(iterations // logFrequency,))
-    boundValues  = np.zeros(shape=(iterations // logFrequency,))
-    likelyValues = np.zeros(shape=(iterations // logFrequency,))
+    logCount     = (iterations + logFrequency - 1) // logFrequency if logFrequency > 0 else 0
+    boundIters   = np.zeros(shape=(logCount,))
+    boundValues  = np.zeros(shape=(logCount,))
+    likelyValues = np.zeros(shape=(logCount,))
     bvIdx = 0
     
     debugFn = _debug_with_bound if debug else _debug_with_nothing
-- 
2.43.0


From 19f46e300396e07fe5c239392098da431430da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:00 +0000
Subject: [PATCH 086/123] fix: STM training has room for every measurement it
 takes, and can take none

---
 sidetopics/model/stm_yv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index e8653fd..7a0bcdd 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -191,9 +191,10 @@ def train (data, modelState, queryState, trainPlan):
     F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype = modelState.F, modelState.P, modelState.K, modelState.A, modelState.R_A, modelState.fv, modelState.Y, modelState.R_Y, modelState.lfv, modelState.V, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters  = np.zeros(shape=(iterations // logFrequency,))
-    boundValues = np.zeros(shape=(iterations // logFrequency,))
-    likeValues  = np.zeros(shape=(iterations // logFrequency,))
+    logCount    = (iterations + logFrequency - 1) // logFrequency if logFrequency > 0 else 0
+    boundIters  = np.zeros(shape=(logCount,))
+    boundValues = np.zeros(shape=(logCount,))
+    likeValues  = np.zeros(shape=(logCount,))
     bvIdx = 0
     
     _debug_with_bound.old_bound = 0
-- 
2.43.0


From 131e9d10a39aa563c851dc8771b6d4f4051603b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:01 +0000
Subject: [PATCH 087/123] fix: Vectorised-Y STM training has room for every
 measurement it takes, and can take none

---
 sidetopics/model/stm_uv_vecy_bohning.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index f9024d6..80da003 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -191,9 +191,10 @@ def train (data, modelState, queryState, trainPlan):
     F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, Ab, dtype = modelState.F, modelState.P, modelState.K, modelState.A, modelState.R_A, modelState.fv, modelState.Y, modelState.R_Y, modelState.lfv, modelState.V, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.Ab, modelState.dtype
     
     # Book-keeping for logs
-    boundIters  = np.zeros(shape=(iterations // logFrequency,))
-    boundValues = np.zeros(shape=(iterations // logFrequency,))
-    boundLikes = np.zeros(shape=(iterations // logFrequency,))
+    logCount    = (iterations + logFrequency - 1) // logFrequency if logFrequency > 0 else 0
+    boundIters  = np.zeros(shape=(logCount,))
+    boundValues = np.zeros(shape=(logCount,))
+    boundLikes  = np.zeros(shape=(logCount,))
     bvIdx = 0
     debugFn = _debug_with_bound if debug else _debug_with_nothing
     _debug_with_bound.old_bound = 0
-- 
2.43.0


From a3433035ac029e62bed48393e264b220e2e9f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:01 +0000
Subject: [PATCH 088/123] fix: STM training that stops early returns as many
 likelihoods as bounds

---
 sidetopics/model/stm_yv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index 7a0bcdd..fbd8703 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -314,7 +314,7 @@ def train (data, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] > 50:
                 lastPerp = perplexity_from_like(likeValues[bvIdx - 1], n.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likeValues, bvIdx)
+                    boundIters, boundValues, likeValues = clamp (boundIters, boundValues, likeValues, bvIdx)
                     return modelState, queryState, (boundIters, boundValues, likeValues)
             bvIdx += 1
 
-- 
2.43.0


From ad05eed395c8802e2f4df5762926b8c55167507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:01 +0000
Subject: [PATCH 089/123] fix: Vectorised-Y STM training that stops early
 returns as many likelihoods as bounds

---
 sidetopics/model/stm_uv_vecy_bohning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index 80da003..44be6c8 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -343,7 +343,7 @@ def train (data, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] > 20:
                 lastPerp = perplexity_from_like(boundLikes[bvIdx - 1], docLens.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, boundLikes, bvIdx)
+                    boundIters, boundValues, boundLikes = clamp (boundIters, boundValues, boundLikes, bvIdx)
                     break
             bvIdx += 1
         
-- 
2.43.0


From b03a55afe9003e88dd964865446e805f8edc8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:37 +0000
Subject: [PATCH 090/123] fix: CTM query assigns words to topics anew at every
 iteration

---
 sidetopics/model/ctm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index e331b4c..0cce919 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -337,9 +337,6 @@ def query(dataset, modelState, queryState, queryPlan):
     # Necessary temp variables (notably the count of topic to word assignments
     # per topic per doc)
     isigT = la.inv(sigT)
-    expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis], out=expMeans)
-    R = sparseScalarQuotientOfDot(W, expMeans, vocab)
-    S = expMeans * R.dot(vocab.T)
         
     # Enable logging or not. If enabled, we need the inner product of the feat matrix
     debugFn = _debug_with_bound if debug else _debug_with_nothing
@@ -347,6 +344,11 @@ def query(dataset, modelState, queryState, queryPlan):
     # Iterate over parameters
     lastPerp = 1E+300 if dtype is np.float64 else 1E+30
     for itr in range(iterations):
+        # Estimate Z_dvk
+        expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis], out=expMeans)
+        R = sparseScalarQuotientOfDot(W, expMeans, vocab)
+        S = expMeans * R.dot(vocab.T)
+
         # Update the Means
         vMat   = (s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
         rhsMat = vMat + isigT.dot(topicMean)
-- 
2.43.0


From b6dfc9cc108aeb85fb4ca0fa6939fe3a6508e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 091/123] fix: STM can be trained with debugging on

---
 sidetopics/model/stm_yv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index fbd8703..22e72c6 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -510,7 +510,7 @@ def _debug_with_bound (itr, var_value, var_name, W, X, XTX, F, P, K, A, R_A, fv,
         printStderr ("WARNING: dtype(" + var_name + ") = " + str(var_value.dtype))
     
     modelState = ModelState(F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype, MODEL_NAME)
-    queryState = QueryState(means, varcs, lxi, s, n)
+    queryState = QueryState(means, means.copy(), varcs, lxi, s, n)
     
     old_bound = _debug_with_bound.old_bound
     bound     = var_bound(DataSet(W, feats=X), modelState, queryState, XTX)
-- 
2.43.0


From 8c99a92b8b5c0755a68ede2be9513252504d8f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 092/123] fix: STM bound leaves the means as they were, to the
 last bit and wherever exp underflows

---
 sidetopics/model/stm_yv.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index 22e72c6..222fdd8 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -482,9 +482,7 @@ def var_bound(data, modelState, queryState, XTX = None):
     # The last term of line 1 gets cancelled out by part of the first term in line 2
     # so neither are included here.
     
-    row_maxes = means.max(axis=1)
-    means -= row_maxes[:,np.newaxis]
-    expMeans = np.exp(means, out=means)
+    expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis])
     bound -= -np.sum(sparseScalarProductOfSafeLnDot(W, expMeans, vocab).data)
     
     bound -= np.sum(docLens[:,np.newaxis] * lxi * ((s*s)[:,np.newaxis] - (xi * xi)))
@@ -494,9 +492,6 @@ def var_bound(data, modelState, queryState, XTX = None):
     
     bound -= np.dot(s, docLens)
     
-    means = np.log(expMeans, out=expMeans)
-    means += row_maxes[:,np.newaxis]
-    
     return bound
 
 
-- 
2.43.0


From 5957035c86d9416b04f7e2f0d808b87a74ac4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 093/123] fix: STM bound of dense features uses their inner
 product as it was

---
 sidetopics/model/stm_yv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index 222fdd8..a1f2b9c 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -214,6 +214,8 @@ def train (data, modelState, queryState, trainPlan):
     R_A = XTX
     if ssp.issparse(R_A):
         R_A = R_A.todense()  # dense inverse typically as fast or faster than sparse inverse
+    else:
+        R_A = R_A.copy()
     R_A.flat[::F+1] += 1./fv # and the result is usually dense in any case
     R_A = la.inv(R_A)
     print("Covariance matrix calculated, launching inference")
-- 
2.43.0


From b26561d17df64adea2dd30f7e3042da3f9df8632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 094/123] fix: CTM/Bohning query returns what it inferred, with
 a diagonal covariance too

---
 sidetopics/model/ctm_bohning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 6159fb8..fbd2dbe 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -363,7 +363,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
-- 
2.43.0


From 1657a2d4343609b08a47eb04f0021e681c2cd86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 095/123] fix: CTM/Bohning topicDists is the softmax of
 documents' means

---
 sidetopics/model/ctm_bohning.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index fbd2dbe..a5b9ac8 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -81,9 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(query.means)
 
 def newModelFromExisting(model):
     '''
-- 
2.43.0


From 8ef6d185a83a7d4bcc866c53dbc03922579e73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 096/123] fix: CTM gradient variant: query returns what it
 inferred, topicDists is its softmax

---
 sidetopics/model/ctm_grad_arb.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 6159fb8..a5b9ac8 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -81,9 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(query.means)
 
 def newModelFromExisting(model):
     '''
@@ -363,7 +361,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
-- 
2.43.0


From 232daf805e968d140b18b40eec64bf5f0e9c61fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 097/123] fix: Vectorised-Y STM accepts dense features

---
 sidetopics/model/stm_uv_vecy_bohning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index 44be6c8..e1c0e3c 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -222,7 +222,7 @@ def train (data, modelState, queryState, trainPlan):
     print("Creating posterior covariance of A, this will take some time...")
     XTX = X.T.dot(X)
     R_A = XTX
-    R_A = R_A.todense()      # dense inverse typically as fast or faster than sparse inverse
+    R_A = R_A.todense() if ssp.issparse(R_A) else R_A.copy() # dense inverse typically as fast or faster than sparse inverse
     R_A.flat[::F+1] += 1./fv # and the result is usually dense in any case
     R_A = la.inv(R_A)
     print("Covariance matrix calculated, launching inference")
-- 
2.43.0


From 9a1d7faa0015183202accf551697e2cb74bbfedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:03 +0000
Subject: [PATCH 098/123] fix: STM/Bohning training sorts all that it knows of
 documents by length, and puts all of it back

---
 sidetopics/model/stm_yv_bohning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 9d2eb83..77c318a 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -203,7 +203,7 @@ def train (data, modelState, queryState, trainPlan):
     sortIdx = np.argsort(docLens, kind=STABLE_SORT_ALG) # sort needs to be stable in order to be reversible
     W = W[sortIdx,:] # deep sorted copy
     X = X[sortIdx,:]
-    means, varcs = means[sortIdx,:], varcs[sortIdx,:]
+    means, expMeans, varcs = means[sortIdx,:], expMeans[sortIdx,:], varcs[sortIdx,:]
 
     docLens = originalDocLens[sortIdx]
     
@@ -336,6 +336,7 @@ def train (data, modelState, queryState, trainPlan):
         
     revert_sort = np.argsort(sortIdx, kind=STABLE_SORT_ALG)
     means       = means[revert_sort,:]
+    expMeans    = expMeans[revert_sort,:]
     varcs       = varcs[revert_sort,:]
     docLens     = docLens[revert_sort]
     
-- 
2.43.0


From 638d2f0a03434861a7053ea221093786f1006b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:03 +0000
Subject: [PATCH 099/123] fix: STM/Bohning bound of dense features uses their
 inner product as it was

---
 sidetopics/model/stm_yv_bohning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 77c318a..765ec63 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -222,6 +222,8 @@ def train (data, modelState, queryState, trainPlan):
     if ssp.issparse(R_A):         # dense inverse typically as fast or faster than sparse
         R_A = to_dense_array(R_A) # inverse and the result is usually dense in any case
         leastSquares = lambda feats, targets: np.array([ssp.linalg.lsqr (feats, targets[:,k])[0] for k in range(K)])
+    else:
+        R_A = R_A.copy()
     R_A.flat[::F+1] += 1./fv
     R_A = la.inv(R_A)
     print("Covariance matrix calculated, launching inference")
-- 
2.43.0


From 16d1a348e0821e6cb98eb6f75a0ece1e2116a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 100/123] fix: CTM and STM accept a corpus of one document

---
 sidetopics/model/ctm.py                 | 2 +-
 sidetopics/model/ctm_bohning.py         | 2 +-
 sidetopics/model/ctm_grad_arb.py        | 2 +-
 sidetopics/model/stm_uv_vecy_bohning.py | 2 +-
 sidetopics/model/stm_yv_bohning.py      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 0cce919..b141c3d 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -131,7 +131,7 @@ def newQueryState(data, modelState):
     W   = data.words
     D,T = W.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(W.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(W.sum(axis=1)), axis=1)
     
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index a5b9ac8..e8f254d 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -150,7 +150,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)), axis=1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index a5b9ac8..e8f254d 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -150,7 +150,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)), axis=1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index e1c0e3c..8afdd86 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -135,7 +135,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)), axis=1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 765ec63..ebcdfa7 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -136,7 +136,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)), axis=1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
-- 
2.43.0


From f4580f11fcf3e850e03b0f2572e05baf02518a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:51 +0000
Subject: [PATCH 101/123] fix: CTM/Bohning with a diagonal covariance keeps the
 model's precision

---
 sidetopics/model/ctm_bohning.py  | 2 +-
 sidetopics/model/ctm_grad_arb.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index e8f254d..15bbb69 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -239,7 +239,7 @@ def train (data, modelState, queryState, trainPlan):
             isigT = la.inv(sigT)
 
         # FIXME Undo debug
-        sigT  = np.eye(K)
+        sigT  = np.eye(K, dtype=dtype)
         isigT = la.inv(sigT)
         
         debugFn (itr, sigT, "sigT", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index e8f254d..15bbb69 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -239,7 +239,7 @@ def train (data, modelState, queryState, trainPlan):
             isigT = la.inv(sigT)
 
         # FIXME Undo debug
-        sigT  = np.eye(K)
+        sigT  = np.eye(K, dtype=dtype)
         isigT = la.inv(sigT)
         
         debugFn (itr, sigT, "sigT", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
-- 
2.43.0


From 2fb8c6c0ce7b653a629b2a7dd79beae974ba63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:59 +0000
Subject: [PATCH 102/123] fix: the command-line application can be run: import
 models from their package

---
 sidetopics/model/mtm3.py   |  2 +-
 sidetopics/run/__main__.py | 58 +++++++++++++++++++-------------------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 7f36378..3ad0dbc 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -170,7 +170,7 @@ def lda_topics(ldaQuery):
 
 
 def _newQueryStateFromCtm(data, model):
-    import model.ctm_bohning as ctm
+    import sidetopics.model.ctm_bohning as ctm
 
     ctm_model = ctm.newModelAtRandom(data, model.K, VocabPrior, model.dtype)
     ctm_query = ctm.newQueryState(data, model)
diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index f260cb8..b7b67c4 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -48,15 +48,15 @@ StmYvBohningFakeOnline = "stm_yv_bohning_fake_online"
 
 ModelNames = ', '.join([CtmBouchard, CtmBohning, StmYvBouchard, StmYvBohning, StmYvBohningFakeOnline, StmUyvBohning, LdaCvb, LdaCvbZero, LdaVb, LdaSvb, LdaGibbs, Rtm, Mtm, Lro, Dmr, MomEm, MomGibbs])
 
-from model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
-from model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
-from model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
-from model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
-
-from model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
-from model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
-from model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
-from model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
+from sidetopics.model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
+from sidetopics.model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
+from sidetopics.model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
+from sidetopics.model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
+
+from sidetopics.model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
+from sidetopics.model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
+from sidetopics.model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
+from sidetopics.model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
 LDA_SIM_MODEL_NAME = SIM_MODEL_NAME_PREFIX + SIM_MODEL_NAME_SUFFIX
 
 DefaultPriorCov = 0.001
@@ -182,64 +182,64 @@ def run(args):
 
     print ("Building template model... ", end="")
     if args.model == CtmBouchard:
-        import model.ctm as mdl
+        import sidetopics.model.ctm as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == CtmBohning:
-        import model.ctm_bohning as mdl
+        import sidetopics.model.ctm_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBouchard:
-        import model.stm_yv as mdl
+        import sidetopics.model.stm_yv as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohning:
-        import model.stm_yv_bohning as mdl
+        import sidetopics.model.stm_yv_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohningFakeOnline:
-        import model.stm_yv_bohning_fake_online as mdl
+        import sidetopics.model.stm_yv_bohning_fake_online as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == MomEm:
-        import model.mom_em as mdl
+        import sidetopics.model.mom_em as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == MomGibbs:
-        import model.mom_gibbs as mdl
+        import sidetopics.model.mom_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == StmUyvBohning:
-        import model.stm_uv_vec_y_bohning as mdl
+        import sidetopics.model.stm_uv_vec_y_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K=K, Q=Q, P=P,  tv=tv, ltv=ltv, fv=fv, lfv=lfv, vocabPrior=args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaCvb:
-        import model.lda_cvb as mdl
+        import sidetopics.model.lda_cvb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaCvbZero:
-        import model.lda_cvb0 as mdl
+        import sidetopics.model.lda_cvb0 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaVb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaSvb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaGibbs:
-        import model.lda_gibbs as mdl
+        import sidetopics.model.lda_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Rtm:
-        import model.rtm as mdl
+        import sidetopics.model.rtm as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm:
-        import model.mtm2 as mdl
+        import sidetopics.model.mtm2 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm2:
-        import model.mtm3 as mdl
+        import sidetopics.model.mtm3 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Dmr:
-        import model.dmr as mdl
+        import sidetopics.model.dmr as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Lro:
-        import model.lro_vb as mdl
+        import sidetopics.model.lro_vb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == SimLda:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.LDA, dtype=output_dtype)
     elif args.model == SimTfIdf:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.TF_IDF, dtype=output_dtype)
     else:
         raise ValueError ("Unknown model identifier " + args.model)
-- 
2.43.0


From de12da04f737653c4f867495383a9f31225038b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:32 +0000
Subject: [PATCH 103/123] fix: the command-line application prunes documents by
 the parameter's present name

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index b7b67c4..6a0640a 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -165,7 +165,7 @@ def run(args):
     #
     data = DataSet.from_files(args.words, args.feats, args.links, limit=args.limit)
     data.convert_to_dtype(input_dtype)
-    data.prune_and_shuffle(min_doc_len=MinDocLen, min_link_count=MinLinkCountPrune)
+    data.prune_and_shuffle(min_unique_word_count=MinDocLen, min_link_count=MinLinkCountPrune)
 
     print ("The combined word-count of the %d documents is %.0f, drawn from a vocabulary of %d distinct terms" % (data.doc_count, data.word_count, data.words.shape[1]))
     if data.add_intercept_to_feats_if_required():
-- 
2.43.0


From cb82ba2a324f1c1e143a09acea113fcd0a369112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:13 +0000
Subject: [PATCH 104/123] fix: mixtures' query states need no debug flag, as
 with every other model

---
 sidetopics/model/mom_em.py    | 2 +-
 sidetopics/model/mom_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index fb69970..60ff578 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -110,7 +110,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VOCAB_PRIOR, dtype=DTY
     return ModelState(K, topicPrior, vocabPrior, wordDistParam, corpusTopicDistParam, False, dtype, MODEL_NAME)
 
 
-def newQueryState(data, modelState, debug):
+def newQueryState(data, modelState, debug=False):
     '''
     Creates a new LDA QueryState object. This contains all
     parameters and random variables tied to individual
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 5b46cf3..2b9c28f 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -97,7 +97,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
     return ModelState(K, topicPrior, vocabPrior, wordDists, False, dtype, MODEL_NAME)
 
 
-def newQueryState(data, modelState, debug):
+def newQueryState(data, modelState, debug=False):
     '''
     Creates a new LDA QueryState object. This contains all
     parameters and random variables tied to individual
-- 
2.43.0


From ca7398fd4bc112db33ce15d2c144c68727801ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:43 +0000
Subject: [PATCH 105/123] fix: CVB0 and mixtures have log_likelihood, as every
 model that the command-line application runs

---
 sidetopics/model/lda_cvb0.py  | 3 +++
 sidetopics/model/mom_em.py    | 2 ++
 sidetopics/model/mom_gibbs.py | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index b12a8ca..dde5d04 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -394,6 +394,9 @@ def log_likelihood_point(data, modelState, queryState):
     return ln_likely
 
 
+log_likelihood = log_likelihood_point # by the name that every other model gives it
+
+
 def log_likelihood_expected(data, modelState, queryState):
     """
     Determines the variational bounds. Values are mutated in place, but are
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 60ff578..f41fe21 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -387,6 +387,8 @@ def log_likelihood_point(data: DataSet, model: ModelState, query: QueryState = N
     return lls.sum()
 
 
+log_likelihood = log_likelihood_point # by the name that every other model gives it
+
 
 def var_bound(data, model, query, topicDistOverride=None):
     '''
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 2b9c28f..f01d581 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -181,6 +181,9 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
     # return (data.words.dot(wordDists(model).T) * model.corpusTopicDist).sum()
 
 
+log_likelihood = log_likelihood_point # by the name that every other model gives it
+
+
 def sample_memberships(W, alpha, wordDists, memberships):
     _, K = memberships.shape
 
-- 
2.43.0


From 95d329041f74be98a0ac81cddd96f86b87d570f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 106/123] fix: evaluating tags or links runs every fold unless
 told how many (the application passes -1)

---
 sidetopics/run/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 6a0640a..8ee4a22 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -611,7 +611,7 @@ def cross_val_and_eval_tag_prec_rec_at_m (data, tag_indices, tag_train_prop, mdl
     model_files = []
     assert num_folds > 1, "Need at least two folds for this to make any sense whatsoever"
 
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = num_folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
@@ -872,7 +872,7 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
 
     if ldaModel is not None:
         (_, _, _, _, ldaModel, ldaTopics, _) = ldaModel
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
@@ -967,7 +967,7 @@ def insample_lro_style_prec_rec (data, mdl, sample_model, train_plan, folds, tar
         else:
             return data
 
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
-- 
2.43.0


From a1e2e1207a83f768db5cd8dce9877cbfb346d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 107/123] fix: link splits call link predictors with the
 arguments that they take

---
 sidetopics/run/__main__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 8ee4a22..775b0c2 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -823,8 +823,8 @@ def link_split_map (data, mdl, sample_model, train_plan, folds, model_dir = None
 
         print("Training perplexity is %.2f " % perplexity_from_like(mdl.log_likelihood(train_data, model, train_tops), train_data.word_count))
 
-        min_link_probs       = mdl.min_link_probs(model, train_tops, query_data.links)
-        predicted_link_probs = mdl.link_probs(model, train_tops, min_link_probs)
+        min_link_probs       = mdl.min_link_probs(model, train_tops, train_tops, query_data.links)
+        predicted_link_probs = mdl.link_probs(model, train_tops, train_tops, min_link_probs)
 
         map = mean_average_prec (query_data.links, predicted_link_probs)
         print ("Fold %2d: Mean-Average-Precision %6.3f" % (fold, map))
@@ -892,8 +892,8 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
 
         print ("Training perplexity is %.2f " % perplexity_from_like(mdl.log_likelihood(train_data, model, train_tops), train_data.word_count))
 
-        min_link_probs       = mdl.min_link_probs(model, train_tops, query_data.links)
-        predicted_link_probs = mdl.link_probs(model, train_tops, min_link_probs)
+        min_link_probs       = mdl.min_link_probs(model, train_tops, train_tops, query_data.links)
+        predicted_link_probs = mdl.link_probs(model, train_tops, train_tops, min_link_probs)
         expected_links       = query_data.links
 
         precs, recs, doc_counts = mean_prec_rec_at (expected_links, predicted_link_probs, at=ms, groups=[(0,3), (3,5), (5,10), (10,1000)])
-- 
2.43.0


From 7b0308d5cf8ad248f0d6b4c8e0b7d50ef438d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 108/123] fix: averages over folds may have groups without any
 document

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 775b0c2..6bfa771 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1187,7 +1187,7 @@ def combine_map (old_avgs, old_counts, new_avgs, new_counts):
                { g:cnt for g,cnt in new_counts.items() }
 
     upd_counts = { g:old_count + new_counts[g] for g,old_count in old_counts.items() }
-    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / upd_counts[g] \
+    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / max(upd_counts[g], 1) \
                       for o,n in zip(lst,new_avgs[g])] \
                    for g,lst in old_avgs.items() }
 
-- 
2.43.0


From 38531c4d7409abb1cf14f3d9d261df4b9e027e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:39 +0000
Subject: [PATCH 109/123] fix: feature-split evaluation works without a trained
 LDA model

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 6bfa771..59c2ffa 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1163,7 +1163,7 @@ def subsetLda(ldaModel, ldaTopics, doc_indices):
     :return:
     '''
     if ldaModel is None:
-        return None
+        return None, None
     else:
         if ldaModel.name == LDA_GIBBS_MODEL_NAME:
             return ldaModel, pruneLdaGibbsQueryState(ldaTopics, doc_indices)
-- 
2.43.0


From 3d01e906f57dcd1169219740968b8b2bcd0ff4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 110/123] fix: hashtags not kept for training are removed from
 the held-out documents and checked

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 59c2ffa..0634ce1 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -516,7 +516,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
             train_data, query_data = data.cross_valid_split(fold, num_folds)
 
             query_data_train_words, query_data_check_words = \
-                soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), hashtag_train_prop)
+                soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), 1.0 - hashtag_train_prop)
             query_data = query_data.copy_with_changes(words=query_data_train_words)
 
             # Train the model
-- 
2.43.0


From 1dd1689d6dde38c64984bc467bb8e8d8e70499ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 111/123] fix: the hashtag evaluation stops after the number of
 folds asked for

---
 sidetopics/run/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 0634ce1..7aca73a 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -559,6 +559,8 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
                 print ("%10s\t%20s\t%6d\t%s" % ("Recall", htag, prec_results[-1], "\t".join(("%0.3f" % prec_results[m] for m in MS))))
 
 
+            folds_finished += 1
+
             # Save the model
             model_files = save_if_necessary(model_files, model_dir, model, data, fold, train_itrs, train_vbs, train_likes, train_tops, None, mdl)
         except Exception as e:
-- 
2.43.0


From b88f28332bbcda2c4241386cddb00eaae8ae1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 112/123] fix: precision of hashtags counts documents, not
 occurrences of the tag in them

---
 sidetopics/run/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 7aca73a..8d08f5e 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -518,6 +518,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
             query_data_train_words, query_data_check_words = \
                 soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), 1.0 - hashtag_train_prop)
             query_data = query_data.copy_with_changes(words=query_data_train_words)
+            query_data_check_words = csr_clip(query_data_check_words, 0, 1) # count documents, not occurrences
 
             # Train the model
             print ("Duplicating model template... ", end="")
-- 
2.43.0


From 2534273d110af57f5d2a071c773076ecfa42b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 113/123] fix: held-out tags are ranked among all the tags,
 rather than only among themselves

---
 sidetopics/run/__main__.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 8d08f5e..3f0b382 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -644,7 +644,8 @@ def cross_val_and_eval_tag_prec_rec_at_m (data, tag_indices, tag_train_prop, mdl
         # Infer the expected link probabilities
         _, query_tops        = mdl.query (query_data, model, mdl.newQueryState(query_data, model), train_plan)
         expected_links       = csr_clip(query_data_check_words, 0, 1)
-        predicted_link_probs = sparseScalarProductOfDot(expected_links, rowwise_softmax(query_tops.means), mdl.wordDists(model))
+        every_tag            = all_in_columns(expected_links.shape, tag_indices, expected_links.dtype)
+        predicted_link_probs = sparseScalarProductOfDot(every_tag, rowwise_softmax(query_tops.means), mdl.wordDists(model))
 
         # Evaluation 1/3: Precision and Recall at M
         precs, recs, doc_counts = mean_prec_rec_at(expected_links, predicted_link_probs, at=ms,
@@ -687,6 +688,16 @@ def cross_val_and_eval_tag_prec_rec_at_m (data, tag_indices, tag_train_prop, mdl
     return model_files
 
 
+def all_in_columns(shape, columns_set, dtype):
+    """
+    A CSR matrix of the given shape with ones in all rows of the given columns, and
+    no other elements.
+    """
+    columns = np.array(sorted(set(columns_set)), dtype=np.int32)
+    indptr  = np.arange(shape[0] + 1, dtype=np.int32) * len(columns)
+    return ssp.csr_matrix((np.ones(shape[0] * len(columns), dtype=dtype), np.tile(columns, shape[0]), indptr), shape=shape)
+
+
 def csr_clip(matrix, min_value, max_value):
     return ssp.csr_matrix((np.clip(matrix.data, min_value, max_value), matrix.indices, matrix.indptr), shape=matrix.shape)
 
-- 
2.43.0


From 98cd100344b34494d1a91d083b8f79f2a7bf15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 114/123] fix: precision and recall of links accepts the LDA
 model that it is given

---
 sidetopics/run/__main__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 3f0b382..fe5d7f6 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -884,8 +884,6 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
         else:
             return data
 
-    if ldaModel is not None:
-        (_, _, _, _, ldaModel, ldaTopics, _) = ldaModel
     if target_folds is None or target_folds < 1:
         target_folds = folds
 
@@ -893,14 +891,15 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
     mrr_sum, mrr_doc_count = 0, 0
     map_sum, map_doc_count = 0, 0
     for fold in range(target_folds):
-        model = mdl.newModelFromExisting(sample_model, withLdaModel=ldaModel) \
-                if sample_model.name == LRO_MODEL_NAME \
-                else mdl.newModelFromExisting(sample_model)
-
         train_data, query_data = data.link_prediction_split(symmetric=False)
         train_data = prepareForTraining(train_data) # make symmetric, if necessary, after split, so we
                                                     # can compare symmetric with non-symmetric models
-        train_tops = mdl.newQueryState(train_data, model)
+        if model_uses_lda(sample_model):
+            model      = mdl.newModelFromExisting(sample_model, withLdaModel=ldaModel)
+            train_tops = mdl.newQueryState(train_data, model, withLdaTopics=ldaTopics)
+        else:
+            model      = mdl.newModelFromExisting(sample_model)
+            train_tops = mdl.newQueryState(train_data, model)
         model, train_tops, (train_itrs, train_vbs, train_likes) = \
             mdl.train(train_data, model, train_tops, train_plan)
 
-- 
2.43.0


From 9100efa03a54349e4d712d02993794319145ef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 115/123] fix: ctm and stm_yv give the distributions of words
 that evaluations ask for

---
 sidetopics/model/ctm.py    | 3 +++
 sidetopics/model/stm_yv.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index b141c3d..d75dd90 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -71,6 +71,9 @@ ModelState = namedtuple ( \
 # PUBLIC API
 # ==============================================================
 
+def wordDists(model):
+    return model.vocab
+
 def newModelFromExisting(model):
     '''
     Creates a _deep_ copy of the given model
diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index a1f2b9c..33d5593 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -70,6 +70,9 @@ ModelState = namedtuple ( \
 # ==============================================================
 
 
+def wordDists(model):
+    return model.vocab
+
 def newModelFromExisting(model):
     '''
     Creates a _deep_ copy of the given model
-- 
2.43.0


From 56838a7b29bd1391d2663cd79ec54f952c02dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:16 +0000
Subject: [PATCH 116/123] fix: the prior over the vocabulary is no longer given
 to variational LDA as that over topics

---
 sidetopics/run/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index fe5d7f6..e1539ed 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -213,10 +213,10 @@ def run(args):
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaVb:
         import sidetopics.model.lda_vb_python as mdl
-        templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
+        templateModel = mdl.newModelAtRandom(data, K, vocabPrior=args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaSvb:
         import sidetopics.model.lda_vb_python as mdl
-        templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
+        templateModel = mdl.newModelAtRandom(data, K, vocabPrior=args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaGibbs:
         import sidetopics.model.lda_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
-- 
2.43.0


From cc2bfbe71e4531e296cd426ea3aec71bd4f31260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 117/123] fix: the report generator finds its own templates,
 which lie beside the package

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 931e700..3fc8ea8 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -17,8 +17,8 @@ from os.path import sep
 CtmTemplateFileName = "CtmResultsSheet-Template.ipynb"
 StmTemplateFileName = "StmResultsSheet-Template.ipynb"
 StmTemplateFileNameNips = "StmResultsSheet-Nips-Template.ipynb"
-TemplateDir = os.path.dirname (os.path.dirname (__file__)) + os.path.sep + 'notebooks'
-CodeDir     = os.path.dirname(TemplateDir)
+CodeDir     = os.path.dirname (os.path.dirname (os.path.abspath(__file__)))
+TemplateDir = os.path.dirname (CodeDir) + os.path.sep + 'notebooks'
 CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d_\d{8}_\d{4}.pkl"
 StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d_\d{8}_\d{4}.pkl"
 
-- 
2.43.0


From 12f935c8bdd4fedddbb869f41e10e651fe466ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 118/123] fix: reports are made of all the files that
 experiments write, whatever the fold, and of no others

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 3fc8ea8..1de9d46 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -19,8 +19,8 @@ StmTemplateFileName = "StmResultsSheet-Template.ipynb"
 StmTemplateFileNameNips = "StmResultsSheet-Nips-Template.ipynb"
 CodeDir     = os.path.dirname (os.path.dirname (os.path.abspath(__file__)))
 TemplateDir = os.path.dirname (CodeDir) + os.path.sep + 'notebooks'
-CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d_\d{8}_\d{4}.pkl"
-StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d_\d{8}_\d{4}.pkl"
+CtmOutFileNameFormat = r"ctm_%s_k_%d_(p_\d+_)?fold_\d+_\d{8}_\d{4}\.pkl$"
+StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d+_\d{8}_\d{4}\.pkl$"
 
 CtmReportFileFormat = "ctm_%s_k_%d.ipynb"
 StmReportFileFormat = "stm_yv_%s_k_%d_p_%d.ipynb"
-- 
2.43.0


From 6b31a256296b275d5f79f8e9e57f6d6f69e8caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 119/123] fix: reports can be asked for by a model and bound,
 as in ctm_bohning

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 1de9d46..d82a017 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -77,10 +77,10 @@ def run(args):
     
     if args.model.endswith(Bohning):
         bounds = [Bohning]
-        model  = args.model[:-len(Bohning)]
+        model  = args.model[:-len(Bohning)].rstrip('_')
     elif args.model.endswith(Bouchard):
         bounds = [Bouchard]
-        model  = args.model[:-len(Bouchard)]
+        model  = args.model[:-len(Bouchard)].rstrip('_')
     else:
         bounds = [Bouchard, Bohning]
         model = args.model
-- 
2.43.0


From b6115f638ad451177314f80c87eb10d1ef2c09cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 120/123] fix: the report generator returns the files it
 created, as documented

---
 sidetopics/run/report_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index d82a017..c23953f 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -96,12 +96,13 @@ def run(args):
     if model == Ctm:
         if args.dataset != Tweets:
             raise ValueError ("No report template for CTM run on datasets other than Tweets (you specified " + args.dataset + ")")
-        generate_reports_ctm(bounds, topicCounts, args.output_files, args.report_dir, args.template_dir)
+        results = generate_reports_ctm(bounds, topicCounts, args.output_files, args.report_dir, args.template_dir)
     elif model == StmYv:
-        generate_reports_stm_yv(bounds, topicCounts, latentSizes, args.output_files, args.report_dir, args.template_dir, args.dataset)
+        results = generate_reports_stm_yv(bounds, topicCounts, latentSizes, args.output_files, args.report_dir, args.template_dir, args.dataset)
     else:
         raise ValueError ("No such model " + model + " (derived from " + args.model + ")")
     
+    return [reportFile for reportFile, foldCount in results.items() if foldCount > 0]
     
 
 def _generate_report(fnameRegex, rawOutDir, reportFile, templateDir, modelType, bound, dataset=Tweets):
-- 
2.43.0


From 371adcf4eef92310235c445481404fe5b7191949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 121/123] fix: a table's type depends on all of its numbers,
 not only those of its first line

---
 sidetopics/run/text_to_numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index e0ea142..c1acaa9 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -19,7 +19,7 @@ def save_as_numpy_sparse (infile, row_count):
     with open (infile, "r") as f:
         first_line = f.readline()
         col_count = len(first_line.split())
-        dtype = np.float32 if "." in first_line else np.int32
+        dtype = np.float32 if "." in first_line + f.read() else np.int32
 
     matrix = sp.lil_matrix((row_count, col_count), dtype=dtype)
     row = 0
@@ -46,7 +46,7 @@ def save_as_numpy (infile, row_count):
     with open (infile, "r") as f:
         first_line = f.readline()
         col_count = len(first_line.split())
-        dtype = np.float32 if "." in first_line else np.int32
+        dtype = np.float32 if "." in first_line + f.read() else np.int32
 
     matrix = np.ndarray(shape=(row_count, col_count), dtype=dtype)
     row = 0
-- 
2.43.0


From 516f8577ff406998b8a4b41d5a960bcb318326f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 122/123] fix: sparse tables keep negative numbers

---
 sidetopics/run/text_to_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index c1acaa9..b06689c 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -28,7 +28,7 @@ def save_as_numpy_sparse (infile, row_count):
             try:
                 vals = [float(fstr) for fstr in line.split()]
                 for (col, val) in enumerate(vals):
-                    if val > 0:
+                    if val != 0:
                         matrix[row, col] = val
             except ValueError as e:
                 print ("Can't read line " + str(row) + " from file " + str(infile) + " " + str(line))
-- 
2.43.0


From ce18c8e03eea3ce52057e93f86facbe2007c72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 123/123] fix: tables with lines of fewer or more numbers are
 refused, rather than filled up

---
 sidetopics/run/text_to_numpy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index b06689c..1089768 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -27,13 +27,15 @@ def save_as_numpy_sparse (infile, row_count):
         for line in f:
             try:
                 vals = [float(fstr) for fstr in line.split()]
-                for (col, val) in enumerate(vals):
-                    if val != 0:
-                        matrix[row, col] = val
             except ValueError as e:
                 print ("Can't read line " + str(row) + " from file " + str(infile) + " " + str(line))
                 die(str(e))
+            if len(vals) != col_count:
+                die ("Line %d has %d values but expected %d" % (row, len(vals), col_count))
 
+            for (col, val) in enumerate(vals):
+                if val != 0:
+                    matrix[row, col] = val
             row += 1
     if row != row_count:
         die ("Rows read is %d but expected row-count is %d" % (row, row_count))
@@ -57,6 +59,8 @@ def save_as_numpy (infile, row_count):
             except ValueError as e:
                 print ("Can't read line " + str(row) + " from file " + str(infile) + " " + str(line))
                 die(str(e))
+            if len(vals) != col_count:
+                die ("Line %d has %d values but expected %d" % (row, len(vals), col_count))
 
             matrix[row,:] = vals
             row += 1
-- 
2.43.0

