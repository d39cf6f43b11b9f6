From b31db97c6f04b674b720b19c4c7c4f70a6ab6800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:00 +0000
Subject: [PATCH 001/110] fix: scaledSelfSoftDot applies the row weights it is
 given

---
 sidetopics/util/sig_fast.pyx     | 8 ++++----
 sidetopics/util/sigmoid_utils.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/util/sig_fast.pyx b/sidetopics/util/sig_fast.pyx
index ef49f44..cd7b1cd 100644
--- a/sidetopics/util/sig_fast.pyx
+++ b/sidetopics/util/sig_fast.pyx
@@ -113,7 +113,7 @@ def selfSoftDot_f8_i8(double[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -148,7 +148,7 @@ def selfSoftDot_f4_i8(float[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -184,7 +184,7 @@ def selfSoftDot_f8_f8(double[:,:] mat, double[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -219,7 +219,7 @@ def selfSoftDot_f4_f4(float[:,:] mat, float[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
diff --git a/sidetopics/util/sigmoid_utils.py b/sidetopics/util/sigmoid_utils.py
index 54a7113..b07ff0c 100644
--- a/sidetopics/util/sigmoid_utils.py
+++ b/sidetopics/util/sigmoid_utils.py
@@ -102,5 +102,5 @@ def scaledSelfSoftDot(matrix, scale):
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (scaledSelfSoftDot)")
-    return np.sum(matrix * rowwise_softmax(matrix))
+    return np.sum(scale[:, np.newaxis] * matrix * rowwise_softmax(matrix))
 
-- 
2.43.0


From 1f76e5d56e390ef02841d8ce0ee0544be498f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:00 +0000
Subject: [PATCH 002/110] fix: vec-transpose fallbacks for dtypes without a
 compiled kernel

---
 sidetopics/util/vectrans.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/util/vectrans.py b/sidetopics/util/vectrans.py
index ce1b3b0..1604e10 100644
--- a/sidetopics/util/vectrans.py
+++ b/sidetopics/util/vectrans.py
@@ -86,7 +86,7 @@ def _vec_transpose_csr_jit(data, indices, indptr, shape, p):
     rows = np.ndarray((length,), dtype=np.int32)
     cols = np.ndarray((length,), dtype=np.int32)
     
-    newRows, newCols = shape[1] * p, shape[0] / p
+    newRows, newCols = shape[1] * p, shape[0] // p
     oldRow, oldCol = 0, 0
     
     dataPtr = 0
@@ -118,18 +118,18 @@ def vec_transpose(A, p):
         return np.array (compiled.vec_transpose_f8r (A, p))
     elif A.dtype == np.float32:
         return np.array(compiled.vec_transpose_f4r (A, p))
-    elif A.order == 'F':
+    elif np.isfortran(A):
         raise ValueError ("Not implemented for Fortran order matrices")
     
     # Fall back to pure Python 
     (oldRows, oldCols) = A.shape
-    newRows, newCols = oldCols * p, oldRows / p
+    newRows, newCols = oldCols * p, oldRows // p
     out = np.ndarray((newRows, newCols), dtype=A.dtype)
     
     for oldRow in range(oldRows):
         for oldCol in range(oldCols):
             newRow = oldCol * p + oldRow % p
-            newCol = oldRow / p
+            newCol = oldRow // p
             out[newRow, newCol] = A[oldRow, oldCol]
         
     return out
-- 
2.43.0


From b85e5c29c2d05a05078c6bff75228e1c731c01a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:00 +0000
Subject: [PATCH 003/110] fix: row ranges of the sparse kernels read the rows
 they are asked for

---
 sidetopics/util/se_fast.pyx | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sidetopics/util/se_fast.pyx b/sidetopics/util/se_fast.pyx
index 0b6d7b7..ec825be 100644
--- a/sidetopics/util/se_fast.pyx
+++ b/sidetopics/util/se_fast.pyx
@@ -275,6 +275,7 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
         int elemCount =0
         int e = 0
         int i = 0
+        int offset = A_ptr[start]
 
     with nogil:
         while A_row < end:
@@ -282,8 +283,8 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f8(B_row,col,B,C)
+                    col = A_indices[offset + i]
+                    out_data[i] = A_data[offset + i] / dotProduct_f8(B_row,col,B,C)
                     i += 1
                     e += 1
                 B_row += 1
@@ -322,6 +323,7 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
         int elemCount =0
         int e = 0
         int i = 0
+        int offset = A_ptr[start]
 
     with nogil:
         while A_row < end:
@@ -329,8 +331,8 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f4(B_row,col,B,C)
+                    col = A_indices[offset + i]
+                    out_data[i] = A_data[offset + i] / dotProduct_f4(B_row,col,B,C)
                     i += 1
                     e += 1
                 B_row += 1
@@ -510,6 +512,7 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
         int elemCount =0
         int e = 0
         int i = 0
+        int offset = A_ptr[start]
         double dotProd = 0.0
         double logOfMin = log (DBL_MIN)
     
@@ -519,9 +522,9 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col         = A_indices[i]
+                    col         = A_indices[offset + i]
                     dotProd     = dotProduct_f8(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
+                    out_data[i] = A_data[offset + i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
                     i += 1
                     e += 1
                 B_row += 1
@@ -585,6 +588,7 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
         int elemCount =0
         int e = 0
         int i = 0
+        int offset = A_ptr[start]
         float dotProd = 0.0
         float logOfMin = log (FLT_MIN)
 
@@ -594,9 +598,9 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
             e = 0
             if A_row >= start:
                 while e < elemCount:
-                    col         = A_indices[i]
+                    col         = A_indices[offset + i]
                     dotProd     = dotProduct_f4(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
+                    out_data[i] = A_data[offset + i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
                     i += 1
                     e += 1
                 B_row += 1
-- 
2.43.0


From 3eaddc0b92299d5e54a06a1fa9407b185714210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:00 +0000
Subject: [PATCH 004/110] fix: sparseScalarProductOfSafeLnDot writes to the out
 matrix it is given

---
 sidetopics/util/sparse_elementwise.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index dde26ab..f97c0aa 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -281,7 +281,6 @@ def sparseScalarProductOfSafeLnDot (A, B, C, out=None, start=None, end=None):
         # out = A.copy()
         # oldWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8_full(
         #      A.data, A.indices, A.indptr, B, C, out.data))
-        out = A.copy()
         newWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8(
              A.data, A.indices, A.indptr, B, C, out.data, 0, A.shape[0]))
 
-- 
2.43.0


From 23aac2200847e9d222b33b1c1280b5425e065db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:00 +0000
Subject: [PATCH 005/110] fix: sparse_elementwise.selfSoftDot calls the kernels
 that exist

---
 sidetopics/util/sparse_elementwise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index f97c0aa..e64668f 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -8,6 +8,7 @@ import os
 import numpy as np
 import scipy.sparse as ssp
 import sidetopics.util.se_fast as compiled
+import sidetopics.util.sig_fast as sig_compiled
 from math import log
 import sys
 from sidetopics.util.overflow_safe import safe_log
@@ -61,9 +62,9 @@ def selfSoftDot(matrix):
     '''
     assert not np.isfortran(matrix), "Matrix is not stored in row-major form"
     if matrix.dtype == np.float64:
-        return compiled.selfSoftDot_f8(matrix)
+        return sig_compiled.selfSoftDot_f8(matrix)
     elif matrix.dtype == np.float32:
-        return compiled.selfSoftDot_f4(matrix)
+        return sig_compiled.selfSoftDot_f4(matrix)
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (selfSoftDot)")
-- 
2.43.0


From cb896685d69bd91724896d6c972494d556653419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:00 +0000
Subject: [PATCH 006/110] fix: entropyOfDot fallback takes the log of the
 probability it weights

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index e64668f..00b1b4c 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -122,7 +122,7 @@ def entropyOfDot_py (topics, vocab):
         
         for k in range(K):
             for t in range(T):
-                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[d,k])
+                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[k,t])
     
     return result
 
-- 
2.43.0


From 37c363ec3d2094aff3b718d356eb24638e8099a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:00 +0000
Subject: [PATCH 007/110] fix: safe_log_one_plus keeps its rational
 approximation within its range

---
 sidetopics/util/overflow_safe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/util/overflow_safe.py b/sidetopics/util/overflow_safe.py
index dde5ad5..578d623 100644
--- a/sidetopics/util/overflow_safe.py
+++ b/sidetopics/util/overflow_safe.py
@@ -140,7 +140,7 @@ def safe_log_one_plus(x):
     '''
     
     out = np.ndarray(x.shape)
-    out[x > 0.375] = np.log(1. + x[x > 0.375])
+    out[np.abs(x) > 0.375] = np.log(1. + x[np.abs(x) > 0.375])
 
     # For smaller arguments we use a rational approximation
     # to the function log(1+x) to avoid the loss of precision
@@ -154,13 +154,13 @@ def safe_log_one_plus(x):
     q2 =   0.747811014037616e+00;
     q3 =  -0.845104217945565e-01;
 
-    buf = x[x <= 0.375]
+    buf = x[np.abs(x) <= 0.375]
     
     t = buf /(buf + 2.0);
     t2 = t*t;
     w = (((p3*t2 + p2)*t2 + p1)*t2 + 1.0)/(((q3*t2 + q2)*t2 + q1)*t2 + 1.0);
     
-    out[x <= 0.375] = 2.0*t*w
+    out[np.abs(x) <= 0.375] = 2.0*t*w
     
     return out
 
-- 
2.43.0


From 4d245f31f3831124dd060a92af1aa3132b816988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:38 +0000
Subject: [PATCH 008/110] fix: csr_indices returns a tuple, so that it indexes
 element-wise

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index 00b1b4c..51f12b8 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -390,4 +390,4 @@ def csr_indices(ptr, ind):
             rows[totalElemCount : totalElemCount + elemCount] = [r] * elemCount
         totalElemCount += elemCount
 
-    return [rows, ind.tolist()]
+    return rows, ind.tolist()
-- 
2.43.0


From e4c556b9cba78f25eeb5934762377d89973e0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 009/110] fix: DataSet converts dense words and links whether
 or not it is in debug mode

---
 sidetopics/model/common.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 3ec49ee..8badaa9 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -39,13 +39,13 @@ class DataSet:
             assert links is None or (type(links) is ssp.csr_matrix or auto_convert_to_sparse), "Links are not stored as a sparse CSR matrix"
             if words.shape[1] < 100:
                 logging.warning("Fewer than 100 words in the document-words matrix, which seems unlikely")
-        else:
-            if type(words) is not ssp.csr_matrix:
-                logging.warning("Converting words to sparse CSR matrix")
-                words = ssp.csr_matrix(words)
-            if (links is not None) and (type(links) is not ssp.csr_matrix):
-                logging.warning("Converting links to sparse CSR matrix")
-                links = ssp.csr_matrix(links)
+
+        if type(words) is not ssp.csr_matrix:
+            logging.warning("Converting words to sparse CSR matrix")
+            words = ssp.csr_matrix(words)
+        if (links is not None) and (type(links) is not ssp.csr_matrix):
+            logging.warning("Converting links to sparse CSR matrix")
+            links = ssp.csr_matrix(links)
 
         # Now that the checks are done with, assign the values and apply the ordering.
         self._words = words
-- 
2.43.0


From b052f66d8db5191c5b6786325324407655741689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 010/110] fix: DataSet keeps only the first documents when
 given a limit

---
 sidetopics/model/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 8badaa9..0fd6fa9 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -56,6 +56,11 @@ class DataSet:
 
         num_docs = words.shape[0]
         if 0 < limit < num_docs:
+            first = np.arange(limit)
+            self._words = words[first, :]
+            self._feats = None if feats is None else feats[first, :]
+            self._links = _reorder_link_matrix(links, first)
+            self._doc_categories = None if doc_categories is None else doc_categories[:limit]
             order = np.linspace(0, limit - 1, limit).astype(np.int32) \
                 if order is None \
                 else order[:limit]
-- 
2.43.0


From c3e3db93af41a3264ec0284e9f6308174c184633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 011/110] fix: DataSet selects rows of categories and
 dictionaries that are lists or absent

---
 sidetopics/model/common.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 0fd6fa9..2b3672f 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -171,7 +171,7 @@ class DataSet:
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
-        pruned_dict = self._word_dict[list(retain_word_ids)]
+        pruned_dict = _select(self._word_dict, retain_word_ids)
 
         return DataSet(
             pruned_words,
@@ -306,7 +306,7 @@ class DataSet:
         Maybe this should update the order property as well...
         """
         self._words = self._words[order, :]
-        self._doc_categories = self._doc_categories[list(order)]
+        self._doc_categories = _select(self._doc_categories, order)
         self._feats = None if self._feats is None else self._feats[order, :]
         self._links = _reorder_link_matrix(self._links, order)
 
@@ -425,7 +425,7 @@ class DataSet:
             None if self._feats is None else self._feats[train_range],
             None if self._links is None else self._links[train_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(train_range)],
+            doc_categories=_select(self._doc_categories, train_range),
             order=self._order[train_range],
             debug=debug
         )
@@ -434,7 +434,7 @@ class DataSet:
             None if self._feats is None else self._feats[query_range],
             None if self._links is None else self._links[query_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(query_range)],
+            doc_categories=_select(self._doc_categories, query_range),
             order=self._order[query_range],
             debug=debug
         )
@@ -748,6 +748,18 @@ def _folded_split(X, fold_id, fold_count, min_link_count):
     return L, R, docSubset
 
 
+def _select(items, indices):
+    """
+    Returns the given items - a list or an array, or None if there are none - at
+    the given indices, in that order
+    """
+    if items is None:
+        return None
+    if isinstance(items, np.ndarray):
+        return items[list(indices)]
+    return [items[i] for i in indices]
+
+
 def _reorder_link_matrix(matrix, order):
     """
     Returns a matrix containing only the given rows (in order).
-- 
2.43.0


From a31274b2853b8fdd50d48898e12f69f90341ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 012/110] fix: deep copies of a DataSet

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 2b3672f..246efe7 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -149,12 +149,12 @@ class DataSet:
     def copy(self, deep=False):
         if deep:
             return DataSet(
-                self._words.copy(deep=True),
-                self._feats.copy(deep=True) if self._feats is not None else None,
-                self._links.copy(deep=True) if self._links is not None else None,
+                self._words.copy(),
+                self._feats.copy() if self._feats is not None else None,
+                self._links.copy() if self._links is not None else None,
                 list(self._word_dict) if self._word_dict is not None else None,
                 list(self._doc_categories) if self._doc_categories is not None else None,
-                self._order.copy(deep=True) if self._order is not None else None
+                self._order.copy() if self._order is not None else None
             )
         else:
             return DataSet(
-- 
2.43.0


From 2efb71bbeeab04ef7aee83da0bec49163f953730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 013/110] fix: np.bool no longer exists

---
 sidetopics/model/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 246efe7..5d122ed 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -344,7 +344,7 @@ class DataSet:
         """
         rng = rd.RandomState(seed)
 
-        tmp = self._words.astype(np.bool).astype(np.int32)
+        tmp = self._words.astype(bool).astype(np.int32)
 
         unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
         if unique_word_counts.min() < min_unique_word_count:
@@ -484,8 +484,8 @@ class DataSet:
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(np.bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(np.bool).sum(axis=1)))
+            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
+            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
-- 
2.43.0


From 485b6519e4b053a6704477664e891bbc24bbeba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 014/110] fix: document completion never gives a part fewer
 than none of a word's occurrences

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 5d122ed..fa58fba 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -474,7 +474,7 @@ class DataSet:
         dat    = self._words.data
         jitter = rng.normal(scale=est_prop * 0.666, size=len(dat))
         evl    = dat + jitter
-        est    = np.around(evl * est_prop)
+        est    = np.clip(np.around(evl * est_prop), 0, dat)
         evl    = dat - est
 
         est = est.astype(self._words.dtype)
-- 
2.43.0


From c46603c62f13771568831601f4b90290c863aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 015/110] fix: document completion keeps order and categories
 of the remaining documents

---
 sidetopics/model/common.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index fa58fba..c7ab3a7 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -483,6 +483,7 @@ class DataSet:
         words_train = ssp.csr_matrix((est, self._words.indices, self._words.indptr), shape=self._words.shape)
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
+        order, doc_categories = self._order, self._doc_categories
         if min_unique_word_count > 0:
             t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
             q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
@@ -493,15 +494,17 @@ class DataSet:
             if len(tq_good) != words_train.shape[0]:
                 words_train = words_train[tq_good,:]
                 words_query = words_query[tq_good,:]
-                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good)), min_unique_word_count, len(tq_good))
-                
+                order = _select(order, tq_good)
+                doc_categories = _select(doc_categories, tq_good)
+                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good), min_unique_word_count, len(tq_good)))
+
                 # FIXME Need to handle links and feats as well...
                 if (self._feats is not None) or (self._links is not None):
                     raise ValueError ("Not implemented for features and/or links")
 
         return \
-            DataSet(words_train, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug), \
-            DataSet(words_query, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug)
+            DataSet(words_train, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug), \
+            DataSet(words_query, self._feats, self._links, self._word_dict, doc_categories, order, debug=debug)
 
 
     def link_prediction_split(self, symmetric=True, seed=0xC0FFEE):
-- 
2.43.0


From ea040c7595b6d0dd54e087e7ae15442ea0ea3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 016/110] fix: random link splits cut at a whole number and
 keep the weight of self-links

---
 sidetopics/model/common.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index c7ab3a7..fa18b21 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -622,7 +622,7 @@ def _split(X, rng):
 
     ind = np.arange(nnz)
     rng.shuffle (ind)
-    split_point = nnz / 2
+    split_point = nnz // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
@@ -636,22 +636,14 @@ def _symm_csr(dat, row, col, shape):
     """
     Creates a symmetric matrix from the given data and row and column coordinates,
     where the coorindates are for the upper triangle only. These are then copied
-    to create the lower-triangle. The returned matrix is in CSR format.
+    to create the lower-triangle, except for the diagonal. The returned matrix is
+    in CSR format.
     """
-    count = len(dat)
+    off_diag = row != col
 
-    nu_dat = np.ndarray(shape=(count*2,), dtype=dat.dtype)
-    nu_row = np.ndarray(shape=(count*2,),  dtype=row.dtype)
-    nu_col = np.ndarray(shape=(count*2,),  dtype=col.dtype)
-
-    nu_dat[:count] = dat
-    nu_dat[count:] = dat
-
-    nu_row[:count] = row
-    nu_row[count:] = col
-
-    nu_col[:count] = col
-    nu_col[count:] = row
+    nu_dat = np.concatenate((dat, dat[off_diag]))
+    nu_row = np.concatenate((row, col[off_diag]))
+    nu_col = np.concatenate((col, row[off_diag]))
 
     return ssp.coo_matrix((nu_dat, (nu_row, nu_col)), shape=shape).tocsr()
 
@@ -673,7 +665,7 @@ def _split_symm(X, rng):
 
     ind = np.array([i for i in range(nnz) if row[i] >= col[i]], dtype=np.int32)
     rng.shuffle(ind)
-    split_point = len(ind) / 2
+    split_point = len(ind) // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
-- 
2.43.0


From 74dae32725033642e5834e1b31652af916711acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 017/110] fix: link splits keep the order of the documents

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index fa18b21..1232d1c 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -527,8 +527,8 @@ class DataSet:
             links_train, links_query = _split(self._links, rng)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories)
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order)
 
 
     def folded_link_prediction_split(self, min_link_count, fold_id, fold_count, symmetric=False):
@@ -550,8 +550,8 @@ class DataSet:
             links_train, links_query, docSubset = _folded_split(self._links, fold_id, fold_count, min_link_count)
 
         return \
-            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories), \
-            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories), \
+            DataSet(self._words, self._feats, links_train, self._word_dict, self._doc_categories, self._order), \
+            DataSet(self._words, self._feats, links_query, self._word_dict, self._doc_categories, self._order), \
             docSubset
 
     def split_on_feature(self, features):
-- 
2.43.0


From 0a6bb88e60c44e86173aea8be684b12b5699bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 018/110] fix: folded link splits put the links of documents
 with too few only in the training part

---
 sidetopics/model/common.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 1232d1c..c03f997 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -710,9 +710,7 @@ def _folded_split(X, fold_id, fold_count, min_link_count):
             Ldat += vals
             Lptr.append(Lptr[-1] + len(cols))
 
-            Rind += cols
-            Rdat += vals
-            Rptr.append(Rptr[-1] + len(cols))
+            Rptr.append(Rptr[-1])
         else:
             query_size   = col_count // fold_count
             query_start  = start + query_size * fold_id
-- 
2.43.0


From 2a65c1551d22daafa6dcf5f04ac0be80e26a92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:03 +0000
Subject: [PATCH 019/110] fix: split_on_feature works without links and for
 features of any dtype

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index c03f997..37064c3 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -565,7 +565,7 @@ class DataSet:
         data
         """
         def two_dim_reorder(matrix, row_order, col_order):
-            return (matrix[row_order,:])[:,col_order]
+            return None if matrix is None else (matrix[row_order,:])[:,col_order]
 
         Epsilon = 1E-30
         assert self._feats is not None, "Need features to make this split"
@@ -573,19 +573,19 @@ class DataSet:
 
         mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
         trainDocs = np.where(mask < Epsilon)[0]
-        queryDocs = np.where(np.ndarray(buffer=self._feats[:,features[0]].todense(), shape=(self._feats.shape[0],)) > Epsilon)[0]
+        queryDocs = np.where(np.asarray(self._feats[:,[features[0]]].todense()).ravel() > Epsilon)[0]
 
         return DataSet(words=self._words[trainDocs,:],
                        feats=self._feats[trainDocs,:],
                        links=two_dim_reorder(self._links, trainDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_select(self._doc_categories, trainDocs),
                        order=self._order[trainDocs]), \
                DataSet(words=self._words[queryDocs,:],
                        feats=self._feats[queryDocs,:],
                        links=two_dim_reorder(self._links, queryDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_select(self._doc_categories, queryDocs),
                        order=self._order[queryDocs]), \
                trainDocs
 
-- 
2.43.0


From b3829c2dced1574027126b7be3093d5cd03bcf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:43 +0000
Subject: [PATCH 020/110] fix: an intercept is a feature that is one
 everywhere, not one averaging at least one

---
 sidetopics/model/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 37064c3..6c78919 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -9,6 +9,8 @@ import logging
 
 from gensim.corpora.dictionary import Dictionary
 
+from sidetopics.util.misc import to_dense_array
+
 class DataSet:
 
     def __init__(self, words, feats=None, links=None, word_dict=None, doc_categories=None,
@@ -289,8 +291,9 @@ class DataSet:
         if self._feats is None:
             return;
 
-        means = self._feats.mean(axis=0)
-        if means.max() < (1-1E-30):
+        mins = to_dense_array(self._feats.min(axis=0))
+        maxs = to_dense_array(self._feats.max(axis=0))
+        if not np.any((mins == 1) & (maxs == 1)):
             self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1))), "csr")
             return True
 
-- 
2.43.0


From 1118f699de57f628556a238173f9a71ff04f6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:10 +0000
Subject: [PATCH 021/110] fix: document lengths of a single document are a
 vector of one

---
 sidetopics/model/dmr_fast.pyx       | 2 +-
 sidetopics/model/lda_cvb.py         | 2 +-
 sidetopics/model/lda_cvb0.py        | 2 +-
 sidetopics/model/lda_gibbs_fast.pyx | 2 +-
 sidetopics/model/lda_vb_python.py   | 2 +-
 sidetopics/model/mom_em.py          | 2 +-
 sidetopics/model/mom_gibbs.py       | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 276c3f3..987f68d 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -366,7 +366,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.asarray(sparseMat.sum(axis=1)).reshape(-1)
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
 
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7479cf7..e9ccc50 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -177,7 +177,7 @@ def wordDists(model):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).reshape(-1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 0316bfb..a85d530 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -162,7 +162,7 @@ def newQueryState(data, modelState, debug=False):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.asarray(w_csr.sum(axis=1)).reshape(-1).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index c3c5674..2b0cf46 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -307,7 +307,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.asarray(sparseMat.sum(axis=1)).reshape(-1)
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
     
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index c6a0a10..7575944 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -122,7 +122,7 @@ def newQueryState(data, modelState, debug=False):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index b08f882..e70c783 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -127,7 +127,7 @@ def newQueryState(data, modelState, debug):
     if debug:
         print("Ignoring setting of debug to True")
 
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 917be31..137c5d2 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -113,7 +113,7 @@ def newQueryState(data, modelState, debug):
     '''
     if debug:
         print("Ignoring setting of debug to True")
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
-- 
2.43.0


From 8ac4d7215ab9e74d75d90b9e9c7a45e9e144942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:10 +0000
Subject: [PATCH 022/110] fix: lda_cvb.py copies its variances and accepts
 priors that are plain numbers

---
 sidetopics/model/lda_cvb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index e9ccc50..f3fd3d3 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -71,14 +71,14 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
+        None if model.topicPrior is None else np.copy(model.topicPrior), \
         model.vocabPrior, \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
-        None if model.v_dk is None else model.n_dk.copy(), \
-        None if model.v_kt is None else model.n_kt.copy(), \
-        None if model.v_k  is None else model.n_k.copy(),  \
+        None if model.v_dk is None else model.v_dk.copy(), \
+        None if model.v_kt is None else model.v_kt.copy(), \
+        None if model.v_k  is None else model.v_k.copy(),  \
         model.dtype,       \
         model.name)
 
@@ -227,7 +227,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         modelState.K, modelState.topicPrior, modelState.vocabPrior, \
         modelState.n_dk, modelState.n_kt, modelState.n_k, \
         modelState.v_dk, modelState.v_kt, modelState.v_k
-    topicPrior = topicPrior_.mean()
+    topicPrior = np.mean(topicPrior_)
 
     D_train = 0 if m_n_dk is None else m_n_dk.shape[0]
     D_query = q_n_dk.shape[0]
-- 
2.43.0


From 276417c0507fd45297ac57a1e9d98ed5f4fee2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:10 +0000
Subject: [PATCH 023/110] fix: lda_cvb0.py accepts priors that are plain
 numbers

---
 sidetopics/model/lda_cvb0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index a85d530..dc94833 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -73,7 +73,7 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
+        None if model.topicPrior is None else np.copy(model.topicPrior), \
         model.vocabPrior, \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
@@ -216,7 +216,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         queryState.W_list, queryState.docLens, queryState.n_dk, queryState.n_kt, queryState.n_k, queryState.z_dnk
     K, topicPrior_, vocabPrior, m_n_dk, m_n_kt, m_n_k = \
         modelState.K, modelState.topicPrior, modelState.vocabPrior, modelState.n_dk, modelState.n_kt, modelState.n_k
-    topicPrior = topicPrior_.mean()
+    topicPrior = np.mean(topicPrior_)
 
     D_train = 0 if m_n_dk is None else m_n_dk.shape[0]
     D_query = q_n_dk.shape[0]
-- 
2.43.0


From 7554293200e057c68f78ece3d1769ad0e5fc8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:10 +0000
Subject: [PATCH 024/110] fix: further training keeps the topic counts apart
 from their variances

---
 sidetopics/model/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index f3fd3d3..75fcbaf 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -319,7 +319,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
                                  # sum of old and new, and can just be copied across
             m_v_dk = np.vstack((m_v_dk, q_v_dk))
             m_v_kt[:,:] = q_v_kt
-            m_n_k[:]    = q_v_k
+            m_v_k[:]    = q_v_k
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
-- 
2.43.0


From 5f7eb8fc7c40d28d6fedf699de8f705007ea7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:10 +0000
Subject: [PATCH 025/110] fix: single-precision CVB updates variances with
 variances

---
 sidetopics/model/lda_cvb_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index 4a5965a..6b47293 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -501,7 +501,7 @@ def iterate_f32(int iterations, int D_query, int D_train, int K, int T, \
                             q_n_kt[k,t] += diff
                             q_n_k[k]    += diff
 
-                            diff         = mems[k] - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
+                            diff         = (mems[k] * (1 - mems[k])) - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
                             q_v_dk[d,k] += diff
                             q_v_kt[k,t] += diff
                             q_v_k[k]    += diff
-- 
2.43.0


From 5cd295c796e974e675e6195ac5cf0314df9d44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:10 +0000
Subject: [PATCH 026/110] fix: DataSet sums over rows and columns stay vectors
 for one document or word

---
 sidetopics/model/common.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 6c78919..96a6b89 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -169,7 +169,7 @@ class DataSet:
             )
 
     def words_with_min_freq(self, min_doc_count_incl: int = 10) -> "DataSet":
-        docs_per_word_count = np.squeeze(np.array(self.words.astype(bool).sum(axis=0)))
+        docs_per_word_count = np.asarray(self.words.astype(bool).sum(axis=0)).reshape(-1)
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
@@ -220,7 +220,7 @@ class DataSet:
 
     @property
     def doc_lens(self):
-        return np.squeeze(np.array(self.words.sum(axis=1)))
+        return np.asarray(self.words.sum(axis=1)).reshape(-1)
 
     @property
     def order(self):
@@ -349,7 +349,7 @@ class DataSet:
 
         tmp = self._words.astype(bool).astype(np.int32)
 
-        unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
+        unique_word_counts = np.asarray(tmp.sum(axis=1)).reshape(-1)
         if unique_word_counts.min() < min_unique_word_count:
             good_rows = (np.where(unique_word_counts >= min_unique_word_count))[0]
             self._order = good_rows
@@ -369,13 +369,13 @@ class DataSet:
 
         trimmed = False
         original_num_docs = self.doc_count
-        link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+        link_counts = np.asarray(self._links.sum(axis=1)).reshape(-1)
         sufficient_docs = np.where(link_counts >= min_link_count)[0]
         while len(sufficient_docs) < self._links.shape[0]:
             trimmed = True
             self._reorder(sufficient_docs)
             self._order = self._order[sufficient_docs]
-            link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+            link_counts = np.asarray(self._links.sum(axis=1)).reshape(-1)
             sufficient_docs = np.where(link_counts >= min_link_count)[0]
 
         if trimmed:
@@ -488,8 +488,8 @@ class DataSet:
 
         order, doc_categories = self._order, self._doc_categories
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
+            t_lens = np.asarray(words_train.astype(bool).sum(axis=1)).reshape(-1)
+            q_lens = np.asarray(words_query.astype(bool).sum(axis=1)).reshape(-1)
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
-- 
2.43.0


From 013577f24068ad03ba9aa07509e0cce5072635c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:10 +0000
Subject: [PATCH 027/110] fix: document lengths stay vectors for one document
 in the remaining models

---
 sidetopics/model/ctm.py                        |  2 +-
 sidetopics/model/ctm_bohning.py                |  2 +-
 sidetopics/model/ctm_bohning_fast.py           |  2 +-
 sidetopics/model/ctm_grad_arb.py               |  2 +-
 sidetopics/model/mom_em.py                     |  2 +-
 sidetopics/model/mtm.py                        |  4 ++--
 sidetopics/model/mtm2.py                       |  4 ++--
 sidetopics/model/mtm3.py                       | 12 ++++++------
 sidetopics/model/rtm.py                        |  2 +-
 sidetopics/model/self_lda_vb_python.py         |  2 +-
 sidetopics/model/sim_based_rec.py              |  6 +++---
 sidetopics/model/stm_uv_vec_y_bohning.py       |  2 +-
 sidetopics/model/stm_uv_vecy_bohning.py        |  2 +-
 sidetopics/model/stm_yv_bohning.py             |  2 +-
 sidetopics/model/stm_yv_bohning_fake_online.py |  2 +-
 15 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 1f2ade9..0bf3992 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -131,7 +131,7 @@ def newQueryState(data, modelState):
     W   = data.words
     D,T = W.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(W.sum(axis=1)))
+    docLens = np.asarray(W.sum(axis=1)).reshape(-1)
     
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 6159fb8..bd0118c 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_bohning_fast.py b/sidetopics/model/ctm_bohning_fast.py
index dc1645e..dbb36be 100644
--- a/sidetopics/model/ctm_bohning_fast.py
+++ b/sidetopics/model/ctm_bohning_fast.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 6159fb8..bd0118c 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index e70c783..f20a562 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -343,7 +343,7 @@ def log_likelihood_expected(data: DataSet, model: ModelState, query: QueryState)
     #     lls += np.log(corpusTopicDist(model))[np.newaxis, :]
 
     # p(X = x|z=k, beta)
-    doc_lens = np.squeeze(np.array(data.words.sum(axis=1)))
+    doc_lens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     beta = wordDistsDirichletParam(model)  # K x T
     beta_sum = beta.sum(axis=1)  # K x 1
diff --git a/sidetopics/model/mtm.py b/sidetopics/model/mtm.py
index 7c094e8..b07f83d 100644
--- a/sidetopics/model/mtm.py
+++ b/sidetopics/model/mtm.py
@@ -105,7 +105,7 @@ def newQueryState(data, model):
     :return: a new QueryState object
     '''
     D, Q, K = data.doc_count, model.Q, model.K
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Use one large matrix, partitioned into submatrices, to try to make this
     # a little more cache friendly.
@@ -135,7 +135,7 @@ def newQueryState(data, model):
     exp_tsums_bytop    = topics.sum(axis=0)
     np.log(topics, out=topics)
 
-    out_counts = docLens + np.squeeze(np.asarray(data.links.sum(axis=0)))
+    out_counts = docLens + np.asarray(data.links.sum(axis=0)).reshape(-1)
     in_counts = np.empty((K,), dtype=model.dtype) # Just invent a nonsense value
     in_counts.fill(data.links.sum() / K)
 
diff --git a/sidetopics/model/mtm2.py b/sidetopics/model/mtm2.py
index e21b653..99e007c 100644
--- a/sidetopics/model/mtm2.py
+++ b/sidetopics/model/mtm2.py
@@ -154,7 +154,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
     
     means = normalizerows_ip(rd.random((D,K)).astype(dtype))
     varcs = np.ones((D,K), dtype=dtype)
@@ -191,7 +191,7 @@ def train (data, modelState, queryState, trainPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).reshape(-1)
 
     # Unpack the the structs, for ease of access and efficiency
     iterations, epsilon, logFrequency, diagonalPriorCov, debug = trainPlan.iterations, trainPlan.epsilon, trainPlan.logFrequency, trainPlan.fastButInaccurate, trainPlan.debug
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 7f36378..a7ba314 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -186,7 +186,7 @@ def _newQueryStateFromCtm(data, model):
 
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     outMeans = ctm_query.means
     outVarcs = np.ones((D,K), dtype=dtype)
@@ -216,7 +216,7 @@ def _newQueryStateFromLda(data, model, ldaQueryState):
 
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     outMeans = np.log(lda_topics(ldaQueryState))
     m = outMeans.mean()
@@ -258,7 +258,7 @@ def newQueryState(data, modelState, withLdaTopics=None):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
     
     outMeans = normalizerows_ip(rd.random((D,K)).astype(dtype))
     outVarcs = np.ones((D,K), dtype=dtype)
@@ -300,7 +300,7 @@ def train (data, modelState, queryState, trainPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).reshape(-1)
 
     # Unpack the the structs, for ease of access and efficiency
     iterations, epsilon, logFrequency, diagonalPriorCov, debug = trainPlan.iterations, trainPlan.epsilon, trainPlan.logFrequency, trainPlan.fastButInaccurate, trainPlan.debug
@@ -508,7 +508,7 @@ def query(data, modelState, queryState, queryPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).reshape(-1)
 
     # Book-keeping for logs
     boundIters, boundValues, likelyValues = [], [], []
@@ -653,7 +653,7 @@ def var_bound(data, modelState, queryState):
     top_sums  += expMeansOut * (L_weights.dot(expMeansIn) / lse_at_k[np.newaxis, :])
 
     # E[p(Z,Y)]
-    linkLens = np.squeeze(np.array(L.sum(axis=1)))
+    linkLens = np.asarray(L.sum(axis=1)).reshape(-1)
     bound += np.sum(outMeans * top_sums)
     bound -= np.sum((docLens + linkLens) * np.log(np.sum(expMeansOut, axis=1)))
 
diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 07dd63f..74a70b7 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -118,7 +118,7 @@ def newQueryState(data, modelState):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/self_lda_vb_python.py b/sidetopics/model/self_lda_vb_python.py
index 8ac80ae..48ca65e 100644
--- a/sidetopics/model/self_lda_vb_python.py
+++ b/sidetopics/model/self_lda_vb_python.py
@@ -105,7 +105,7 @@ def newQueryState(data, modelState):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 5c73813..bcfa1f1 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -175,13 +175,13 @@ def train (data, model, query, trainPlan, isQuery=False):
     # Step 1: Learn the topics using vanilla LDA
     if method == TF_IDF:
         # First do TF
-        docLens = np.squeeze(np.array(data.words.sum(axis=1)))
+        docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
         reps = data.words.copy()
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
         reps = ssp.diags(np.reciprocal(docLens), 0).dot(reps)
 
         occ  = data.words.astype(np.bool).astype(dtype)
-        docCount = np.squeeze(np.array(occ.sum(axis=0)))
+        docCount = np.asarray(occ.sum(axis=0)).reshape(-1)
         docCount += 1
         idf = np.log(D / docCount)
 
@@ -397,7 +397,7 @@ def csr_row_norms(X):
 
     X2 = ssp.csr_matrix((norm_dat, X.indices, X.indptr), shape=X.shape)
 
-    norms = np.squeeze(np.array(X2.sum(axis=1)))
+    norms = np.asarray(X2.sum(axis=1)).reshape(-1)
     norms **= 0.5
 
     return norms
diff --git a/sidetopics/model/stm_uv_vec_y_bohning.py b/sidetopics/model/stm_uv_vec_y_bohning.py
index c8404b4..9a6c509 100644
--- a/sidetopics/model/stm_uv_vec_y_bohning.py
+++ b/sidetopics/model/stm_uv_vec_y_bohning.py
@@ -178,7 +178,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     means = normalizerows_ip(rd.random((D,K)).astype(dtype))
     
diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index f9024d6..87a9f77 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -135,7 +135,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 9d2eb83..b7325cc 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -136,7 +136,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
diff --git a/sidetopics/model/stm_yv_bohning_fake_online.py b/sidetopics/model/stm_yv_bohning_fake_online.py
index 44abd57..a52bdc8 100644
--- a/sidetopics/model/stm_yv_bohning_fake_online.py
+++ b/sidetopics/model/stm_yv_bohning_fake_online.py
@@ -138,7 +138,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
-- 
2.43.0


From 3f858407727b4e2d16255e781fc0b92acbc8ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:22 +0000
Subject: [PATCH 028/110] fix: lda_cvb.py evaluates likelihoods on copies of
 the counts

---
 sidetopics/model/lda_cvb.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 75fcbaf..9987e32 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -399,6 +399,7 @@ def log_likelihood (data, modelState, queryState):
     if np.isscalar(a) or type(a) is float:
         a = constantArray((modelState.K,), a, n_dk.dtype)
 
+    n_dk, n_kt = n_dk.copy(), n_kt.copy()
     n_dk += a[np.newaxis, :]
     n_kt += b
 
@@ -413,13 +414,6 @@ def log_likelihood (data, modelState, queryState):
     # faster still by not materializing the (admittedly sparse) matrix
     ln_likely = sparseScalarProductOfSafeLnDot(data.words.astype(n_dk.dtype), n_dk, n_kt).sum()
 
-    # Rescale back to word-counts
-    n_dk *= doc_norm[:,np.newaxis]
-    n_kt *= voc_norm[:,np.newaxis]
-
-    n_dk -= a[np.newaxis, :]
-    n_kt -= b
-
     return ln_likely
 
 
-- 
2.43.0


From 695c77faca6ee3ddbd6be69eb1fe562010fc9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:22 +0000
Subject: [PATCH 029/110] fix: lda_cvb0.py evaluates likelihoods on copies of
 the counts

---
 sidetopics/model/lda_cvb0.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index dc94833..117882d 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -368,6 +368,7 @@ def log_likelihood_point(data, modelState, queryState):
     W = data.words if data.words.dtype is modelState.dtype \
         else data.words.astype(modelState.dtype)
 
+    n_dk, n_kt = n_dk.copy(), n_kt.copy()
     n_dk += a[np.newaxis, :]
     n_kt += b
 
@@ -382,13 +383,6 @@ def log_likelihood_point(data, modelState, queryState):
     # faster still by not materializing the (admittedly sparse) matrix
     ln_likely = sparseScalarProductOfSafeLnDot(W, n_dk, n_kt).sum()
 
-    # Rescale back to word-counts
-    n_dk *= doc_norm[:,np.newaxis]
-    n_kt *= voc_norm[:,np.newaxis]
-
-    n_dk -= a[np.newaxis, :]
-    n_kt -= b
-
     return ln_likely
 
 
-- 
2.43.0


From bee66ec178069ace3fd1239099595755f04ef136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:22 +0000
Subject: [PATCH 030/110] fix: CVB and CVB0 run no more iterations than asked
 for

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 9987e32..a1edc91 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -239,7 +239,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 117882d..8857e9c 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -228,7 +228,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
-- 
2.43.0


From 8c4a4dfeaf5055c7a3ef3eee061a544574a757b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 031/110] fix: split_on_feature works for a single document

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 96a6b89..34ac6bb 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -574,7 +574,7 @@ class DataSet:
         assert self._feats is not None, "Need features to make this split"
         assert len(features) > 0, "Need at least two features for this to work"
 
-        mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
+        mask      = np.asarray(np.abs(self._feats[:,features].sum(axis=1))).reshape(-1)
         trainDocs = np.where(mask < Epsilon)[0]
         queryDocs = np.where(np.asarray(self._feats[:,[features[0]]].todense()).ravel() > Epsilon)[0]
 
-- 
2.43.0


From 6015797680d1364f09d6a274afde53b004a6a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 032/110] fix: the entropy of topic assignments is finite where
 a topic is impossible

---
 sidetopics/model/lda_cvb0_fast.pyx | 6 ++++--
 sidetopics/model/lda_cvb_fast.pyx  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb0_fast.pyx b/sidetopics/model/lda_cvb0_fast.pyx
index 0c8a989..981d2c0 100644
--- a/sidetopics/model/lda_cvb0_fast.pyx
+++ b/sidetopics/model/lda_cvb0_fast.pyx
@@ -610,7 +610,8 @@ def jagged_entropy_f32 (float[:,:,:] z_dnk, int[:] docLens):
         for d in range(D):
             for n in range(docLens[d]):
                 for k in range(K):
-                    entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
+                    if z_dnk[d,n,k] > 0:
+                        entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
 
     return entropy
 
@@ -637,7 +638,8 @@ def jagged_entropy_f64 (double[:,:,:] z_dnk, int[:] docLens):
         for d in range(D):
             for n in range(docLens[d]):
                 for k in range(K):
-                    entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
+                    if z_dnk[d,n,k] > 0:
+                        entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
 
     return entropy
 
diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index 6b47293..ea255dd 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -675,7 +675,8 @@ def jagged_entropy_f32 (float[:,:,:] z_dnk, int[:] docLens):
         for d in range(D):
             for n in range(docLens[d]):
                 for k in range(K):
-                    entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
+                    if z_dnk[d,n,k] > 0:
+                        entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
 
     return entropy
 
@@ -702,7 +703,8 @@ def jagged_entropy_f64 (double[:,:,:] z_dnk, int[:] docLens):
         for d in range(D):
             for n in range(docLens[d]):
                 for k in range(K):
-                    entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
+                    if z_dnk[d,n,k] > 0:
+                        entropy -= z_dnk[d,n,k] * log(z_dnk[d,n,k])
 
     return entropy
 
-- 
2.43.0


From 331d6ebf0136c2eeb2505c42f3e9fce5bcf391a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 033/110] fix: the CVB and CVB0 bounds add the entropy of the
 assignments

---
 sidetopics/model/lda_cvb.py  | 4 ++--
 sidetopics/model/lda_cvb0.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index a1edc91..3acb84e 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -456,9 +456,9 @@ def var_bound(data, modelState, queryState):
         # The entropy of z_dnk. Have to do this in a loop as z_dnk is
         # is jagged in it's third dimension.
         if modelState.dtype == np.float32:
-            bound -= compiled.jagged_entropy_f32 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f32 (z_dnk, docLens)
         elif modelState.dtype == np.float64:
-            bound -= compiled.jagged_entropy_f64 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f64 (z_dnk, docLens)
         else:
             raise ValueError ("No implementation defined for dtype " + str(modelState.dtype))
     except OverflowError:
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 8857e9c..f074c7d 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -425,9 +425,9 @@ def log_likelihood_expected(data, modelState, queryState):
         # The entropy of z_dnk. Have to do this in a loop as z_dnk is
         # is jagged in it's third dimension.
         if modelState.dtype == np.float32:
-            bound -= compiled.jagged_entropy_f32 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f32 (z_dnk, docLens)
         elif modelState.dtype == np.float64:
-            bound -= compiled.jagged_entropy_f64 (z_dnk, docLens)
+            bound += compiled.jagged_entropy_f64 (z_dnk, docLens)
         else:
             raise ValueError ("No implementation defined for dtype " + str(modelState.dtype))
     except OverflowError:
-- 
2.43.0


From 07d9f5ce2215d30be3e25c4abc09ae9d7e100ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 034/110] fix: the Gibbs sampler is seeded with the seed given

---
 sidetopics/model/lda_gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 980f956..5c6cfcb 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -176,8 +176,8 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
 
 
 def seed_rng(seed):
-    rd.seed(0xC0FFEE)
-    compiled.initGlobalRng(0xC0FFEE)
+    rd.seed(seed)
+    compiled.initGlobalRng(seed % (2 ** 31))
 
 
 def train (_, model, query, plan):
-- 
2.43.0


From c92b267d293f12475aae1b4bdc55480f8cb45720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 035/110] fix: a Gibbs query returns the model with its own
 sample count

---
 sidetopics/model/lda_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 5c6cfcb..bc47aab 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -253,7 +253,7 @@ def query (data, model, query, plan):
             topicPrior, adjustedVocabPrior, True, debug)
 
     return \
-        ModelState (K, T, topicPrior, vocabPrior, topicSum, vocabSum, numSamples, model.processed, dtype, name), \
+        ModelState (K, T, topicPrior, vocabPrior, model.topicSum, vocabSum, model.numSamples, model.processed, dtype, name), \
         QueryState (w_list, z_list, docLens, topicSum, numSamples, True)
 
 
-- 
2.43.0


From 9124be9711669614c7ee08af874c5e16f7f20354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 036/110] fix: the default thinning of the Gibbs sampler leaves
 at least one sample

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index bc47aab..d92058e 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -171,6 +171,7 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
         thin = 5 if iterations <= 100 \
             else 10 if iterations <= 1000 \
             else 50
+        thin = max(1, min(thin, iterations))
 
     return TrainPlan(iterations + burnIn, burnIn, thin, logFrequency, debug)
 
-- 
2.43.0


From ae8b47b4e5059565bc1c069677c302eb51ec03fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 037/110] fix: the Gibbs sampler always draws a valid topic

---
 sidetopics/model/lda_gibbs_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index 2b0cf46..6751150 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -244,7 +244,7 @@ def sample ( \
 
                     # Choose a new topic for the current word
                     k = -1
-                    draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
+                    draw = (rand() + 1.0) / (RAND_MAX + 1.0) * distNorm #gsl_rng_uniform (global_rng) * distNorm
                     while draw > 0:
                         k = (k + 1) % K # shouldn't need mod, but to be safe...
                         draw -= dist[k]
-- 
2.43.0


From 8e8fb861e70cd8ced61efa85d0f0035f1325686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 038/110] fix: mom_em.py and mom_gibbs.py query states need no
 debug argument

---
 sidetopics/model/mom_em.py    | 2 +-
 sidetopics/model/mom_gibbs.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index f20a562..a6b800e 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -110,7 +110,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VOCAB_PRIOR, dtype=DTY
     return ModelState(K, topicPrior, vocabPrior, wordDistParam, corpusTopicDistParam, False, dtype, MODEL_NAME)
 
 
-def newQueryState(data, modelState, debug):
+def newQueryState(data, modelState, debug=False):
     '''
     Creates a new LDA QueryState object. This contains all
     parameters and random variables tied to individual
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 137c5d2..a80defe 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -97,7 +97,7 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
     return ModelState(K, topicPrior, vocabPrior, wordDists, False, dtype, MODEL_NAME)
 
 
-def newQueryState(data, modelState, debug):
+def newQueryState(data, modelState, debug=False):
     '''
     Creates a new LDA QueryState object. This contains all
     parameters and random variables tied to individual
-- 
2.43.0


From ea7b4a915089ae0a6b7cfa4e574c82d6771db72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 039/110] fix: mom_em.py queries of zero iterations return the
 state given

---
 sidetopics/model/mom_em.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index a6b800e..bf804a0 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -298,6 +298,7 @@ def query(data: DataSet, model: ModelState, queryState: QueryState, plan: TrainP
 
     topicDist = topicDists(queryState)
     oldTopicDist = np.ndarray(topicDist.shape, dtype=topicDist.dtype)
+    itr = -1
     for itr in range(plan.iterations):
         oldTopicDist[:, :] = topicDist
         topicDist = (data.words @ lnWordDist.T) + lnCorpusTopicDist[np.newaxis, :]
-- 
2.43.0


From 8aedb013a395b04a10d178b6d3fb192b552bcedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 040/110] fix: the mixture sampler's default thinning leaves
 samples

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index a80defe..77b2de5 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -140,7 +140,7 @@ def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=F
     if burnIn is None:
         burnIn = iterations // 4
     if thinning is None:
-        thinning = min(1, iterations // 10)
+        thinning = max(1, iterations // 10)
 
     return TrainPlan(iterations, epsilon, logFrequency, fastButInaccurate, debug, burnIn, thinning)
 
-- 
2.43.0


From fa06b6bcd94b9c579194401783ecfb4a3268f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 041/110] fix: likelihoods logged by the mixture sampler use
 the function there is

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 77b2de5..9d01f63 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -282,7 +282,7 @@ def train(data, model, query, plan, updateVocab=True):
 
             iters.append(itr)
             bnds.append(var_bound(data, m, q))
-            likes.append(log_likelihood(data, m, q))
+            likes.append(log_likelihood_point(data, m, q))
 
             perp = perplexity_from_like(likes[-1], W.sum())
             print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (itr, perp, bnds[-1]))
-- 
2.43.0


From 1cf104f133467e70d98d46772f1a0f9815587ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 042/110] fix: querying with lda_vb_python.py leaves the word
 distributions alone

---
 sidetopics/model/lda_vb_python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 7575944..2f9c60d 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -407,6 +407,9 @@ def train(data, model, query, plan, updateVocab=True):
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
             grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
 
+        if not updateVocab:
+            continue
+
         if rateAlgor == RateAlgorBatch:
             wordDists[:, :] = grad[:, :]
         else:
-- 
2.43.0


From 15ef59dcd9ae9d4fd9487522e38a4ba6868e5418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 043/110] fix: the mixture sampler draws memberships given the
 other documents' counts and the prior

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 9d01f63..26881da 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -183,7 +183,7 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
 def sample_memberships(W, alpha, wordDists, memberships):
     _, K = memberships.shape
 
-    priorNum = memberships.sum(axis=0) + alpha - 1
+    priorNum = memberships.sum(axis=0) + alpha
     prior = priorNum.copy()
     sample_dists = W.dot(safe_log(wordDists).T)  # d x k
 
-- 
2.43.0


From 10f897cbd4970a2254f8a5132588f88810482224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 044/110] fix: the mixture sampler's queries burn in, then take
 every thinning-th sample

---
 sidetopics/model/mom_gibbs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 26881da..821baa3 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -220,9 +220,8 @@ def sample_dirichlet(W, beta, memberships, out=None):
 
 
 def is_sampling_iteration(itr, plan):
-    return (itr > 0) \
-       and (itr > plan.burnIn) \
-       and (itr % plan.thinning == 0)
+    return (itr >= plan.burnIn) \
+       and ((itr + 1 - plan.burnIn) % plan.thinning == 0)
 
 
 def train(data, model, query, plan, updateVocab=True):
@@ -324,7 +323,7 @@ def query(data, model, queryState, queryPlan):
 
     sample_count = 0
     sample_accum = np.zeros(topicDists.shape, dtype=topicDists.dtype)
-    for itr in range(queryPlan.iterations):
+    for itr in range(queryPlan.iterations + queryPlan.burnIn):
         topicDists = sample_memberships(W, topicPrior, wordDists, topicDists)
         if is_sampling_iteration(itr, queryPlan):
             sample_accum += topicDists
-- 
2.43.0


From e3c2636f0614f747decc45c9a3fc99495d52f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 045/110] fix: the mixture sampler's likelihood is that of a
 mixture of documents

---
 sidetopics/model/mom_gibbs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 821baa3..3ffe629 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -175,9 +175,8 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
-    return wordLikely
-    # return (data.words.dot(wordDists(model).T) * model.corpusTopicDist).sum()
+    lls = data.words @ safe_log(wordDists(model)).T + safe_log(tops)
+    return fns.logsumexp(lls, axis=1).sum()
 
 
 def sample_memberships(W, alpha, wordDists, memberships):
-- 
2.43.0


From be14c56040a6837af51eeb982ab2e3ac0d802733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 046/110] fix: the bound of the mixture model is the one its
 training maximises

---
 sidetopics/model/mom_em.py | 40 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index bf804a0..a274434 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -393,35 +393,35 @@ def var_bound(data, model, query, topicDistOverride=None):
     '''
     Determines the variational bounds.
     '''
-    bound = 0
-
-    # Unpack the the structs, for ease of access and efficiency
-    docLens, topicMeans = \
-        query.docLens, query.topicDists
-    K, topicPrior, vocabPrior, wordDists, corpusTopicDist, dtype = \
-        model.K, model.topicPrior, model.vocabPrior, model.wordDists, model.corpusTopicDist, model.dtype
-
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
+    topicParam, wordParam = \
+        corpusTopicDistDirichletParam(model), wordDistsDirichletParam(model)
 
-    # Initialize z matrix if necessary
-    W = data.words
-    D, T = W.shape
+    lnTopic = fns.digamma(topicParam) - fns.digamma(topicParam.sum())
+    lnWord  = fns.digamma(wordParam) - fns.digamma(wordParam.sum(axis=1))[:, np.newaxis]
 
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
-    topicLikely = topicMeans.dot(fns.digamma(corpusTopicDist) - fns.digamma(corpusTopicDist.sum()))
+    # Expected joint of documents and memberships, and the entropy of the memberships
+    bound  = (tops * (data.words @ lnWord.T + lnTopic[np.newaxis, :])).sum()
+    bound -= (tops * safe_log(tops)).sum()
 
+    # Less the divergence of the parameters' posteriors from their priors
+    bound -= _dirichlet_divergence(topicParam, model.topicPrior, lnTopic)
+    for k in range(model.K):
+        bound -= _dirichlet_divergence(wordParam[k, :], model.vocabPrior, lnWord[k, :])
 
-    # Expected joint
-    like = W.dot(safe_log(wordDists).T) # D*K
-    like += corpusTopicDist[np.newaxis,:]
-    like *= safe_log(topicMeans)
+    return bound
 
-    # Entropy
-    ent = (-topicMeans * safe_log(topicMeans)).sum()
 
-    return like.sum() + ent
+def _dirichlet_divergence(post, prior, expectedLn):
+    '''
+    KL divergence of the Dirichlet with parameter prior from the one with
+    parameter post, under which the expected logarithm is expectedLn
+    '''
+    return fns.gammaln(post.sum()) - fns.gammaln(post).sum() \
+         - fns.gammaln(prior.sum()) + fns.gammaln(prior).sum() \
+         + ((post - prior) * expectedLn).sum()
 
 
 
-- 
2.43.0


From a0340cb2c0dfeac53e7455ad9223c403ec2a1ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 047/110] fix: small numbers of training iterations leave at
 least one query iteration

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 3a7cc7a..eaa84a5 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -197,7 +197,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         self.bound_ = math.nan
 
         self.iterations = iterations
-        self.query_iterations = query_iterations or self.iterations // 10
+        self.query_iterations = query_iterations or max(1, self.iterations // 10)
         self.perp_tolerance = perp_tolerance or 0.1
         self.use_approximations = use_approximations
         self.log_frequency = log_frequency
-- 
2.43.0


From 29fe503a946f602885e78bbe1bead710c40b1895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 048/110] fix: mixture scores are the logarithm of the summed
 likelihood

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index eaa84a5..2348e6a 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -557,7 +557,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # sum to get overall likelihood across all topics, adding back in the factor we used
             # to control overflow.
-            result = adj_per_doc_likes.sum(axis=1)
+            result = np.log(adj_per_doc_likes.sum(axis=1))
             result += max_log_like
 
             return result
-- 
2.43.0


From 666246d488392cd7d515eb471cf8d4cd3487d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 049/110] fix: admixture scores are one per document

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 2348e6a..4cc8f9a 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -537,7 +537,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
                 words = words.astype(components.dtype)
 
             #       Returns X.words * np.log(weightings @ components)
-            return sparseScalarProductOfSafeLnDot(words, weightings, components)
+            return np.asarray(sparseScalarProductOfSafeLnDot(words, weightings, components).sum(axis=1)).reshape(-1)
         elif model_type.is_mixture():
             lnWeights = safe_log(weightings)
             lnComps = safe_log(components)
-- 
2.43.0


From e3b75ef8860a0086b26fbf87aaa7f1d74be5d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 050/110] fix: estimators of every kind can be copied

---
 sidetopics/model/sklearn/lda_cvb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 4cc8f9a..b29bb3c 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -230,10 +230,11 @@ class TopicModel(BaseEstimator, TransformerMixin):
         Slightly shallow copy, last query state is not amended
         :return:
         """
-        result = TopicModel()
-        result.set_params(**result.get_params())
-        result._model_state = _lda_cvb0.newModelFromExisting(self._model_state)
+        result = TopicModel(**self.get_params())
+        if self._model_state is not None:
+            result._model_state = TopicModelType[self.kind].value.newModelFromExisting(self._model_state)
         result._last_query_state = self._last_query_state
+        result._last_X = self._last_X
         return result
     
     
-- 
2.43.0


From 66d1022bdda4f070f44f14e67b30083dd16cfb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 051/110] fix: scores without topic assignments infer them
 without dropping the persisted state

---
 sidetopics/model/sklearn/lda_cvb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index b29bb3c..e87238f 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -452,11 +452,12 @@ class TopicModel(BaseEstimator, TransformerMixin):
         elif (y is None) and (y_query_state is None):
             if not method.is_doc_completion():
                 logging.warning("No representation (y), or distribution (y_query_state), querying for y instead")
-                y = self.transform(X)
+                query_state = self.find_query_state_via_transform(X, {}, persist_query_state=False)
             else:
                 test_infer, test_eval = X.doc_completion_split()
-                y = self.transform(test_infer)
+                query_state = self.find_query_state_via_transform(test_infer, {}, persist_query_state=False)
                 X = test_eval
+            y = module.topicDists(query_state)
         elif y is not None:
             if not method.is_point_estimate():
                 raise ValueError("Only support point scoring methods for point estimates of y. "
-- 
2.43.0


From fb33f3f914d0da1f8ce2c3b29706dca966afd940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:23 +0000
Subject: [PATCH 052/110] fix: perplexities of Gibbs-sampled models can be
 scored

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index d92058e..67797c3 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -24,6 +24,7 @@ import numpy.random as rd
 import sidetopics.model.lda_gibbs_fast as compiled
 
 from sidetopics.util.misc import constantArray
+from sidetopics.model.evals import perplexity_from_like
 from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 import sidetopics.model.lda_vb_python as lda_vb
 
-- 
2.43.0


From d0a31f112c3b73b941cb3ed4d17a9f028777c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:46 +0000
Subject: [PATCH 053/110] fix: fit_transform accepts arrays

---
 sidetopics/model/sklearn/lda_cvb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index e87238f..ef366d6 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -240,6 +240,9 @@ class TopicModel(BaseEstimator, TransformerMixin):
     
 
     def fit_transform(self,  X: Union[np.ndarray, DataSet], y: np.ndarray = None, **kwargs) -> np.ndarray:
+        if type(X) is not DataSet:
+            X = DataSet(words=X)
+
         return self.fit(
             X, y,
             persist_query_state=True,
-- 
2.43.0


From 8abfc5ca5a12729fd1216ba7c1763b015f31196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 054/110] fix: precision and recall at M look at M results

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 73a866c..38860dc 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -149,7 +149,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
         for i in range(len(ms)):
             m = ms[i]
             # Calculate the precision at m
-            recv_set = set(recv_indices[:(m+1)])
+            recv_set = set(recv_indices[:m])
             if len (recv_set) == 0:
                 print ("Ruh-ro")
                 continue
-- 
2.43.0


From 963054888fd5ddaa05e4130f2d621e0cbf8f882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 055/110] fix: documents in no group count once, in the group
 of all documents

---
 sidetopics/model/evals.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 38860dc..67770a7 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -107,11 +107,12 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     '''
     def find_group (outLinkCount, rangeTuples):
         i = 0
-        while rangeTuples[i][0] == AllGroups[0] \
+        while i < len(rangeTuples) \
+            and (rangeTuples[i][0] == AllGroups[0] \
             or outLinkCount < rangeTuples[i][0] \
-            or outLinkCount > rangeTuples[i][1]:
+            or outLinkCount > rangeTuples[i][1]):
             i += 1
-        return rangeTuples[i]
+        return rangeTuples[i] if i < len(rangeTuples) else None
 
     if at is None:
         at = [100]
@@ -157,13 +158,15 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
             prec_at_m = len(recv_set.intersection(expt_set)) / m
             rec_at_m  = len(recv_set.intersection(expt_set)) / len(expt_set)
 
-            precs_at_m[g][i] += prec_at_m
-            recs_at_m[g][i]  += rec_at_m
+            if g is not None:
+                precs_at_m[g][i] += prec_at_m
+                recs_at_m[g][i]  += rec_at_m
 
             precs_at_m[AllGroups][i] += prec_at_m
             recs_at_m[AllGroups][i]  += rec_at_m
 
-        docCounts[g] += 1
+        if g is not None:
+            docCounts[g] += 1
         docCounts[AllGroups] += 1
 
     # Return the mean of average-precisions
-- 
2.43.0


From f09011dd14200f9adc4d3b678c73afe59d06be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 056/110] fix: the caller's list of groups is not extended

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 67770a7..ce50614 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -124,7 +124,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     if groups is None:
         groups = [ AllGroups ]
     if not AllGroups in groups:
-        groups.append(AllGroups)
+        groups = groups + [AllGroups]
 
     precs_at_m = {group : [0] * len(ms) for group in groups}
     recs_at_m  = {group : [0] * len(ms) for group in groups}
-- 
2.43.0


From 85d07e34cfdaf946ce4f10c020f166a18380cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 057/110] fix: mean average precision counts absent links as
 misses

---
 sidetopics/model/evals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index ce50614..47cfd2c 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -236,8 +236,9 @@ def mean_average_prec(expected_links, estim_link_probs):
                 print ("Warning: no indices returned for document " + str(d))
             while m < M and recv_indices[m] != e:
                 m += 1
-            if m == (M - 1) and recv_indices[m] != e:
+            if m == M:
                 print ("WARNING: Could not find link ID " + str(e) + " in the received indices")
+                continue
 
             # Calculate the precision at m
             recv_set = set(recv_indices[:(m+1)])
-- 
2.43.0


From 853e6325340b5a29b792c8d8f4a77d488772a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 058/110] fix: mean average precision averages over the
 documents that have links

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 47cfd2c..b40ca80 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -257,7 +257,7 @@ def mean_average_prec(expected_links, estim_link_probs):
     # Return the mean of average-precisions
     if len(docs_lacking_links) > 0:
         print (str(len(docs_lacking_links)) + " of the " + str(D) + " documents had no links to check, including documents " + ", ".join(str(d) for d in docs_lacking_links[:10]))
-    return sum_ap / D
+    return sum_ap / max(1, D - len(docs_lacking_links))
 
 
 
-- 
2.43.0


From a3d80b921d8a783e29eedf31ba3ba727cb1bceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 059/110] fix: mean reciprocal rank is zero when no expected
 link was found

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index b40ca80..1f92dae 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -74,7 +74,7 @@ def mean_reciprocal_rank(expected_links, estim_link_probs):
 
     if len(docs_lacking_links) > 0:
         print (str(len(docs_lacking_links)) + " of the " + str(D) + " documents had no links to check, including documents " + ", ".join(str(d) for d in docs_lacking_links[:10]))
-    return rank_sum / rank_count
+    return rank_sum / max(1, rank_count)
 
 #@nb.autojit Does not support cellvars
 def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
-- 
2.43.0


From 1c5ee646a06a81ff1e688d3f6f2a7649dc16e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:25 +0000
Subject: [PATCH 060/110] fix: CVB word distributions are defined for topics
 without tokens

---
 sidetopics/model/lda_cvb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 3acb84e..7249d3f 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -173,7 +173,8 @@ def topicDists(query):
     return query.n_dk / query.n_dk.sum(axis=1)[:,np.newaxis]
 
 def wordDists(model):
-    return model.n_kt / model.n_kt.sum(axis=1)[:,np.newaxis]
+    n_kt = model.n_kt + model.vocabPrior
+    return n_kt / n_kt.sum(axis=1)[:,np.newaxis]
 
 
 def toWordList (w_csr):
-- 
2.43.0


From fb6ed7b5fde3365a354aa93470498abe8ea48bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:05 +0000
Subject: [PATCH 061/110] fix: CVB leaves the current token out of the
 variances as well

---
 sidetopics/model/lda_cvb_fast.pyx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index ea255dd..e1fd64b 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -451,7 +451,7 @@ def iterate_f32(int iterations, int D_query, int D_train, int K, int T, \
         int itr, d, n, t, k
         float *mems = new_array_f32(K)
         float denom, diff
-        float sot, esot
+        float sot, esot, var
         float topicPrior = <float> topicPriorDbl
         float vocabPrior = <float> vocabPriorDbl
         float term1, term2, term3
@@ -471,9 +471,10 @@ def iterate_f32(int iterations, int D_query, int D_train, int K, int T, \
                             mems[k] = (term1 * term2)
 
                             sot  = 0 # second-order term of the Taylor approx
-                            sot -= q_v_dk[d,k] / (2 * term1 * term1)
-                            sot -= q_v_kt[k,t] / (2 * term2 * term2)
-                            sot += q_v_k[k]    / (2 * term3 * term3)
+                            var  = z_dnk[d,n,k] * (1 - z_dnk[d,n,k])
+                            sot -= (q_v_dk[d,k] - var) / (2 * term1 * term1)
+                            sot -= (q_v_kt[k,t] - var) / (2 * term2 * term2)
+                            sot += (q_v_k[k]    - var) / (2 * term3 * term3)
 
                             esot     = exp_approx(sot) if sot > -75.5 else 1E-33
                             mems[k] *= esot
@@ -564,7 +565,7 @@ def iterate_f64(int iterations, int D_query, int D_train, int K, int T, \
         int itr, d, n, t, k
         double *mems = new_array_f64(K)
         double denom, diff
-        double sot, esot
+        double sot, esot, var
         double topicPrior = <double> topicPriorDbl
         double vocabPrior = <double> vocabPriorDbl
         float term1, term2, term3
@@ -584,9 +585,10 @@ def iterate_f64(int iterations, int D_query, int D_train, int K, int T, \
                             mems[k] = (term1 * term2)
 
                             sot  = 0 # second-order term of the Taylor approx
-                            sot -= q_v_dk[d,k] / (2 * term1 * term1)
-                            sot -= q_v_kt[k,t] / (2 * term2 * term2)
-                            sot += q_v_k[k]    / (2 * term3 * term3)
+                            var  = z_dnk[d,n,k] * (1 - z_dnk[d,n,k])
+                            sot -= (q_v_dk[d,k] - var) / (2 * term1 * term1)
+                            sot -= (q_v_kt[k,t] - var) / (2 * term2 * term2)
+                            sot += (q_v_k[k]    - var) / (2 * term3 * term3)
 
                             esot     = exp_approx(sot) if sot > -75.5 else 1E-33
                             mems[k] *= esot
-- 
2.43.0


From d0da5a69d1e705784523ea656ba5cc744bdd3952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:07 +0000
Subject: [PATCH 062/110] fix: copies of CVB and CVB0 models keep a scalar
 topic prior a scalar

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7249d3f..1ac8f67 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -71,7 +71,7 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else np.copy(model.topicPrior), \
+        model.topicPrior if np.isscalar(model.topicPrior) or model.topicPrior is None else np.copy(model.topicPrior), \
         model.vocabPrior, \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index f074c7d..c176534 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -73,7 +73,7 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else np.copy(model.topicPrior), \
+        model.topicPrior if np.isscalar(model.topicPrior) or model.topicPrior is None else np.copy(model.topicPrior), \
         model.vocabPrior, \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
-- 
2.43.0


From dc8bdb472b5048680655c18f184b787686b6406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:45 +0000
Subject: [PATCH 063/110] fix: wrapped models score word counts of any type
 without rounding their topics

---
 sidetopics/model/sklearn/lda_cvb.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index ef366d6..3e841e3 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -745,7 +745,8 @@ class WrappedSckitLda(LatentDirichletAllocation):
             raise ValueError("No such thing as a query-state for Wrapped LDA")
 
         component_dists = self.components_ / self.components_.sum(axis=1)[:, np.newaxis]
-        log_probs = sparseScalarProductOfSafeLnDot(X.words, y, component_dists).sum(axis=1)
+        words = X.words.astype(component_dists.dtype)
+        log_probs = sparseScalarProductOfSafeLnDot(words, y.astype(words.dtype), component_dists).sum(axis=1)
         log_probs = np.squeeze(np.array(log_probs))
         log_prob  = log_probs.sum()
 
@@ -909,12 +910,8 @@ class WrappedScikitHdp(HdpTransformer):
             raise ValueError("No such thing as a query-state for Wrapped LDA")
 
         component_dists = self.components_ / self.components_.sum(axis=1)[:, np.newaxis]
-        if y.dtype != X.words.dtype:
-            y =  y.astype(X.words.dtype)
-        if component_dists.dtype != X.words.dtype:
-            component_dists =  component_dists.astype(X.words.dtype)
-
-        log_probs = sparseScalarProductOfSafeLnDot(X.words, y, component_dists).sum(axis=1)
+        words = X.words.astype(component_dists.dtype)
+        log_probs = sparseScalarProductOfSafeLnDot(words, y.astype(words.dtype), component_dists).sum(axis=1)
         log_probs = np.squeeze(np.array(log_probs))
         log_prob  = log_probs.sum()
 
-- 
2.43.0


From ae8232cdf064d421a7f8ffce9b8a4cb769ef46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:51 +0000
Subject: [PATCH 064/110] fix: topic assignments of either precision can be
 scored

---
 sidetopics/model/sklearn/lda_cvb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 3e841e3..f5e614f 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -542,6 +542,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
                 words = words.astype(components.dtype)
 
             #       Returns X.words * np.log(weightings @ components)
+            weightings = weightings.astype(components.dtype)
             return np.asarray(sparseScalarProductOfSafeLnDot(words, weightings, components).sum(axis=1)).reshape(-1)
         elif model_type.is_mixture():
             lnWeights = safe_log(weightings)
-- 
2.43.0


From 41af2398f33ffde0d4b8a996373f8799c5d4fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:07 +0000
Subject: [PATCH 065/110] fix: refusing to resume an estimator that was never
 fitted leaves it unfitted

---
 sidetopics/model/sklearn/lda_cvb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index f5e614f..9e1cd33 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -274,6 +274,9 @@ class TopicModel(BaseEstimator, TransformerMixin):
         if type(X) is not DataSet:
             X = DataSet(words=X)
 
+        if kwargs.get('resume') and self._last_X is not X:
+            raise ValueError("Attempting to resume with a different dataset to last fit/transform run")
+
         module = TopicModelType[self.kind].value
         if self._model_state is None:
             logging.info("Creating new model-state at random")
-- 
2.43.0


From 571a2bd8e05ff98d487bcfb137dbf4e1f087b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:14 +0000
Subject: [PATCH 066/110] fix: a fit that is refused leaves an unfitted
 estimator unfitted

---
 sidetopics/model/sklearn/lda_cvb.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 9e1cd33..ce037d8 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -278,21 +278,22 @@ class TopicModel(BaseEstimator, TransformerMixin):
             raise ValueError("Attempting to resume with a different dataset to last fit/transform run")
 
         module = TopicModelType[self.kind].value
-        if self._model_state is None:
+        model_state = self._model_state
+        if model_state is None:
             logging.info("Creating new model-state at random")
-            self._model_state = module.newModelAtRandom(data=X,
-                                                        topicPrior=self.doc_topic_prior,
-                                                        vocabPrior=self.topic_word_prior,
-                                                        K=self.n_components)
+            model_state = module.newModelAtRandom(data=X,
+                                                  topicPrior=self.doc_topic_prior,
+                                                  vocabPrior=self.topic_word_prior,
+                                                  K=self.n_components)
         else:
             logging.info("Resuming fit using previous model state")
 
 
         iters = kwargs.get('iterations') or self.iterations
         train_plan = self._new_train_plan(module, iters, **kwargs)
-        input_query = self.make_or_resume_query_state(X, kwargs.get('resume'))
+        input_query = self.make_or_resume_query_state(X, kwargs.get('resume'), model_state)
 
-        self._model_state, inferred_query_state, m = module.train(X, self._model_state, input_query, train_plan)
+        self._model_state, inferred_query_state, m = module.train(X, model_state, input_query, train_plan)
         self.bound_ = math.nan
         self._set_or_clear_last_query_state(X, inferred_query_state, kwargs.get('persist_query_state'))
 
@@ -391,7 +392,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         logging.info(f"Obtained a {ret_val.shape} topic-assignments matrix after {iters} iterations")
         return ret_val
 
-    def make_or_resume_query_state(self, X: DataSet, should_resume: bool):
+    def make_or_resume_query_state(self, X: DataSet, should_resume: bool, model_state=None):
         module = TopicModelType[self.kind].value
         if should_resume:
             if self._last_X is X:
@@ -401,7 +402,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
                 raise ValueError("Attempting to resume with a different dataset to last fit/transform run")
         else:
             logging.info("Creating new query state")
-            input_query = module.newQueryState(X, self._model_state, self.debug)
+            input_query = module.newQueryState(X, self._model_state if model_state is None else model_state, self.debug)
         return input_query
 
     @property
-- 
2.43.0


From 7d5d167c93f77c10ec30d8bc2c34afef5d2c235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:58 +0000
Subject: [PATCH 067/110] fix: a copied estimator has its own query state, so
 resuming it leaves the original's alone

---
 sidetopics/model/sklearn/lda_cvb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index ce037d8..0359491 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -17,6 +17,7 @@ import math
 import logging
 from typing import List, Tuple, NamedTuple
 import importlib
+from copy import deepcopy
 
 from sidetopics.model.common import DataSet
 import sidetopics.model.lda_cvb0 as _lda_cvb0
@@ -233,7 +234,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         result = TopicModel(**self.get_params())
         if self._model_state is not None:
             result._model_state = TopicModelType[self.kind].value.newModelFromExisting(self._model_state)
-        result._last_query_state = self._last_query_state
+        result._last_query_state = deepcopy(self._last_query_state)
         result._last_X = self._last_X
         return result
     
-- 
2.43.0


From a16ffa5ca71185a581f7941b2b6d8aeba4175e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:45 +0000
Subject: [PATCH 068/110] fix: copied Gibbs, mixture, DMR and MTM models do not
 share their priors with the original

---
 sidetopics/model/dmr.py           | 3 ++-
 sidetopics/model/lda_gibbs.py     | 3 ++-
 sidetopics/model/lda_vb_python.py | 3 ++-
 sidetopics/model/mom_em.py        | 5 +++--
 sidetopics/model/mom_gibbs.py     | 5 +++--
 sidetopics/model/mtm.py           | 2 +-
 6 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 6fa3761..72fad14 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -18,6 +18,7 @@ from math import e
 
 
 from collections import namedtuple
+from copy import deepcopy
 import numpy as np
 import numpy.random as rd
 import scipy.optimize as optim
@@ -117,7 +118,7 @@ def newModelFromExisting(model):
         model.T, \
         model.weights.copy(), \
         None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.vocabPrior), \
         None if model.n_dk_samples is None else model.n_dk_samples.copy(), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 67797c3..2b15824 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -18,6 +18,7 @@ from math import e
 
 
 from collections import namedtuple
+from copy import deepcopy
 import numpy as np
 import numpy.random as rd
 
@@ -113,7 +114,7 @@ def newModelFromExisting(model):
         model.K, \
         model.T, \
         None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.vocabPrior), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
         model.numSamples, \
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 2f9c60d..6ae41d9 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -20,6 +20,7 @@ from sidetopics.util.misc import constantArray, converged
 from sidetopics.model.evals import perplexity_from_like
 
 from collections import namedtuple
+from copy import deepcopy
 
 MODEL_NAME = "lda/vbp"
 DTYPE      = np.float64
@@ -57,7 +58,7 @@ def newModelFromExisting(model):
     return ModelState(\
         model.K, \
         model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
         model.dtype, \
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index a274434..e4d9818 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -20,6 +20,7 @@ from sidetopics.util.overflow_safe import safe_log
 from sidetopics.model.common import DataSet
 
 from collections import namedtuple
+from copy import deepcopy
 
 CHANGE_TOLERANCE = 0.001
 
@@ -52,8 +53,8 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDistParam is None else model.wordDistParam.copy(),
         None if model.corpusTopicDistParam is None else model.corpusTopicDistParam.copy(),
         model.processed, \
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 3ffe629..735dbd5 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -15,6 +15,7 @@ from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 from sidetopics.util.overflow_safe import safe_log
 
 from collections import namedtuple
+from copy import deepcopy
 
 MODEL_NAME = "mom/em"
 DTYPE = np.float64
@@ -45,8 +46,8 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
         model.dtype, \
diff --git a/sidetopics/model/mtm.py b/sidetopics/model/mtm.py
index b07f83d..7ae48d5 100644
--- a/sidetopics/model/mtm.py
+++ b/sidetopics/model/mtm.py
@@ -49,7 +49,7 @@ def newModelFromExisting(model):
         model.topicPrior.copy(),
         model.vocabPrior,
         None if model.wordDists is None else model.wordDists.copy(),
-        None if model.topicCov is None else model.topicCov,
+        None if model.topicCov is None else model.topicCov.copy(),
         model.dtype,
         model.name)
 
-- 
2.43.0


From 799d55c00b3cc8b7405e01b191645b78abe4a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:01 +0000
Subject: [PATCH 069/110] fix: the Jakkola tangent is exact at and near zero,
 and per-document variants agree with the whole matrix

---
 sidetopics/model/ctm.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 0bf3992..694175a 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -477,8 +477,9 @@ def negJakkola(vec):
     CTM Source reads: y = .5./x.*(1./(1+exp(-x)) -.5);
     '''
     
-    # COPY AND PASTE BETWEEN THIS AND negJakkolaOfDerivedXi()
-    return 0.5/vec * (1./(1 + np.exp(-vec)) - 0.5)
+    # 1/(1+exp(-x)) - 1/2 is tanh(x/2)/2, which does not cancel near zero. The limit at zero is 1/8
+    nearZero = np.abs(vec) < 1E-8
+    return np.where(nearZero, 0.125, 0.25 * np.tanh(0.5 * vec) / np.where(nearZero, 1, vec))
 
 def negJakkolaOfDerivedXi(means, varcs, s, d = None):
     '''
@@ -506,13 +507,10 @@ def negJakkolaOfDerivedXi(means, varcs, s, d = None):
         print ("lxi " + err)
         print ("")
     
-    # COPY AND PASTE BETWEEN THIS AND negJakkola()
     if d is not None:
-        vec = (np.sqrt (means[d,:]**2 - 2 * means[d,:] * s[d] + s[d]**2 + varcs[d,:]**2))
-        return 0.5/vec * (1./(1 + np.exp(-vec)) - 0.5)
+        return negJakkola(_deriveXi(means[d,:], varcs[d,:], s[d]))
     else:
-        mat = _deriveXi(means, varcs, s)
-        return 0.5/mat * (1./(1 + np.exp(-mat)) - 0.5)
+        return negJakkola(_deriveXi(means, varcs, s))
     
 
 def jakkolaOfDerivedXi(means, varcs, s, d = None):
@@ -541,13 +539,7 @@ def jakkolaOfDerivedXi(means, varcs, s, d = None):
         print ("lxi " + err)
         print ("")
     
-    # COPY AND PASTE BETWEEN THIS AND negJakkola()
-    if d is not None:
-        vec = (np.sqrt (means[d,:]**2 -2 *means[d,:] * s[d] + s[d]**2 + varcs[d,:]**2))
-        return 0.5/vec * (1./(1 + np.exp(-vec)) - 0.5)
-    else:
-        mat = _deriveXi(means, varcs, s)
-        return 0.5/mat * (0.5 - 1./(1 + np.exp(-mat)))
+    return -negJakkolaOfDerivedXi(means, varcs, s, d)
 
         
         
@@ -567,7 +559,7 @@ def _deriveXi (means, varcs, s):
     Derives a value for xi. This is not normally needed directly, as we
     normally just work with the negJakkola() function of it
     '''
-    return np.sqrt(means**2 - 2 * means * s[:,np.newaxis] + (s**2)[:,np.newaxis] + varcs**2)   
+    return np.sqrt((means - s[..., np.newaxis])**2 + varcs**2)
 
 last = 0
 def _debug_with_bound (itr, var_value, var_name, W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, lxi, s, n):
-- 
2.43.0


From 0fdb0676f9208305b80524820f46ff2a2bb87cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:37 +0000
Subject: [PATCH 070/110] fix: no known link is lost to rounding, and documents
 without TF-IDF weight can be scored

---
 sidetopics/model/lro_vb.py        |  3 ++-
 sidetopics/model/mtm3.py          |  4 ++--
 sidetopics/model/rtm.py           |  2 +-
 sidetopics/model/sim_based_rec.py | 16 ++++++++--------
 sidetopics/util/misc.py           | 10 ++++++++++
 5 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/sidetopics/model/lro_vb.py b/sidetopics/model/lro_vb.py
index 4f360dc..745eca4 100644
--- a/sidetopics/model/lro_vb.py
+++ b/sidetopics/model/lro_vb.py
@@ -21,6 +21,7 @@ import time
 # MODEL_NAME="lro/gibbs"
 
 import sidetopics.model.lda_vb_python as lda
+from sidetopics.util.misc import reaches
 MODEL_NAME="lro/vb"
 
 # ==============================================================
@@ -348,7 +349,7 @@ def link_probs(model, train_tops, query_tops, min_link_probs, docSubset=None):
     for src in docSubset:
         outRow    += 1
         probs      = scale * dst_offs.dot(src_tops[src,:])
-        relevant   = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant   = reaches(probs, min_link_probs[outRow], model.dtype)
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index a7ba314..7b58ce7 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -25,7 +25,7 @@ from sidetopics.util.sigmoid_utils import rowwise_softmax, scaledSelfSoftDot, \
 from sidetopics.util.sparse_elementwise import sparseScalarQuotientOfDot, \
     sparseScalarQuotientOfNormedDot, sparseScalarProductOfSafeLnDot, \
     sparseScalarProductOfDot
-from sidetopics.util.misc import printStderr, static_var
+from sidetopics.util.misc import printStderr, static_var, reaches
 from sidetopics.util.overflow_safe import safe_log_det, safe_log
 from sidetopics.model.evals import perplexity_from_like
 
@@ -763,7 +763,7 @@ def link_probs(model, train_tops, query_tops, min_link_probs, docSubset=None):
 
         srcTopDist = softmax(query_tops.outMeans[src, :])
         probs      = dstTopDists.dot(srcTopDist)
-        relevant   = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant   = reaches(probs, min_link_probs[outRow], model.dtype)
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 74a70b7..3840a16 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -883,7 +883,7 @@ def link_probs(model, topics, min_link_probs):
     for d in range(D):
         probs = (topicMeans[d] * topicMeans).dot(weights)
         probs = _probit_inplace(probs)
-        relevant = np.where(probs >= min_link_probs[d])[0]
+        relevant = np.where(probs >= min_link_probs[d] * (1 - 1E-9))[0] # allow for rounding
 
         rows.extend([d] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index bcfa1f1..fa52548 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -15,6 +15,7 @@ import scipy.sparse as ssp
 
 
 import sidetopics.model.lda_vb_python as lda
+from sidetopics.util.misc import reaches
 LDA="lda/vb"
 
 # import model.gibbs as lda
@@ -175,12 +176,12 @@ def train (data, model, query, trainPlan, isQuery=False):
     # Step 1: Learn the topics using vanilla LDA
     if method == TF_IDF:
         # First do TF
-        docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
+        docLens = np.asarray(data.words.sum(axis=1)).reshape(-1).astype(dtype)
         reps = data.words.copy()
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
         reps = ssp.diags(np.reciprocal(docLens), 0).dot(reps)
 
-        occ  = data.words.astype(np.bool).astype(dtype)
+        occ  = data.words.astype(bool).astype(dtype)
         docCount = np.asarray(occ.sum(axis=0)).reshape(-1)
         docCount += 1
         idf = np.log(D / docCount)
@@ -290,7 +291,7 @@ def min_link_probs_tfidf(model, train_tops, query_tops, query_links, docSubset):
             dst = query_links[src,:].indices[i]          # which we denote dst
             linkProbMat = src_reps[src,:].dot(dst_reps[dst,:].T)
             linkProb = 0 if linkProbMat.nnz == 0 else linkProbMat.data[0]
-            linkProb /= src_norms[src] * dst_norms[dst]
+            linkProb /= max(src_norms[src] * dst_norms[dst], 1E-30) # no weight, no similarity
             probs.append(linkProb)
         mins[outRow] = min(probs) if len(probs) > 0 else -1
 
@@ -373,11 +374,10 @@ def link_probs_tfidf(model, train_tops, query_tops, min_link_probs, docSubset=No
     for src in docSubset:
         outRow += 1
 
-        probs = np.squeeze(np.asarray(dst_reps.dot(src_reps[src,:].T).todense()))
-        probs /= dst_norms
-        probs /= src_norms[src]
+        probs = np.asarray(dst_reps.dot(src_reps[src,:].T).todense()).reshape(-1)
+        probs /= np.maximum(src_norms[src] * dst_norms, 1E-30) # no weight, no similarity
 
-        relevant = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant = reaches(probs, min_link_probs[outRow], model.dtype)
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
@@ -433,7 +433,7 @@ def link_probs_lda(model, train_tops, query_tops, min_link_probs, docSubset=None
         probs[probs < 1E-30] = 1E-30
         probs = SQRT_TWO / probs
 
-        relevant = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant = reaches(probs, min_link_probs[outRow], model.dtype)
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/util/misc.py b/sidetopics/util/misc.py
index fecf6ad..440b9cb 100644
--- a/sidetopics/util/misc.py
+++ b/sidetopics/util/misc.py
@@ -30,6 +30,16 @@ def constantArray(shape, defaultValue, dtype):
     return result
 
 
+def reaches(values, minimum, dtype):
+    '''
+    Returns the indices of the values that are at least the given minimum. Allows for
+    the rounding of a minimum that was stored with the given data type, and of values
+    that were computed in another order.
+    '''
+    slack = 1E-9 + 32 * np.finfo(dtype).eps * abs(float(minimum))
+    return np.where(values >= minimum - slack)[0]
+
+
 def converged (boundIters, boundValues, bvIdx, epsilon=10, minIters=100):
     '''
     Returns true if we've converged. To measure convergence we consider the angle between
-- 
2.43.0


From ebd164302a85490069936f65d7a5a3c5e7b417fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:37 +0000
Subject: [PATCH 071/110] fix: RTM query states can be created, and queries
 infer topics

---
 sidetopics/model/rtm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 3840a16..82d03d3 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -122,10 +122,13 @@ def newQueryState(data, modelState):
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
-    topicDists  = rd.dirichlet(modelState.topicPrior, size=data.doc_count).astype(modelState.dtype)
+    # The topic prior is augmented by a zero, which is no valid Dirichlet parameter
+    K = modelState.K
+    topicDists = np.zeros((data.doc_count, K + 1), dtype=modelState.dtype)
+    topicDists[:, :K]  = rd.dirichlet(modelState.topicPrior[:K], size=data.doc_count)
     topicDists *= docLens[:, np.newaxis]
     topicDists += modelState.topicPrior[np.newaxis, :]
-    topicDists[:, modelState.K] = docLens
+    topicDists[:, K] = docLens
 
     return QueryState(docLens, topicDists)
 
@@ -468,7 +471,7 @@ def train(data, model, query, plan, updateVocab=True):
                 if debug: print("Topic Prior is now " + str(topicPrior))
         else:
             for d in range(D):
-                _ = _update_topics_at_d(d, W, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
+                _ = _update_topics_at_d(d, data, weights, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
 
     topicMeans = _convertMeansToDirichletParam(docLens, topicMeans, topicPrior)
 
-- 
2.43.0


From 035f1606ec98dc86c692ef2e0b88257525e64787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:30 +0000
Subject: [PATCH 072/110] fix: DMR keeps its samples within their array, and
 samples under the priors it optimises

---
 sidetopics/model/dmr.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 72fad14..6bf055f 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -143,7 +143,7 @@ def newQueryState(data, modelState, debug=False):
     
     D,T = data.words.shape
     if debug: print("Converting {:,}x{:,} document-term matrix to list of lists... ".format(D,T), end="")
-    w_list, docLens = compiled.flatten(data.words)
+    w_list, docLens = compiled.flatten(data.words.astype(np.uint16))
     docLens = np.asarray(docLens, dtype=np.int32)
     if debug: print("Done")
     
@@ -197,7 +197,7 @@ def train (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     if debug: print ("Burning")
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
@@ -206,12 +206,16 @@ def train (data, model, query, plan):
     # True samples
     if debug: print ("Training")
     sample_count = 0
-    for _ in range(0, iterations - burnIn, weightUpdateInterval):
-        alphas[:,:] = X.dot(weights.T)
-        sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
-                alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
+    for done in range(0, iterations - burnIn, weightUpdateInterval):
+        interval = min(weightUpdateInterval, iterations - burnIn - done)
+        alphas[:,:] = np.exp(X.dot(weights.T))
+        sample_count += compiled.sample (interval, thin, w_list, z_list, docLens, \
+                alphas, ndk, nkv, nk, n_dk_samples[:,:,sample_count:], topicSum, vocabSum, \
                 vocabPrior, False, debug)
 
+        if sample_count == 0: # nothing to learn from yet
+            continue
+
         if debug: # Print out the perplexity so far
             likely = log_likelihood(data, \
                 ModelState (K, T, weights, topicPrior, vocabPrior, n_dk_samples, topicSum, vocabSum, sample_count, dtype, name), \
@@ -340,18 +344,18 @@ def query (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
     
     # True samples
-    sample_count = compiled.sample (iterations, thin, w_list, z_list, docLens, \
+    sample_count = compiled.sample (iterations - burnIn, thin, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
     
     return \
-        ModelState (K, T, weights, topicPrior, vocabPrior, n_dk_samples, topicSum, vocabSum, sample_count, dtype, name), \
+        ModelState (K, T, weights, topicPrior, vocabPrior, model.n_dk_samples, model.topicSum, vocabSum, model.numSamples, dtype, name), \
         QueryState (w_list, z_list, docLens, topicSum, sample_count)
 
 
-- 
2.43.0


From fad661fe8acd381d9a0c084ea74c71f2d689867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 073/110] fix: topic models log at any frequency, and return
 every value they logged

---
 sidetopics/model/ctm.py                 | 9 +++++----
 sidetopics/model/stm_uv_vecy_bohning.py | 9 +++++----
 sidetopics/model/stm_yv.py              | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 694175a..00c7952 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -182,9 +182,10 @@ def train (dataset, modelState, queryState, trainPlan):
     K, topicMean, sigT, vocab, vocabPrior, dtype = modelState.K, modelState.topicMean, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters   = np.zeros(shape=(iterations // logFrequency,))
-    boundValues  = np.zeros(shape=(iterations // logFrequency,))
-    likelyValues = np.zeros(shape=(iterations // logFrequency,))
+    logCount    = (iterations - 1) // logFrequency + 1 if logFrequency > 0 else 0
+    boundIters   = np.zeros(shape=(logCount,))
+    boundValues  = np.zeros(shape=(logCount,))
+    likelyValues = np.zeros(shape=(logCount,))
     bvIdx = 0
     
     debugFn = _debug_with_bound if debug else _debug_with_nothing
@@ -300,7 +301,7 @@ def train (dataset, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] >= 30:
                 lastPerp = perplexity_from_like(likelyValues[bvIdx - 1], n.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likelyValues, bvIdx)
+                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likelyValues, bvIdx + 1)
                     return modelState, queryState, (boundIters, boundValues, likelyValues)
             bvIdx += 1
             
diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index 87a9f77..a07d1dd 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -191,9 +191,10 @@ def train (data, modelState, queryState, trainPlan):
     F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, Ab, dtype = modelState.F, modelState.P, modelState.K, modelState.A, modelState.R_A, modelState.fv, modelState.Y, modelState.R_Y, modelState.lfv, modelState.V, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.Ab, modelState.dtype
     
     # Book-keeping for logs
-    boundIters  = np.zeros(shape=(iterations // logFrequency,))
-    boundValues = np.zeros(shape=(iterations // logFrequency,))
-    boundLikes = np.zeros(shape=(iterations // logFrequency,))
+    logCount    = (iterations - 1) // logFrequency + 1 if logFrequency > 0 else 0
+    boundIters  = np.zeros(shape=(logCount,))
+    boundValues = np.zeros(shape=(logCount,))
+    boundLikes = np.zeros(shape=(logCount,))
     bvIdx = 0
     debugFn = _debug_with_bound if debug else _debug_with_nothing
     _debug_with_bound.old_bound = 0
@@ -342,7 +343,7 @@ def train (data, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] > 20:
                 lastPerp = perplexity_from_like(boundLikes[bvIdx - 1], docLens.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, boundLikes, bvIdx)
+                    boundIters, boundValues, boundLikes = clamp (boundIters, boundValues, boundLikes, bvIdx + 1)
                     break
             bvIdx += 1
         
diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index e8653fd..fbf904f 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -191,9 +191,10 @@ def train (data, modelState, queryState, trainPlan):
     F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype = modelState.F, modelState.P, modelState.K, modelState.A, modelState.R_A, modelState.fv, modelState.Y, modelState.R_Y, modelState.lfv, modelState.V, modelState.sigT, modelState.vocab, modelState.vocabPrior, modelState.dtype
     
     # Book-keeping for logs
-    boundIters  = np.zeros(shape=(iterations // logFrequency,))
-    boundValues = np.zeros(shape=(iterations // logFrequency,))
-    likeValues  = np.zeros(shape=(iterations // logFrequency,))
+    logCount    = (iterations - 1) // logFrequency + 1 if logFrequency > 0 else 0
+    boundIters  = np.zeros(shape=(logCount,))
+    boundValues = np.zeros(shape=(logCount,))
+    likeValues  = np.zeros(shape=(logCount,))
     bvIdx = 0
     
     _debug_with_bound.old_bound = 0
@@ -313,7 +314,7 @@ def train (data, modelState, queryState, trainPlan):
             if bvIdx > 1 and boundIters[bvIdx] > 50:
                 lastPerp = perplexity_from_like(likeValues[bvIdx - 1], n.sum())
                 if lastPerp - perp < 1:
-                    boundIters, boundValues, likelyValues = clamp (boundIters, boundValues, likeValues, bvIdx)
+                    boundIters, boundValues, likeValues = clamp (boundIters, boundValues, likeValues, bvIdx + 1)
                     return modelState, queryState, (boundIters, boundValues, likeValues)
             bvIdx += 1
 
-- 
2.43.0


From 63e7401c0abb3165bc13e61df088425802fda05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 074/110] fix: the Bohning topic models report their documents'
 topics, and return the state a query inferred

---
 sidetopics/model/ctm_bohning.py      | 6 ++----
 sidetopics/model/ctm_bohning_fast.py | 8 +++-----
 sidetopics/model/ctm_grad_arb.py     | 6 ++----
 3 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index bd0118c..42c8bc4 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -81,9 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(query.means)
 
 def newModelFromExisting(model):
     '''
@@ -363,7 +361,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
diff --git a/sidetopics/model/ctm_bohning_fast.py b/sidetopics/model/ctm_bohning_fast.py
index dbb36be..476567e 100644
--- a/sidetopics/model/ctm_bohning_fast.py
+++ b/sidetopics/model/ctm_bohning_fast.py
@@ -81,9 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(query.means)
 
 def newModelFromExisting(model):
     '''
@@ -281,7 +279,7 @@ def train (data, modelState, queryState, trainPlan):
         if diagonalPriorCov:
             means = varcs * rhs
         else:
-            means = isigT.dot(rhs)
+            means = rhs.dot(isigT)
             rhsSum = rhs.sum(axis=1)
 
 
@@ -371,7 +369,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index bd0118c..42c8bc4 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -81,9 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(query.means)
 
 def newModelFromExisting(model):
     '''
@@ -363,7 +361,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
-- 
2.43.0


From 7ebeda47787dc51237d0027241b1cf1df08a6bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 075/110] fix: the Bohning side-topic models keep all of a
 document's variables together when sorting by length

---
 sidetopics/model/stm_uv_vecy_bohning.py | 3 ++-
 sidetopics/model/stm_yv_bohning.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index a07d1dd..ceeeeec 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -206,7 +206,7 @@ def train (data, modelState, queryState, trainPlan):
     sortIdx = np.argsort(docLens, kind=STABLE_SORT_ALG) # sort needs to be stable in order to be reversible
     W = W[sortIdx,:] # deep sorted copy
     X = X[sortIdx,:]
-    means, varcs = means[sortIdx,:], varcs[sortIdx,:]
+    means, expMeans, varcs = means[sortIdx,:], expMeans[sortIdx,:], varcs[sortIdx,:]
 
     docLens = originalDocLens[sortIdx]
     data = DataSet(W, feats=X)
@@ -349,6 +349,7 @@ def train (data, modelState, queryState, trainPlan):
         
     revert_sort = np.argsort(sortIdx, kind=STABLE_SORT_ALG)
     means       = means[revert_sort,:]
+    expMeans    = expMeans[revert_sort,:]
     varcs       = varcs[revert_sort,:]
     docLens     = docLens[revert_sort]
     
diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index b7325cc..0e060dd 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -203,7 +203,7 @@ def train (data, modelState, queryState, trainPlan):
     sortIdx = np.argsort(docLens, kind=STABLE_SORT_ALG) # sort needs to be stable in order to be reversible
     W = W[sortIdx,:] # deep sorted copy
     X = X[sortIdx,:]
-    means, varcs = means[sortIdx,:], varcs[sortIdx,:]
+    means, expMeans, varcs = means[sortIdx,:], expMeans[sortIdx,:], varcs[sortIdx,:]
 
     docLens = originalDocLens[sortIdx]
     
@@ -336,6 +336,7 @@ def train (data, modelState, queryState, trainPlan):
         
     revert_sort = np.argsort(sortIdx, kind=STABLE_SORT_ALG)
     means       = means[revert_sort,:]
+    expMeans    = expMeans[revert_sort,:]
     varcs       = varcs[revert_sort,:]
     docLens     = docLens[revert_sort]
     
-- 
2.43.0


From 1d13b374d2bf1c3a0164b9572de29a4cd9175e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:09 +0000
Subject: [PATCH 076/110] fix: the Bohning topic models train in single
 precision

---
 sidetopics/model/ctm_bohning.py      | 2 +-
 sidetopics/model/ctm_bohning_fast.py | 2 +-
 sidetopics/model/ctm_grad_arb.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 42c8bc4..5c9b77d 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -239,7 +239,7 @@ def train (data, modelState, queryState, trainPlan):
             isigT = la.inv(sigT)
 
         # FIXME Undo debug
-        sigT  = np.eye(K)
+        sigT  = np.eye(K, dtype=dtype)
         isigT = la.inv(sigT)
         
         debugFn (itr, sigT, "sigT", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
diff --git a/sidetopics/model/ctm_bohning_fast.py b/sidetopics/model/ctm_bohning_fast.py
index 476567e..14f5e19 100644
--- a/sidetopics/model/ctm_bohning_fast.py
+++ b/sidetopics/model/ctm_bohning_fast.py
@@ -241,7 +241,7 @@ def train (data, modelState, queryState, trainPlan):
             isigT = la.inv(sigT)
 
         # FIXME Undo debug
-        sigT  = np.eye(K)
+        sigT  = np.eye(K, dtype=dtype)
         isigT = la.inv(sigT)
         
         debugFn (itr, sigT, "sigT", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, H, docLens)
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 42c8bc4..5c9b77d 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -239,7 +239,7 @@ def train (data, modelState, queryState, trainPlan):
             isigT = la.inv(sigT)
 
         # FIXME Undo debug
-        sigT  = np.eye(K)
+        sigT  = np.eye(K, dtype=dtype)
         isigT = la.inv(sigT)
         
         debugFn (itr, sigT, "sigT", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
-- 
2.43.0


From 904c19a9042af83e425bba6fb54d1a49ceab7983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 077/110] fix: the command-line driver imports its models, and
 prunes the data it has loaded

---
 sidetopics/run/__main__.py | 60 +++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index f260cb8..6a0640a 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -48,15 +48,15 @@ StmYvBohningFakeOnline = "stm_yv_bohning_fake_online"
 
 ModelNames = ', '.join([CtmBouchard, CtmBohning, StmYvBouchard, StmYvBohning, StmYvBohningFakeOnline, StmUyvBohning, LdaCvb, LdaCvbZero, LdaVb, LdaSvb, LdaGibbs, Rtm, Mtm, Lro, Dmr, MomEm, MomGibbs])
 
-from model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
-from model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
-from model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
-from model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
-
-from model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
-from model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
-from model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
-from model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
+from sidetopics.model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
+from sidetopics.model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
+from sidetopics.model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
+from sidetopics.model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
+
+from sidetopics.model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
+from sidetopics.model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
+from sidetopics.model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
+from sidetopics.model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
 LDA_SIM_MODEL_NAME = SIM_MODEL_NAME_PREFIX + SIM_MODEL_NAME_SUFFIX
 
 DefaultPriorCov = 0.001
@@ -165,7 +165,7 @@ def run(args):
     #
     data = DataSet.from_files(args.words, args.feats, args.links, limit=args.limit)
     data.convert_to_dtype(input_dtype)
-    data.prune_and_shuffle(min_doc_len=MinDocLen, min_link_count=MinLinkCountPrune)
+    data.prune_and_shuffle(min_unique_word_count=MinDocLen, min_link_count=MinLinkCountPrune)
 
     print ("The combined word-count of the %d documents is %.0f, drawn from a vocabulary of %d distinct terms" % (data.doc_count, data.word_count, data.words.shape[1]))
     if data.add_intercept_to_feats_if_required():
@@ -182,64 +182,64 @@ def run(args):
 
     print ("Building template model... ", end="")
     if args.model == CtmBouchard:
-        import model.ctm as mdl
+        import sidetopics.model.ctm as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == CtmBohning:
-        import model.ctm_bohning as mdl
+        import sidetopics.model.ctm_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBouchard:
-        import model.stm_yv as mdl
+        import sidetopics.model.stm_yv as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohning:
-        import model.stm_yv_bohning as mdl
+        import sidetopics.model.stm_yv_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohningFakeOnline:
-        import model.stm_yv_bohning_fake_online as mdl
+        import sidetopics.model.stm_yv_bohning_fake_online as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == MomEm:
-        import model.mom_em as mdl
+        import sidetopics.model.mom_em as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == MomGibbs:
-        import model.mom_gibbs as mdl
+        import sidetopics.model.mom_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == StmUyvBohning:
-        import model.stm_uv_vec_y_bohning as mdl
+        import sidetopics.model.stm_uv_vec_y_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K=K, Q=Q, P=P,  tv=tv, ltv=ltv, fv=fv, lfv=lfv, vocabPrior=args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaCvb:
-        import model.lda_cvb as mdl
+        import sidetopics.model.lda_cvb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaCvbZero:
-        import model.lda_cvb0 as mdl
+        import sidetopics.model.lda_cvb0 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaVb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaSvb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaGibbs:
-        import model.lda_gibbs as mdl
+        import sidetopics.model.lda_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Rtm:
-        import model.rtm as mdl
+        import sidetopics.model.rtm as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm:
-        import model.mtm2 as mdl
+        import sidetopics.model.mtm2 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm2:
-        import model.mtm3 as mdl
+        import sidetopics.model.mtm3 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Dmr:
-        import model.dmr as mdl
+        import sidetopics.model.dmr as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Lro:
-        import model.lro_vb as mdl
+        import sidetopics.model.lro_vb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == SimLda:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.LDA, dtype=output_dtype)
     elif args.model == SimTfIdf:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.TF_IDF, dtype=output_dtype)
     else:
         raise ValueError ("Unknown model identifier " + args.model)
-- 
2.43.0


From 4b4e272579b3f7a1f960addf959809305910d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 078/110] fix: rolling up link-prediction scores copes with
 groups that have no documents

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 6a0640a..4e68fdb 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1187,7 +1187,7 @@ def combine_map (old_avgs, old_counts, new_avgs, new_counts):
                { g:cnt for g,cnt in new_counts.items() }
 
     upd_counts = { g:old_count + new_counts[g] for g,old_count in old_counts.items() }
-    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / upd_counts[g] \
+    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / max(1, upd_counts[g]) \
                       for o,n in zip(lst,new_avgs[g])] \
                    for g,lst in old_avgs.items() }
 
-- 
2.43.0


From 34dc666e56dc182358870882f5c154f8b760f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 079/110] fix: the hashtag evaluation holds out the hashtags it
 is told not to train on

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 4e68fdb..d2732bc 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -516,7 +516,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
             train_data, query_data = data.cross_valid_split(fold, num_folds)
 
             query_data_train_words, query_data_check_words = \
-                soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), hashtag_train_prop)
+                soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), 1.0 - hashtag_train_prop)
             query_data = query_data.copy_with_changes(words=query_data_train_words)
 
             # Train the model
-- 
2.43.0


From 42c729a19c8532076dedd951554042f619527892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 080/110] fix: files can be named after models that have no
 latent features

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index d2732bc..6c3f512 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1215,7 +1215,7 @@ def newModelFileFromModel(model, fold=None, prefix="/Users/bryanfeeney/Desktop")
     return newModelFile (
         model.name,
         model.K,
-        None if model.name[:3] == "ctm" else model.P,
+        getattr(model, "P", None),
         fold,
         prefix)
 
-- 
2.43.0


From a7a6f6e6a86fdb5500dae2a86b8853aa11b815ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:13 +0000
Subject: [PATCH 081/110] fix: link prediction on feature splits no longer
 needs a pre-trained LDA model

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 6c3f512..e1ff0f3 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1163,7 +1163,7 @@ def subsetLda(ldaModel, ldaTopics, doc_indices):
     :return:
     '''
     if ldaModel is None:
-        return None
+        return None, None
     else:
         if ldaModel.name == LDA_GIBBS_MODEL_NAME:
             return ldaModel, pruneLdaGibbsQueryState(ldaTopics, doc_indices)
-- 
2.43.0


From 54ba646ffbdcda62e0780fc4b457acb78ac0c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 082/110] fix: the hashtag evaluation counts documents, not
 occurrences

---
 sidetopics/run/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index e1ff0f3..e63d6e4 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -518,6 +518,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
             query_data_train_words, query_data_check_words = \
                 soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), 1.0 - hashtag_train_prop)
             query_data = query_data.copy_with_changes(words=query_data_train_words)
+            query_data_check_words = csr_clip(query_data_check_words, 0, 1)
 
             # Train the model
             print ("Duplicating model template... ", end="")
-- 
2.43.0


From 659e95d1df194c1ca59e47d7c29535d08c9a7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 083/110] fix: the tag evaluation ranks every tag, not just the
 right ones

---
 sidetopics/run/__main__.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index e63d6e4..e2a3d66 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -19,7 +19,6 @@ from sidetopics.model.evals import perplexity_from_like, mean_average_prec, \
     MeanPrecRecAtMAllDocs, LroMeanPrecRecAtMAllDocs, \
     LroMeanPrecRecAtMFeatSplit, HashtagPrecAtM, TagPrecAtM
 from sidetopics.util.sigmoid_utils import rowwise_softmax
-from sidetopics.util.sparse_elementwise import sparseScalarProductOfDot
 
 DTYPE=np.float32
 
@@ -642,7 +641,7 @@ def cross_val_and_eval_tag_prec_rec_at_m (data, tag_indices, tag_train_prop, mdl
         # Infer the expected link probabilities
         _, query_tops        = mdl.query (query_data, model, mdl.newQueryState(query_data, model), train_plan)
         expected_links       = csr_clip(query_data_check_words, 0, 1)
-        predicted_link_probs = sparseScalarProductOfDot(expected_links, rowwise_softmax(query_tops.means), mdl.wordDists(model))
+        predicted_link_probs = tag_probs(tag_indices, rowwise_softmax(query_tops.means), mdl.wordDists(model))
 
         # Evaluation 1/3: Precision and Recall at M
         precs, recs, doc_counts = mean_prec_rec_at(expected_links, predicted_link_probs, at=ms,
@@ -685,6 +684,19 @@ def cross_val_and_eval_tag_prec_rec_at_m (data, tag_indices, tag_train_prop, mdl
     return model_files
 
 
+def tag_probs(tag_indices, topic_dists, word_dists):
+    '''
+    The probability of every one of the tags in every document, as a sparse matrix with
+    as many rows as there are documents, and as many columns as there are words.
+    '''
+    tags  = np.array(sorted(set(tag_indices)))
+    probs = topic_dists.dot(word_dists[:,tags])
+    D     = probs.shape[0]
+
+    return ssp.csr_matrix((probs.ravel(), np.tile(tags, D), np.arange(D + 1) * len(tags)),
+                          shape=(D, word_dists.shape[1]))
+
+
 def csr_clip(matrix, min_value, max_value):
     return ssp.csr_matrix((np.clip(matrix.data, min_value, max_value), matrix.indices, matrix.indptr), shape=matrix.shape)
 
-- 
2.43.0


From ef89e0dc6d8dfc56758a6024e28fe97b90c734d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:54 +0000
Subject: [PATCH 084/110] fix: evaluations that are not told how many folds to
 run, run them all

---
 sidetopics/run/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index e2a3d66..29b5bfc 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -611,7 +611,7 @@ def cross_val_and_eval_tag_prec_rec_at_m (data, tag_indices, tag_train_prop, mdl
     model_files = []
     assert num_folds > 1, "Need at least two folds for this to make any sense whatsoever"
 
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = num_folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
@@ -885,7 +885,7 @@ def link_split_prec_rec (data, mdl, sample_model, train_plan, folds, target_fold
 
     if ldaModel is not None:
         (_, _, _, _, ldaModel, ldaTopics, _) = ldaModel
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
@@ -980,7 +980,7 @@ def insample_lro_style_prec_rec (data, mdl, sample_model, train_plan, folds, tar
         else:
             return data
 
-    if target_folds is None:
+    if target_folds is None or target_folds < 1:
         target_folds = folds
 
     combi_precs, combi_recs, combi_dcounts = None, None, None
-- 
2.43.0


From 5f13c053e387e215c4908b610e80280d6f26ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 085/110] fix: the hashtag evaluation stops after the folds it
 was asked for

---
 sidetopics/run/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 29b5bfc..4656c7c 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -559,6 +559,8 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
                 print ("%10s\t%20s\t%6d\t%s" % ("Recall", htag, prec_results[-1], "\t".join(("%0.3f" % prec_results[m] for m in MS))))
 
 
+            folds_finished += 1
+
             # Save the model
             model_files = save_if_necessary(model_files, model_dir, model, data, fold, train_itrs, train_vbs, train_likes, train_tops, None, mdl)
         except Exception as e:
-- 
2.43.0


From 1722cfdb41d8e434b8f5fd7262d41f4ce57c074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:34 +0000
Subject: [PATCH 086/110] fix: adding an intercept keeps the type of the
 features

---
 sidetopics/model/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 34ac6bb..24b8292 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -294,7 +294,7 @@ class DataSet:
         mins = to_dense_array(self._feats.min(axis=0))
         maxs = to_dense_array(self._feats.max(axis=0))
         if not np.any((mins == 1) & (maxs == 1)):
-            self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1))), "csr")
+            self._feats = ssp.hstack((self._feats, np.ones((self.doc_count, 1), dtype=self._feats.dtype)), "csr")
             return True
 
         return False
-- 
2.43.0


From 808eac6778f5e0966b60bdc157dfeb2fb23cba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 087/110] fix: result groups without documents are read as such

---
 sidetopics/run/reshape_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 3af598e..ba51beb 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -156,7 +156,7 @@ def roll_up_and_average(dic, dst, srcs):
         for m in Ms:
             dic[dst][m] += dic[src][m] * dic[src][DocCount]
     for m in Ms:
-        dic[dst][m] = dic[dst][m] / dic[dst][DocCount]
+        dic[dst][m] = dic[dst][m] / max(1, dic[dst][DocCount])
 
 
 def read_mrr(line, file):
-- 
2.43.0


From eac4b374a0a7ce11cca5e0f6095f8981ef67a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 088/110] fix: quotes in descriptions of results are escaped
 once

---
 sidetopics/run/reshape_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index ba51beb..538af91 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -237,7 +237,8 @@ def write_all_results(path, results_dict):
     def quoteText(value):
         # Use Pascal / Excel style quote escaping
         value = value.replace(TextLeftQuote,  TextQuoteEscape + TextLeftQuote)
-        value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
+        if TextRightQuote != TextLeftQuote:
+            value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
         value = TextLeftQuote + value + TextRightQuote
         return value
 
-- 
2.43.0


From 2d189564c09d97f3cc7ebb0992bca717e646522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 089/110] fix: results that directly follow others are not
 skipped

---
 sidetopics/run/reshape_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 538af91..7017162 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -203,7 +203,7 @@ def read_all_results(path):
     with open (path, "r") as file:
         line = "\n"
         while line != "":
-            line, file = skip_to_non_empty_line(file.readline(), file)
+            line, file = skip_to_non_empty_line(line, file)
             if line == "":
                 break
 
-- 
2.43.0


From 97d62c8f0f2876da91d3bc72589bad3b082e4fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 090/110] fix: the last author after an Oxford comma keeps
 their name

---
 sidetopics/run/arxiv_to_aan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/arxiv_to_aan.py b/sidetopics/run/arxiv_to_aan.py
index b48ee6f..7de8ed6 100644
--- a/sidetopics/run/arxiv_to_aan.py
+++ b/sidetopics/run/arxiv_to_aan.py
@@ -7,7 +7,7 @@ import re
 LatexEscape = re.compile(r"\\['`^" + '"' + r"H~ckl=b.druvtoi]")
 Dashes = re.compile(r"^-{15,}$")
 StartsWithWhiteSpace = re.compile(r"^\s{2,}\S.*$")
-BibTextNameDelimiter = re.compile(r"(?:\s*,\s*|\s+and\s+)")
+BibTextNameDelimiter = re.compile(r"(?:\s*,\s*and\s+|\s*,\s*|\s+and\s+)")
 
 class PaperMetadata():
 
-- 
2.43.0


From a7c9e6b88781c504c0f30b9f9ef7452b41c02b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 091/110] fix: groups that run out of tweets neither skip the
 next group nor end in an error

---
 sidetopics/run/selectusers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/selectusers.py b/sidetopics/run/selectusers.py
index f80b502..21f8b39 100644
--- a/sidetopics/run/selectusers.py
+++ b/sidetopics/run/selectusers.py
@@ -79,9 +79,9 @@ def select_group_contribs(user_counts, target):
     candidates = [g for g in group_counts.keys()]
     group_contribs = {g:0 for g in candidates}
     total_assigned = 0
-    while total_assigned < target:
+    while total_assigned < target and len(candidates) > 0:
         group_target = 1 + (target - total_assigned) // len(candidates)
-        for group in candidates:
+        for group in list(candidates):
             if group_counts[group] < group_target:
                 group_contribs[group] += group_counts[group]
                 total_assigned        += group_counts[group]
-- 
2.43.0


From 416b2b8b173adabb59f02d66495d9458c03042a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 092/110] fix: converting text to arrays keeps fractions on
 later lines, and negative values

---
 sidetopics/run/text_to_numpy.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index e0ea142..8595a6e 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -15,11 +15,23 @@ def die(errmsg):
     print (errmsg)
     exit(-1)
 
-def save_as_numpy_sparse (infile, row_count):
+def read_col_count_and_dtype(infile):
+    '''
+    The number of columns in the file, and the type of its values, which is only
+    integral if there are nothing but whole numbers on every line
+    '''
     with open (infile, "r") as f:
-        first_line = f.readline()
-        col_count = len(first_line.split())
-        dtype = np.float32 if "." in first_line else np.int32
+        line = f.readline()
+        col_count = len(line.split())
+        while line != "":
+            if line.strip("0123456789+- \t\r\n") != "":
+                return col_count, np.float32
+            line = f.readline()
+
+    return col_count, np.int32
+
+def save_as_numpy_sparse (infile, row_count):
+    col_count, dtype = read_col_count_and_dtype(infile)
 
     matrix = sp.lil_matrix((row_count, col_count), dtype=dtype)
     row = 0
@@ -28,7 +40,7 @@ def save_as_numpy_sparse (infile, row_count):
             try:
                 vals = [float(fstr) for fstr in line.split()]
                 for (col, val) in enumerate(vals):
-                    if val > 0:
+                    if val != 0:
                         matrix[row, col] = val
             except ValueError as e:
                 print ("Can't read line " + str(row) + " from file " + str(infile) + " " + str(line))
@@ -43,10 +55,7 @@ def save_as_numpy_sparse (infile, row_count):
         pkl.dump(matrix.tocsr(), f)
 
 def save_as_numpy (infile, row_count):
-    with open (infile, "r") as f:
-        first_line = f.readline()
-        col_count = len(first_line.split())
-        dtype = np.float32 if "." in first_line else np.int32
+    col_count, dtype = read_col_count_and_dtype(infile)
 
     matrix = np.ndarray(shape=(row_count, col_count), dtype=dtype)
     row = 0
-- 
2.43.0


From 161259e3cf449312f7f15c17a82e1dc5cc73ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 093/110] fix: reports can be generated for one bound only

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 931e700..75058b3 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -77,10 +77,10 @@ def run(args):
     
     if args.model.endswith(Bohning):
         bounds = [Bohning]
-        model  = args.model[:-len(Bohning)]
+        model  = args.model[:-len(Bohning)].rstrip('_')
     elif args.model.endswith(Bouchard):
         bounds = [Bouchard]
-        model  = args.model[:-len(Bouchard)]
+        model  = args.model[:-len(Bouchard)].rstrip('_')
     else:
         bounds = [Bouchard, Bohning]
         model = args.model
-- 
2.43.0


From 72199b0d54099fa4000bf5069c033f35fba94e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 094/110] fix: reports list all and only the outputs of their
 folds

---
 sidetopics/run/report_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/report_generator.py b/sidetopics/run/report_generator.py
index 75058b3..c12609d 100644
--- a/sidetopics/run/report_generator.py
+++ b/sidetopics/run/report_generator.py
@@ -19,8 +19,8 @@ StmTemplateFileName = "StmResultsSheet-Template.ipynb"
 StmTemplateFileNameNips = "StmResultsSheet-Nips-Template.ipynb"
 TemplateDir = os.path.dirname (os.path.dirname (__file__)) + os.path.sep + 'notebooks'
 CodeDir     = os.path.dirname(TemplateDir)
-CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d_\d{8}_\d{4}.pkl"
-StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d_\d{8}_\d{4}.pkl"
+CtmOutFileNameFormat = r"ctm_%s_k_%d_fold_\d+_\d{8}_\d{4}\.pkl$"
+StmOutFileNameFormat = r"stm_yv_%s_k_%d_p_%d_fold_\d+_\d{8}_\d{4}\.pkl$"
 
 CtmReportFileFormat = "ctm_%s_k_%d.ipynb"
 StmReportFileFormat = "stm_yv_%s_k_%d_p_%d.ipynb"
-- 
2.43.0


From 61ee4907032b22f08957996030626d295ececf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 095/110] fix: models without latent features are saved under
 the names that reports look for

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 4656c7c..4d2e5bf 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -773,7 +773,7 @@ def save_if_necessary (model_files, model_dir, model, data, fold, train_itrs, tr
 
 
 def save_model(model_dir, model, data, fold, train_itrs, train_vbs, train_likes, train_tops, query_tops, mdl):
-    P = 0 if 'P' not in dir(model) else model.P
+    P = None if 'P' not in dir(model) else model.P
 
     model_file = newModelFile(model.name, model.K, P, fold, model_dir)
 
-- 
2.43.0


From 67d343c1c1eafae549975c8668de3c78accb0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 096/110] fix: results without average precision no longer end
 the file

---
 sidetopics/run/reshape_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 7017162..68ef50b 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -176,7 +176,7 @@ def read_map(line, file):
         if line.startswith(MapPrefix):
             return float(line[len(MapPrefix):]), file.readline()
         if line == "":
-            return -1, line
+            return -1, file.readline()
         line = file.readline()
 
     return -1, line
-- 
2.43.0


From ff095a162907c3aa08efb8f36b57e7590895fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 097/110] fix: the likelihood and bound of MTM3 read the topics
 of link targets the right way round

---
 sidetopics/model/mtm3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 7b58ce7..315115f 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -575,7 +575,7 @@ def log_likelihood (data, modelState, queryState):
     queryState object.
     '''
     probs = rowwise_softmax(queryState.outMeans)
-    doc_dist = colwise_softmax(queryState.inMeans)
+    doc_dist = colwise_softmax(queryState.inMeans).T.copy()
 
     word_likely = np.sum( \
         sparseScalarProductOfSafeLnDot(\
@@ -649,7 +649,7 @@ def var_bound(data, modelState, queryState):
     W_weights  = sparseScalarQuotientOfDot(W, expMeansOut, vocab)  # D x V   [W / TB] is the quotient of the original over the reconstructed doc-term matrix
     top_sums   = expMeansOut * (W_weights.dot(vocab.T)) # D x K
 
-    L_weights  = sparseScalarQuotientOfNormedDot(L, expMeansOut, expMeansIn, lse_at_k)
+    L_weights  = sparseScalarQuotientOfNormedDot(L, expMeansOut, expMeansIn.T.copy(), lse_at_k)
     top_sums  += expMeansOut * (L_weights.dot(expMeansIn) / lse_at_k[np.newaxis, :])
 
     # E[p(Z,Y)]
-- 
2.43.0


From 19011c8c789e1780af5f7e41b5fa70cfeb396c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:51 +0000
Subject: [PATCH 098/110] fix: MTM3 reports the topics of documents from the
 query state it has

---
 sidetopics/model/mtm3.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 315115f..096a677 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -95,9 +95,7 @@ def is_undirected_link_predictor():
     return False
 
 def topicDists(queryState):
-    result  = np.exp(queryState.topicMean - queryState.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
-    return result
+    return rowwise_softmax(queryState.outMeans)
 
 def newModelFromExisting(model, withLdaModel=None):
     '''
-- 
2.43.0


From f8d101f2c7b3d146c571f2481a506cd480ec8206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:44 +0000
Subject: [PATCH 099/110] fix: RTM counts every link to an earlier document in
 whatever order they are stored

---
 sidetopics/model/rtm.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 82d03d3..119a577 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -806,16 +806,9 @@ def _links_up_to_csr(d, Xptr, Xindices):
     once. Assumes we're working on a DxD CSR matrix.
     '''
     
-    start = Xptr[d]
-    end   = start
-    while end < Xptr[d+1]:
-        if Xindices[end] >= d:
-            break
-        end += 1
-    
-    result = Xindices[start:end]
+    result = Xindices[Xptr[d]:Xptr[d+1]]
     
-    return result
+    return result[result < d] # the indices need not be sorted
 
 
 def is_undirected_link_predictor():
-- 
2.43.0


From b97ad12bb52db52f5d6b2ca8fdaf466390caa801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:52 +0000
Subject: [PATCH 100/110] fix: LDA trained in batch keeps the name by which
 other models recognise it

---
 sidetopics/model/lda_vb_python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 6ae41d9..b4f6362 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -394,7 +394,8 @@ def train(data, model, query, plan, updateVocab=True):
 
     # Amend the name to incorporate training information
     rateAlgor = plan.rate_algor
-    modelName = "lda/svbp/%s" % _sgd_desc(plan)
+    modelName = "lda/svbp/%s" % _sgd_desc(plan) \
+                if rateAlgor != RateAlgorBatch else model.name
     print(modelName)
 
     # Start traininng
-- 
2.43.0


From fe4ebedef171caca077f82f44cc9ac0061bb27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 101/110] fix: assignments returned by transform are not
 overwritten when the query is resumed

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 0359491..4f18cb5 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -389,7 +389,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
         self._bound = math.nan
         self._set_or_clear_last_query_state(X, inferred_query_state, kwargs.get('persist_query_state'))
 
-        ret_val = module.topicDists(inferred_query_state)
+        ret_val = np.array(module.topicDists(inferred_query_state))
         logging.info(f"Obtained a {ret_val.shape} topic-assignments matrix after {iters} iterations")
         return ret_val
 
-- 
2.43.0


From df0161ca4fdfea921f7b692c387d39ae1c7f142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:58 +0000
Subject: [PATCH 102/110] fix: mini-batches of the variational LDA stand for
 the whole corpus

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index b4f6362..8fea073 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -407,7 +407,7 @@ def train(data, model, query, plan, updateVocab=True):
             d = d + 1 if (d + 1) < D else 0
 
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
-            grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
+            grad[:, wordIdx] += (D / batchSize) * W[d, :].data[np.newaxis, :] * z
 
         if not updateVocab:
             continue
-- 
2.43.0


From 0f464d1b02c4a14ccee48baa9bc9db0e413762cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:58 +0000
Subject: [PATCH 103/110] fix: steps of the online variational LDA are no
 greater than one

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 8fea073..bc449a1 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -416,7 +416,7 @@ def train(data, model, query, plan, updateVocab=True):
             wordDists[:, :] = grad[:, :]
         else:
             if rateAlgor == RateAlgorTimeKappa:
-                stepSize[:] = (b + plan.rate_delay)**(-plan.forgetting_rate)
+                stepSize[:] = max(1., b + plan.rate_delay)**(-plan.forgetting_rate)
             elif rateAlgor == RateAlgorVariance:
                 update_inplace_v(gradStep, ex_grad, change=grad)
                 gtg = stepSize.copy()
-- 
2.43.0


From 5163ce0f03d019ceca862096497c3c8a95ec48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 104/110] fix: the variational LDA trains with a vector as its
 vocabulary prior

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index bc449a1..947cba1 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -401,7 +401,7 @@ def train(data, model, query, plan, updateVocab=True):
     # Start traininng
     d = -1
     for b in range(batchCount * iterations):
-        grad.fill(vocabPrior)
+        grad[:, :] = vocabPrior
         # firstD = d
         for s in range(batchSize):
             d = d + 1 if (d + 1) < D else 0
-- 
2.43.0


From d1385334d6f0522ad0be3cee50c4e4692f177a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:25 +0000
Subject: [PATCH 105/110] fix: priors may be any kind of number, or vectors of
 integers

---
 sidetopics/model/lda_gibbs.py     | 8 ++++++--
 sidetopics/model/lda_vb_python.py | 6 ++++--
 sidetopics/model/mom_em.py        | 4 +++-
 sidetopics/model/mom_gibbs.py     | 4 +++-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 2b15824..c670c37 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -92,12 +92,16 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=None, dtype=DTYPE):
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 50.0 / K, dtype=dtype) # From Griffiths and Steyvers 2004
-    if type(topicPrior) == float or type(topicPrior) == int:
+    if np.ndim(topicPrior) == 0:
         topicPrior = constantArray((K,), topicPrior, dtype=dtype)
+    else:
+        topicPrior = np.array(topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = constantArray((T,), 0.1, dtype=dtype) # Also from G&S
-    elif type(vocabPrior) is float:
+    elif np.ndim(vocabPrior) == 0:
         vocabPrior = constantArray((T,), vocabPrior, dtype=dtype) # Also from G&S
+    else:
+        vocabPrior = np.array(vocabPrior, dtype=dtype)
 
     topicSum  = None # These start out at none until we actually
     vocabSum  = None # go ahead and train this model.
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 947cba1..62bc699 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -90,8 +90,10 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype) # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.ndim(topicPrior) == 0:
         topicPrior = constantArray((K,), topicPrior, dtype) # From Griffiths and Steyvers 2004
+    else:
+        topicPrior = np.array(topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = VocabPrior
 
@@ -809,7 +811,7 @@ def var_bound(data, model, query, z_dnk = None):
 
     # E[ln p(vocabs|vocabPrior)]
     #
-    if type(model.vocabPrior) is float or type(model.vocabPrior) is int:
+    if np.ndim(model.vocabPrior) == 0:
         prob_vocabs = K * (fns.gammaln(wordPrior * T) - T * fns.gammaln(wordPrior)) \
                + np.sum((wordPrior - 1) * (diWordDists - diSumWordDists[:, np.newaxis] ))
     else:
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index e4d9818..d126d80 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -87,8 +87,10 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VOCAB_PRIOR, dtype=DTY
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype)  # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.ndim(topicPrior) == 0:
         topicPrior = constantArray((K,), topicPrior, dtype)
+    else:
+        topicPrior = np.array(topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = VOCAB_PRIOR
     if issubclass(type(vocabPrior), Number):
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 735dbd5..a0046e6 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -79,8 +79,10 @@ def newModelAtRandom(data, K, topicPrior=None, vocabPrior=VocabPrior, dtype=DTYP
 
     if topicPrior is None:
         topicPrior = constantArray((K,), 5.0 / K + 0.5, dtype)  # From Griffiths and Steyvers 2004
-    elif type(topicPrior) is float:
+    elif np.ndim(topicPrior) == 0:
         topicPrior = constantArray((K,), topicPrior, dtype)  # From Griffiths and Steyvers 2004
+    else:
+        topicPrior = np.array(topicPrior, dtype=dtype)
     if vocabPrior is None:
         vocabPrior = VocabPrior
 
-- 
2.43.0


From 88242b708bc84b770471dee66c43ff5c98ddb58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:55 +0000
Subject: [PATCH 106/110] fix: CTM queries give words to topics afresh in every
 iteration

---
 sidetopics/model/ctm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 00c7952..ab631e6 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -337,9 +337,6 @@ def query(dataset, modelState, queryState, queryPlan):
     # Necessary temp variables (notably the count of topic to word assignments
     # per topic per doc)
     isigT = la.inv(sigT)
-    expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis], out=expMeans)
-    R = sparseScalarQuotientOfDot(W, expMeans, vocab)
-    S = expMeans * R.dot(vocab.T)
         
     # Enable logging or not. If enabled, we need the inner product of the feat matrix
     debugFn = _debug_with_bound if debug else _debug_with_nothing
@@ -347,6 +344,11 @@ def query(dataset, modelState, queryState, queryPlan):
     # Iterate over parameters
     lastPerp = 1E+300 if dtype is np.float64 else 1E+30
     for itr in range(iterations):
+        # Estimate Z_dvk
+        expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis], out=expMeans)
+        R = sparseScalarQuotientOfDot(W, expMeans, vocab)
+        S = expMeans * R.dot(vocab.T)
+
         # Update the Means
         vMat   = (s[:,np.newaxis] * lxi - 0.5) * n[:,np.newaxis] + S
         rhsMat = vMat + isigT.dot(topicMean)
-- 
2.43.0


From b44883c20b675f97a8728d75403c4954fa5efa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:31 +0000
Subject: [PATCH 107/110] fix: stm_yv can be trained with debugging on

---
 sidetopics/model/stm_yv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index fbf904f..40a1418 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -510,7 +510,7 @@ def _debug_with_bound (itr, var_value, var_name, W, X, XTX, F, P, K, A, R_A, fv,
         printStderr ("WARNING: dtype(" + var_name + ") = " + str(var_value.dtype))
     
     modelState = ModelState(F, P, K, A, R_A, fv, Y, R_Y, lfv, V, sigT, vocab, vocabPrior, dtype, MODEL_NAME)
-    queryState = QueryState(means, varcs, lxi, s, n)
+    queryState = QueryState(means, means.copy(), varcs, lxi, s, n)
     
     old_bound = _debug_with_bound.old_bound
     bound     = var_bound(DataSet(W, feats=X), modelState, queryState, XTX)
-- 
2.43.0


From eed26a53548673f7cc6578edff9aff870ded417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:31 +0000
Subject: [PATCH 108/110] fix: the bound of stm_yv leaves the means of
 documents as they are

---
 sidetopics/model/stm_yv.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sidetopics/model/stm_yv.py b/sidetopics/model/stm_yv.py
index 40a1418..e9a166a 100644
--- a/sidetopics/model/stm_yv.py
+++ b/sidetopics/model/stm_yv.py
@@ -482,9 +482,7 @@ def var_bound(data, modelState, queryState, XTX = None):
     # The last term of line 1 gets cancelled out by part of the first term in line 2
     # so neither are included here.
     
-    row_maxes = means.max(axis=1)
-    means -= row_maxes[:,np.newaxis]
-    expMeans = np.exp(means, out=means)
+    expMeans = np.exp(means - means.max(axis=1)[:,np.newaxis])
     bound -= -np.sum(sparseScalarProductOfSafeLnDot(W, expMeans, vocab).data)
     
     bound -= np.sum(docLens[:,np.newaxis] * lxi * ((s*s)[:,np.newaxis] - (xi * xi)))
@@ -494,9 +492,6 @@ def var_bound(data, modelState, queryState, XTX = None):
     
     bound -= np.dot(s, docLens)
     
-    means = np.log(expMeans, out=expMeans)
-    means += row_maxes[:,np.newaxis]
-    
     return bound
 
 
-- 
2.43.0


From abb983b9f53d53022b3265c9a7ac13f04a12b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:16 +0000
Subject: [PATCH 109/110] fix: a line of one value is not spread over its whole
 row

---
 sidetopics/run/text_to_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidetopics/run/text_to_numpy.py b/sidetopics/run/text_to_numpy.py
index 8595a6e..ddacd6e 100644
--- a/sidetopics/run/text_to_numpy.py
+++ b/sidetopics/run/text_to_numpy.py
@@ -67,6 +67,8 @@ def save_as_numpy (infile, row_count):
                 print ("Can't read line " + str(row) + " from file " + str(infile) + " " + str(line))
                 die(str(e))
 
+            if len(vals) != col_count:
+                die ("Row %d has %d values but the first has %d" % (row, len(vals), col_count))
             matrix[row,:] = vals
             row += 1
     if row != row_count:
-- 
2.43.0


From 6d25129418662deeca9cbcc8046bd583d98fe0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:49 +0000
Subject: [PATCH 110/110] fix: the offsets of LRO are fitted to the documents
 that link, as its scale is

---
 sidetopics/model/lro_vb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lro_vb.py b/sidetopics/model/lro_vb.py
index 745eca4..59b8d04 100644
--- a/sidetopics/model/lro_vb.py
+++ b/sidetopics/model/lro_vb.py
@@ -215,8 +215,9 @@ def train (data, model, query, trainPlan, isQuery=False):
 
         # Update the offset for every target doc
         for p in range(data.doc_count):
-            lhs  = (tau[1] - tau[0]) * np.einsum("dj,k->jk", tops[inlinks[p,:].indices,:], tops[p,:])
-            lhs += tau[0] * (np.einsum("dj,k->jk", tops, tops[p,:]) - np.outer(tops[p,:], tops[p,:]))
+            origins = tops[inlinks[p,:].indices,:]
+            lhs  = (tau[1] - tau[0]) * origins.T.dot(origins)
+            lhs += tau[0] * (topsSum - np.outer(tops[p,:], tops[p,:]))
             lhs *= (scale * scale)
             lhs[np.diag_indices_from(lhs)] += noiseVar
 
-- 
2.43.0

