From e0e47532217e000774b8a600d2b9ad77112d14ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:20 +0000
Subject: [PATCH 01/18] fix: correct cSIL's incremental cross-scatter terms

A new cluster's mean squared distance to an old centroid lacked the factor 2
on the cross term, and an old cluster's counted the new sample's cross term
twice, so the incremental value differed from the batch one.
---
 src/cvi/modules/cSIL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 93c0911..21d1dd3 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -85,7 +85,7 @@ class cSIL(_base.CVI):
                     C = (
                         CP_new
                         + np.inner(self._v[cl, :], self._v[cl, :])
-                        - np.inner(G_new, self._v[cl, :])
+                        - 2 * np.inner(G_new, self._v[cl, :])
                     )
                     S_col_new[cl] = C
                     C = (
@@ -140,7 +140,7 @@ class cSIL(_base.CVI):
                     self._CP[i_label]
                     + np.inner(diff_x_v, diff_x_v)
                     + self._n[i_label] * np.inner(self._v[cl, :], self._v[cl, :])
-                    - 2 * np.inner(G_new, self._v[cl, :])
+                    - 2 * np.inner(self._G[i_label, :], self._v[cl, :])
                 )
                 S_col_new[cl] = C / n_new
                 # Row "bmu_temp" - E
-- 
2.43.0


From 49ffca1f252011d548058a0184efc5989d90a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 02/18] fix: accept arbitrary integer labels in batch mode

The batch updates select clusters with labels 0..k-1, so labels that do not
start at zero or have gaps silently gave empty clusters and NaN, although the
incremental mode accepts them.
---
 src/cvi/modules/_base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index e931411..f83794d 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -145,13 +145,16 @@ class CVI():
             if not self._is_setup:
 
                 # Check that there are at least two unique labels
-                if not len(np.unique(label)) > 1:
+                unique_labels, internal_labels = np.unique(
+                    label, return_inverse=True
+                )
+                if not len(unique_labels) > 1:
                     raise ValueError(
                         "Batch CVI mode requires at least two unique labels"
                     )
 
-                # Do a batch update
-                self._param_batch(data, label)
+                # Do a batch update with labels in [0, n_clusters)
+                self._param_batch(data, internal_labels)
 
             # Otherwise, we are already setup
             else:
-- 
2.43.0


From 858f8caa086a93243e0a702536498f52211871b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 03/18] fix: work on a private float copy of the samples

CH and WB kept the first sample of a stream by reference, so refilling the
same buffer with the next sample changed their grand mean. The incremental
cSIL and the batch rCIP multiplied integer samples in their own type, which
overflows for small integer types.
---
 src/cvi/modules/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index f83794d..237fc23 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -134,6 +134,10 @@ class CVI():
             The CVI's criterion value.
         """
 
+        # Work on a private float copy: the caller may reuse its buffer, and
+        # products of small integer types would overflow
+        data = np.array(data, dtype=float)
+
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
             self._param_inc(data, label)
-- 
2.43.0


From d365e1a88be955bdad3a0a2365aa57aaec1ed6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 04/18] fix: reject a sample after a batch update

Switching from batch to incremental is documented as not supported, but only a
second batch was rejected: a sample after a batch either hit an IndexError or
silently went to the wrong cluster, because the label map is empty.
---
 src/cvi/modules/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 237fc23..9d892c2 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -68,6 +68,7 @@ class CVI():
         self._n_clusters = 0
         self.criterion_value = 0.0
         self._is_setup = False
+        self._is_batch = False
 
     def _setup(self, sample: np.ndarray):
         """
@@ -102,6 +103,7 @@ class CVI():
         # Infer the data dimension and number of samples
         self._n_samples, self._dim = data.shape
         self._is_setup = True
+        self._is_batch = True
 
     @abstractmethod
     def _param_inc(self, sample: np.ndarray, label: int):
@@ -140,6 +142,13 @@ class CVI():
 
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
+
+            # Error until batch to incremental is supported
+            if self._is_batch:
+                raise ValueError(
+                    "Switching from batch to incremental not supported"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
-- 
2.43.0


From f1c1f1c4f6ccaf8ef3fb48d45646cec328735f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 05/18] fix: reject mismatched sample and label shapes up front

A sample of the wrong dimension was broadcast or failed halfway through the
update, leaving a registered label or an incremented cluster count behind. A
batch with a different number of labels failed after the object was marked as
set up, or silently ignored samples.
---
 src/cvi/modules/_base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 9d892c2..d115421 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -149,6 +149,12 @@ class CVI():
                     "Switching from batch to incremental not supported"
                 )
 
+            # Check that the dimension is that of the stream
+            if self._is_setup and len(data) != self._dim:
+                raise ValueError(
+                    f"Expected a sample of {self._dim} features, received {len(data)}"
+                )
+
             self._param_inc(data, label)
 
         # Otherwise, we got 2D data and do the correct update
@@ -166,6 +172,12 @@ class CVI():
                         "Batch CVI mode requires at least two unique labels"
                     )
 
+                # Check that there is one label per sample
+                if len(internal_labels) != len(data):
+                    raise ValueError(
+                        f"Received {len(data)} samples but {len(internal_labels)} labels"
+                    )
+
                 # Do a batch update with labels in [0, n_clusters)
                 self._param_batch(data, internal_labels)
 
-- 
2.43.0


From 9a3a70f0f2074a78708ef7a8828ddeead78ca336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 06/18] fix: size cSIL's batch distance matrix by clusters

Only one row per cluster is used; the quadratic allocation fails for large
batches.
---
 src/cvi/modules/cSIL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 21d1dd3..b421841 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -192,7 +192,7 @@ class cSIL(_base.CVI):
         self._v = np.zeros((self._n_clusters, self._dim))
         self._CP = np.zeros(self._n_clusters)
         self._S = np.zeros((self._n_clusters, self._n_clusters))
-        D = np.zeros((self._n_samples, self._n_samples))
+        D = np.zeros((self._n_clusters, self._n_samples))
         for ix in range(self._n_clusters):
             subset_indices = (
                 [x for x in range(len(labels)) if labels[x] == ix]
-- 
2.43.0


From c06ca6c916e1ba927e2fd58c71fac380e520a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 07/18] fix: center rCIP's batch covariance before squaring

The difference of raw second moments cancels catastrophically for data far
from the origin and can even make the covariance indefinite (NaN), while the
incremental update is stable.
---
 src/cvi/modules/rCIP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index e9bf5a4..2f8e4c5 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -181,10 +181,10 @@ class rCIP(_base.CVI):
             self._n[ix] = subset.shape[0]
             self._v[ix, :] = np.mean(subset, axis=0)
             if self._n[ix] > 1:
+                diff_x_v = subset - self._v[ix, :]
                 self._sigma[:, :, ix] = (
                     (1 / (self._n[ix] - 1)) * (
-                        np.transpose(subset) @ subset
-                        - self._n[ix] * np.outer(self._v[ix, :], self._v[ix, :])
+                        np.transpose(diff_x_v) @ diff_x_v
                     ) + self._delta_term
                 )
             else:
-- 
2.43.0


From f6a3716c815ce3c59ca9b87ff2c0f8ebab5a651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:07 +0000
Subject: [PATCH 08/18] fix: take cSIL's incremental moments about the first
 sample

The index is translation invariant, but its raw second moments cancel
catastrophically for data far from the origin (e.g. time stamps).
---
 src/cvi/modules/cSIL.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index b421841..761dce0 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -38,6 +38,7 @@ class cSIL(_base.CVI):
         # cSIL-specific initialization
         self._S = np.empty([0, 0])   # n_clusters x dim
         self._sil_coefs = []         # dim
+        self._origin = np.zeros([0])  # dim
 
     @_base._add_docs(_base._setup_doc)
     def _setup(self, sample: np.ndarray):
@@ -48,6 +49,9 @@ class cSIL(_base.CVI):
         # Run the generic setup routine
         super()._setup(sample)
 
+        # cSIL-specific setup
+        self._origin = sample
+
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
         """
@@ -64,6 +68,9 @@ class cSIL(_base.CVI):
         if self._n_samples == 0:
             self._setup(sample)
 
+        # Take the raw moments about the first sample to limit cancellation
+        sample = sample - self._origin
+
         # IF NEW CLUSTER LABEL
         # Correct for python 0-indexing
         if i_label > self._n_clusters - 1:
-- 
2.43.0


From f24c5c00c0e2ca61121435d67ae23cb214a68761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 09/18] fix: keep round-off out of the legacy compactness
 update

CP_update took the square root of a term that is zero up to round-off and
turned the compactness into NaN whenever it came out negative.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index b8f5d1a..2e948b1 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -213,7 +213,7 @@ def CP_update(
         cp_old
         + np.linalg.norm(z, q) ** p
         + n_old * np.linalg.norm(delta_v, q) ** p
-        + np.sqrt(2 * np.dot(delta_v, g_old)) ** p
+        + np.sqrt(np.maximum(2 * np.dot(delta_v, g_old), 0)) ** p
     )
 
     return cp_new, g_new, v_new, n_new
-- 
2.43.0


From 905f9fa60bdfc2135b28a7086c37bb99b567f0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 10/18] fix: let legacy clusters take a second box point and be
 built from lists

---
 src/cvi/compat/v0.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 2e948b1..7a43363 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -59,7 +59,7 @@ class Cluster:
             assert np.max(x) <= 1
             assert np.min(x) >= 0
             cc_x = np.append(x, 1-x)
-            if self.bounding_box:
+            if len(self.bounding_box) > 0:
                 self.bounding_box = np.minimum(self.bounding_box, cc_x)
             else:
                 self.bounding_box = cc_x
@@ -141,10 +141,10 @@ class Clusters(list):
     Base clusters class.
     """
     def from_list(self, X, C):
-        for x, c in zip(X, C):
-            if c >= self.__len__():
-                self.append(Cluster)
-            self[c].add_point(c, c)
+        for i, (x, c) in enumerate(zip(X, C)):
+            while c >= self.__len__():
+                self.append(Cluster())
+            self[c].add_point(x, i)
 
 
 def norm22(x: np.ndarray):
-- 
2.43.0


From 0056979f131f9d3288882b96ecb80f4d50701d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 11/18] fix: refresh the legacy iXB minimum separation on every
 update

The minimum could only shrink, so iXB was wrong once the closest centers
moved apart.
---
 src/cvi/compat/v0.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 7a43363..df12fef 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -310,15 +310,17 @@ class iXB:
 
         # self.WGSS_i[c_i] = CP(self.clusters[c_i].center,self.clusters[c_i],2,2)
         self.WGSS += self.WGSS_i[c_i]
-        self.min_v_i[c_i] = np.inf
-        for j in range(len(self.cluster_centers)):
-            if j != c_i:
-                self.min_v_i[c_i] = np.minimum(
-                    self.min_v_i[c_i],
-                    norm22(self.cluster_centers[c_i]-self.cluster_centers[j])
-                )
+        # A moved center changes the nearest distance of the other clusters too
+        for i in range(len(self.cluster_centers)):
+            self.min_v_i[i] = np.inf
+            for j in range(len(self.cluster_centers)):
+                if j != i:
+                    self.min_v_i[i] = np.minimum(
+                        self.min_v_i[i],
+                        norm22(self.cluster_centers[i]-self.cluster_centers[j])
+                    )
 
-        self.min_v = min([self.min_v, self.min_v_i[c_i]])
+        self.min_v = min(self.min_v_i)
 
         self.output = (self.WGSS / self.N) / self.min_v
         return self.output
-- 
2.43.0


From 2c6f070abac7b4c3dcc8c8e7f5e80d5675cb67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 12/18] fix: make the legacy iCH accept samples of known
 clusters

It compared the label with the length of a list that is never filled, and
left the between-cluster scatter of the other clusters stale.
---
 src/cvi/compat/v0.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index df12fef..fa8c3a0 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -450,7 +450,7 @@ class iCH:
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
         )
-        if c_i == len(self.clusters):
+        if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
@@ -473,12 +473,13 @@ class iCH:
             )
             self.WGSS += self.WGSS_i[c_i]
 
-        self.BGSS -= self.BGSS_i[c_i]
-        self.BGSS_i[c_i] = (
-            self.cluster_sizes[c_i]
-            * norm22(self.cluster_centers[c_i] - self.data_center)
-        )
-        self.BGSS += self.BGSS_i[c_i]
+        # A moved data center changes the contribution of every cluster
+        for i in range(len(self.cluster_centers)):
+            self.BGSS_i[i] = (
+                self.cluster_sizes[i]
+                * norm22(self.cluster_centers[i] - self.data_center)
+            )
+        self.BGSS = sum(self.BGSS_i)
 
         if (len(self.cluster_centers) > 1) and (self.N - len(self.cluster_centers) > 0):
             self.output = (
-- 
2.43.0


From 7a5cd54dccc448b269d8c63574be840d2e0b20cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:23 +0000
Subject: [PATCH 13/18] fix: make the legacy iPS usable with two clusters

np.sum of a generator raised TypeError, the mean center summed over the
features, and the output was only refreshed for a single cluster.
---
 src/cvi/compat/v0.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index fa8c3a0..3f4cf19 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -378,30 +378,28 @@ class iPS:
         self.max_cluster_size = (
             np.maximum(self.max_cluster_size, self.cluster_sizes[c_i])
         )
-        b_ = ([
-            norm22(self.cluster_centers[c_i] - self.cluster_centers[c_j])
-            for c_j in range(len(self.cluster_centers))
-            if c_j != c_i
-        ])
-        if b_:
-            b = np.min(b_)
-            self.mean_cluster_center = (
-                np.sum(self.cluster_centers) / len(self.cluster_centers)
-            )
+        if len(self.cluster_centers) > 1:
+            self.mean_cluster_center = np.mean(self.cluster_centers, axis=0)
             Bt = (
-                np.sum(
+                sum(
                     norm22(cc - self.mean_cluster_center)
                     for cc in self.cluster_centers
                 ) / len(self.cluster_centers)
             )
-            self.PS_i[c_i] = (
-                self.cluster_sizes[c_i] / self.max_cluster_size
-                - np.exp(-b / Bt)
-            )
+            for i in range(len(self.cluster_centers)):
+                b = min(
+                    norm22(self.cluster_centers[i] - self.cluster_centers[j])
+                    for j in range(len(self.cluster_centers))
+                    if j != i
+                )
+                self.PS_i[i] = (
+                    self.cluster_sizes[i] / self.max_cluster_size
+                    - np.exp(-b / Bt)
+                )
         else:
             self.PS_i[c_i] = 0
 
-            self.output = np.sum(self.PS_i)
+        self.output = np.sum(self.PS_i)
         return self.output
 
 
-- 
2.43.0


From 24b358ba91abf592d8ff4ae300c0c7d36d5fd76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:56 +0000
Subject: [PATCH 14/18] fix: let the legacy iDB and iGD accept a second sample
 of a cluster

iDB indexed a compactness list it never filled, iGD read an attribute of an
integer cluster size.
---
 src/cvi/compat/v0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 3f4cf19..8f56b49 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -578,7 +578,7 @@ class iGD:
                         self.d[j, c_i] = self.d[c_i, j]
             self.D[c_i] = (
                 2 * self.CP[c_i]
-                / self.cluster_sizes[c_i].len
+                / self.cluster_sizes[c_i]
             )
             self.output = np.min(self.d) / np.max(self.D)
 
@@ -949,6 +949,7 @@ class iDB:
             self.cluster_sizes.append(1)
             self.R.append(0)
             self.S.append(0)
+            self.CP.append(0)
             self.M = np.pad(
                 self.M,
                 [(0, 1), (0, 1)],
-- 
2.43.0


From df5e84e63112d0461e6c2625fb79c87651e64caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 15/18] fix: let the legacy indices work on private float
 copies of samples

They kept the caller's array as the centre of a new cluster, so reusing the
buffer moved the centre, and differences of small integer types wrapped.
---
 src/cvi/compat/v0.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 8f56b49..8fa3ef8 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -285,6 +285,10 @@ class iXB:
             TODO
         """
 
+        # Work on a private float copy: the caller may reuse its buffer, and
+        # differences of small integer types would overflow
+        x = np.array(x, dtype=float)
+
         self.N += 1
         if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
@@ -362,6 +366,10 @@ class iPS:
             TODO
         """
 
+        # Work on a private float copy: the caller may reuse its buffer, and
+        # differences of small integer types would overflow
+        x = np.array(x, dtype=float)
+
         if c_i >= len(self.cluster_centers):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
@@ -444,6 +452,10 @@ class iCH:
             TODO
         """
 
+        # Work on a private float copy: the caller may reuse its buffer, and
+        # differences of small integer types would overflow
+        x = np.array(x, dtype=float)
+
         self.N += 1
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
@@ -533,6 +545,10 @@ class iGD:
             TODO
         """
 
+        # Work on a private float copy: the caller may reuse its buffer, and
+        # differences of small integer types would overflow
+        x = np.array(x, dtype=float)
+
         if c_i == len(self.cluster_centers):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
@@ -846,6 +862,10 @@ class iSIL:
             TODO
         """
 
+        # Work on a private float copy: the caller may reuse its buffer, and
+        # differences of small integer types would overflow
+        x = np.array(x, dtype=float)
+
         if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
@@ -943,6 +963,10 @@ class iDB:
             TODO
         """
 
+        # Work on a private float copy: the caller may reuse its buffer, and
+        # differences of small integer types would overflow
+        x = np.array(x, dtype=float)
+
         self.N += 1
         if c_i == len(self.cluster_centers):
             self.cluster_centers.append(x)
-- 
2.43.0


From fcb027913c1fbc36a5bb672d9d16f43e69ae60d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:07 +0000
Subject: [PATCH 16/18] fix: leave the legacy iXB and iCH unchanged by a
 refused label

The sample was counted, and moved the data centre, before the label was
found to skip ahead.
---
 src/cvi/compat/v0.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 8fa3ef8..c2717e1 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -289,14 +289,15 @@ class iXB:
         # differences of small integer types would overflow
         x = np.array(x, dtype=float)
 
+        if c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
+
         self.N += 1
         if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.min_v_i.append(np.inf)
-        elif c_i > len(self.cluster_sizes):
-            raise ValueError('Invalid Cluster Ordering')
         else:
             self.WGSS -= self.WGSS_i[c_i]
             (
@@ -456,6 +457,9 @@ class iCH:
         # differences of small integer types would overflow
         x = np.array(x, dtype=float)
 
+        if c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
+
         self.N += 1
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
@@ -465,8 +469,6 @@ class iCH:
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
             self.BGSS_i.append(0)
-        elif c_i > len(self.cluster_sizes):
-            raise ValueError('Invalid Cluster Ordering')
         else:
             self.WGSS -= self.WGSS_i[c_i]
             (
-- 
2.43.0


From a74c619dc93e56ebbc0f71ae8bde09cb97acc9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:41 +0000
Subject: [PATCH 17/18] fix: let the package be imported under python -OO

---
 src/cvi/modules/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index d115421..dfa3f6b 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -225,7 +225,8 @@ def _add_docs(docstring: str) -> Callable[[], None]:
     """
 
     def dec(func):
-        func.__doc__ = func.__doc__ + docstring
+        # Docstrings are stripped under python -OO
+        func.__doc__ = (func.__doc__ or "") + docstring
         return func
 
     return dec
-- 
2.43.0


From f5c723c4bc800a81669608bc692bb309fdf7258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:56 +0000
Subject: [PATCH 18/18] fix: sum the legacy DB separation over all features

The inner loop assigned each feature's term instead of adding it, so the
distance between two centres was that of their last feature only: the
value changed with the order of the features and was infinite when the
last one was constant.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index c2717e1..c06b2f6 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -1008,7 +1008,7 @@ class iDB:
                     self.M[c_i, j] = 0
                     for t in range(len(x)):
                         if self.cluster_sizes[j] > 0:
-                            self.M[c_i, j] = (
+                            self.M[c_i, j] += (
                                 abs(
                                     self.cluster_centers[c_i][t] - self.cluster_centers[j][t]
                                 ) ** self.p
-- 
2.43.0

