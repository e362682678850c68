From d53b64fa0ab811d9734cddcbf4e402113baebdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 001/112] fix: nearest cluster lookup by coordinate outside or
 between data points

---
 src/diffpy/srmise/dataclusters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index c79d5fb..87a4330 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -255,8 +255,10 @@ class DataClusters:
             raise Exception("Cannot cluster next point while status is INIT.")
 
         idx = np.searchsorted(self.x, x)
-        if idx > 0 or idx >= len(self.x):
+        if idx == 0:
             return self.find_nearest_cluster(idx)
+        elif idx >= len(self.x):
+            return self.find_nearest_cluster(len(self.x) - 1)
         else:
             # Choose adjacent index nearest to x
             if (self.x[idx] - x) < (x - self.x[idx - 1]):
-- 
2.43.0


From 2e72d6f1da11f399358d9e8eb29d78be7ad312d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 002/112] fix: find and combine groups of adjacent clusters of
 different sizes

---
 src/diffpy/srmise/dataclusters.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 87a4330..43819f3 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -359,7 +359,7 @@ class DataClusters:
         None
         """
         # Ensure that the same clusters aren't combined multiple times.
-        combine_flat = np.array(combine).ravel()
+        combine_flat = [i for c in combine for i in c]
         if len(combine_flat) != len(np.unique(combine_flat)):
             raise ValueError("Cannot combine a single cluster multiple times.")
 
@@ -394,7 +394,7 @@ class DataClusters:
 
             # update cluster endpoints
             self.clusters[c[0], 1] = self.clusters[c[-1], 1]
-        todelete = np.array([c[1:] for c in combine]).ravel()
+        todelete = [i for c in combine for i in c[1:]]
         self.clusters = np.delete(self.clusters, todelete, 0)
 
     def find_adjacent_clusters(self):
@@ -429,8 +429,13 @@ class DataClusters:
                 right_idx += 1
 
             if right_idx > left_idx:
-                adj.append(range(left_idx, right_idx + 1))
+                adj.append(np.arange(left_idx, right_idx + 1))
             left_idx = right_idx + 1  # set for next possible left_idx
+        if len({len(a) for a in adj}) > 1:
+            # Groups of different sizes do not fit in a rectangular array.
+            ragged = np.empty(len(adj), dtype=object)
+            ragged[:] = adj
+            return ragged
         return np.array(adj)
 
     def cut(self, idx):
-- 
2.43.0


From 92618c7f33dec00112981b4813e47f8fa8e38f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 003/112] fix: reject invalid cluster combinations without
 changing the clusters

---
 src/diffpy/srmise/dataclusters.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 43819f3..47f90cc 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -365,33 +365,34 @@ class DataClusters:
 
         for c in combine:
             # Test that all clusters are contiguous and adjacent
-            first = c[0]
-            for i in range(c[0], c[-1]):
-                if c[i + 1 - first] - 1 != c[i - first]:
+            for left, right in zip(c[:-1], c[1:]):
+                if right - left != 1:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " are not contiguous and/or increasing.",
                             ]
                         )
                     )
-                if self.clusters[i + 1, 0] - self.clusters[i, 1] != 1:
+                if self.clusters[right, 0] - self.clusters[left, 1] != 1:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " have unclustered points between them.",
                             ]
                         )
                     )
 
+        # Nothing changes unless every requested combination is valid.
+        for c in combine:
             # update cluster endpoints
             self.clusters[c[0], 1] = self.clusters[c[-1], 1]
         todelete = [i for c in combine for i in c[1:]]
-- 
2.43.0


From ead636a02851a5991f194c800c75fc3e88937ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 004/112] fix: cluster boundaries are (x, y) pairs, also at the
 left edge of the data

---
 src/diffpy/srmise/dataclusters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 47f90cc..8d26d0c 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -458,13 +458,14 @@ class DataClusters:
         """Return sequence with (x,y) of all cluster boundaries."""
         boundaries = []
         for cluster in self.clusters:
-            xlo = np.mean(self.x[cluster[0] - 1 : cluster[0] + 1])
-            ylo = np.mean(self.y[cluster[0] - 1 : cluster[0] + 1])
+            lo = max(cluster[0] - 1, 0)
+            xlo = np.mean(self.x[lo : cluster[0] + 1])
+            ylo = np.mean(self.y[lo : cluster[0] + 1])
             xhi = np.mean(self.x[cluster[1] : cluster[1] + 2])
             yhi = np.mean(self.y[cluster[1] : cluster[1] + 2])
             boundaries.append((xlo, ylo))
             boundaries.append((xhi, yhi))
-        return np.unique(boundaries)
+        return np.unique(boundaries, axis=0)
 
     def plot(self, *args, **kwds):
         """Plot the data with vertical lines at the cluster divisions.
-- 
2.43.0


From af9bb287bfc418676380281eada0ffbb8dba4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 005/112] fix: resetting clusters restores the state of a newly
 created object

---
 src/diffpy/srmise/dataclusters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 8d26d0c..d075f83 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -127,13 +127,14 @@ class DataClusters:
 
     def reset_clusters(self):
         """Reset all progress on clustering."""
+        if self.status == self.INIT:
+            # There is no data to cluster.
+            return
         self.clusters = np.array([[self.data_order[-1], self.data_order[-1]]])
         self.current_idx = self.data_order.size - 1
-        self.lastcluster_idx = 0
+        self.lastcluster_idx = None
         self.lastpoint_idx = self.data_order[-1]
-
-        if self.status != self.INIT:
-            self.status = self.READY
+        self.status = self.READY
         return
 
     def _setdata(self, x, y, res):
-- 
2.43.0


From a47f6e79264af08740ee24caf9dc970130edb6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 006/112] fix: keep parameters given as integers from being
 truncated when updated

---
 src/diffpy/srmise/modelparts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d4d17ae..2dd0c12 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -527,7 +527,8 @@ class ModelPart(object):
         if len(pars) != owner.npars:
             emsg = "The length of pars must equal the number of parameters " + "specified by the model part owner."
             raise ValueError(emsg)
-        self.pars = np.array(pars[:])  # pars[:] in case pars is a ModelPart
+        # pars[:] in case pars is a ModelPart
+        self.pars = np.array(pars[:], dtype=float)
 
         if free is None:
             self.free = np.array([True for p in pars], dtype=bool)
-- 
2.43.0


From 67fd7eaa93f6db1b738f79df56605430bdf9cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 007/112] fix: a model without parts has no free parameters

---
 src/diffpy/srmise/modelparts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 2dd0c12..9eed8f4 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -369,6 +369,8 @@ class ModelParts(list):
         """Return array of all free parameters."""
         # To check: ravel() sometimes returns a reference and othertimes a copy.
         #          Do I need to use flatten() instead?
+        if len(self) == 0:
+            return np.array([])
         return np.concatenate([p.compress() for p in self]).ravel()
 
     def covariance(self, format="internal", **kwds):
-- 
2.43.0


From 3ba569d8942f806ee18504d6c8bb6b420774fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 008/112] fix: count only the fitted points as data when
 fitting over a range

---
 src/diffpy/srmise/modelparts.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 9eed8f4..e626e0c 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -95,12 +95,14 @@ class ModelParts(list):
         None
         """
         freepars = self.unpack_freepars()
-        if len(freepars) >= len(r):
+        # Only the points within range are fit.
+        npoints = len(r) if range is None else len(r[range])
+        if len(freepars) >= npoints:
             emsg = (
                 "Cannot fit model with "
                 + str(len(freepars))
                 + " free parametersbut only "
-                + str(len(r))
+                + str(npoints)
                 + " data points."
             )
             raise SrMiseFitError(emsg)
@@ -210,7 +212,7 @@ class ModelParts(list):
         if cov is not None:
             pcov = f[1]
             fvec = f[2]["fvec"]
-            dof = len(r) - len(freepars)
+            dof = npoints - len(freepars)
             cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
             try:
                 cov.transform(in_format="internal", out_format=cov_format)
-- 
2.43.0


From 17d625cedf1849c14db4789d966bae3db0f1ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 009/112] fix: leave the covariance undefined when the fit
 yields none

---
 src/diffpy/srmise/modelparts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index e626e0c..1a20a12 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -211,6 +211,11 @@ class ModelParts(list):
         # which is a wrapper around leastsq.
         if cov is not None:
             pcov = f[1]
+            if pcov is None:
+                # Singular matrix encountered, so no estimate is possible.
+                cov.clear()
+                logger.warning("Covariance not defined.  Fit may not have converged.")
+                return
             fvec = f[2]["fvec"]
             dof = npoints - len(freepars)
             cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
-- 
2.43.0


From 5af49581b6451778fbee9dc765ffa1d91865181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 010/112] fix: convert peak parameters given as integers
 without truncation

---
 src/diffpy/srmise/peaks/gaussian.py      | 2 +-
 src/diffpy/srmise/peaks/gaussianoverr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 2c9b713..0db1131 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -330,7 +330,7 @@ class Gaussian(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index c47191a..b74974a 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -397,7 +397,7 @@ class GaussianOverR(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
-- 
2.43.0


From 06f7fb8176d58fb71645cd15cd4b1431d7b35e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 011/112] fix: let the Jacobian of a Gaussian be calculated

---
 src/diffpy/srmise/peaks/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 0db1131..4b792ad 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -272,7 +272,7 @@ class Gaussian(PeakFunction):
             Only columns corresponding to `True` values in `free` are computed.
         """
         jacobian = [None, None, None]
-        if (free is False).sum() == self.npars:
+        if np.sum(np.logical_not(free)) == self.npars:
             return jacobian
 
         # Optimization
-- 
2.43.0


From 31f3474d83bcb0c3e74653fa3571d5b661014a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 012/112] fix: refuse to scale a peak where no finite
 parameters do it

---
 src/diffpy/srmise/peaks/gaussian.py      | 3 +++
 src/diffpy/srmise/peaks/gaussianoverr.py | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 4b792ad..28f109a 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -227,6 +227,9 @@ class Gaussian(PeakFunction):
 
         # the semi-nasty algebra reduces to something nice
         mu2 = mu1
+        if x == mu1 or area1 == 0 or 2 * np.log(ratio) * sigma1**2 <= -((x - mu1) ** 2):
+            emsg = "".join(["Cannot scale by ", str(scale), " at ", str(x), "."])
+            raise SrMiseScalingError(emsg)
         area2 = np.sqrt(area1**2 / (2 * np.log(ratio) * sigma1**2 / (x - mu1) ** 2 + 1))
         sigma2 = sigma1 * area2 / area1
 
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index b74974a..8d9d89e 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -234,6 +234,10 @@ class GaussianOverR(PeakFunction):
         # lhs of eqn1/eqn2 multiplied by ratio.  Then take the log.
         log_ratio_prime = np.log(ratio) + (x - rmax) * (x - 2 * mu1 + rmax) / (2 * sigma1**2)
 
+        if x == rmax or not x - rmax + rmax * log_ratio_prime > 0:
+            emsg = "".join(["Cannot scale by ", str(scale), " at ", str(x), "."])
+            raise SrMiseScalingError(emsg)
+
         # the semi-nasty algebra reduces to something nice
         sigma2 = np.sqrt(0.5 * rmax * (x - rmax) ** 2 / (x - rmax + rmax * log_ratio_prime))
         mu2 = (sigma2**2 + rmax**2) / rmax
-- 
2.43.0


From fec87da7c44cc79312ad99b68868b6104b0dffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 013/112] fix: rescale the scalable peaks when matching peaks
 some of which are fixed

---
 src/diffpy/srmise/peaks/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 7e57c10..45361af 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -188,10 +188,10 @@ class Peaks(ModelParts):
 
             # Second attempt at scaling peaks.
             if not all_scaled and fixed_height < y and fixed_height < height:
-                self[:] = orig[:]
+                self[:] = orig.copy()
                 any_scaled = False
                 scale = (y - fixed_height) / (height - fixed_height)
-                for peak, s in (self, scaled):
+                for peak, s in zip(self, scaled):
                     if s:
                         # "or" is short-circuited, so scale_at() must be first
                         # to guarantee it is called.
-- 
2.43.0


From eb9af46b9f60861824a1fa035a8604f7567400c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 014/112] fix: log the reason why a peak cannot be scaled

---
 src/diffpy/srmise/peaks/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 45361af..263a3ed 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -260,7 +260,7 @@ class Peak(ModelPart):
         try:
             adj_pars = self._owner.scale_at(self.pars, x, scale)
         except SrMiseScalingError as err:
-            logger.debug("Cannot scale peak:", err)
+            logger.debug("Cannot scale peak: %s", err)
             return False
 
         # Check if a fixed parameter was changed.
-- 
2.43.0


From c776f53e93670ae12a2364788635626b5b391814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 015/112] fix: convert baseline parameters given as integers
 without truncation

---
 src/diffpy/srmise/baselines/arbitrary.py     | 2 +-
 src/diffpy/srmise/baselines/fromsequence.py  | 2 +-
 src/diffpy/srmise/baselines/nanospherical.py | 2 +-
 src/diffpy/srmise/baselines/polynomial.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index d0f8c99..0005bd0 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -207,7 +207,7 @@ class Arbitrary(BaselineFunction):
         numpy.ndarray
             The standard output of transformed parameters
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 6333977..1aaa8d8 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -180,7 +180,7 @@ class FromSequence(BaselineFunction):
         array-like
             The sequence of parameters converted to out_format
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index c788b6b..d5d322c 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -206,7 +206,7 @@ class NanoSpherical(BaselineFunction):
         array-like
             The transformed parameter values with out_format.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index df0f379..5f4611a 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -184,7 +184,7 @@ class Polynomial(BaselineFunction):
         array-like
             The transformed parameters in out_format
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Convert to intermediate format "internal"
         if in_format == "internal":
-- 
2.43.0


From f6bfdf0fd4712836de171ad40be5d5d732a83ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 016/112] fix: order the derivatives of a polynomial as its
 parameters

---
 src/diffpy/srmise/baselines/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index 5f4611a..5e2f7ae 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -157,10 +157,10 @@ class Polynomial(BaselineFunction):
             return jacobian
 
         # The partial derivative with respect to the nth coefficient of a
-        # polynomial is just x^nth.
+        # polynomial is just x^nth.  The highest coefficient comes first.
         for idx in range(self.npars):
             if free[idx]:
-                jacobian[idx] = np.power(r, idx)
+                jacobian[idx] = np.power(r, self.degree - idx)
         return jacobian
 
     def _transform_parametersraw(self, pars, in_format, out_format):
-- 
2.43.0


From dc187c0a33bed822c359302dd393468e67eb5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 017/112] fix: an arbitrary baseline has the stated number of
 parameters

---
 src/diffpy/srmise/baselines/arbitrary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index 0005bd0..4e1543e 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -68,7 +68,7 @@ class Arbitrary(BaselineFunction):
         # Define parameterdict
         # e.g. {"a_0":0, "a_1":1, "a_2":2, "a_3":3} if npars is 4.
         parameterdict = {}
-        for d in range(testnpars + 1):
+        for d in range(testnpars):
             parameterdict["a_" + str(d)] = d
         formats = ["internal"]
         default_formats = {
-- 
2.43.0


From c170305e0e0e618d390bf18d277242b4513784cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 018/112] fix: use an arbitrary baseline without a Jacobian as
 documented

---
 src/diffpy/srmise/baselines/arbitrary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index 4e1543e..8150530 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -164,7 +164,7 @@ class Arbitrary(BaselineFunction):
         """
         nfree = None
         if self.jacobianf is None:
-            nfree = (pars is True).sum()
+            nfree = np.sum(free)
             if nfree != 0:
                 emsg = "No jacobian routine provided to Arbitrary."
                 raise NotImplementedError(emsg)
-- 
2.43.0


From 73d657929207ec8047c2e0593c264b6a9a98efd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 019/112] fix: keep the first character of the data when
 reading a baseline from a file

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 1aaa8d8..f338842 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -262,7 +262,7 @@ class FromSequence(BaselineFunction):
 
         res = re.search(rb"^[^#]", datastring, re.M)
         if res:
-            datastring = datastring[res.end() :].strip()
+            datastring = datastring[res.start() :].strip()
 
         x = []
         y = []
-- 
2.43.0


From 05af46f960d02785758af2bec0df2ccaa28763fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 020/112] fix: sign of the derivative of a spherical baseline
 by its scale

---
 src/diffpy/srmise/baselines/nanospherical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index d5d322c..2b4ef90 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -158,7 +158,7 @@ class NanoSpherical(BaselineFunction):
         # From abs'(s) in derivative, which is equivalent to sign(s) except at 0 where it
         # is undefined. Since s=0 is equivalent to the absence of a nanoparticle, sign will
         # be fine.
-        sign = np.sign(pars[1])
+        sign = np.sign(pars[0])
         return -sign * r * (1 - (3.0 / 4.0) * rdivR + (1.0 / 16.0) * rdivR**3)
 
     def _jacobianrawradius(self, pars, r):
-- 
2.43.0


From 9929cc94556cb99f445e16ee178c3780f61a6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 021/112] fix: a spherical baseline extends to twice its radius
 also where that is negative

---
 src/diffpy/srmise/baselines/nanospherical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index 2b4ef90..986ff51 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -115,7 +115,7 @@ class NanoSpherical(BaselineFunction):
             return jacobian
 
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 if free[0]:
                     jacobian[0] = 0.0
                 if free[1]:
@@ -247,7 +247,7 @@ class NanoSpherical(BaselineFunction):
             emsg = "Argument pars must have " + str(self.npars) + " elements."
             raise ValueError(emsg)
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 return 0.0
             else:
                 return self._valueraw2(pars, r)
@@ -296,7 +296,7 @@ class NanoSpherical(BaselineFunction):
             The slice object for which r > 0 and r < twice the radius
         """
         low = r.searchsorted(0.0, side="right")
-        high = r.searchsorted(2.0 * pars[1], side="left")
+        high = r.searchsorted(2.0 * np.abs(pars[1]), side="left")
         return slice(low, high)
 
     def getmodule(self):
-- 
2.43.0


From 284bf08f41f06a64aa6d45ec1d1c235af3332ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 022/112] fix: report a reference to a function just past the
 end of its list

---
 src/diffpy/srmise/basefunction.py   | 2 +-
 src/diffpy/srmise/baselines/base.py | 2 +-
 src/diffpy/srmise/peaks/base.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index 861a85d..dbb0328 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -487,7 +487,7 @@ class BaseFunction(object):
         # Correctly initialize the base function, if one exists.
         if pdict["base"] is not None:
             idx = pdict["base"]
-            if idx > len(baselist):
+            if idx >= len(baselist):
                 emsg = "Dependent base function not in baselist."
                 raise ValueError(emsg)
             pdict["base"] = baselist[idx]
diff --git a/src/diffpy/srmise/baselines/base.py b/src/diffpy/srmise/baselines/base.py
index fabf835..3ce3962 100644
--- a/src/diffpy/srmise/baselines/base.py
+++ b/src/diffpy/srmise/baselines/base.py
@@ -190,7 +190,7 @@ class Baseline(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 263a3ed..2fc8a9d 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -297,7 +297,7 @@ class Peak(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
-- 
2.43.0


From 10a1867140efed7c3818c84456ebb58a079bdd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 023/112] fix: extend the grid of a rippled peak only to points
 clear of the origin

---
 src/diffpy/srmise/peaks/terminationripples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 315e02a..657f804 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -382,7 +382,8 @@ class TerminationRipples(PeakFunction):
             The extended r, slice giving original range.
         """
         ext = self.extension * 2 * np.pi / self.qmax
-        left_ext = np.arange(r[0] - dr, max(0.0, r[0] - ext - dr), -dr)[::-1]
+        # Stop clear of the origin, where rounding may yield r almost equal to 0.
+        left_ext = np.arange(r[0] - dr, max(0.5 * dr, r[0] - ext - dr), -dr)[::-1]
         right_ext = np.arange(r[-1] + dr, r[-1] + ext + dr, dr)
         ext_r = np.concatenate((left_ext, r, right_ext))
         ext_slice = slice(len(left_ext), len(ext_r) - len(right_ext))
-- 
2.43.0


From 3f240d2861a214962a061bd28b0493296d370f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 024/112] fix: evaluate and differentiate a rippled peak on the
 same grid, also at one point

---
 src/diffpy/srmise/peaks/terminationripples.py | 57 ++++++++++---------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 657f804..6b21b07 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -232,15 +232,10 @@ class TerminationRipples(PeakFunction):
 
         # normally r will be a sequence, but also allow single numeric values
         try:
-            if len(r) > 1:
-                dr = (r[-1] - r[0]) / (len(r) - 1)
-            else:
-                # dr is ad hoc if r is a single point
-                dr = 2 * np.pi / (self.supersample * self.qmax)
-
             if rng is None:
                 rng = slice(0, len(r))
-            rpart = r[rng]
+            # The derivatives are found on the same grid as the value.
+            rpart, dr, segments = self._fine_grid(r, rng)
             (ext_r, ext_slice) = self.extend_grid(rpart, dr)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
             output = [None for j in jac]
@@ -248,14 +243,14 @@ class TerminationRipples(PeakFunction):
                 if jac[idx] is not None:
                     jac[idx] = self.cut_freq(jac[idx], dr)
                     output[idx] = r * 0.0
-                    output[idx][rng] = jac[idx][ext_slice]
+                    output[idx][rng] = jac[idx][ext_slice][::segments]
             return output
         except TypeError:
             # dr is ad hoc if r is a single point.
             dr = 2 * np.pi / (self.supersample * self.qmax)
             (ext_r, ext_slice) = self.extend_grid(np.array([r]), dr)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
-            for idx in range(len(output)):
+            for idx in range(len(jac)):
                 if jac[idx] is not None:
                     jac[idx] = self.cut_freq(jac[idx], dr)[ext_slice][0]
             return jac
@@ -307,23 +302,7 @@ class TerminationRipples(PeakFunction):
 
             output = r * 0.0
 
-            # Make sure the actual dr used for finding termination ripples
-            # is at least as fine as dr_super, while still calculating the
-            # function at precisely the requested points.
-            # When the underlying function is sampled too coarsely it can
-            # miss critical high frequency components and return a very
-            # poor approximation to the continuous case.  The actual fineness
-            # of sampling needed to avoid the worst of these discretization
-            # issues is difficult to determine without detailed knowledge
-            # of the underlying function.
-            dr = (r[-1] - r[0]) / (len(r) - 1)
-            segments = int(np.ceil(dr / dr_super))
-            dr_segmented = dr / segments
-
-            rpart = r[rng]
-            if segments > 1:
-                rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)
-
+            rpart, dr_segmented, segments = self._fine_grid(r, rng)
             (ext_r, ext_slice) = self.extend_grid(rpart, dr_segmented)
             value = self._valueraw(peak.pars, ext_r)
             value = self.cut_freq(value, dr_segmented)
@@ -366,6 +345,32 @@ class TerminationRipples(PeakFunction):
         padseq = fp.ifft(padseq)
         return np.real(padseq[0 : len(sequence)])
 
+    def _fine_grid(self, r, rng):
+        """Return (grid covering r[rng], its spacing, grid intervals per
+        interval of r).
+
+        Make sure the actual dr used for finding termination ripples
+        is at least as fine as dr_super, while still calculating the
+        function at precisely the requested points.
+        When the underlying function is sampled too coarsely it can
+        miss critical high frequency components and return a very
+        poor approximation to the continuous case.  The actual fineness
+        of sampling needed to avoid the worst of these discretization
+        issues is difficult to determine without detailed knowledge
+        of the underlying function.
+        """
+        dr_super = 2 * np.pi / (self.supersample * self.qmax)
+        rpart = r[rng]
+        if len(r) == 1:
+            # dr is ad hoc if r is a single point.
+            return rpart, dr_super, 1
+        dr = (r[-1] - r[0]) / (len(r) - 1)
+        segments = int(np.ceil(dr / dr_super))
+        dr_segmented = dr / segments
+        if segments > 1:
+            rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)
+        return rpart, dr_segmented, segments
+
     def extend_grid(self, r, dr):
         """Return (extended r, slice giving original range).
 
-- 
2.43.0


From 000febdbd7b55e393426e59d5cae403fbac3b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 025/112] fix: refuse to scale a peak when its maximum would
 become a minimum

---
 src/diffpy/srmise/peaks/gaussianoverr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index 8d9d89e..c528cdd 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -240,6 +240,10 @@ class GaussianOverR(PeakFunction):
 
         # the semi-nasty algebra reduces to something nice
         sigma2 = np.sqrt(0.5 * rmax * (x - rmax) ** 2 / (x - rmax + rmax * log_ratio_prime))
+        # For a wider peak rmax would be the position of its minimum.
+        if sigma2 >= rmax:
+            emsg = "".join(["Cannot scale by ", str(scale), " at ", str(x), "."])
+            raise SrMiseScalingError(emsg)
         mu2 = (sigma2**2 + rmax**2) / rmax
         area2 = (
             area1
-- 
2.43.0


From 49c9cd3bd09fcde75b3d69d8bcf55a6b31f3b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 026/112] fix: sort peaks in reverse when asked to

---
 src/diffpy/srmise/peaks/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 2fc8a9d..afe74ee 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -206,6 +206,8 @@ class Peaks(ModelParts):
         """Sort peaks in order specified by key."""
         keypars = np.array([p[key] for p in self])
         order = keypars.argsort()
+        if reverse:
+            order = order[::-1]
         self[:] = [self[idx] for idx in order]
         return
 
-- 
2.43.0


From c175b0ebfded47af055463c55f483a3f579e21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 027/112] fix: report every failure of a fit without explicit
 Jacobian as a fit error

---
 src/diffpy/srmise/modelparts.py | 45 +++++++++++++++++----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 1a20a12..390d4da 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -133,28 +133,29 @@ class ModelParts(list):
             plt.ion()
 
         try:
-            f = leastsq(
-                self.residual,  # minimize this function
-                freepars,  # initial parameters
-                args=args,  # arguments to residual, residual_jacobian
-                Dfun=self.residual_jacobian,  # explicit Jacobian
-                col_deriv=True,  # order of derivatives in Jacobian
-                full_output=True,
-                maxfev=ntrials,
-            )
-        except NotImplementedError:
-            # TODO: Figure out if is worth checking for residual_jacobian
-            # before leastsq().  This exception will either occur almost never
-            # or extremely frequently, and the extra evaluations will add up.
-            logger.info("One or more functions do not define residual_jacobian().")
-            f = leastsq(
-                self.residual,  # minimize this function
-                freepars,  # initial parameters
-                args=args,  # arguments to residual
-                col_deriv=True,  # order of derivatives in Jacobian
-                full_output=True,
-                maxfev=ntrials,
-            )
+            try:
+                f = leastsq(
+                    self.residual,  # minimize this function
+                    freepars,  # initial parameters
+                    args=args,  # arguments to residual, residual_jacobian
+                    Dfun=self.residual_jacobian,  # explicit Jacobian
+                    col_deriv=True,  # order of derivatives in Jacobian
+                    full_output=True,
+                    maxfev=ntrials,
+                )
+            except NotImplementedError:
+                # TODO: Figure out if is worth checking for residual_jacobian
+                # before leastsq().  This exception will either occur almost never
+                # or extremely frequently, and the extra evaluations will add up.
+                logger.info("One or more functions do not define residual_jacobian().")
+                f = leastsq(
+                    self.residual,  # minimize this function
+                    freepars,  # initial parameters
+                    args=args,  # arguments to residual
+                    col_deriv=True,  # order of derivatives in Jacobian
+                    full_output=True,
+                    maxfev=ntrials,
+                )
         except Exception:
             # Sadly, KeyboardInterrupt, etc. is reraised as minpack.error
             # Not much I can do about that, though.
-- 
2.43.0


From 2bdd8aaa5be231fc3f33d49ff2bfc898946da809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 028/112] fix: evaluate a baseline from a sequence over no
 points

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index f338842..91f7466 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -222,7 +222,7 @@ class FromSequence(BaselineFunction):
                     [self.minx, self.maxx],
                 )
         except (IndexError, TypeError):
-            if r < self.minx or r > self.maxx:
+            if np.size(r) > 0 and (r < self.minx or r > self.maxx):
                 logger.warning(
                     "Warning: Evaluating interpolating function at %s, outside safe range of %s.",
                     r,
-- 
2.43.0


From 0b9d2257eb8eeea60d3e5441a59507e0adb06f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 029/112] fix: evaluate a rippled peak over no points

---
 src/diffpy/srmise/peaks/terminationripples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 6b21b07..caf9a4e 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -333,6 +333,8 @@ class TerminationRipples(PeakFunction):
         array-like
             The sequence with high-frequency components removed.
         """
+        if len(sequence) == 0:
+            return sequence
         padlen = int(2 ** np.ceil(np.log2(len(sequence))))
         padseq = fp.fft(sequence, padlen)
         dq = 2 * np.pi / ((padlen - 1) * delta)
@@ -361,7 +363,7 @@ class TerminationRipples(PeakFunction):
         """
         dr_super = 2 * np.pi / (self.supersample * self.qmax)
         rpart = r[rng]
-        if len(r) == 1:
+        if len(r) == 1 or len(rpart) == 0:
             # dr is ad hoc if r is a single point.
             return rpart, dr_super, 1
         dr = (r[-1] - r[0]) / (len(r) - 1)
@@ -386,6 +388,8 @@ class TerminationRipples(PeakFunction):
         tuple
             The extended r, slice giving original range.
         """
+        if len(r) == 0:
+            return (r, slice(0, 0))
         ext = self.extension * 2 * np.pi / self.qmax
         # Stop clear of the origin, where rounding may yield r almost equal to 0.
         left_ext = np.arange(r[0] - dr, max(0.5 * dr, r[0] - ext - dr), -dr)[::-1]
-- 
2.43.0


From fe6c8d1fd6793be8d77bfd29a3ddbe20f9234251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 030/112] fix: forget the previous model when setting a
 covariance

---
 src/diffpy/srmise/modelcluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c1a64c5..151a1a6 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -104,6 +104,7 @@ class ModelCovariance(object):
             ]
             raise ValueError("".join(emsg))
 
+        self.clear()
         self.model = model.copy()
 
         # The free/fixed status of every parameter in the model
-- 
2.43.0


From 4a304b163bdb85d2d43f2fe8f8301557332e2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 031/112] fix: transform the covariance of the baseline alone

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 151a1a6..3329623 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -174,7 +174,7 @@ class ModelCovariance(object):
             if kwds["parts"] == "peaks":
                 parts = range(len(self.model) - 1)
             elif kwds["parts"] == "baseline":
-                parts = [-1]
+                parts = [len(self.model) - 1]
             else:
                 parts = kwds["parts"]
         else:
-- 
2.43.0


From b434ad5c8935258f87c955744da959b535f31622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 032/112] fix: transform a covariance when a part has no
 parameters

---
 src/diffpy/srmise/modelcluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 3329623..ac49850 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -192,6 +192,9 @@ class ModelCovariance(object):
         g = np.identity(self.cov.shape[0])
 
         for i in parts:
+            if len(self.mmap[i]) == 0:
+                # A part without parameters has nothing to transform.
+                continue
             start = self.mmap[i][0]
             stop = self.mmap[i][-1] + 1
             p = self.model[i]
-- 
2.43.0


From c3f289969104d23cc850444edf9ed2e62106b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 033/112] fix: keep the parameters of a part whose covariance
 cannot be transformed

---
 src/diffpy/srmise/modelcluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index ac49850..3d2924a 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -205,13 +205,13 @@ class ModelCovariance(object):
                     "Transformation gradient not implemented for part %i: %s.  Ignoring transformation."
                     % (i, str(p))
                 )
-                subg = np.identity(p.npars(True))
+                continue
             except Exception as e:
                 logger.warning(
                     "Transformation gradient failed for part %i: %s. "
                     "Failed with message %s. Ignoring transformation." % (i, str(p), str(e))
                 )
-                subg = np.identity(p.npars(True))
+                continue
 
             # Now transform the parameters to match
             try:
-- 
2.43.0


From 80288d70f3299447f89f44b74a03541699620382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 034/112] fix: transform a covariance by gradients that are not
 symmetric

---
 src/diffpy/srmise/modelcluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 3d2924a..75dc4aa 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -180,7 +180,7 @@ class ModelCovariance(object):
         else:
             parts = range(len(self.model))
 
-        # Calculate V_y = G Transpose(V_x) G
+        # Calculate V_y = G V_x Transpose(G)
         # where V_y is the covariance matrix in terms of the parameterization y,
         # V_x is the current covariance matrix, and G is the gradient matrix of
         # the variable transformation x->y.  That is, G_ij = dy_i/dx_j.
@@ -227,7 +227,7 @@ class ModelCovariance(object):
             g[start:stop, start:stop] = subg
 
         g = np.matrix(g)
-        self.cov = np.array(g * np.matrix(self.cov).transpose() * g)
+        self.cov = np.array(g * np.matrix(self.cov) * g.transpose())
 
         return
 
-- 
2.43.0


From 3dcfecec4380291efd71be461e1fea62aa7de5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 035/112] fix: decide whether a model exceeds the data
 including the baseline

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 75dc4aa..327dd16 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1247,7 +1247,7 @@ class ModelCluster(object):
             Return ModelEvaluator instance if fit changed, otherwise None.
         """
         # No reduction necessary
-        if self.model.value(x) < y:
+        if self.value(x) < y:
             logger.debug("reduce_to: No reduction necessary.")
             return None
         orig_model = self.model.copy()
-- 
2.43.0


From 9b8153c948623f8d98ce2137344ff59e0a4e4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 036/112] fix: adjust joined peaks only where they exceed the
 data without baseline

---
 src/diffpy/srmise/modelcluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 327dd16..593d7e0 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -863,7 +863,9 @@ class ModelCluster(object):
                         del new_model[i]
 
             # Likely to improve any future fitting
-            new_model.match_at(border_x, border_y)
+            border_y -= m1.valuebl(border_x)
+            if new_model.value(border_x) > border_y:
+                new_model.match_at(border_x, border_y)
         elif len(m1.model) > 0:
             new_model = m1.model.copy()
         else:  # Only m2 has entries, or both are empty
-- 
2.43.0


From 8643327e6bb8ddcf88210214f788bc5b0d1b8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 037/112] fix: remove suspected duplicates when joining
 clusters

---
 src/diffpy/srmise/modelcluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 593d7e0..20c3439 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -854,10 +854,12 @@ class ModelCluster(object):
             # border_x are removed.  The highly unlikely case of two peaks
             # exactly at the border is also handled.
             for i in reversed(range(len(new_model))):
+                if not new_model[i].removable:
+                    continue
                 if new_model[i]["position"] == border_x and i > 0 and new_model[i - 1]["position"] == border_x:
                     del new_model[i]
                 elif new_ids[i] != i:
-                    if (new_model[i]["position"] > border_x and new_ids[i] < len(left.model)) and (
+                    if (new_model[i]["position"] > border_x and new_ids[i] < len(left.model)) or (
                         new_model[i]["position"] < border_x and new_ids[i] >= len(left.model)
                     ):
                         del new_model[i]
-- 
2.43.0


From b0680ab2cead0acb1843a97a42ed8663a6fb24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 038/112] fix: keep the model whose quality was evaluated when
 pruning and augmenting

---
 src/diffpy/srmise/modelcluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 20c3439..f17eee5 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1433,6 +1433,8 @@ class ModelCluster(object):
             for i in range(len(test_models)):
                 self.model = test_models[i]
                 self.fit()
+                # The fit may have been reverted.
+                test_models[i] = self.model
                 test_quals[i] = self.quality()
 
             args = test_quals.argsort()
@@ -1583,6 +1585,8 @@ class ModelCluster(object):
                     logger.debug("\n".join(msg), i, best_model[i], prune_mc.model)
 
                     prune_mc.fit(ntrials=int(np.sqrt(len(y)) + 50), estimate=False)
+                    # The fit may have been reverted.
+                    check_models[i] = prune_mc.model
 
                     qual = prune_mc.quality(kshift=addpars)
                     check_qual = np.append(check_qual, qual)
-- 
2.43.0


From a0098acaa1a07d02c19025129697a392ddfa120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 039/112] fix: count free parameters only when pruning peaks
 with fixed parameters

---
 src/diffpy/srmise/modelcluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index f17eee5..7391f30 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1560,7 +1560,11 @@ class ModelCluster(object):
                     ]
                     logger.debug("\n".join(msg), len(check_models), len(best_model), i)
 
-                    addpars = best_model.npars() - check_models[i].npars() - best_model[i].npars(count_fixed=False)
+                    addpars = (
+                        best_model.npars(count_fixed=False)
+                        - check_models[i].npars(count_fixed=False)
+                        - best_model[i].npars(count_fixed=False)
+                    )
 
                     # Remove contribution of (effectively) fixed peaks
                     y = np.array(y_nobl)
-- 
2.43.0


From ef9d775fc9bff5c93563a72760204c1ffd0e0e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 040/112] fix: keep the order of peak functions when joining
 clusters

---
 src/diffpy/srmise/modelcluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 7391f30..0344a09 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -873,7 +873,8 @@ class ModelCluster(object):
         else:  # Only m2 has entries, or both are empty
             new_model = m2.model.copy()
 
-        peak_funcs = list(set(m1.peak_funcs) | set(m2.peak_funcs))  # "Union"
+        peak_funcs = list(m1.peak_funcs)  # "Union", in a definite order
+        peak_funcs.extend([f for f in m2.peak_funcs if f not in peak_funcs])
         return ModelCluster(
             new_model,
             m1.baseline,
-- 
2.43.0


From e67e1135841ddf4fea992d74a4cb1495a45135bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 041/112] fix: give joined clusters a baseline of their own

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 0344a09..2d00f11 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -877,7 +877,7 @@ class ModelCluster(object):
         peak_funcs.extend([f for f in m2.peak_funcs if f not in peak_funcs])
         return ModelCluster(
             new_model,
-            m1.baseline,
+            None if m1.baseline is None else m1.baseline.copy(),
             m1.r_data,
             m1.y_data,
             m1.y_error,
-- 
2.43.0


From 20150f269d38a052ee3da2c102e52c00fb9a0cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 042/112] fix: add external peaks to the data of one cluster
 only

---
 src/diffpy/srmise/modelcluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 2d00f11..d62514b 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -531,7 +531,8 @@ class ModelCluster(object):
         None
         """
         self.replacepeaks(peaks)
-        self.y_data += peaks.value(self.r_data)
+        # Other clusters may share the data.
+        self.y_data = self.y_data + peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
 
     def writestr(self, **kwds):
-- 
2.43.0


From c115da7c65fcd7331b52aa22cbec257813598727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 043/112] fix: delete the peak at a negative index

---
 src/diffpy/srmise/modelcluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index d62514b..2d414c6 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -984,6 +984,7 @@ class ModelCluster(object):
         -------
         None
         """
+        idx = range(len(self.model))[idx]
         self.replacepeaks([], slice(idx, idx + 1))
 
     def estimatepeak(self):
-- 
2.43.0


From 0804e787e15b6f40da1990c2e7ab7b6b384d9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 044/112] fix: augment a model holding peaks that may not be
 removed

---
 src/diffpy/srmise/modelcluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 2d414c6..5511a3a 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1447,7 +1447,8 @@ class ModelCluster(object):
                 del source_model[args[-1]]
             else:
                 break  # Best possible model has been found.
-        self.replacepeaks(best_model, slice(len(self.model)))
+        self.model = best_model
+        self.model.sort(key="position")
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-- 
2.43.0


From c07604b16a195342901a6454e15975b9024c1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 045/112] fix: end pruning when only peaks that may not be
 removed are left

---
 src/diffpy/srmise/modelcluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 5511a3a..a09b75b 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1607,6 +1607,10 @@ class ModelCluster(object):
                     if qual < best_qual:
                         check_models[i] = None
 
+            if len(check_qual) == 0:
+                # No removable peaks are left.
+                break
+
             arg = check_qual.argsort()
 
             msg = [
-- 
2.43.0


From 813c5bf780774e2337106d77fc8a59e27cba4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 046/112] fix: change the extent of a cluster given by an open
 slice

---
 src/diffpy/srmise/modelcluster.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index a09b75b..e07488c 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -921,12 +921,14 @@ class ModelCluster(object):
             self.never_fit = max(y_cluster_nobl - self.error_cluster) < 0
         else:
             # check if slice has expanded on the left
-            if self.never_fit and self.slice.start < old_slice.start:
-                left_slice = slice(self.slice.start, old_slice.start)
+            start, stop = self.slice.indices(len(self.r_data))[:2]
+            old_start, old_stop = old_slice.indices(len(self.r_data))[:2]
+            if self.never_fit and start < old_start:
+                left_slice = slice(start, old_start)
                 self.never_fit = max(y_data_nobl[left_slice] - self.y_error[left_slice]) < 0
             # check if slice has expanded on the right
-            if self.never_fit and self.slice.stop > old_slice.stop:
-                right_slice = slice(old_slice.stop, self.slice.stop)
+            if self.never_fit and stop > old_stop:
+                right_slice = slice(old_stop, stop)
                 self.never_fit = max(y_data_nobl[right_slice] - self.y_error[right_slice]) < 0
 
         return
-- 
2.43.0


From 12d2c722ca7fbeb3a030007cd021c62efb72d856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 047/112] fix: look for hidden peaks around the point where a
 cluster reached the boundary

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 48e3419..610f5ed 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -958,8 +958,8 @@ class PeakExtraction(object):
                 full_cluster.fit(True)
 
                 # Estimate coordinate where clusters combine.
-                border_x = x[step.lastcluster_idx]
-                border_y = y[step.lastcluster_idx]
+                border_x = x[step.lastpoint_idx]
+                border_y = y[step.lastpoint_idx]
 
                 # Determine neighborhood appropriate for fitting (no larger than combined clusters)
                 if len(full_cluster.model) > 0:
-- 
2.43.0


From 597fab5af12d5057fc959c9708510b579b84f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 048/112] fix: fit a cluster again after adding external peaks
 to its data

---
 src/diffpy/srmise/modelcluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index e07488c..bbee216 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -534,6 +534,8 @@ class ModelCluster(object):
         # Other clusters may share the data.
         self.y_data = self.y_data + peaks.value(self.r_data)
         self.y_cluster = self.y_data[self.slice]
+        # The peaks may lift the data above the errors.
+        self.never_fit = max(self.y_cluster - self.valuebl() - self.error_cluster) < 0
 
     def writestr(self, **kwds):
         """Return partial string representation.
-- 
2.43.0


From 5ba4367d7491269a48f0b3d160af6aef1bab1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 049/112] fix: sign of the covariances of parameters reflected
 after a fit

---
 src/diffpy/srmise/modelparts.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 390d4da..a0e14cd 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -203,8 +203,15 @@ class ModelParts(list):
             raise SrMiseFitError(emsg)
 
         # clean up parameters
+        sign = np.array([])
         for p in self:
-            p.pars = p.owner().transform_parameters(p.pars, in_format="internal", out_format="internal")
+            raw = p.pars
+            p.pars = p.owner().transform_parameters(raw, in_format="internal", out_format="internal")
+            # The covariances of parameters which are reflected change sign.
+            near = p.owner().transform_parameters(
+                raw + 1e-8 * (1 + np.abs(raw)), in_format="internal", out_format="internal"
+            )
+            sign = np.append(sign, np.where(near < p.pars, -1.0, 1.0)[p.free])
 
         # Supply estimated covariance matrix if requested.
         # The precise relationship between f[1] and estimated covariance matrix is a little unclear from
@@ -219,7 +226,7 @@ class ModelParts(list):
                 return
             fvec = f[2]["fvec"]
             dof = npoints - len(freepars)
-            cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
+            cov.setcovariance(self, np.outer(sign, sign) * pcov * np.sum(fvec**2) / dof)
             try:
                 cov.transform(in_format="internal", out_format=cov_format)
             except SrMiseUndefinedCovarianceError:
-- 
2.43.0


From 7cca86d75a753bf28dc31db56316c33d54bbcc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 050/112] fix: offer each peak as given at every step of
 augmenting a model

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index bbee216..ca0369e 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1434,7 +1434,7 @@ class ModelCluster(object):
         while len(source_model) > 0:
             test_models = [best_model.copy() for s in source_model]
             for t, s in zip(test_models, source_model):
-                t.append(s)
+                t.append(s.copy())
             test_quals = np.array([None for t in test_models])
 
             for i in range(len(test_models)):
-- 
2.43.0


From 1db2e536f14d6ecb870958f13077f05ca924e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 051/112] fix: add only peaks of the source when augmenting a
 model

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index ca0369e..c59edd6 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1456,7 +1456,7 @@ class ModelCluster(object):
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-        self.fit()
+        self.fit(estimate=False)
         msg = [
             "Best model after fit is:",
             "%s",
-- 
2.43.0


From 59d704c59259c0c8cf2d464fe177410c273a7504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 052/112] fix: make the functions importable from their
 packages as documented, so that saved model evaluators are found

---
 src/diffpy/srmise/baselines/__init__.py       | 4 ++++
 src/diffpy/srmise/modelevaluators/__init__.py | 2 ++
 src/diffpy/srmise/peaks/__init__.py           | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/diffpy/srmise/baselines/__init__.py b/src/diffpy/srmise/baselines/__init__.py
index 0fdbc8f..4a4c93a 100644
--- a/src/diffpy/srmise/baselines/__init__.py
+++ b/src/diffpy/srmise/baselines/__init__.py
@@ -13,3 +13,7 @@
 ##############################################################################
 
 # __init__.py file for baselines module
+from diffpy.srmise.baselines.arbitrary import Arbitrary  # noqa
+from diffpy.srmise.baselines.fromsequence import FromSequence  # noqa
+from diffpy.srmise.baselines.nanospherical import NanoSpherical  # noqa
+from diffpy.srmise.baselines.polynomial import Polynomial  # noqa
diff --git a/src/diffpy/srmise/modelevaluators/__init__.py b/src/diffpy/srmise/modelevaluators/__init__.py
index 0efb8dc..4b39221 100644
--- a/src/diffpy/srmise/modelevaluators/__init__.py
+++ b/src/diffpy/srmise/modelevaluators/__init__.py
@@ -13,3 +13,5 @@
 ##############################################################################
 
 # __init__.py file for modelevalutors module
+from diffpy.srmise.modelevaluators.aic import AIC  # noqa
+from diffpy.srmise.modelevaluators.aicc import AICc  # noqa
diff --git a/src/diffpy/srmise/peaks/__init__.py b/src/diffpy/srmise/peaks/__init__.py
index d08018f..bb064ed 100644
--- a/src/diffpy/srmise/peaks/__init__.py
+++ b/src/diffpy/srmise/peaks/__init__.py
@@ -13,3 +13,6 @@
 ##############################################################################
 
 # __init__.py file for peaks module
+from diffpy.srmise.peaks.gaussian import Gaussian  # noqa
+from diffpy.srmise.peaks.gaussianoverr import GaussianOverR  # noqa
+from diffpy.srmise.peaks.terminationripples import TerminationRipples  # noqa
-- 
2.43.0


From 16191226796e80c3bdaf6fcd2dea2dd1dfc42807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 053/112] fix: write a cluster without baseline or peak
 functions

---
 src/diffpy/srmise/modelcluster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c59edd6..741760f 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -552,7 +552,8 @@ class ModelCluster(object):
             writepf = False
         else:
             pfbaselist = [p.owner() for p in self.model]
-            pfbaselist.extend(self.peak_funcs)
+            if self.peak_funcs is not None:
+                pfbaselist.extend(self.peak_funcs)
             pfbaselist = list(set(pfbaselist))
             pfbaselist = BaseFunction.safefunctionlist(pfbaselist)
             writepf = True
@@ -561,7 +562,9 @@ class ModelCluster(object):
             blfbaselist = kwds["blfbaselist"]
             writeblf = False
         else:
-            blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
+            blfbaselist = []
+            if self.baseline is not None:
+                blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
             writeblf = True
 
         lines = []
-- 
2.43.0


From 5b0719fe63e43cdc7ebf14bef7a4a9d71f3923e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 054/112] fix: read a cluster without model evaluator

---
 src/diffpy/srmise/modelcluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 741760f..c097feb 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -724,7 +724,11 @@ class ModelCluster(object):
         res = re.search(r"^ModelEvaluator=(.*)$", header, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        error_method = getattr(module, res.groups()[0].strip())
+        error_method = res.groups()[0].strip()
+        if error_method == "None":
+            error_method = None
+        else:
+            error_method = getattr(module, error_method)
 
         # slice
         res = re.search(r"^slice=(.*)$", header, re.M)
-- 
2.43.0


From d1a8dd365e71a2c29ed2ab725c8699947c570dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 055/112] fix: read saved extractions as text

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 610f5ed..cbf5353 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -316,7 +316,7 @@ class PeakExtraction(object):
         self
         """
         try:
-            self.readstr(open(filename, "rb").read())
+            self.readstr(open(filename, "r").read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
-- 
2.43.0


From 1b149a25b93059abd260548d1ec99f5d72494614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 056/112] fix: recognize the column of effective uncertainties
 in a saved extraction

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index cbf5353..99e3ca3 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -386,7 +386,7 @@ class PeakExtraction(object):
         res = re.search(r"\bdy\b", start_data_info)
         if res:
             hasdy = True
-        res = re.search(r"\edy\b", start_data_info)
+        res = re.search(r"\bedy\b", start_data_info)
         if res:
             hasedy = True
 
-- 
2.43.0


From 7221bcc0a9074e22a1027ff44ce748496fb163fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 057/112] fix: reject saved data whose number of fields is
 wrong

---
 src/diffpy/srmise/peakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 99e3ca3..a1a4974 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -508,6 +508,7 @@ class PeakExtraction(object):
                 split_line = line.split()
                 if len(arrays) != len(split_line):
                     emsg = "Number of value fields does not match that given by '%s'" % start_data_info
+                    raise IndexError(emsg)
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-- 
2.43.0


From e73805a531b9097f27dcdfad13789c1bde3c8cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 058/112] fix: write and read an extraction without metadata

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index a1a4974..f218214 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -708,10 +708,10 @@ class PeakExtraction(object):
 
     def writemetadata(self):
         """Return string for metadata not defined by srmise class."""
-        return
+        return ""
 
-    def readmetadata(self):
-        """Return string for metadata not defined by srmise class."""
+    def readmetadata(self, metastr):
+        """Read metadata not defined by srmise class from string."""
         return
 
     def writesummary(self):
-- 
2.43.0


From 3c0ac8a876b67707db1187cfb3331c6512a1d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 059/112] fix: write and read an extraction whose clustering
 resolution or model evaluator is not set

---
 src/diffpy/srmise/peakextraction.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index f218214..e8ce298 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -456,16 +456,23 @@ class PeakExtraction(object):
             self.pf = [safepf[i] for i in self.pf]
 
         # cres
-        rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
-        regexp = r"\bcres *= *(%(f)s)\b" % rx
-        res = re.search(regexp, srmisemetadata, re.I)
-        self.cres = float(res.groups()[0])
+        if re.search(r"^cres=None$", srmisemetadata, re.M):
+            self.cres = None
+        else:
+            rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
+            regexp = r"\bcres *= *(%(f)s)\b" % rx
+            res = re.search(regexp, srmisemetadata, re.I)
+            self.cres = float(res.groups()[0])
 
         # error_method
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        self.error_method = getattr(module, res.groups()[0].strip())
+        self.error_method = res.groups()[0].strip()
+        if self.error_method == "None":
+            self.error_method = None
+        else:
+            self.error_method = getattr(module, self.error_method)
 
         # range
         res = re.search(r"^Range=(.*)$", srmisemetadata, re.M)
@@ -646,7 +653,10 @@ class PeakExtraction(object):
             lines.append("pf=%s" % repr([safepf.index(p) for p in self.pf]))
 
         # Clustering resolution
-        lines.append("cres=%g" % self.cres)
+        if self.cres is None:
+            lines.append("cres=None")
+        else:
+            lines.append("cres=%g" % self.cres)
         # Model evaluator
         if self.error_method is None:
             lines.append("ModelEvaluator=None")
-- 
2.43.0


From ca8069ecf29b1b16e1baa43556cf785165fea27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 060/112] fix: save data and clustering resolution without loss
 of precision

---
 src/diffpy/srmise/modelcluster.py   |  3 ++-
 src/diffpy/srmise/peakextraction.py | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c097feb..55d66de 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -612,7 +612,8 @@ class ModelCluster(object):
         lines.append("### start data")
         lines.append("#L r y dy")
         for i in range(len(self.r_data)):
-            lines.append("%g %g %g" % (self.r_data[i], self.y_data[i], self.y_error[i]))
+            line = (self.r_data[i], self.y_data[i], self.y_error[i])
+            lines.append(" ".join([repr(float(v)) for v in line]))
 
         datastring = "\n".join(lines) + "\n"
         return datastring
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index e8ce298..349b889 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -656,7 +656,7 @@ class PeakExtraction(object):
         if self.cres is None:
             lines.append("cres=None")
         else:
-            lines.append("cres=%g" % self.cres)
+            lines.append("cres=%s" % repr(float(self.cres)))
         # Model evaluator
         if self.error_method is None:
             lines.append("ModelEvaluator=None")
@@ -692,15 +692,15 @@ class PeakExtraction(object):
         for i in range(numlines):
             line = []
             if self.x is not None:
-                line.append("%g" % self.x[i])
+                line.append(repr(float(self.x[i])))
             if self.y is not None:
-                line.append("%g" % self.y[i])
+                line.append(repr(float(self.y[i])))
             if self.dx is not None:
-                line.append("%g" % self.dx[i])
+                line.append(repr(float(self.dx[i])))
             if self.dy is not None:
-                line.append("%g" % self.dy[i])
+                line.append(repr(float(self.dy[i])))
             if self.effective_dy is not None:
-                line.append("%g" % self.effective_dy[i])
+                line.append(repr(float(self.effective_dy[i])))
             lines.append(" ".join(line))
 
         #  Calculated members
-- 
2.43.0


From 36425bde9471d3888e80609c96ddadb28222c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 061/112] fix: keep the range given by the caller as it is

---
 src/diffpy/srmise/peakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 349b889..2e4df97 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -222,6 +222,7 @@ class PeakExtraction(object):
         if self.rng is None or "rng" in args:
             self.rng = [self.x[0], self.x[-1]]
         else:
+            self.rng = list(self.rng)
             if self.rng[0] is None:
                 self.rng[0] = self.x[0]
             if self.rng[1] is None:
-- 
2.43.0


From b05148cc027c290c6a86236663589ee294249bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 062/112] fix: accept uncertainties given as a list

---
 src/diffpy/srmise/peakextraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 2e4df97..f9f2585 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -212,6 +212,8 @@ class PeakExtraction(object):
                 self.effective_dy = 0.05 * (np.max(self.y) - np.min(self.y)) * np.ones(len(self.x))
         elif np.isscalar(self.effective_dy) and self.effective_dy > 0:
             self.effective_dy = self.effective_dy * np.ones(len(self.x))
+        elif not np.isscalar(self.effective_dy):
+            self.effective_dy = np.array(self.effective_dy, dtype=float)
 
         if self.pf is None or "pf" in args:
             from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
-- 
2.43.0


From 7c0f23ff385e619c194a89f8e4a7bee08ae860e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 063/112] fix: set no extraction variable when one of them is
 invalid

---
 src/diffpy/srmise/peakextraction.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index f9f2585..931f8d7 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -160,15 +160,15 @@ class PeakExtraction(object):
             The sequence specifying the least and greatest x-values over which to extract peaks.
         """
         for k, v in kwds.items():
-            if k in self.extractvars:
-                if quiet:
-                    logger.debug("Setting variable %s=%s", k, v)
-                else:
-                    logger.info("Setting variable %s=%s", k, v)
-                setattr(self, k, v)
-            else:
+            if k not in self.extractvars:
                 emsg = "Invalid extraction variable: %s=%s" % (k, v)
                 raise ValueError(emsg)
+        for k, v in kwds.items():
+            if quiet:
+                logger.debug("Setting variable %s=%s", k, v)
+            else:
+                logger.info("Setting variable %s=%s", k, v)
+            setattr(self, k, v)
         self.defaultvars()
 
     def defaultvars(self, *args):
-- 
2.43.0


From de5a6b177d9f8c71a425e673991460f6b896d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 064/112] fix: plot with the keywords given

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 931f8d7..89d300e 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -284,7 +284,7 @@ class PeakExtraction(object):
         """
         plt.clf()
         if self.extracted is not None:
-            plt.plot(*self.extracted.plottable(kwds))
+            plt.plot(*self.extracted.plottable(**kwds))
         else:
 
             # Make sure all required extraction variables have some value
@@ -304,7 +304,7 @@ class PeakExtraction(object):
                 self.error_method,
                 self.pf,
             )
-            plt.plot(*mcluster.plottable(kwds))
+            plt.plot(*mcluster.plottable(**kwds))
 
     def read(self, filename):
         """Load PeakExtraction object from file.
-- 
2.43.0


From 6193af13561afe36a632b457755fa66977a978c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 065/112] fix: leave baseline and initial peaks as they are
 when extracting or fitting

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 89d300e..c59539a 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -846,7 +846,7 @@ class PeakExtraction(object):
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
-        bl = self.baseline
+        bl = self.baseline.copy()
 
         # Copy initial_peaks
         # While it would be nice to integrate them into extracted model naturally
@@ -1396,8 +1396,8 @@ class PeakExtraction(object):
 
         # Set up ModelCluster
         ext = ModelCluster(
-            self.initial_peaks,
-            self.baseline,
+            self.initial_peaks.copy(),
+            self.baseline.copy(),
             x,
             y,
             dy,
-- 
2.43.0


From 90bc6a8b4d4e99488262b213528fbcee17cdbf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 066/112] fix: unset the degree of supersampling

---
 src/diffpy/srmise/pdfpeakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 3744bb8..390cbe9 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -181,7 +181,7 @@ class PDFPeakExtraction(PeakExtraction):
                     emsg = "Qmax could not be automatically determined."
                     raise SrMiseQmaxError(emsg)
         if "supersample" in kwds:
-            if kwds["supersample"] < 1.0:
+            if kwds["supersample"] is not None and kwds["supersample"] < 1.0:
                 emsg = "Supersample must be a value greater than 1."
                 raise ValueError(emsg)
         PeakExtraction.setvars(self, quiet, **kwds)
-- 
2.43.0


From c59a07c6a9069bddd58d41b93b6024eeb11b4fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 067/112] fix: forget the maximum momentum transfer determined
 from previous data

---
 src/diffpy/srmise/pdfpeakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 390cbe9..b5efb3a 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -103,6 +103,7 @@ class PDFPeakExtraction(PeakExtraction):
         try:
             self.qmax_fromdata = find_qmax(self.x, self.y)[0]
         except Exception:
+            self.qmax_fromdata = None
             logger.info("Could not determine qmax from the data.")
 
     def clear(self):
-- 
2.43.0


From 727b6cbe4f2fe5ed73422dd5ba4906be1d846c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 068/112] fix: report every corrupted saved extraction as a
 data format error

---
 src/diffpy/srmise/peakextraction.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index c59539a..5c5aac2 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -338,6 +338,16 @@ class PeakExtraction(object):
         datastring : array-like
             The raw data to read
         """
+        try:
+            self._readstr(datastring)
+        except SrMiseDataFormatError:
+            raise
+        except Exception as err:
+            emsg = "Required section or field is missing or invalid: %s" % err
+            raise SrMiseDataFormatError(emsg)
+
+    def _readstr(self, datastring):
+        """Initialize members from string, see readstr()."""
         from diffpy.srmise.basefunction import BaseFunction
 
         self.clear()
-- 
2.43.0


From e6de5816be7cb84c9d4311cbe5d6f8631227c8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 069/112] fix: report every corrupted cluster as a data format
 error

---
 src/diffpy/srmise/modelcluster.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 55d66de..458f391 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -627,6 +627,17 @@ class ModelCluster(object):
         pfbaselist : List of peak function bases
         blfbaselist : List of baseline function bases
         """
+        try:
+            return ModelCluster._factory(mcstr, **kwds)
+        except SrMiseDataFormatError:
+            raise
+        except Exception as err:
+            emsg = "Required section or field is missing or invalid: %s" % err
+            raise SrMiseDataFormatError(emsg)
+
+    @staticmethod
+    def _factory(mcstr, **kwds):
+        """Create ModelCluster from string, see factory()."""
         from diffpy.srmise.basefunction import BaseFunction
 
         if "pfbaselist" in kwds:
-- 
2.43.0


From 61c2b907eeded062fd4730450ebcf0694ad3a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 070/112] fix: read traces as text

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index d5fcd6f..8ea4fa9 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -247,7 +247,7 @@ class TracePeaks(object):
         "recursion" - The recursion level of mc
         """
         try:
-            return self.readstr(open(filename, "rb").read())
+            return self.readstr(open(filename, "r").read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
-- 
2.43.0


From 9fbefb4ce5aef04d81d2336677ec8fdbb0275ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 071/112] fix: read recursion level and counter of a trace

---
 src/diffpy/srmise/srmiselog.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 8ea4fa9..3beb828 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -296,14 +296,14 @@ class TracePeaks(object):
 
         res = re.search(r"^recursion=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            recursion = int(res.groups()[0].strip())
         else:
             emsg = "Required field 'recursion' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^counter=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            counter = int(res.groups()[0].strip())
         else:
             emsg = "Required field 'counter' not found."
             raise SrMiseDataFormatError(emsg)
@@ -311,8 +311,8 @@ class TracePeaks(object):
         return {
             "mc": mc,
             "clusters": clusters,
-            "recursion": self.recursion,
-            "counter": self.counter,
+            "recursion": recursion,
+            "counter": counter,
         }
 
     def pushr(self):
-- 
2.43.0


From 4d6445b315bee35c4f896c7f9a788669ed95397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 072/112] fix: forget stored traces when a trace is reset

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 3beb828..38dc9a4 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -341,7 +341,7 @@ class TracePeaks(object):
         self.call = 0
         self.counter = 0
         self.recursion = 0
-        self.stored = []
+        self.trace = []
 
     # filter property
     def setfilter(self, filter):
-- 
2.43.0


From 6fff91bbcaf309af4ef0c361aa3836be518c3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 073/112] fix: keep the models in a trace apart from those
 being extracted

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 38dc9a4..0cdfc46 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -205,7 +205,7 @@ class TracePeaks(object):
         for m in args:
             clusters.append(m.slice)
         for m in args[1:]:
-            mc.replacepeaks(m.model)
+            mc.replacepeaks(m.model.copy())
         return {
             "mc": mc,
             "clusters": clusters,
-- 
2.43.0


From 41e4652e769637db1cd77cd2102f58c505a88f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 074/112] fix: report every corrupted trace as a data format
 error

---
 src/diffpy/srmise/srmiselog.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 0cdfc46..49b77ef 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -289,21 +289,33 @@ class TracePeaks(object):
 
         res = re.search(r"^clusters=(.*)$", header, re.M)
         if res:
-            clusters = eval(res.groups()[0].strip())
+            try:
+                clusters = eval(res.groups()[0].strip())
+            except Exception:
+                emsg = "Invalid field 'clusters'."
+                raise SrMiseDataFormatError(emsg)
         else:
             emsg = "Required field 'clusters' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^recursion=(.*)$", header, re.M)
         if res:
-            recursion = int(res.groups()[0].strip())
+            try:
+                recursion = int(res.groups()[0].strip())
+            except ValueError:
+                emsg = "Invalid field 'recursion'."
+                raise SrMiseDataFormatError(emsg)
         else:
             emsg = "Required field 'recursion' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^counter=(.*)$", header, re.M)
         if res:
-            counter = int(res.groups()[0].strip())
+            try:
+                counter = int(res.groups()[0].strip())
+            except ValueError:
+                emsg = "Invalid field 'counter'."
+                raise SrMiseDataFormatError(emsg)
         else:
             emsg = "Required field 'counter' not found."
             raise SrMiseDataFormatError(emsg)
-- 
2.43.0


From 92f76d1aef21de9bdc6a20251bdc82fa343c12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 075/112] fix: keep the data as they are when refusing
 sequences of different lengths

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 5c5aac2..b8dc89a 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -121,6 +121,9 @@ class PeakExtraction(object):
         if len(x) != len(y):
             emsg = "Sequences x and y must have the same length."
             raise ValueError(emsg)
+        if (dx is not None and len(x) != len(dx)) or (dy is not None and len(x) != len(dy)):
+            emsg = "Sequences dx and dy (if present) must have the same length as x"
+            raise ValueError(emsg)
         self.x = np.array(x)
         self.y = np.array(y)
         if dx is None:
@@ -131,9 +134,6 @@ class PeakExtraction(object):
             self.dy = np.zeros(len(x))
         else:
             self.dy = np.array(dy)
-        if len(self.x) != len(self.dx) or len(self.x) != len(self.dy):
-            emsg = "Sequences dx and dy (if present) must have the same length as x"
-            raise ValueError(emsg)
         # self.defaultvars()
         return
 
-- 
2.43.0


From bdffb59e01689d853306903d2323caac86ff2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 076/112] fix: report a saved extraction that is not text as a
 file error

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index b8dc89a..69cebd9 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -320,7 +320,7 @@ class PeakExtraction(object):
         """
         try:
             self.readstr(open(filename, "r").read())
-        except SrMiseDataFormatError as err:
+        except (SrMiseDataFormatError, UnicodeDecodeError) as err:
             logger.exception("")
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
-- 
2.43.0


From 053a3b939650dd068575430b3fe3ce38e4232896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 077/112] fix: report a PDF that is not text as a file error

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 3965fe3..520e9c8 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -206,7 +206,7 @@ class PDFDataSet(PDFComponent):
             with open(filename, "rb") as file:
                 file_content = file.read().decode("utf-8")
             self.readStr(file_content)
-        except PDFDataFormatError as err:
+        except (PDFDataFormatError, UnicodeDecodeError) as err:
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
                 basename,
-- 
2.43.0


From 4d7cefaa770caace23b5c6affab0e8eb54f22d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 078/112] fix: read the metadata of a PDF whose lines end by
 carriage return and line feed

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 520e9c8..5df7d07 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -249,7 +249,7 @@ class PDFDataSet(PDFComponent):
 
         # find where the metadata starts
         metadata = ""
-        res = re.search(r"^#+ +metadata\b\n", header, re.M)
+        res = re.search(r"^#+ +metadata\b\s*\n", header, re.M)
         if res:
             metadata = header[res.end() :]
             header = header[: res.start()]
-- 
2.43.0


From 44d0ab9e07876acaeb622bdb7dcd409ef309656a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 079/112] fix: write the maximum momentum transfer of a PDF as
 precisely as its other parameters

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 5df7d07..033902c 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -388,7 +388,7 @@ class PDFDataSet(PDFComponent):
         if self.qmax == 0:
             qmax_line = "qmax=0   correction not applied"
         else:
-            qmax_line = "qmax=%.2f" % self.qmax
+            qmax_line = "qmax=%g" % self.qmax
         lines.append(qmax_line)
         # qdamp
         lines.append("qdamp=%g" % self.qdamp)
-- 
2.43.0


From da7238d52decabaa0c230f269b80f9bafbd4fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 080/112] fix: report a trace that is not text as a file error

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 49b77ef..6523a31 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -248,7 +248,7 @@ class TracePeaks(object):
         """
         try:
             return self.readstr(open(filename, "r").read())
-        except SrMiseDataFormatError as err:
+        except (SrMiseDataFormatError, UnicodeDecodeError) as err:
             logger.exception("")
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
-- 
2.43.0


From 2bae1be2b1eae2a1316b31097a916c7251064183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 081/112] fix: log at the level requested when adding a log
 file

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 6523a31..54f522f 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -86,7 +86,7 @@ def addfilelog(filename, level=defaultlevel, format=defaultformat):
     """
     global fh
     fh = logging.FileHandler(filename)
-    fh.setLevel(level)
+    setfilelevel(level)
     formatter = logging.Formatter(format)
     fh.setFormatter(formatter)
     logger.addHandler(fh)
-- 
2.43.0


From 72da03073cda470563cd0effacd917ffd32e8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 082/112] fix: describe invalid data of a cluster as text

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 458f391..4216188 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -786,7 +786,7 @@ class ModelCluster(object):
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-            raise SrMiseDataFormatError(err)
+            raise SrMiseDataFormatError(str(err))
         if hasr:
             r_data = np.array(r_data)
         if hasy:
-- 
2.43.0


From a61f14ab1d1c06929085c641aee1cc53b100318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 083/112] fix: write the clusters of a trace as plain integers,
 so that they can be read

---
 src/diffpy/srmise/srmiselog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 54f522f..f3622cd 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -219,7 +219,10 @@ class TracePeaks(object):
         lines.append("### Trace")
         lines.append("counter=%i" % trace["counter"])
         lines.append("recursion=%i" % trace["recursion"])
-        lines.append("clusters=%s" % trace["clusters"])
+        clusters = []
+        for c in trace["clusters"]:
+            clusters.append(slice(*[i if i is None else int(i) for i in (c.start, c.stop, c.step)]))
+        lines.append("clusters=%s" % clusters)
         lines.append("### ModelCluster")
 
         lines.append(trace["mc"].writestr())
-- 
2.43.0


From fdf86e5fa4611cb1298fa2b8db676003415fb433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 084/112] fix: restore the levels of the tracer when an
 extraction fails

---
 src/diffpy/srmise/modelcluster.py      |  1 +
 src/diffpy/srmise/pdfpeakextraction.py |  1 +
 src/diffpy/srmise/peakextraction.py    |  1 +
 src/diffpy/srmise/srmiselog.py         | 17 +++++++++++++++++
 4 files changed, 20 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 4216188..0554602 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1497,6 +1497,7 @@ class ModelCluster(object):
             ]
         )
 
+    @srmiselog.restorelevels
     def prune(self):
         """Remove peaks until model quality no longer improves.
 
diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index b5efb3a..c6ba618 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -332,6 +332,7 @@ class PDFPeakExtraction(PeakExtraction):
         else:
             return 1.0
 
+    @srmiselog.restorelevels
     def extract(self, **kwds):
         """Extract peaks from the PDF. Returns ModelCovariance instance
         summarizing results.
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 69cebd9..6f0a480 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -837,6 +837,7 @@ class PeakExtraction(object):
             self.initial_peaks.extend(peaks)
             self.initial_peaks.sort(key="position")
 
+    @srmiselog.restorelevels
     def extract_single(self, recursion_depth=1):
         """Find ModelCluster with peaks extracted from data. Return
         ModelCovariance instance at top level.
diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index f3622cd..27b8209 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -38,6 +38,7 @@ setlevel: Set logging level of default logger.
 gettracer: Get a TracePeaks instance for tracing peak extraction.
 """
 
+import functools
 import logging
 import os.path
 import re
@@ -379,3 +380,19 @@ def settracer(**kwds):
 
 # Default tracer never emits
 tracer = settracer()
+
+
+def restorelevels(func):
+    """Decorate tracer-aware function to restore the levels of the tracer if it fails."""
+
+    @functools.wraps(func)
+    def wrapper(*args, **kwds):
+        current = tracer
+        levels = (current.call, current.recursion)
+        try:
+            return func(*args, **kwds)
+        except BaseException:
+            current.call, current.recursion = levels
+            raise
+
+    return wrapper
-- 
2.43.0


From a0c704884b2ba7035f40b9e4fbde2891482a56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 085/112] fix: give no covariance for a fit which was rejected

When ModelCluster.fit() reverts to the original model, or removes peaks, the
covariance of the discarded model was returned as that of the result.
---
 src/diffpy/srmise/modelcluster.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 0554602..4fcf58a 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1132,7 +1132,10 @@ class ModelCluster(object):
             self.model = fmodel
 
         self.model.sort()
-        self.cleanfit()
+        fit_pars = self._allpars()
+        if self.cleanfit() > 0 and cov is not None:
+            # The covariance includes peaks which are no longer in the model.
+            cov.clear()
         new_qual = self.quality()
 
         # Test for fit improvement
@@ -1150,6 +1153,7 @@ class ModelCluster(object):
 
             self.model = orig_model
             self.baseline = orig_baseline
+            self._clearstale(cov, fit_pars)
             return None
 
         # Short version: When justify=True a single peak is no longer fit
@@ -1173,9 +1177,27 @@ class ModelCluster(object):
 
                 self.model = orig_model
                 self.baseline = orig_baseline
+                self._clearstale(cov, fit_pars)
                 return None
         return new_qual
 
+    def _allpars(self):
+        """Return array of all (internal) parameters of peaks and
+        baseline."""
+        parts = list(self.model)
+        if self.baseline is not None:
+            parts.append(self.baseline)
+        return np.concatenate([p.pars for p in parts]) if len(parts) > 0 else np.array([])
+
+    def _clearstale(self, cov, fit_pars):
+        """Clear covariance of a rejected fit, unless that fit only confirmed
+        the original model."""
+        if cov is None:
+            return
+        pars = self._allpars()
+        if pars.shape != fit_pars.shape or not np.allclose(pars, fit_pars, rtol=1e-3, atol=1e-8):
+            cov.clear()
+
     def contingent_fit(self, minpoints, growth_threshold):
         """Fit cluster if it has grown sufficiently large since its last
         fit.
-- 
2.43.0


From 26d8e7690e070b3704766a8cfe5b63a16c742c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 086/112] fix: find the peak functions and model evaluators
 given as options

The expressions were evaluated in a scope without the packages defining them,
so that --pf and --me always failed.
---
 src/diffpy/srmise/applications/extract.py | 29 +++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 3dd4eaa..e4da14b 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -33,6 +33,27 @@ def _baseline_namespace():
     }
 
 
+def _peak_namespace():
+    """Return the peak functions supported by the CLI."""
+    from diffpy.srmise.peaks.gaussian import Gaussian
+    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
+    from diffpy.srmise.peaks.terminationripples import TerminationRipples
+
+    return {
+        "Gaussian": Gaussian,
+        "GaussianOverR": GaussianOverR,
+        "TerminationRipples": TerminationRipples,
+    }
+
+
+def _modelevaluator_namespace():
+    """Return the model evaluators supported by the CLI."""
+    from diffpy.srmise.modelevaluators.aic import AIC
+    from diffpy.srmise.modelevaluators.aicc import AICc
+
+    return {"AIC": AIC, "AICc": AICc}
+
+
 def main():
     """Default SrMise entry-point."""
     usage = (
@@ -447,7 +468,7 @@ def main():
 
     if options.peakfunction:
         try:
-            options.peakfunction = eval("peaks." + options.peakfunction)
+            options.peakfunction = eval(options.peakfunction, {"__builtins__": {}}, _peak_namespace())
         except Exception as err:
             print(err)
             print(
@@ -463,7 +484,11 @@ def main():
 
     if options.modelevaluator:
         try:
-            options.modelevaluator = eval("modelevaluators." + options.modelevaluator)
+            options.modelevaluator = eval(
+                options.modelevaluator,
+                {"__builtins__": {}},
+                _modelevaluator_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
-- 
2.43.0


From 220c875b45ae2077c26cde81243192812b1c0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 087/112] fix: heed the options --no-nyquist and --no-scale

---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index e4da14b..9134435 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -594,11 +594,11 @@ def main():
             pdict["rng"] = list(options.rng)
         if options.qmax:
             pdict["qmax"] = options.qmax if options.qmax == "automatic" else float(options.qmax)
-        if options.nyquist:
+        if options.nyquist is not None:
             pdict["nyquist"] = options.nyquist
         if options.supersample:
             pdict["supersample"] = options.supersample
-        if options.scale:
+        if options.scale is not None:
             pdict["scale"] = options.scale
         if options.modelevaluator:
             pdict["error_method"] = options.modelevaluator
-- 
2.43.0


From 092e83b64937d94f0d70df8c3135b4a120dfb32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 088/112] fix: use the uncertainties documented for the command
 line

Without --dg and --dg-mode the uncertainties of a .srmise file are kept, and 5%
of the maximum is used unless the PDF reports uncertainties, which are otherwise
read as zero.  Mode absolute requires a value, and mode ptp-fraction uses
np.ptp() since numpy arrays have no such method any more.
---
 src/diffpy/srmise/applications/extract.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 9134435..9ba189a 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -574,20 +574,25 @@ def main():
         if options.cres:
             pdict["cres"] = options.cres
         if options.dg_mode is None:
-            if options.dg:
+            if options.dg is not None:
                 options.dg_mode = "absolute"
-            elif ext.dy is None:
-                options.dg_mode = "max-fraction"
-            else:
+            elif ext.effective_dy is not None:
+                # Keep the uncertainties from an existing .srmise file.
+                pass
+            elif ext.dy is not None and np.all(ext.dy > 0):
                 options.dg_mode = "dG-fraction"
-        if options.dg is None:
+            else:
+                options.dg_mode = "max-fraction"
+        if options.dg_mode == "absolute" and options.dg is None:
+            parser.error("Option --dg is required when --dg-mode is absolute.")
+        if options.dg is None and options.dg_mode is not None:
             options.dg = dg_defaults[options.dg_mode]
         if options.dg_mode == "absolute":
             pdict["effective_dy"] = options.dg * np.ones(len(ext.x))
         elif options.dg_mode == "max-fraction":
             pdict["effective_dy"] = options.dg * ext.y.max() * np.ones(len(ext.x))
         elif options.dg_mode == "ptp-fraction":
-            pdict["effective_dy"] = options.dg * ext.y.ptp() * np.ones(len(ext.y))
+            pdict["effective_dy"] = options.dg * np.ptp(ext.y) * np.ones(len(ext.y))
         elif options.dg_mode == "dG-fraction":
             pdict["effective_dy"] = options.dg * ext.dy
         if options.rng:
-- 
2.43.0


From 02ac5eebc390bf1f5715433cf4f1787e9f6db814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 089/112] fix: report results that cannot be saved instead of
 ending with a traceback

---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 9ba189a..a87e698 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -622,14 +622,14 @@ def main():
         if options.savefile:
             try:
                 ext.write(options.savefile)
-            except SrMiseFileError as err:
+            except (OSError, SrMiseFileError) as err:
                 print(err)
                 print("Could not save result to '%s'." % options.savefile)
 
         if options.pwafile:
             try:
                 ext.writepwa(options.pwafile)
-            except SrMiseFileError as err:
+            except (OSError, SrMiseFileError) as err:
                 print(err)
                 print("Could not save pwa summary to '%s'." % options.pwafile)
 
-- 
2.43.0


From ced862541c45520608d89c40a53fc428ea4983c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 090/112] fix: heed baselines without parameters given on the
 command line

A baseline without parameters is an empty sequence, so that --bseq was ignored.
---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index a87e698..6349505 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -569,7 +569,7 @@ def main():
         pdict = {}
         if options.peakfunction:
             pdict["pf"] = [options.peakfunction]
-        if options.baseline:
+        if options.baseline is not None:
             pdict["baseline"] = options.baseline
         if options.cres:
             pdict["cres"] = options.cres
-- 
2.43.0


From e14f42dad31851f5948f2c11d06295ba7184b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 091/112] fix: add peaks without changing the initial peaks
 given by the caller

---
 src/diffpy/srmise/peakextraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 6f0a480..06e9292 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -834,7 +834,8 @@ class PeakExtraction(object):
         else:
             if self.initial_peaks is None:
                 self.setvars("initial_peaks")
-            self.initial_peaks.extend(peaks)
+            # The sequence may belong to the caller.
+            self.initial_peaks = Peaks(list(self.initial_peaks) + list(peaks))
             self.initial_peaks.sort(key="position")
 
     @srmiselog.restorelevels
-- 
2.43.0


From da68b1eeaefc71bc0e7f9e9a32248e39e6a85ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 092/112] fix: keep the results of a stability analysis apart
 from the current model

Changing the model of the extraction, for example by showing another one or
adding a peak, also changed the result it was taken from.
---
 src/diffpy/srmise/peakstability.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 77e3928..2d8f970 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -146,8 +146,8 @@ class PeakStability:
             self.ppe.setvars(quiet=True, effective_dy=result[0] * np.ones(len(self.ppe.x)))
             (r, y, dr, dy) = self.ppe.resampledata(result[3])
             self.ppe.extracted = ModelCluster(
-                result[1],
-                result[2],
+                result[1].copy(),
+                None if result[2] is None else result[2].copy(),
                 r,
                 y,
                 dy,
@@ -213,7 +213,8 @@ class PeakStability:
             dr = (self.ppe.extracted.r_cluster[-1] - self.ppe.extracted.r_cluster[0]) / (
                 len(self.ppe.extracted.r_cluster) - 1
             )
-            self.results.append([e, self.ppe.extracted.model, self.ppe.extracted.baseline, dr])
+            bl = self.ppe.extracted.baseline
+            self.results.append([e, self.ppe.extracted.model.copy(), None if bl is None else bl.copy(), dr])
 
         for e, r, bl, dr in self.results:
             print("---- Results for uncertainty %s ----" % e)
-- 
2.43.0


From 5f7bc68ece1c2b54b0e79153b2f46b35d2042119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 093/112] fix: load the statistics saved by multimodel
 selection

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 91cd34c..b4915a3 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -163,7 +163,7 @@ class MultimodelSelection(PeakStability):
         em = self.ppe.error_method
 
         self.aics = aics_in
-        self.dgs = np.sort(aics_in.keys())
+        self.dgs = np.sort(list(aics_in.keys()))
 
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
-- 
2.43.0


From 743d2b87e37934c10e134c955cd726d110c53bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 094/112] fix: consider only the uncertainties asked for when
 finding where a class is best

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index b4915a3..8ba3d11 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -544,7 +544,7 @@ class MultimodelSelection(PeakStability):
         if dgs is None:
             dgs = self.dgs
         bestdgs = []
-        for dg in self.dgs:
+        for dg in dgs:
             if self.sortedclassprobs[dg][-1] == cls:
                 bestdgs.append(dg)
         return bestdgs
-- 
2.43.0


From f9ac5c1d07902a73d88b43c1c1350e70a4e61007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 095/112] fix: return the uncertainty under its documented
 name, whatever is asked for along with it

---
 src/diffpy/srmise/multimodelselection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 8ba3d11..aff6b83 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -918,7 +918,8 @@ class MultimodelSelection(PeakStability):
         fdict = {
             "aic": self.get_aic,
             "class": self.get_class,
-            "dg": lambda x: x,
+            "dg": lambda x, **kwds: x,
+            "dG": lambda x, **kwds: x,
             "model": self.get_model,
             "nfree": self.get_nfree,
             "prob": self.get_prob,
-- 
2.43.0


From d6313871136fc362fb718f574536fbbaeace44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 096/112] fix: order models of equal probability as documented

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index aff6b83..994e773 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -204,7 +204,7 @@ class MultimodelSelection(PeakStability):
         self.sortedprobs = {}
 
         for dg in self.dgs:
-            self.sortedprobs[dg] = np.argsort(self.aicprobs[dg]).tolist()
+            self.sortedprobs[dg] = np.argsort(self.aicprobs[dg], kind="stable").tolist()
 
     def animate_probs(self, step=False, duration=0.0, **kwds):
         """Show animation of extracted peaks from first to last.
-- 
2.43.0


From a3557df6c23cc8eca5ef0659ddd1e2019326cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 097/112] fix: animate probabilities with current versions of
 matplotlib

The coordinates of a line must be sequences.
---
 src/diffpy/srmise/multimodelselection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 994e773..caf3e43 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -236,15 +236,15 @@ class MultimodelSelection(PeakStability):
         for dg in self.dgs[1:]:
             plt.ioff()
             line.set_ydata(self.aicprobs[dg])
-            vline.set_xdata(dg)
+            vline.set_xdata([dg, dg])
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
                 s = slice(0, len(self.ppe.extracted.model))
                 self.ppe.extracted.replacepeaks(self.results[best_idx][1], s)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
-            dot.set_xdata(self.dgs[best_idx])
-            dot.set_ydata(self.aicprobs[dg][best_idx])
+            dot.set_xdata([self.dgs[best_idx]])
+            dot.set_ydata([self.aicprobs[dg][best_idx]])
             plt.ion()
             plt.draw()
             if step:
@@ -318,8 +318,8 @@ class MultimodelSelection(PeakStability):
                 [r, res] = tempcluster.plottable_residual()
                 plt.plot(*val)
                 plt.plot(r, minval - np.max(res) + res)
-            dot.set_xdata(bestclass_idx)
-            dot.set_ydata(self.classprobs[dg][bestclass_idx])
+            dot.set_xdata([bestclass_idx])
+            dot.set_ydata([self.classprobs[dg][bestclass_idx]])
             plt.ion()
             plt.draw()
             if step:
-- 
2.43.0


From ff94e137d874161879156c6e4bea813461629787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 098/112] fix: plot class probabilities with current versions
 of Python and matplotlib

---
 src/diffpy/srmise/multimodelselection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index caf3e43..efbf767 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -612,7 +612,7 @@ class MultimodelSelection(PeakStability):
         "cbaxis" - The colorbar axis, if it exists.
         "cb" - The colorbar, if it exists.
         """
-        from matplotlib import cm, colorbar, colors
+        from matplotlib import colorbar, colormaps, colors
         from matplotlib.collections import PolyCollection
 
         fig = kwds.pop("figure", plt.gcf())
@@ -627,8 +627,8 @@ class MultimodelSelection(PeakStability):
         probfilter = kwds.pop("probfilter", [0.0, 1.0])
         class_size = kwds.pop("class_size", "number")
         norm = kwds.pop("norm", "auto")
-        cmap = kwds.pop("cmap", cm.get_cmap("jet"))
-        highlight_cmap = kwds.pop("highlight_cmap", cm.get_cmap("gray"))
+        cmap = kwds.pop("cmap", colormaps["jet"])
+        highlight_cmap = kwds.pop("highlight_cmap", colormaps["gray"])
         title = kwds.pop("title", True)
         p_alpha = kwds.pop("p_alpha", 0.7)
         scale = kwds.pop("scale", 1.0)
@@ -646,7 +646,7 @@ class MultimodelSelection(PeakStability):
                     (xs[0], 0),
                     (xs[-1], 0),
                 )  # points to close the vertices
-                verts.append(np.concatenate([[p0], zip(xs, ys), [p1], [p0]]))
+                verts.append(np.concatenate([[p0], list(zip(xs, ys)), [p1], [p0]]))
                 zlabels.append(i)
 
         #  Define face colors
-- 
2.43.0


From 898516a6316e78c051ecc7f78d959da73c816884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 099/112] fix: highlight uncertainties at their scaled position

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index efbf767..c58af87 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -692,7 +692,7 @@ class MultimodelSelection(PeakStability):
         for dG, ci in zip(highlight, color_idx):
             for z_logical, z_plot in zip(zlabels, zs):
                 ax.plot(
-                    [dG, dG],
+                    [dG * scale, dG * scale],
                     [z_plot, z_plot],
                     [0, self.classprobs[dG][z_logical]],
                     color=highlight_cmap(ci),
-- 
2.43.0


From 347680fd25613c8ae9b6f07937e45f21b6152350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 100/112] fix: read lists of distances as text and from their
 first digit

---
 src/diffpy/srmise/applications/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index b4d28c0..3002926 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -560,7 +560,8 @@ def readcompare(filename):
     """
     # TODO: Make this safer
     try:
-        datastring = open(filename, "rb").read()
+        with open(filename, "r") as f:
+            datastring = f.read()
     except Exception as err:
         raise err
 
@@ -568,7 +569,7 @@ def readcompare(filename):
 
     res = re.search(r"^[^#]", datastring, re.M)
     if res:
-        datastring = datastring[res.end() :].strip()
+        datastring = datastring[res.start() :].strip()
 
     distances = []
 
@@ -577,6 +578,7 @@ def readcompare(filename):
             distances.append(float(line))
     except (ValueError, IndexError):
         print("Could not read distances from '%s'. Ignoring file." % filename)
+        return None
 
     if len(distances) == 0:
         return None
-- 
2.43.0


From 2630022c3385797fc39f3c44df3415304adc28cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 101/112] fix: plot the positions found at any order of
 uncertainties

---
 src/diffpy/srmise/applications/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index 3002926..9738fbb 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -140,8 +140,8 @@ def dgseries(stability, **kwds):
 
     scale = kwds.get("scale", 1.0)
 
-    dgmin = kwds.get("dgmin", stability.results[0][0]) * scale
-    dgmax = kwds.get("dgmax", stability.results[-1][0]) * scale
+    dgmin = kwds.get("dgmin", min(result[0] for result in stability.results)) * scale
+    dgmax = kwds.get("dgmax", max(result[0] for result in stability.results)) * scale
 
     pmin = kwds.get("pmin", 0.0)
     pmax = kwds.get("pmax", np.inf)
-- 
2.43.0


From d3920f6f539691918493f666758182f0857cc8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 102/112] fix: keep the current model when the model chosen
 does not exist

---
 src/diffpy/srmise/peakstability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 2d8f970..e0e3fa8 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -140,9 +140,10 @@ class PeakStability:
         -------
         None
         """
-        self.current = idx
         if idx is not None:
             result = self.results[idx]
+        self.current = idx
+        if idx is not None:
             self.ppe.setvars(quiet=True, effective_dy=result[0] * np.ones(len(self.ppe.x)))
             (r, y, dr, dy) = self.ppe.resampledata(result[3])
             self.ppe.extracted = ModelCluster(
-- 
2.43.0


From e5eab2fe0501f8a3b954c34ab56d70760d53e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 103/112] fix: select no points when the range contains none

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 06e9292..18bcad5 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -746,10 +746,10 @@ class PeakExtraction(object):
         object.
         """
         low_idx = 0
-        while self.x[low_idx] < max(self.x[0], self.rng[0]):
+        while low_idx < len(self.x) and self.x[low_idx] < max(self.x[0], self.rng[0]):
             low_idx += 1
         hi_idx = len(self.x)
-        while self.x[hi_idx - 1] > min(self.x[-1], self.rng[1]):
+        while hi_idx > low_idx and self.x[hi_idx - 1] > min(self.x[-1], self.rng[1]):
             hi_idx -= 1
         return slice(low_idx, hi_idx)
 
-- 
2.43.0


From 52156a6fe9cbc0c9df1b231676bae406a8d7b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 104/112] fix: keep the particle diameter of a PDF when writing
 and copying it

---
 src/diffpy/srmise/pdfdataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 033902c..b8a85ee 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -394,6 +394,9 @@ class PDFDataSet(PDFComponent):
         lines.append("qdamp=%g" % self.qdamp)
         # qbroad
         lines.append("qbroad=%g" % self.qbroad)
+        # spdiameter
+        if self.spdiameter is not None:
+            lines.append("spdiameter=%g" % self.spdiameter)
         # dscale
         lines.append("dscale=%g" % self.dscale)
         # metadata
@@ -438,6 +441,7 @@ class PDFDataSet(PDFComponent):
             "qmax",
             "qdamp",
             "qbroad",
+            "spdiameter",
             "dscale",
             "rmin",
             "rmax",
-- 
2.43.0


From e906be217fb96be74f0b86c435d97a55c5d720ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 105/112] fix: animate the models chosen with their own
 baselines and positions

---
 src/diffpy/srmise/multimodelselection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index c58af87..9856d23 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -226,9 +226,10 @@ class MultimodelSelection(PeakStability):
         plt.ion()
         plt.subplot(211)
         best_idx = self.sortedprobs[self.dgs[0]][-1]
-        (line,) = plt.plot(self.dgs, self.aicprobs[self.dgs[0]])
+        model_dgs = [r[0] for r in self.results]
+        (line,) = plt.plot(model_dgs, self.aicprobs[self.dgs[0]])
         vline = plt.axvline(self.dgs[0])
-        (dot,) = plt.plot(self.dgs[best_idx], self.aicprobs[self.dgs[0]][best_idx], "ro")
+        (dot,) = plt.plot(model_dgs[best_idx], self.aicprobs[self.dgs[0]][best_idx], "ro")
 
         plt.subplot(212)
         self.setcurrent(best_idx)
@@ -239,11 +240,10 @@ class MultimodelSelection(PeakStability):
             vline.set_xdata([dg, dg])
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
-                s = slice(0, len(self.ppe.extracted.model))
-                self.ppe.extracted.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
-            dot.set_xdata([self.dgs[best_idx]])
+            dot.set_xdata([model_dgs[best_idx]])
             dot.set_ydata([self.aicprobs[dg][best_idx]])
             plt.ion()
             plt.draw()
@@ -277,7 +277,7 @@ class MultimodelSelection(PeakStability):
         arrow_right = arrow_left + 0.05 * arrow_left
         (line,) = plt.plot(range(len(self.classes)), self.classprobs[self.dgs[0]])
         (dot,) = plt.plot(
-            self.dgs[best_idx],
+            bestclass_idx,
             self.classprobs[self.dgs[0]][bestclass_idx],
             "ro",
         )
@@ -310,8 +310,8 @@ class MultimodelSelection(PeakStability):
             if self.sortedclassprobs[dg][-1] != bestclass_idx:
                 bestclass_idx = self.sortedclassprobs[dg][-1]
                 best_idx = self.sortedclasses[dg][bestclass_idx][-1]
-                s = slice(0, len(tempcluster.model))
-                tempcluster.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
+                tempcluster = ModelCluster(self.ppe.extracted)
                 plt.cla()
                 val = tempcluster.plottable()
                 minval = np.min(val[1::2])
-- 
2.43.0


From 7c75fac268c2fbb207c529ec9a418e1837d0d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 106/112] fix: plot class probabilities with lists of
 uncertainties and colormap names

---
 src/diffpy/srmise/multimodelselection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 9856d23..485a3b0 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -612,7 +612,7 @@ class MultimodelSelection(PeakStability):
         "cbaxis" - The colorbar axis, if it exists.
         "cb" - The colorbar, if it exists.
         """
-        from matplotlib import colorbar, colormaps, colors
+        from matplotlib import colorbar, colors
         from matplotlib.collections import PolyCollection
 
         fig = kwds.pop("figure", plt.gcf())
@@ -621,14 +621,14 @@ class MultimodelSelection(PeakStability):
         kwds.copy()
 
         # Resolve keywords (title resolved later)
-        dGs = kwds.pop("dGs", self.dgs)
+        dGs = np.asarray(kwds.pop("dGs", self.dgs))
         highlight = kwds.pop("highlight", [])
         classes = kwds.pop("classes", range(len(self.classes)))
         probfilter = kwds.pop("probfilter", [0.0, 1.0])
         class_size = kwds.pop("class_size", "number")
         norm = kwds.pop("norm", "auto")
-        cmap = kwds.pop("cmap", colormaps["jet"])
-        highlight_cmap = kwds.pop("highlight_cmap", colormaps["gray"])
+        cmap = plt.get_cmap(kwds.pop("cmap", "jet"))
+        highlight_cmap = plt.get_cmap(kwds.pop("highlight_cmap", "gray"))
         title = kwds.pop("title", True)
         p_alpha = kwds.pop("p_alpha", 0.7)
         scale = kwds.pop("scale", 1.0)
-- 
2.43.0


From ff4935d1d087e8efa0d063830669ebb0560b50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 107/112] fix: keep the whole arrow of animated classes at the
 uncertainty shown

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 485a3b0..6bb057d 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -306,7 +306,7 @@ class MultimodelSelection(PeakStability):
             plt.ioff()
             line.set_ydata(self.classprobs[dg])
             dgarrow.xy = (arrow_right, dg)
-            dgarrow.xytext = (arrow_left, dg)
+            dgarrow.xyann = (arrow_left, dg)
             if self.sortedclassprobs[dg][-1] != bestclass_idx:
                 bestclass_idx = self.sortedclassprobs[dg][-1]
                 best_idx = self.sortedclasses[dg][bestclass_idx][-1]
-- 
2.43.0


From bb2a26cb346a3ba33d41df73912369a5bf8c1595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:13 +0000
Subject: [PATCH 108/112] fix: state the free parameters of the extracted
 baseline in the summary

---
 src/diffpy/srmise/pdfpeakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index c6ba618..e56c3e4 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -827,8 +827,8 @@ class PDFPeakExtraction(PeakExtraction):
         # Quality of fit
         lines.append("# Quality reported by ModelEvaluator: %s" % self.extracted.quality().stat)
         lines.append("# Free parameters in extracted peaks: %s" % self.extracted.model.npars(count_fixed=False))
-        if self.baseline is not None:
-            fblpars = self.baseline.npars(count_fixed=False)
+        if self.extracted.baseline is not None:
+            fblpars = self.extracted.baseline.npars(count_fixed=False)
         else:
             fblpars = 0
         lines.append("# Free parameters in baseline: %s" % fblpars)
-- 
2.43.0


From bd013235f04ab69997fb62eba09f70c197a530e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 109/112] fix: evaluate functions and models over lists as over
 arrays, within the range given

---
 src/diffpy/srmise/basefunction.py             | 8 ++++++++
 src/diffpy/srmise/modelcluster.py             | 2 +-
 src/diffpy/srmise/modelparts.py               | 2 +-
 src/diffpy/srmise/peaks/terminationripples.py | 8 ++++++++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index dbb0328..0be16fb 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -229,6 +229,10 @@ class BaseFunction(object):
             emsg = "Argument 'p' must be evaluated by the BaseFunction " + "subclass which owns it."
             raise ValueError(emsg)
 
+        # lists and tuples are evaluated just like arrays
+        if np.ndim(r) > 0:
+            r = np.asarray(r)
+
         # normally r will be a sequence, but also allow single numeric values
         try:
             if rng is None:
@@ -356,6 +360,10 @@ class BaseFunction(object):
             emsg = "Argument 'p' must be evaluated by the BaseFunction " + "subclass which owns it."
             raise ValueError(emsg)
 
+        # lists and tuples are evaluated just like arrays
+        if np.ndim(r) > 0:
+            r = np.asarray(r)
+
         # normally r will be a sequence, but also allow single numeric values
         try:
             if rng is None:
diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 4fcf58a..3c772dd 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1361,7 +1361,7 @@ class ModelCluster(object):
             if r is None:
                 return np.zeros(self.size)
             else:
-                return r * 0.0
+                return np.multiply(r, 0.0)
         else:
             if r is None:
                 return self.baseline.value(self.r_data, self.slice)[self.slice]
diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index a0e14cd..faeb15a 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -375,7 +375,7 @@ class ModelParts(list):
         total : float
             The total value of all slice region of r.
         """
-        total = r * 0.0
+        total = np.multiply(r, 0.0)
         for p in self:
             total += p.value(r, range)
         return total
diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index caf9a4e..fba8a46 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -230,6 +230,10 @@ class TerminationRipples(PeakFunction):
                 "it is associated."
             )
 
+        # lists and tuples are evaluated just like arrays
+        if np.ndim(r) > 0:
+            r = np.asarray(r)
+
         # normally r will be a sequence, but also allow single numeric values
         try:
             if rng is None:
@@ -287,6 +291,10 @@ class TerminationRipples(PeakFunction):
                 "it is associated."
             )
 
+        # lists and tuples are evaluated just like arrays
+        if np.ndim(r) > 0:
+            r = np.asarray(r)
+
         # normally r will be a sequence, but also allow single numeric values
 
         dr_super = 2 * np.pi / (self.supersample * self.qmax)
-- 
2.43.0


From 978ab49ffaca6ad03cc7272f6c7e0b91e1163289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 110/112] fix: leave live plotting as it was when either
 setting is refused

---
 src/diffpy/srmise/srmiselog.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 27b8209..2926e9f 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -138,18 +138,17 @@ def liveplotting(lp, w=False):
     """
     global liveplots
     global wait
-    if lp is True or lp is False:
-        liveplots = lp
-    else:
+    if lp is not True and lp is not False:
         emsg = "Parameter lp must be a boolean."
         raise ValueError(emsg)
 
-    if w is True or w is False:
-        wait = w
-    else:
+    if w is not True and w is not False:
         emsg = "Parameter w must be a boolean."
         raise ValueError(emsg)
 
+    liveplots = lp
+    wait = w
+
 
 # TracePeaks.  Primary purpose is to enable creating movies. ###
 
-- 
2.43.0


From 4a061a6aabd6f3a4830bfa1b42c740fa37aff46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:07 +0000
Subject: [PATCH 111/112] fix: summary of a cluster without model evaluator

---
 src/diffpy/srmise/modelcluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 3c772dd..738c050 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1510,10 +1510,11 @@ class ModelCluster(object):
 
     def __str__(self):
         """Return string representation of the cluster."""
+        quality = None if self.error_method is None else self.quality().stat
         return "\n".join(
             [
                 "Slice: %s" % self.slice,
-                "Quality: %s" % self.quality().stat,
+                "Quality: %s" % quality,
                 "Baseline: %s" % self.baseline,
                 "Peaks:\n%s" % self.model,
             ]
-- 
2.43.0


From 823e6490c358b92008df98fefc42880f631b7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:07 +0000
Subject: [PATCH 112/112] fix: ratio of standard deviations of fewer than four
 values

---
 src/diffpy/srmise/pdfpeakextraction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index e56c3e4..5ec268a 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -1068,6 +1068,8 @@ def stdratio(data):
         equivalent to std(data[:i+2])/std(data[i+2:2i+4]).
     """
     limit = int(np.floor(len(data) / 2))
+    if limit < 2:
+        return np.zeros(0)
     std_left = np.zeros(limit)
     std_right = np.zeros(limit)
 
-- 
2.43.0

