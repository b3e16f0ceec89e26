From ff2711781e854a055e4453add92fcfc418c34a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 01/42] fix: discard the cached updated density when the
 observed density changes

---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index bc9b719..7373c98 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -213,6 +213,7 @@ class DensityProblem(object):
         """
         self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
         """
-- 
2.43.0


From 3c0512301c300539cda73b1606db230ae710503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 02/42] fix: read a 1-D sample vector as repeated samples of a
 scalar parameter

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7373c98..f06ddf6 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -108,7 +108,7 @@ class DensityProblem(object):
         normalize: bool = False,
         pad_domain: float = 0.1,
     ):
-        self.X = set_shape(np.array(X), (1, -1))
+        self.X = set_shape(np.array(X), (-1, 1))
         self.y = set_shape(np.array(y), (-1, 1))
 
         # These will be updated in set_ and fit() functions
-- 
2.43.0


From 6ec66748a7e56a93ed03a99064e440cb3199b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 03/42] fix: fit_domain no longer widens the bounds it is given
 in place

---
 src/mud/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/util.py b/src/mud/util.py
index fad2040..c3bd4af 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -278,6 +278,7 @@ def fit_domain(
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
         min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
+    min_max_bounds = np.array(min_max_bounds)  # never modify the caller's bounds
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
     min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
     min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-- 
2.43.0


From f9f294ef73b44d0c9355482c772edf9942ddb5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 04/42] fix: honour the pad_domain argument of DensityProblem

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f06ddf6..5397265 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -129,7 +129,7 @@ class DensityProblem(object):
             ), f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"
 
         else:
-            self.domain = fit_domain(self.X)
+            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
 
         # Initialize weights
         self.set_weights(weights, normalize=normalize)
-- 
2.43.0


From 61ed8df170017e4e520f74998742e1232816d7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 05/42] fix: multiply component densities of an explicit
 predicted distribution

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 5397265..cfc1d88 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -303,7 +303,9 @@ class DensityProblem(object):
             distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)
             pred_pdf_values = distribution.pdf(self.y.T).T
         else:
-            pred_pdf_values = distribution.pdf(self.y, **kwargs)
+            pred_pdf_values = np.asarray(distribution.pdf(self.y, **kwargs))
+            if pred_pdf_values.ndim > 1:  # independent observable components
+                pred_pdf_values = pred_pdf_values.prod(axis=1)
 
         self._pr_dist = distribution
         self._pr = pred_pdf_values.ravel()
-- 
2.43.0


From bbc6402e1adadeadb36aa26dcd527a586225be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 06/42] fix: undefined updated densities (0/0, 0*inf) no longer
 win the MUD point

---
 src/mud/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index cfc1d88..14ce9f8 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -349,9 +349,12 @@ class DensityProblem(object):
         # Store ratio of observed/predicted
         # e.g. to comptue E(r) and to pass on to future iterations
         self._r = np.divide(self._ob, self._pr)
+        # No observed density or no weight: no contribution, even where pr is 0
+        self._r[(self._pr == 0) & ((self._ob == 0) | (self._weights == 0))] = 0.0
 
         # Multiply by initial to get updated pdf
         up_pdf = np.multiply(self._in * self._weights, self._r)
+        up_pdf[np.isnan(up_pdf)] = 0.0  # initial vanishes where ratio is infinite
         self._up = up_pdf
 
     def mud_point(self):
-- 
2.43.0


From a157cf0ba858aead90b3c45a5373f9845d7b4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 07/42] fix: density plots use the configuration in force, not
 a stale ratio

---
 src/mud/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 14ce9f8..14d801c 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -499,6 +499,8 @@ class DensityProblem(object):
             x_range = fit_domain(min_max_bounds=self.domain, pad_ratio=pad_ratio)
 
         # Plot distributions for all not set to None
+        if self._up is None:
+            self.fit()
         assert self._in_dist is not None
         if in_opts is not None:
             io.update(in_opts)
@@ -600,6 +602,8 @@ class DensityProblem(object):
         if y_range.shape[0] != self.n_features:
             raise ValueError("Invalid domain dimension")
 
+        if self._up is None:
+            self.fit()
         assert self._ob_dist is not None, "Observed dist empty"
         if ob_opts:
             oo.update(ob_opts)
-- 
2.43.0


From e97bf56bd4c87386b102ced229697ce3a378b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 08/42] fix: plot_params_2d plots the requested parameter
 columns

---
 src/mud/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 14d801c..bb97271 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -693,21 +693,21 @@ class DensityProblem(object):
         if self.n_params < 2:
             raise AttributeError("2D plot requires at least 2 dim param space.")
         if x_1 >= self.n_params or x_2 >= self.n_params:
-            raise ValueError("indices {x_1+1},{x_2+1} > dim {self.n_params}")
+            raise ValueError(f"indices {x_1+1},{x_2+1} > dim {self.n_params}")
 
         c = None
         if y >= self.n_features:
-            raise ValueError("index {y+1} > dim {self.n_params}")
+            raise ValueError(f"index {y+1} > dim {self.n_features}")
         c = self.y[:, y]
 
         if ax is None:
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, 0], self.X[:, 1], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c)
 
         if contours:
-            ax.tricontour(self.X[:, 0], self.X[:, 1], c, levels=20)
+            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-- 
2.43.0


From 0ad2c5a130f08a1faf909b0467f58c783e80d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 09/42] fix: detect a vanishing posterior correctly in
 log-likelihood mode

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index bb97271..8477bb7 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -835,7 +835,7 @@ class BayesProblem(object):
             ps_pdf = np.multiply(self._pr, self._ll)
 
         assert ps_pdf.shape[0] == self.X.shape[0]
-        if np.sum(ps_pdf) == 0:
+        if np.all(np.isneginf(ps_pdf)) if self._log else np.sum(ps_pdf) == 0:
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
-- 
2.43.0


From a2a074f152a4a3424106bf4afd1f2dfcc5d69cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 10/42] fix: Bayes plots weigh samples by the posterior in
 force, also in log mode

---
 src/mud/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 8477bb7..10df609 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -848,6 +848,12 @@ class BayesProblem(object):
     def estimate(self):
         return self.map_point()
 
+    def _posterior_weights(self):
+        # Posterior over the samples, up to scale, for the settings in force
+        if self._ps is None:
+            self.fit()
+        return np.exp(self._ps - np.max(self._ps)) if self._log else self._ps
+
     # TODO: Make changes similar to DensityProblem class
     def plot_param_space(
         self,
@@ -880,6 +886,8 @@ class BayesProblem(object):
         # Plot distributions for all not set to None
         if pr_opts is not None:
             pro.update(pr_opts)
+            if self._pr_dist is None:
+                self.set_prior()
             plot_dist(
                 self._pr_dist,
                 x_range,
@@ -892,7 +900,7 @@ class BayesProblem(object):
         if ps_opts is not None:
             pso.update(ps_opts)
             self.estimate()
-            ps_kde = gkde(self.X.T, weights=self._ps)
+            ps_kde = gkde(self.X.T, weights=self._posterior_weights())
             plot_dist(
                 ps_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **pso
             )
@@ -973,7 +981,7 @@ class BayesProblem(object):
             po.update(pf_opts)
 
             # Compute PF of posterior
-            pf_kde = gkde(self.y.T, weights=self._ps)
+            pf_kde = gkde(self.y.T, weights=self._posterior_weights())
             pf_p = margins(np.reshape(pf_kde(grid_points).T, XXX[0].shape))[
                 obs_idx
             ].reshape(-1)
-- 
2.43.0


From d180b5da9c6fe220f679afd53e2a2d300b8bc456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 11/42] fix: plotted marginals belong to the requested index in
 any dimension

---
 src/mud/base.py | 7 +++++--
 src/mud/plot.py | 8 ++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 10df609..6c0cdc1 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -959,7 +959,10 @@ class BayesProblem(object):
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
 
         # Build grid of points over range to compute marginals
-        XXX = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in y_range])
+        y_range = np.array(y_range)
+        XXX = np.meshgrid(
+            *[np.linspace(i, j, aff)[:-1] for i, j in y_range], indexing="ij"
+        )
         grid_points = np.vstack([x.ravel() for x in XXX])
         y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
 
@@ -971,7 +974,7 @@ class BayesProblem(object):
 
             # Compute observed distribution using stored pdf
             ll_plot = margins(
-                np.reshape(self._ll_dist.pdf(grid_points).T.prod(axis=1), XXX[0].shape)
+                np.reshape(self._ll_dist.pdf(grid_points.T).prod(axis=1), XXX[0].shape)
             )[obs_idx].reshape(-1)
 
             # Plot pf of initial
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 5970521..d2a3736 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -194,7 +194,9 @@ def build_nd_mesh_grid(domain, aff=100):
 
     """
 
-    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain])
+    mesh = np.meshgrid(
+        *[np.linspace(i, j, aff)[:-1] for i, j in domain], indexing="ij"
+    )
     grid_points = np.vstack([x.ravel() for x in mesh])
 
     return (mesh, grid_points)
@@ -208,6 +210,8 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
     # Create plot if one isn't passed in
     _, ax = plt.subplots(1, 1) if ax is None else (None, ax)
 
+    domain = np.array(domain)
+
     # Mesh is a list of grids over n-dim space the distribution is defined over
     mesh, grid = build_nd_mesh_grid(domain, aff=aff)
     plot_x = np.linspace(domain[idx, 0], domain[idx, 1], aff)[: aff - 1]
@@ -220,7 +224,7 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
         ].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
-        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape).T)[idx].reshape(-1)
+        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
     else:
         raise ValueError("Source must be one of pdf or kde.")
 
-- 
2.43.0


From 55931c0ff0c1874f2dc41b507ec7aa99b1894ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 12/42] fix: data mismatch functional counts the offset once
 and supports several outputs

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6c0cdc1..21830d0 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1118,7 +1118,7 @@ class LinearGaussianProblem(object):
             return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
 
         # First compute data mismatch norm
-        data_term = ip((self.A @ X.T + self.b) - mean_o.T, self.cov_o)
+        data_term = ip(self.A @ X.T - mean_o, self.cov_o)
         if terms == "data":
             return data_term
 
-- 
2.43.0


From 3c037c86051863be685acdaca0b6c7c9e6d0a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 13/42] fix: functionals scale the initial covariance as the
 solvers do

---
 src/mud/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 21830d0..7dd9f5e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1123,14 +1123,13 @@ class LinearGaussianProblem(object):
             return data_term
 
         # Tikhonov Regularization Term
-        reg_term = self.alpha * ip((X - self.mean_i.T).T, self.cov_i)
+        a_cov_i = self.alpha * self.cov_i  # scaled as in `solve`
+        reg_term = ip((X - self.mean_i.T).T, a_cov_i)
         if terms == "reg":
             return reg_term
 
         # Data-Consistent Term - "un-regularization" in data-informed directions
-        dc_term = self.alpha * ip(
-            self.A @ (X - self.mean_i.T).T, self.A @ self.cov_i @ self.A.T
-        )
+        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)
         if terms == "dc_term":
             return dc_term
 
-- 
2.43.0


From 46fda3e2806857e74c41c38a189917b558c17c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 14/42] fix: norms accept scalar, row and column means and any
 number of outputs

---
 src/mud/norm.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index 543badd..f264efc 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -39,22 +39,23 @@ def full_functional(
 
 def norm_input(inputs, initial_mean, initial_cov):
     if isinstance(initial_cov, int) or isinstance(initial_cov, float):
-        initial_cov = initial_cov * np.eye(len(initial_mean))
-    X = (inputs - initial_mean.T).T
+        initial_cov = initial_cov * np.eye(np.size(initial_mean))
+    X = (inputs - np.reshape(initial_mean, (1, -1))).T
     return inner_product(X, initial_cov)
 
 
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
     if isinstance(observed_cov, int) or isinstance(observed_cov, float):
-        observed_cov = observed_cov * np.eye(len(data))
-    X = (operator @ inputs.T + data) - observed_mean.T
+        observed_cov = observed_cov * np.eye(np.size(data))
+    data = np.reshape(data, (-1, 1))
+    X = (operator @ inputs.T + data) - np.reshape(observed_mean, (-1, 1))
     return inner_product(X, observed_cov)
 
 
 def norm_predicted(operator, inputs, initial_mean, initial_cov):
     if isinstance(initial_cov, int) or isinstance(initial_cov, float):
-        initial_cov = initial_cov * np.eye(len(initial_mean))
+        initial_cov = initial_cov * np.eye(np.size(initial_mean))
     predicted_cov = operator @ initial_cov @ operator.T
     # if operator is affine, we can factor it (for efficiency) to be same as linear
-    X = operator @ (inputs - initial_mean.T).T
+    X = operator @ (inputs - np.reshape(initial_mean, (1, -1))).T
     return inner_product(X, predicted_cov)
-- 
2.43.0


From 31ab77c0fdeb9d0aa5e2d8b509128f7057fca20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 15/42] fix: wme accepts column data as documented

---
 src/mud/funs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index 7b74e74..8c13073 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -38,6 +38,7 @@ def wme(predictions, data, sd=None):
     numpy.ndarray of shape (n_samples, 1)
 
     """
+    data = np.ravel(data)
     sd = np.std(data) if sd is None else sd
     predictions = predictions.reshape(1, -1) if predictions.ndim == 1 else predictions
     N = predictions.shape[1]
-- 
2.43.0


From 52ffaf6ac6ab79477d6d27419ab501b6888f854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 16/42] fix: iterative linear solving passes the arguments its
 sub-problems take

---
 src/mud/base.py | 6 +++---
 src/mud/funs.py | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7dd9f5e..8637695 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1485,9 +1485,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                         self.A[i, :],
                         self.b[i],
                         self.y[i],
-                        mean=solutions[-1],
-                        cov=self.cov,
-                        data_cov=self.data_cov,
+                        mean_i=solutions[-1],
+                        cov_i=self.cov,
+                        cov_o=self.data_cov[i, i].reshape(1, 1),
                     )
                 )
 
diff --git a/src/mud/funs.py b/src/mud/funs.py
index 8c13073..e3877b9 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -175,10 +175,9 @@ def iter_lin_solve(
         A,
         b=b,
         y=y,
-        mean_i=mean,
-        cov_i=cov,
-        cov_o=data_cov,
-        alpha=1.0,
+        mu_i=mean,
+        cov=cov,
+        data_cov=data_cov,
         idx_order=idx_order,
     )
     res = lin_prob.solve(num_epochs=num_epochs, method=method)
-- 
2.43.0


From e6d39ce3d381db6937cac0c9d2c13b19d8197556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 17/42] fix: iterative errors refer to the reference of the
 current request

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 8637695..0ee69d9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1505,8 +1505,8 @@ class IterativeLinearProblem(LinearGaussianProblem):
 
         """
         solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        if len(solutions) != len(self.errors):
-            self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        ref_param = np.reshape(ref_param, (-1, 1))
+        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From 003d382087567ff70f28b5d373a7339e5d604651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 18/42] fix: linear contour lines pass through their reference
 point

---
 src/mud/base.py | 12 ++++++------
 src/mud/plot.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0ee69d9..42c89d4 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1302,7 +1302,7 @@ class LinearGaussianProblem(object):
         note_loc=None,
         w=1,
         label="{i}",
-        plot_opts={"color": "k", "ls": ":", "lw": 1, "fs": 20},
+        plot_opts={"color": "k", "ls": ":", "lw": 1},
         annotate_opts={"fontsize": 20},
     ):
         """
@@ -1325,8 +1325,8 @@ class LinearGaussianProblem(object):
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
-            xloc = [ref[0] - w * AA[i, 0], ref[1] + w * AA[i, 0]]
-            yloc = [ref[0] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
+            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
+            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
             ax.plot(xloc, yloc, **plot_opts)
 
             # If annotate is set, then label line with given annotations
@@ -1526,9 +1526,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                 current_point = next_point
             ax.scatter(current_point[0], current_point[1], c="g", s=s)
             ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
-        self.plot_contours(
-            ref_param, ax=ax, subset=self.idx_order, color=color, s=s, **kwargs
-        )
+        plot_opts = {"color": color, "ls": ":", "lw": 1}
+        kwargs = {"subset": self.idx_order, "plot_opts": plot_opts, **kwargs}
+        self.plot_contours(ref_param, ax=ax, **kwargs)
 
     def plot_chain_error(
         self, ref_param, ax=None, alpha=1.0, color="k", label=None, s=100, fontsize=12
diff --git a/src/mud/plot.py b/src/mud/plot.py
index d2a3736..e3cac88 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -122,8 +122,8 @@ def plot_contours(
     numQoI = A.shape[0]
     AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
     for i, contour in enumerate(subset):
-        xloc = [ref_param[0] - w * AA[i, 0], ref_param[1] + w * AA[i, 0]]
-        yloc = [ref_param[0] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
+        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
+        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
         plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
         plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
 
-- 
2.43.0


From 6f4b2a3390b68ebe3d9385b0eb777bfc8e421840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 19/42] fix: rank updates include the first rank, use right
 singular vectors, any shape

---
 src/mud/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index c3bd4af..6bef470 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -230,12 +230,11 @@ def rank_decomposition(A: np.typing.ArrayLike) -> List[np.ndarray]:
     """Build list of rank k updates of A"""
     A = np.array(A)
     A_ranks = []
-    rank_1_updates = []
     u, s, v = np.linalg.svd(A)
-    A_ranks.append(s[0] * (u[:, 0].reshape(-1, 1)) @ v[:, 0].reshape(1, -1))
-    for i in range(1, A.shape[1]):
-        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ v[:, i].reshape(1, -1))
-        A_ranks.append(sum(rank_1_updates[0:i]))
+    A_ranks.append(s[0] * (u[:, 0].reshape(-1, 1)) @ v[0, :].reshape(1, -1))
+    for i in range(1, len(s)):
+        rank_1_update = s[i] * (u[:, i].reshape(-1, 1)) @ v[i, :].reshape(1, -1)
+        A_ranks.append(A_ranks[-1] + rank_1_update)
 
     return A_ranks
 
-- 
2.43.0


From cc39df7d178c4f00ddb35315250b0c2ddc1d22a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 20/42] fix: data weights multiply data (not samples) and
 follow the selection

---
 src/mud/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 42c89d4..5790030 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2015,11 +2015,18 @@ class SpatioTemporalProblem(object):
         sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
-            data_weights = np.reshape(data_weights, (-1, 1))
-            if data_weights.shape[0] != self.n_sensors * self.n_ts:
+            data_weights = np.reshape(data_weights, (1, -1))
+            if data_weights.shape[1] != self.n_sensors * self.n_ts:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
+            # Keep weights of the selected data only
+            data_weights = np.reshape(data_weights, (self.n_sensors, self.n_ts))
+            if times_mask is not None:
+                data_weights = data_weights[:, times_mask]
+            if sensors_mask is not None:
+                data_weights = data_weights[sensors_mask, :]
+            data_weights = np.reshape(data_weights, (1, -1))
             data_weights = data_weights / np.linalg.norm(data_weights)
             residuals = data_weights * residuals
 
-- 
2.43.0


From e1fe4c3792416da65660fc19e1fe02610c409770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 21/42] fix: WME map of SpatioTemporalProblem scales by the
 number of data

---
 src/mud/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 5790030..4564250 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2012,7 +2012,6 @@ class SpatioTemporalProblem(object):
             sensors_mask=sensors_mask,
         )
         residuals = (sub_meas - sub_data) / self.std_dev
-        sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (1, -1))
@@ -2031,7 +2030,7 @@ class SpatioTemporalProblem(object):
             residuals = data_weights * residuals
 
         if method == "wme":
-            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_n_samples)
+            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
         elif method == "pca":
             # Learn qoi to use using PCA
             pca_res, X_train = pca(residuals, n_components=num_components)
-- 
2.43.0


From 8e1d2cd3f7ac8df7e2ed6c019c707eb01aa6e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 22/42] fix: refuse unknown QoI map types

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4564250..5651b41 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2048,7 +2048,7 @@ class SpatioTemporalProblem(object):
             self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
             qoi = residuals @ (v[0:num_components, :]).T
         else:
-            ValueError(f"Unrecognized QoI Map type {method}")
+            raise ValueError(f"Unrecognized QoI Map type {method}")
 
         # qoi = qoi.reshape(sub_n_samples, -1)
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
-- 
2.43.0


From 4bd284905227c8914e5ae5e291f43ca4e6673bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 23/42] fix: check the dimension of the new domain, not of the
 old one

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 5651b41..77f2110 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1652,7 +1652,7 @@ class SpatioTemporalProblem(object):
     def domain(self, domain):
         domain = np.reshape(domain, (-1, 2))
         if self.lam is not None:
-            if self.domain.shape[0] != self.lam.shape[1]:
+            if domain.shape[0] != self.lam.shape[1]:
                 raise ValueError("Domain and parameter array dimension mismatch.")
             min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
             if not all(
-- 
2.43.0


From 453332e807dcac8259515565385266063f1ac60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 24/42] fix: validate(check_true=True) checks the reference
 parameter

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 77f2110..75e75f7 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1567,7 +1567,7 @@ class SpatioTemporalProblem(object):
         self._lam = None
         self._data = None
         self._measurements = None
-        self._true_lam = None
+        self._lam_ref = None
         self._true_vals = None
         self._sample_dist = None
         self.sensors = None
@@ -1854,7 +1854,7 @@ class SpatioTemporalProblem(object):
         if check_meas:
             req_attrs.append("measurements")
         if check_true:
-            req_attrs.append("true_lam")
+            req_attrs.append("lam_ref")
             req_attrs.append("true_vals")
 
         missing = [x for x in req_attrs if self.__getattribute__(x) is None]
-- 
2.43.0


From 24044c7946733c0045cf4076b7f9c9b0172043a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 25/42] fix: a reference passed to measurements_from_reference
 is size-checked

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 75e75f7..a9ebc95 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1772,7 +1772,7 @@ class SpatioTemporalProblem(object):
         Add noise to a reference solution.
         """
         if ref is not None:
-            self._true_vals = ref
+            self.true_vals = ref
         if std_dev is not None:
             self.std_dev = std_dev
         if self.true_vals is None or self.std_dev is None:
-- 
2.43.0


From d4966c15030060d994dbb7f10be4e91c66e4fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 26/42] fix: load looks fields up under their mapped name,
 skips absent ones, sets data first

---
 src/mud/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index a9ebc95..3836fb0 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -16,7 +16,7 @@ from mud.util import add_noise, fit_domain, make_2d_unit_mesh, null_space, set_s
 try:
     import xarray as xr  # type: ignore
 
-    xr_avial = True
+    xr_avail = True
 except ModuleNotFoundError:
     xr_avail = False
     pass
@@ -1820,9 +1820,9 @@ class SpatioTemporalProblem(object):
             ds = df
 
         def get_set_val(f, v):
-            if f in ds.keys():
-                self.__setattr__(f, ds[v])
-            elif v is not None and not isinstance(v, str):
+            if isinstance(v, str):
+                v = ds[v] if v in ds.keys() else None
+            if v is not None:
                 self.__setattr__(f, v)
 
         field_names = {
@@ -1836,11 +1836,15 @@ class SpatioTemporalProblem(object):
             "measurements": "measurements",
         }
         field_names.update(kwargs)
+        # These are checked against the domain and the size of the data
+        late = {f: field_names.pop(f) for f in ("lam_ref", "true_vals", "measurements")}
         for f, v in field_names.items():
             get_set_val(f, v)
 
         get_set_val("lam", lam)
         get_set_val("data", data)
+        for f, v in late.items():
+            get_set_val(f, v)
 
         return ds
 
-- 
2.43.0


From f2877fd12c93b6378daa0f942f47e41209082c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 27/42] fix: select sensors of any coordinate dimension

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 3836fb0..6c43212 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1892,7 +1892,9 @@ class SpatioTemporalProblem(object):
             if sub_meas is not None:
                 sub_meas = sub_meas[:, times_mask]
         if sensors_mask is not None:
-            sub_sensors = np.reshape(self.sensors[sensors_mask], (-1, 2))
+            sub_sensors = np.reshape(
+                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
+            )
             sub_data = sub_data[:, sensors_mask, :]
             if sub_meas is not None:
                 sub_meas = sub_meas[sensors_mask, :]
-- 
2.43.0


From b2f01ce971862d7a00c0d8ac9cde9475f9720713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 28/42] fix: data_prob's default sample distribution is a
 recognised one

---
 src/mud/funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index e3877b9..5557ec2 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -217,7 +217,7 @@ def data_prob(
     qoi_true=None,
     measurements=None,
     std_dev=None,
-    sample_dist="uniform",
+    sample_dist="u",
     domain=None,
     lam_ref=None,
     times=None,
-- 
2.43.0


From 1bd2a9905f766f4dad16a3189696027f4d592351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 29/42] fix: plot_sol leaves its option dictionaries alone

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6c43212..7e31aeb 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1274,7 +1274,7 @@ class LinearGaussianProblem(object):
 
         # Get solution point or initial poitn to plot.
         pt = self.mean_i if point == "initial" else self.solve(method=point)
-        pt_opts["label"] = point
+        pt_opts = {**pt_opts, "label": point}
 
         # Plot point
         ax.scatter(pt[0], pt[1], **pt_opts)
-- 
2.43.0


From 5dafb548ffcd0b2f97c6cad6d7998ce347578426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 30/42] fix: draw on the axes passed in, not on the current
 ones

---
 src/mud/base.py | 13 +++++--------
 src/mud/plot.py |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7e31aeb..f45c683 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -711,8 +711,7 @@ class DensityProblem(object):
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-            fig = plt.gcf()
-            fig.colorbar(sp)
+            ax.figure.colorbar(sp)
 
         ax.set_xlabel(rf"$\lambda_{x_1+1}$")
         ax.set_ylabel(rf"$\lambda_{x_2+1}$")
@@ -1924,8 +1923,7 @@ class SpatioTemporalProblem(object):
             tc = ax.tricontour(sensors[:, 0], sensors[:, 1], contours, **kwargs)
 
         if colorbar:
-            fig = plt.gcf()
-            fig.colorbar(tc)
+            ax.figure.colorbar(tc)
 
         return ax
 
@@ -1939,11 +1937,10 @@ class SpatioTemporalProblem(object):
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
 
-        sp = plt.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
+        sp = ax.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
 
         if colorbar and "c" in kwargs.keys():
-            fig = plt.gcf()
-            fig.colorbar(sp)
+            ax.figure.colorbar(sp)
 
         return ax
 
@@ -1980,7 +1977,7 @@ class SpatioTemporalProblem(object):
             "s": 2,
         }
         def_kwargs.update(meas_kwargs)
-        _ = plt.scatter(times, sub_meas, **def_kwargs)
+        _ = ax.scatter(times, sub_meas, **def_kwargs)
 
         # Plot simulated data time series
         def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
diff --git a/src/mud/plot.py b/src/mud/plot.py
index e3cac88..721d158 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -154,7 +154,7 @@ def plot_1D_vecs(vecs, markers=None, ax=None, label=True, **kwargs):
     for i, v in enumerate(vecs):
         if markers is not None:
             kwargs["marker"] = markers[i]
-        plt.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
+        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
 
     if label:
         ax.set_xlabel("i")
-- 
2.43.0


From dee26b92db1cd40c876a1d7321579d494c75258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 31/42] fix: plot_params_2d passes its scatter options on

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f45c683..81c5211 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -704,7 +704,7 @@ class DensityProblem(object):
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], **{"c": c, **kwargs})
 
         if contours:
             ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
-- 
2.43.0


From 00b1f718e43b54b77c2bf34d4a1f97562c803d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 32/42] fix: add_noise keeps the shape of the signal

---
 src/mud/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 6bef470..d50041d 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -221,7 +221,7 @@ def add_noise(signal: ArrayLike, sd: float = 0.05, seed: Optional[int] = None):
         np.random.seed(seed)
 
     # Populate qoi_true with noise
-    noise = np.random.randn(signal.size) * sd
+    noise = np.random.randn(signal.size).reshape(signal.shape) * sd
 
     return signal + noise
 
-- 
2.43.0


From 31f47275916c1bc753424a4316e986d52f2f75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 33/42] fix: ratio overflow at samples of zero weight

---
 src/mud/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 81c5211..164f18a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -350,7 +350,8 @@ class DensityProblem(object):
         # e.g. to comptue E(r) and to pass on to future iterations
         self._r = np.divide(self._ob, self._pr)
         # No observed density or no weight: no contribution, even where pr is 0
-        self._r[(self._pr == 0) & ((self._ob == 0) | (self._weights == 0))] = 0.0
+        self._r[(self._pr == 0) & (self._ob == 0)] = 0.0
+        self._r[(self._weights == 0) & ~np.isfinite(self._r)] = 0.0
 
         # Multiply by initial to get updated pdf
         up_pdf = np.multiply(self._in * self._weights, self._r)
-- 
2.43.0


From 155b73a36d9719c22057d2419ddabe287b31e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 34/42] fix: scalar covariances take the dimension of inputs
 and outputs

---
 src/mud/norm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index f264efc..9fafbd9 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -38,23 +38,23 @@ def full_functional(
 
 
 def norm_input(inputs, initial_mean, initial_cov):
-    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
-        initial_cov = initial_cov * np.eye(np.size(initial_mean))
+    if np.ndim(initial_cov) == 0:
+        initial_cov = initial_cov * np.eye(inputs.shape[1])
     X = (inputs - np.reshape(initial_mean, (1, -1))).T
     return inner_product(X, initial_cov)
 
 
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
-    if isinstance(observed_cov, int) or isinstance(observed_cov, float):
-        observed_cov = observed_cov * np.eye(np.size(data))
+    if np.ndim(observed_cov) == 0:
+        observed_cov = observed_cov * np.eye(operator.shape[0])
     data = np.reshape(data, (-1, 1))
     X = (operator @ inputs.T + data) - np.reshape(observed_mean, (-1, 1))
     return inner_product(X, observed_cov)
 
 
 def norm_predicted(operator, inputs, initial_mean, initial_cov):
-    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
-        initial_cov = initial_cov * np.eye(np.size(initial_mean))
+    if np.ndim(initial_cov) == 0:
+        initial_cov = initial_cov * np.eye(inputs.shape[1])
     predicted_cov = operator @ initial_cov @ operator.T
     # if operator is affine, we can factor it (for efficiency) to be same as linear
     X = operator @ (inputs - np.reshape(initial_mean, (1, -1))).T
-- 
2.43.0


From 4cc8b39a95af43d175c01f7e69fb54cbc1a1ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 35/42] fix: PCA of larger data is exact and deterministic

---
 src/mud/preprocessing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/preprocessing.py b/src/mud/preprocessing.py
index 64efd10..f4efc3a 100644
--- a/src/mud/preprocessing.py
+++ b/src/mud/preprocessing.py
@@ -96,7 +96,9 @@ def pca(data: ArrayLike, n_components: int = 2, **kwargs) -> Tuple[PCA, np.ndarr
     if ndim != 2:
         raise ValueError(f"Data is {ndim} dimensional. Must be 2D")
 
-    # Standarize and perform linear PCA
+    # Standarize and perform linear PCA. By default always the exact, deterministic
+    # decomposition: for larger data sklearn would choose a randomized approximation.
+    kwargs.setdefault("svd_solver", "full")
     sc = StandardScaler()
     pca = PCA(n_components=n_components, **kwargs)
     X_train = pca.fit_transform(sc.fit_transform(data))
-- 
2.43.0


From 1b6fd662f1259dcdbba0a45638dc283d4a20b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:23 +0000
Subject: [PATCH 36/42] fix: a reference parameter must be a point of the
 domain

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 164f18a..053e6a4 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1637,8 +1637,10 @@ class SpatioTemporalProblem(object):
         if self.domain is None:
             raise AttributeError("domain not yet set.")
         lam_ref = np.reshape(lam_ref, (-1))
+        if len(lam_ref) != self.n_params:
+            raise ValueError("Parameter dimensions do not match domain specified.")
         for idx, lam in enumerate(lam_ref):
-            if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
+            if not self.domain[idx][0] <= lam <= self.domain[idx][1]:
                 raise ValueError(
                     f"lam_ref at idx {idx} must be inside {self.domain[idx]}."
                 )
-- 
2.43.0


From 21fbf703032ce1af4578e8c0f2384e1a4007036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:20 +0000
Subject: [PATCH 37/42] fix: numpy scalars are accepted as noise levels

---
 src/mud/base.py | 4 ++--
 src/mud/util.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 053e6a4..2f59587 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1371,7 +1371,7 @@ class LinearWMEProblem(LinearGaussianProblem):
         cov_o=None,
         alpha=1.0,
     ):
-        if isinstance(sigma, (float, int)):
+        if np.isscalar(sigma):
             sigma = [sigma] * len(data)
 
         results = [
@@ -1422,7 +1422,7 @@ class LinearWMEProblem(LinearGaussianProblem):
             assert (
                 operator.shape[0] == num_observations
             ), f"Operator shape mismatch, op={operator.shape}, obs={num_observations}"
-            if isinstance(std, (float, int)):
+            if np.isscalar(std):
                 std = np.array([std] * num_observations)
             if isinstance(std, (list, tuple)):
                 std = np.array(std)
diff --git a/src/mud/util.py b/src/mud/util.py
index d50041d..7ba71b7 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -54,7 +54,7 @@ def transform_linear_map(operator, data, std):
         assert (
             operator.shape[0] == num_observations
         ), f"Operator shape mismatch, op={operator.shape}, obs={num_observations}"
-        if isinstance(std, (float, int)):
+        if np.isscalar(std):
             std = np.array([std] * num_observations)
         if isinstance(std, (list, tuple)):
             std = np.array(std)
@@ -73,7 +73,7 @@ def transform_linear_map(operator, data, std):
 
 
 def transform_linear_setup(operator_list, data_list, std_list):
-    if isinstance(std_list, (float, int)):
+    if np.isscalar(std_list):
         std_list = [std_list] * len(data_list)
     # repeat process for multiple quantities of interest
     results = [
-- 
2.43.0


From 771cbb174a7060f8a7e94ca49e73a24b3b9537e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:03 +0000
Subject: [PATCH 38/42] fix: stacked integer weights overflowed when multiplied

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 2f59587..206fbcc 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -184,7 +184,7 @@ class DensityProblem(object):
             assert self.n_samples == w.shape[1], f"`weights` must size {self.n_samples}"
 
             # Multiply weights column wise for stacked weights
-            w = np.prod(w, axis=0)
+            w = np.prod(w, axis=0, dtype=float)
 
             if normalize:
                 w = np.divide(w, np.linalg.norm(w))
-- 
2.43.0


From ef6865834a018d65292a92ae0d7cdd116253de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:44 +0000
Subject: [PATCH 39/42] fix: a Bayes sample of undefined posterior is never the
 MAP point

---
 src/mud/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 206fbcc..142fce1 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -834,6 +834,11 @@ class BayesProblem(object):
         else:
             ps_pdf = np.multiply(self._pr, self._ll)
 
+        # Undefined (e.g. infinite prior where the likelihood is 0): not a candidate
+        undefined = np.isnan(ps_pdf)
+        if not np.all(undefined):
+            ps_pdf[undefined] = -np.inf if self._log else 0.0
+
         assert ps_pdf.shape[0] == self.X.shape[0]
         if np.all(np.isneginf(ps_pdf)) if self._log else np.sum(ps_pdf) == 0:
             raise ValueError("Posterior numerically unstable.")
-- 
2.43.0


From b52883fceae28bc6a7fe54b728de8f28087c9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:00 +0000
Subject: [PATCH 40/42] fix: svd passes its options on to numpy as documented

---
 src/mud/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/preprocessing.py b/src/mud/preprocessing.py
index f4efc3a..2b83910 100644
--- a/src/mud/preprocessing.py
+++ b/src/mud/preprocessing.py
@@ -169,6 +169,6 @@ def svd(data: ArrayLike, **kwargs) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
     # Standarize and perform SVD
     sc = StandardScaler()
     X = sc.fit_transform(data)
-    U, S, V = np.linalg.svd(X)
+    U, S, V = np.linalg.svd(X, **kwargs)
 
     return (U, S, V)
-- 
2.43.0


From 12efcb3043144cd2f9e6ca17c5eaeabe69ae7a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:00 +0000
Subject: [PATCH 41/42] fix: plotting a time series no longer consumes global
 random numbers

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 142fce1..abd87b8 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1990,7 +1990,7 @@ class SpatioTemporalProblem(object):
         # Plot simulated data time series
         def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
         def_sample_kwargs.update(samples_kwargs)
-        for i, idx in enumerate(np.random.choice(num_samples, max_plot)):
+        for i in range(max_plot):
             if i != (max_plot - 1):
                 _ = ax.plot(times, sub_data[i, :], **def_sample_kwargs)
             else:
-- 
2.43.0


From 07024027deba2b64d5abe980b43ae139265b68f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:15 +0000
Subject: [PATCH 42/42] fix: a failed simulation is never the closest sample

---
 src/mud/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index abd87b8..a968ee9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1754,6 +1754,8 @@ class SpatioTemporalProblem(object):
             times_mask=times_mask,
             sensors_mask=sensors_mask,
         )
+        # A failed simulation (nan) is not a candidate
+        sub_data = np.where(np.isnan(sub_data), np.inf, sub_data)
         closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))
         closest_lam = lam[closest_idx, :].ravel()
 
@@ -1769,7 +1771,8 @@ class SpatioTemporalProblem(object):
         """
         if self.true_vals is None:
             raise AttributeError("True values is not set")
-        closest_idx = np.argmin(np.linalg.norm(self.data - self.true_vals.T, axis=1))
+        data = np.where(np.isnan(self.data), np.inf, self.data)
+        closest_idx = np.argmin(np.linalg.norm(data - self.true_vals.T, axis=1))
         closest_lam = self.lam[closest_idx, :].ravel()
 
         return closest_lam
-- 
2.43.0

