From e5552953790728a360c75de591859d2c2686a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 01/79] fix: size the exact allocator's lot bounds by gross
 exposure so leveraged long/short targets are reachable

---
 pyvallocation/discrete_allocation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 847eb63..affcd78 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -372,7 +372,10 @@ def allocate_mip(
         [cash_penalty],
     ])
 
-    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(inputs.total_value / price_per_lot).astype(int), 0)
+    # Leveraged targets (e.g. 130/30) are larger than the portfolio value, so the
+    # lot bounds have to cover the gross exposure rather than the net value.
+    gross_value = max(float(np.abs(target_values).sum()), float(inputs.total_value))
+    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(gross_value / price_per_lot).astype(int), 0)
     max_shares_per_lot = np.clip(max_shares_per_lot + 1, 0, None)
 
     # With short positions, short-sale proceeds can push leftover cash
@@ -391,7 +394,7 @@ def allocate_mip(
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
         max_shares_per_lot.astype(float),
-        np.full(n, inputs.total_value, dtype=float),
+        np.full(n, np.inf),
         [upper_cash],
     ])
     bounds = optimize.Bounds(lb, ub)
-- 
2.43.0


From bacb7311a573578aba3c0c01684fab13228cb8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 02/79] fix: reject non-finite coefficients in additional
 constraint rows

---
 pyvallocation/utils/constraints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/utils/constraints.py b/pyvallocation/utils/constraints.py
index c5bc199..54463c1 100644
--- a/pyvallocation/utils/constraints.py
+++ b/pyvallocation/utils/constraints.py
@@ -303,6 +303,8 @@ def build_G_h_A_b(
             if row_arr.size != n_assets:
                 logger.error("additional_G_h row length %d mismatch", row_arr.size)
                 raise ValueError("additional_G_h row length mismatch")
+            if not np.all(np.isfinite(row_arr)):
+                raise ValueError("additional_G_h row coefficients must be finite")
             _check_number(rhs, "rhs in additional_G_h")
             G_rows.append(row_arr)
             h_vals.append(rhs)
@@ -317,6 +319,8 @@ def build_G_h_A_b(
             if row_arr.size != n_assets:
                 logger.error("additional_A_b row length %d mismatch", row_arr.size)
                 raise ValueError("additional_A_b row length mismatch")
+            if not np.all(np.isfinite(row_arr)):
+                raise ValueError("additional_A_b row coefficients must be finite")
             _check_number(rhs, "rhs in additional_A_b")
             A_rows.append(row_arr)
             b_vals.append(rhs)
-- 
2.43.0


From 22d17f1bdc5861e68fd5a447fd5f4776ff14a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 03/79] fix: validate scenario probabilities in portfolio VaR
 and CVaR

---
 pyvallocation/utils/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 3a49518..76bc712 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -4,6 +4,8 @@ from __future__ import annotations
 import numpy as np
 import pandas as pd
 
+from ..probabilities import resolve_probabilities
+
 def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarray:
     """Accept vector or matrix weights and return an ``(N, M)`` ndarray.
 
@@ -79,7 +81,7 @@ def portfolio_cvar(
         raise ValueError("demean must be either True or False.")
 
     R_arr = np.asarray(R, dtype=float)
-    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
+    p = resolve_probabilities(p, R_arr.shape[0], name="p").reshape(-1, 1)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
@@ -140,7 +142,7 @@ def portfolio_var(
         raise ValueError("demean must be either True or False.")
 
     R_arr = np.asarray(R, dtype=float)
-    p = np.full((R_arr.shape[0], 1), 1.0 / R_arr.shape[0]) if p is None else np.asarray(p, dtype=float).reshape(-1, 1)
+    p = resolve_probabilities(p, R_arr.shape[0], name="p").reshape(-1, 1)
 
     if demean:
         R_arr = R_arr - p.T @ R_arr
-- 
2.43.0


From 5e517260b289890846f5a54ca15e2d3592fa55de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 04/79] fix: simulate_paths accepted negative scenario
 probabilities

Dividing by a negative total turned an all-non-positive vector into a
distribution. Validate through resolve_probabilities like the other
consumers.
---
 pyvallocation/utils/projection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 41ed005..5e7c594 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -4,6 +4,8 @@ from typing import Union
 import numpy as np
 import pandas as pd
 
+from ..probabilities import resolve_probabilities
+
 logger = logging.getLogger(__name__)
 
 
@@ -292,7 +294,7 @@ def simulate_paths(
         raise ValueError("`R` must be 1D or 2D.")
 
     T, N = R_np.shape
-    weights = np.asarray(p, dtype=float).ravel() if p is not None else np.full(T, 1.0 / T)
+    weights = resolve_probabilities(p, T, name="p")
     weights = weights / weights.sum()
 
     rng = np.random.default_rng(seed)
-- 
2.43.0


From f17a15d063949df707a39f49fecaac4d7b92bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 05/79] fix: entropy_pooling broadcast a prior of the wrong
 length

---
 pyvallocation/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 549c53f..2b9beac 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -237,6 +237,8 @@ def entropy_pooling(
         name="prior probabilities",
         strictly_positive=True,
     )
+    if np.asarray(A).shape[-1] != normalised_prior.size:
+        raise ValueError("`p` must have one entry per column of `A`.")
     p_col = normalised_prior.reshape(-1, 1)
     b_col = np.asarray(b, dtype=float).reshape(-1, 1)
 
-- 
2.43.0


From 69b7b22b9d2337089a944707676eb79b4e874bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 06/79] fix: exponential decay probabilities for no
 observations or a NaN half-life

---
 pyvallocation/probabilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 73b2bfd..b126921 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -106,7 +106,9 @@ def generate_exp_decay_probabilities(
         np.ndarray: Exponentially decaying probabilities summing to one.
     """
 
-    if half_life <= 0:
+    if num_observations <= 0:
+        raise ValueError("num_observations must be greater than 0.")
+    if not half_life > 0:
         raise ValueError("half_life must be greater than 0.")
     p = np.exp(
         -np.log(2) / half_life * (num_observations - np.arange(1, num_observations + 1))
-- 
2.43.0


From 874bbe929a44eb51e655065e85c4258e789080d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 07/79] fix: NIWPosterior shared memory with caller arrays

Changing the prior arrays after construction, or the array returned by
get_mu_ce, silently changed the posterior.
---
 pyvallocation/bayesian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 392d28e..b08beab 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -254,7 +254,7 @@ class NIWPosterior:
             self._asset_index = prior_mu.index.copy()
             self.prior_mu: npt.NDArray[np.floating] = prior_mu.values.astype(float)
         else:
-            self.prior_mu = np.asarray(prior_mu, dtype=float)
+            self.prior_mu = np.array(prior_mu, dtype=float)
 
         if self.prior_mu.ndim != 1:
             raise ValueError("`prior_mu` must be a 1D array or pandas.Series.")
@@ -273,7 +273,7 @@ class NIWPosterior:
                     raise ValueError("Index/columns of prior_sigma must match index of prior_mu.")
             self.prior_sigma: npt.NDArray[np.floating] = prior_sigma.values.astype(float)
         else:
-            self.prior_sigma = np.asarray(prior_sigma, dtype=float)
+            self.prior_sigma = np.array(prior_sigma, dtype=float)
 
         if self.prior_sigma.ndim != 2 or self.prior_sigma.shape != (self.N, self.N):
             raise ValueError(f"`prior_sigma` must be a square matrix of shape ({self.N}, {self.N}), or a pandas.DataFrame with matching index/columns.")
@@ -417,7 +417,7 @@ class NIWPosterior:
         """
         if self._posterior is None:
             raise RuntimeError("Posterior parameters not computed. Call `update()` first.")
-        return self._wrap_vector(np.asarray(self._posterior.mu1, dtype=float).ravel())
+        return self._wrap_vector(np.array(self._posterior.mu1, dtype=float).ravel())
 
     def get_S_mu(self) -> Union[npt.NDArray[np.floating], "pd.DataFrame[np.floating]"]:
         r"""Computes the scatter matrix :math:`S_{\mu}` for the posterior of :math:`\mu`.
-- 
2.43.0


From fd9078b0e33da6524938432726011518b78fea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 08/79] fix: NIWPosterior.update matched labelled sample
 statistics by position

---
 pyvallocation/bayesian.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index b08beab..d4a2810 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -350,6 +350,14 @@ class NIWPosterior:
                 "Posterior already computed. Create a new NIWPosterior for a fresh update."
             )
 
+        # Labelled statistics must refer to the assets of the prior, in order
+        if self._asset_index is not None:
+            for name, stat in (("sample_mu", sample_mu), ("sample_sigma", sample_sigma)):
+                if isinstance(stat, (pd.Series, pd.DataFrame)) and not all(
+                    axis.equals(self._asset_index) for axis in stat.axes
+                ):
+                    raise ValueError(f"Index/columns of {name} must match index of the prior.")
+
         # Convert pandas inputs if present
         if isinstance(sample_mu, pd.Series):
             smu = sample_mu.values.astype(float)
-- 
2.43.0


From 6aa257a1120ed7857fc3fe302a87e233a2e4b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 09/79] fix: exact mean-uncertainty Jacobian scaled the return
 covariance with the squared horizon

---
 pyvallocation/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index d4a2810..04c441e 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -766,7 +766,7 @@ class RobustBayesPosterior:
         mu_log = mu_np * annualization_factor
         s_mu_log = s_mu_np * (annualization_factor ** 2)
         if exact:
-            sigma_log = sigma_np * (annualization_factor ** 2)
+            sigma_log = sigma_np * annualization_factor  # return covariance is linear in the horizon
             scale = np.exp(mu_log + 0.5 * np.diag(sigma_log))
         else:
             scale = np.exp(mu_log)
-- 
2.43.0


From 156da7ca0a1eebf2af60a19e646313a403e475ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 10/79] fix: BlackLittermanProcessor normalised the caller's
 market weights in place and returned its prior covariance

---
 pyvallocation/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 2b9beac..ee97d72 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1348,7 +1348,7 @@ class BlackLittermanProcessor:
             weights = np.asarray(market_weights, dtype=float).ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
@@ -1577,7 +1577,7 @@ class BlackLittermanProcessor:
         if self._k == 0:  # no views: posterior = prior
             if verbose:
                 print("[BL] No views -> posterior = prior.")
-            return self._pi.flatten(), self._sigma
+            return self._pi.flatten(), self._sigma.copy()
 
         # P tau Sigma P^T + Omega
         mat_a = self._p @ tau_sigma @ self._p.T + self._omega  # (K, K)
-- 
2.43.0


From 0af571473429e5d3f5addccc0a20c8bf795f7078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 11/79] fix: BlackLittermanProcessor matched labelled priors,
 market weights and views by position

---
 pyvallocation/views.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index ee97d72..a52d4aa 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1333,6 +1333,8 @@ class BlackLittermanProcessor:
 
         if self._sigma.shape != (n_assets, n_assets):
             raise ValueError("prior_cov must be square (N, N).")
+        if self._is_pandas and list(prior_cov.columns) != self._assets:
+            raise ValueError("prior_cov must have the same labels on both axes.")
         if not np.allclose(self._sigma, self._sigma.T, atol=1e-8):
             warnings.warn("prior_cov not symmetric; symmetrising.")
             self._sigma = 0.5 * (self._sigma + self._sigma.T)
@@ -1342,17 +1344,15 @@ class BlackLittermanProcessor:
         self._tau: float = float(tau)
 
         if pi is not None:
-            self._pi = np.asarray(pi, dtype=float).reshape(-1, 1)
+            self._pi = self._asset_vector(pi, "pi").reshape(-1, 1)
             src = "user \\pi"
         elif market_weights is not None:
-            weights = np.asarray(market_weights, dtype=float).ravel()
-            if weights.size != n_assets:
-                raise ValueError("market_weights length mismatch.")
+            weights = self._asset_vector(market_weights, "market_weights")
             weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-            self._pi = np.asarray(prior_mean, dtype=float).reshape(-1, 1)
+            self._pi = self._asset_vector(prior_mean, "prior_mean").reshape(-1, 1)
             src = "prior_mean"
         else:
             raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
@@ -1372,9 +1372,7 @@ class BlackLittermanProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return vec_like
-            vec = np.asarray(vec_like, float).ravel()
-            if vec.size != n_assets:
-                raise ValueError(f"`mean_views` must have length {n_assets}.")
+            vec = self._asset_vector(vec_like, "mean_views")
             return {self._assets[i]: vec[i] for i in range(n_assets)}
 
         mv_dict = _vec_to_dict(mean_views)
@@ -1399,6 +1397,28 @@ class BlackLittermanProcessor:
     # ------------------------------------------------------------------ #
     # internal utilities
     # ------------------------------------------------------------------ #
+    # per-asset vectors
+    def _asset_vector(self, vec_like: Any, name: str) -> np.ndarray:
+        """Return ``vec_like`` as a vector in the order of the prior covariance.
+
+        Labelled vectors are matched by label when the prior covariance is labelled.
+
+        Args:
+            vec_like: Per-asset values.
+            name: Parameter name for error messages.
+
+        Returns:
+            np.ndarray: One value per asset.
+        """
+        if self._is_pandas and isinstance(vec_like, pd.Series):
+            if set(vec_like.index) != set(self._assets):
+                raise ValueError(f"`{name}` labels must match the assets of prior_cov.")
+            vec_like = vec_like.reindex(self._assets)
+        vec = np.asarray(vec_like, dtype=float).ravel()
+        if vec.size != len(self._assets):
+            raise ValueError(f"`{name}` must have length {len(self._assets)}.")
+        return vec
+
     # asset index lookup
     def _asset_index(self, label: Union[str, int]) -> int:
         """Resolve an asset label or numeric index to a position.
-- 
2.43.0


From 76293e1379fec608d32bd3bdec7271602d1a5916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 12/79] fix: BlackLittermanProcessor silently ignored all but
 one of several priors

---
 pyvallocation/views.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index a52d4aa..951990a 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1343,6 +1343,8 @@ class BlackLittermanProcessor:
             raise ValueError("risk_aversion must be positive.")
         self._tau: float = float(tau)
 
+        if sum(x is not None for x in (pi, market_weights, prior_mean)) != 1:
+            raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
         if pi is not None:
             self._pi = self._asset_vector(pi, "pi").reshape(-1, 1)
             src = "user \\pi"
@@ -1351,11 +1353,9 @@ class BlackLittermanProcessor:
             weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
-        elif prior_mean is not None:
+        else:
             self._pi = self._asset_vector(prior_mean, "prior_mean").reshape(-1, 1)
             src = "prior_mean"
-        else:
-            raise ValueError("Provide exactly one of pi, market_weights or prior_mean.")
         if verbose:
             print(f"[BL] \\pi source: {src}.")
 
-- 
2.43.0


From 221deb9457bc0fc8304e3b656390cbf062fff97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 13/79] fix: FlexibleViewsProcessor failed on single-asset
 scenarios

---
 pyvallocation/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 951990a..8d7e91d 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -571,7 +571,7 @@ class FlexibleViewsProcessor:
             self.p0 = np.full((S, 1), 1.0 / S)
 
         self.mu0 = (self.R.T @ self.p0).flatten()
-        self.cov0 = np.cov(self.R.T, aweights=self.p0.flatten(), bias=True)
+        self.cov0 = np.atleast_2d(np.cov(self.R.T, aweights=self.p0.flatten(), bias=True))
         self.var0 = np.diag(self.cov0)
 
         def _vec_to_dict(vec_like, name):
@@ -619,7 +619,7 @@ class FlexibleViewsProcessor:
 
         q = self.posterior_probabilities
         mu_post = (self.R.T @ q).flatten()
-        cov_post = np.cov(self.R.T, aweights=q.flatten(), bias=True)
+        cov_post = np.atleast_2d(np.cov(self.R.T, aweights=q.flatten(), bias=True))
 
         if self._use_pandas:
             self.posterior_returns = pd.Series(mu_post, index=self.assets)
-- 
2.43.0


From 0f66fb983f6bfa5da632e07526458d152029cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 14/79] fix: entropy_pooling rejected optimal solutions when
 the line search stopped at working precision

---
 pyvallocation/views.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 8d7e91d..be5b403 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -276,7 +276,15 @@ def entropy_pooling(
         options=solver_options,
     )
 
-    if not solution.success:
+    # A line search may give up at the optimum to working precision: what counts is
+    # whether the optimality conditions of the dual hold there.
+    gradient = np.asarray(solution.jac, dtype=float).ravel() / 1000.0
+    kkt_error = np.abs(gradient)
+    kkt_error[num_equalities:] = np.maximum(
+        -gradient[num_equalities:],
+        np.abs(gradient[num_equalities:] * solution.x[num_equalities:]),
+    )
+    if not solution.success and not np.max(kkt_error, initial=0.0) <= 1e-6:
         status = getattr(solution, "status", None)
         message = getattr(solution, "message", "")
         raise RuntimeError(
-- 
2.43.0


From c628d1f0de83ed9407281eb14139b551e29d5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 15/79] fix: entropy_pooling missed views whose rows are small
 next to the optimiser tolerance

---
 pyvallocation/views.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index be5b403..1d0c016 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -257,6 +257,13 @@ def entropy_pooling(
         bounds_lower = [-np.inf] * num_equalities + [0.0] * num_inequalities
         bounds_upper = [np.inf] * (num_equalities + num_inequalities)
 
+    # Rows of very different magnitude (e.g. squared or cubed daily returns) would
+    # fall below the optimiser's gradient tolerance: solve with rows of unit size.
+    row_scale = np.max(np.abs(current_lhs), axis=1, keepdims=True)
+    row_scale[row_scale == 0.0] = 1.0
+    current_lhs = current_lhs / row_scale
+    current_rhs_stacked = current_rhs_stacked / row_scale
+
     log_p_col = np.log(p_col)
 
     initial_lagrange_multipliers = np.zeros(current_lhs.shape[0])
-- 
2.43.0


From f1ca9fa78c380d5596d593479d211f65fa9779e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 16/79] fix: entropy_pooling returned a posterior for views
 that cannot be met

---
 pyvallocation/views.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 1d0c016..e091159 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -315,6 +315,12 @@ def entropy_pooling(
         raise RuntimeError("Entropy pooling posterior probabilities could not be normalised.")
     q_posterior /= total_prob
 
+    # The dual of an unattainable view is unbounded and the optimiser may stop anywhere.
+    residual = current_lhs @ q_posterior - current_rhs_stacked
+    residual[num_equalities:] = np.maximum(residual[num_equalities:], 0.0)
+    if np.max(np.abs(residual), initial=0.0) > 1e-4:
+        raise RuntimeError("Entropy pooling could not satisfy the views; they may be infeasible.")
+
     return q_posterior
 
 class FlexibleViewsProcessor:
-- 
2.43.0


From 81126d5157ce27e0a8433953dfa195a44782a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 17/79] fix: rank_mean added its pairs to the caller's
 mean_views

---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index e091159..4b94b5a 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -608,7 +608,7 @@ class FlexibleViewsProcessor:
             if vec_like is None:
                 return {}
             if isinstance(vec_like, dict):
-                return vec_like
+                return dict(vec_like)
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
-- 
2.43.0


From a0d4a05dd927fed61b660059c5c6d23a9a8d10c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 18/79] fix: rank_mean was silently dropped for pairs that
 carry a relative mean view

---
 pyvallocation/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 4b94b5a..ffe0357 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -633,6 +633,10 @@ class FlexibleViewsProcessor:
                 pair = (rank_mean[i], rank_mean[i + 1])
                 if pair not in self.mean_views:
                     self.mean_views[pair] = (">=", 0.0)
+                elif pair[::-1] not in self.mean_views:
+                    self.mean_views[pair[::-1]] = ("<=", 0.0)
+                else:
+                    raise ValueError(f"`mean_views` already relates {pair} both ways.")
 
         self.sequential = bool(sequential)
 
-- 
2.43.0


From 22784cc911e71f221c570fc1b68e5ed73cb2983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 19/79] fix: FlexibleViewsProcessor matched a labelled prior
 covariance to the prior mean by position

---
 pyvallocation/views.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index ffe0357..b1007eb 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -551,10 +551,12 @@ class FlexibleViewsProcessor:
                 self._use_pandas = False
 
             if isinstance(prior_cov, pd.DataFrame):
-                cov = prior_cov.values.astype(float)
                 if not self._use_pandas:
                     self.assets = list(prior_cov.index)
                     self._use_pandas = True
+                if set(prior_cov.index) != set(self.assets) or set(prior_cov.columns) != set(self.assets):
+                    raise ValueError("`prior_mean` and `prior_cov` must have the same labels.")
+                cov = prior_cov.reindex(index=self.assets, columns=self.assets).values.astype(float)
             else:
                 cov = np.asarray(prior_cov, float)
 
-- 
2.43.0


From 47e36cc7fc4585ea5ec73f4e1003df28f3884d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 20/79] fix: simultaneous quantile views were solved after the
 other views and undid them

---
 pyvallocation/views.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index b1007eb..1bf5de3 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1100,14 +1100,12 @@ class FlexibleViewsProcessor:
                     G_all.extend(G)
                     h_all.extend(h)
 
-            if A_all or G_all:
-                q_result = do_ep(p0, A_all, b_all, G_all, h_all)
-            else:
-                q_result = p0
+            # Solved below, together with the quantile views.
+            q_result = p0
 
         # --- Quantile (VaR) views: P(R_i <= level) {op} probability ---
+        A_q, b_q, G_q, h_q = ([], [], [], []) if self.sequential else (A_all, b_all, G_all, h_all)
         if self.quantile_views:
-            A_q, b_q, G_q, h_q = [], [], [], []
             for asset, spec in self.quantile_views.items():
                 idx = self._asset_idx(asset)
                 if isinstance(spec, (list, tuple)) and len(spec) == 2:
@@ -1130,8 +1128,8 @@ class FlexibleViewsProcessor:
                     else:  # >= or >
                         G_q.append(-indicator)
                         h_q.append(-prob)
-            if A_q or G_q:
-                q_result = do_ep(q_result, A_q, b_q, G_q, h_q)
+        if A_q or G_q:
+            q_result = do_ep(q_result, A_q, b_q, G_q, h_q)
 
         # --- CVaR views (recursive EP, Meucci 2011 ssrn-1542083) ---
         if self.cvar_views:
-- 
2.43.0


From cfcebcd811b8e2d6e5e47b7e5de6749b16754ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 21/79] fix: CVaR views dropped the other simultaneous views

---
 pyvallocation/views.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 1bf5de3..a60b179 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -899,7 +899,8 @@ class FlexibleViewsProcessor:
             gamma: Tail probability (e.g. 0.05 for 95% CVaR).
             cvar_target: Target CVaR value (negative = loss).
             prior_probs: Current prior probability vector (S, 1).
-            other_A, other_b: Additional equality constraints.
+            other_A, other_b: Additional equality constraints; the solved view is
+                appended to them.
             other_G, other_h: Additional inequality constraints.
             max_newton_iter: Maximum Newton-Raphson iterations.
 
@@ -969,6 +970,7 @@ class FlexibleViewsProcessor:
         # Newton-Raphson search (Eqs 12-15)
         s = s_bar
         best_q, best_kl = _solve_for_s(s)
+        best_s = s
 
         for _ in range(max_newton_iter):
             # Compute D(s) = E(s+1) - E(s) and D2(s) = D(s+1) - D(s)
@@ -998,11 +1000,16 @@ class FlexibleViewsProcessor:
             s = s_new
             q_new, kl_new = _solve_for_s(s)
             if q_new is not None and kl_new < best_kl:
-                best_q, best_kl = q_new, kl_new
+                best_q, best_kl, best_s = q_new, kl_new, s
 
         if best_q is None:
             raise RuntimeError(f"CVaR view solve failed for asset {asset_idx}.")
 
+        if other_A is not None and other_b is not None:
+            in_tail = np.isin(np.arange(S), order[: best_s + 1])
+            other_A.extend([in_tail.astype(float), np.where(in_tail, x, 0.0)])
+            other_b.extend([gamma, gamma * cvar_target])
+
         return best_q.reshape(-1, 1)
 
     def _compute_posterior_probabilities(self) -> np.ndarray:
@@ -1038,8 +1045,8 @@ class FlexibleViewsProcessor:
                 np.ndarray: Posterior probability vector.
             """
             S = R.shape[0]
-            A_eq_list.append(np.ones(S))
-            b_eq_list.append(1.0)
+            A_eq_list = A_eq_list + [np.ones(S)]
+            b_eq_list = b_eq_list + [1.0]
 
             A = np.vstack(A_eq_list) if A_eq_list else np.zeros((0, S))
             b = np.array(b_eq_list, float).reshape(-1, 1) if b_eq_list else np.zeros((0, 1))
@@ -1133,6 +1140,7 @@ class FlexibleViewsProcessor:
 
         # --- CVaR views (recursive EP, Meucci 2011 ssrn-1542083) ---
         if self.cvar_views:
+            held = {} if self.sequential else {"other_A": A_q, "other_b": b_q, "other_G": G_q, "other_h": h_q}
             for asset_key, vw in self.cvar_views.items():
                 idx = self._asset_idx(asset_key)
                 if isinstance(vw, (list, tuple)) and len(vw) >= 2:
@@ -1144,6 +1152,7 @@ class FlexibleViewsProcessor:
                 q_result = self._solve_cvar_view(
                     asset_idx=idx, gamma=gamma, cvar_target=cvar_target,
                     prior_probs=q_result,
+                    **held,
                 )
 
         return q_result
-- 
2.43.0


From 7e538a3dd75e536f19d9ac28777b1cee8132bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 22/79] fix: RobustOptimizer penalised ||Lw|| instead of
 ||S^(1/2)w||

---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 77e65fe..21e5129 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -868,7 +868,7 @@ class RobustOptimizer(_BaseOptimization):
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt
+        G_soc[1:, :n] = -self._s_sqrt.T
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
-- 
2.43.0


From 33b840241977497d913660e11ee21864574b6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 23/79] fix: RelaxedRiskParity bounded ||Lx|| instead of the
 portfolio volatility

---
 pyvallocation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 21e5129..32b79dd 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -959,7 +959,7 @@ class RelaxedRiskParity(_BaseOptimization):
     * marginal risk consistency :math:`\\zeta = \\Sigma x`;
     * budget constraint :math:`\\mathbf{1}^{\\top}x = 1`;
     * ARC floor :math:`x_i\\zeta_i \\ge \\gamma^2` (realised via rotated second-order cones);
-    * regulated average risk :math:`\\|Lx\\|_2 \\le q`, :math:`\\|(q,\\sqrt{n}\\rho)\\|_2 \\le \\sqrt{n}\\psi`;
+    * regulated average risk :math:`\\|L^{\\top}x\\|_2 \\le q` (:math:`\\Sigma = LL^{\\top}`), :math:`\\|(q,\\sqrt{n}\\rho)\\|_2 \\le \\sqrt{n}\\psi`;
     * diagonal penalty :math:`\\sqrt{\\lambda}\\,\\|D x\\|_2 \\le \\rho` whenever :math:`\\lambda > 0`;
     * optional return target :math:`\\mu^{\\top}x \\ge R`.
 
@@ -1145,7 +1145,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol
+        G1[1:, x_slice] = -self._chol.T
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
-- 
2.43.0


From 372afe16159fa60acfa0ad5508fe5495ae1e754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 24/79] fix: RelaxedRiskParity scaled the ARC floor so that psi
 - gamma was not minimised at parity

---
 pyvallocation/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 32b79dd..7c5701a 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -987,7 +987,7 @@ class RelaxedRiskParity(_BaseOptimization):
             A, b: Equality constraints ``A w = b``.
             risk_budgets: Optional target risk budgets :math:`b_i > 0` with
                 :math:`\\sum b_i = 1`.  When provided, the ARC floor becomes
-                :math:`x_i \\zeta_i \\ge b_i \\gamma^2` (risk budgeting).
+                :math:`x_i \\zeta_i \\ge n b_i \\gamma^2` (risk budgeting).
                 When ``None`` (default), equal budgets :math:`b_i = 1/N` are
                 used, recovering the standard ERC portfolio.
         """
@@ -1168,13 +1168,13 @@ class RelaxedRiskParity(_BaseOptimization):
             h_soc_all.append(np.zeros(n + 1, dtype=float))
             soc_dims.append(n + 1)
 
-        # ARC floor: x_i * zeta_i >= b_i * gamma^2
-        # Encoded via rotated SOC: sqrt(4*b_i*gamma^2 + (x_i - zeta_i)^2) <= x_i + zeta_i
+        # ARC floor: x_i * zeta_i >= n * b_i * gamma^2 (equal budgets: gamma^2)
+        # Encoded via rotated SOC: sqrt(4*n*b_i*gamma^2 + (x_i - zeta_i)^2) <= x_i + zeta_i
         for i in range(n):
             block = np.zeros((3, n_vars), dtype=float)
             block[0, x_slice.start + i] = -1.0
             block[0, zeta_slice.start + i] = -1.0
-            block[1, gamma_idx] = -2.0 * np.sqrt(self._risk_budgets[i])
+            block[1, gamma_idx] = -2.0 * np.sqrt(n * self._risk_budgets[i])
             block[2, x_slice.start + i] = -1.0
             block[2, zeta_slice.start + i] = 1.0
             G_soc_all.append(block)
-- 
2.43.0


From d0a378674aa856e707d7e9578fc171577b929b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:14 +0000
Subject: [PATCH 25/79] fix: RobustOptimizer reported an arbitrary radius when
 the penalty was zero

---
 pyvallocation/optimization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 7c5701a..d9b5381 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -933,8 +933,11 @@ class RobustOptimizer(_BaseOptimization):
         )
         self._assert_optimal(sol, "SOCP")
         x = np.asarray(sol["x"]).ravel()
-        w, t = x[:n], x[n]
-        return OptimizationResult(w, float(self._mean @ w), float(t))
+        w = x[:n]
+        # Report the radius of the returned weights: ``t`` is only an upper bound on it
+        # when the penalty is zero.
+        radius = float(np.linalg.norm(self._s_sqrt.T @ w))
+        return OptimizationResult(w, float(self._mean @ w), radius)
 
 
 # =================================================================== #
-- 
2.43.0


From fe19615c619877c3000e6034281292b4d8372382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 26/79] fix: RelaxedRiskParity clipped return targets without
 its own budget row

---
 pyvallocation/optimization.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index d9b5381..3f38ed7 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1077,15 +1077,7 @@ class RelaxedRiskParity(_BaseOptimization):
         )
         b_rows.append(np.zeros(n, dtype=float))
 
-        add_budget_row = True
-        if A_user is not None:
-            ones = np.ones(n, dtype=float)
-            for row, rhs in zip(A_user, b_user):
-                if np.allclose(row, ones, atol=1e-8, rtol=1e-8):
-                    add_budget_row = False
-                    break
-
-        if add_budget_row:
+        if not self._has_budget_row(A_user):
             budget_row = np.zeros((1, n_vars), dtype=float)
             budget_row[0, x_slice] = 1.0
             A_rows.append(budget_row)
@@ -1263,6 +1255,13 @@ class RelaxedRiskParity(_BaseOptimization):
 
         return G_user, h_user, A_user, b_user
 
+    @staticmethod
+    def _has_budget_row(A_user: Optional[np.ndarray]) -> bool:
+        """Whether the user equalities already contain an all-ones (budget) row."""
+        return A_user is not None and any(
+            np.allclose(row, np.ones_like(row), atol=1e-8, rtol=1e-8) for row in A_user
+        )
+
     def _max_linear_return(
         self,
         G_user: Optional[np.ndarray],
@@ -1289,11 +1288,11 @@ class RelaxedRiskParity(_BaseOptimization):
         h_lp_vals.append(np.zeros(n, dtype=float))
         G_lp = np.vstack(G_lp_rows)
         h_lp = np.hstack(h_lp_vals)
-        if A_user is None:
-            A_lp = np.ones((1, n), dtype=float)
-            b_lp = np.array([1.0], dtype=float)
-        else:
-            A_lp, b_lp = A_user, b_user
+        A_lp, b_lp = A_user, b_user
+        if not self._has_budget_row(A_user):
+            budget = np.ones((1, n), dtype=float)
+            A_lp = budget if A_user is None else np.vstack([budget, A_user])
+            b_lp = np.hstack([1.0] if b_user is None else [1.0, b_user])
 
         sol_lp = solvers.lp(
             matrix(-self._mean),
-- 
2.43.0


From 48740974674f1a43406d0d94db64dd452d20dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:54 +0000
Subject: [PATCH 27/79] fix: MeanVariance.max_sharpe ignored bounds and skipped
 equality constraints

---
 pyvallocation/optimization.py | 73 ++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 3f38ed7..40fe082 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -447,11 +447,12 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
         .. math::
 
-           \min_{y}\; y^\top \Sigma\, y
+           \min_{y,\kappa}\; y^\top \Sigma\, y
            \quad\text{s.t.}\quad
-           (\mu - r_f)^\top y = 1,\; G\,y \le 0,\; A\,y = 0
+           \mu^\top y - r_f\kappa = 1,\; G\,y \le \kappa h,\; A\,y = \kappa b,\; \kappa \ge 0.
 
-        The optimal weights are ``w = y / \mathbf{1}^\top y``.
+        The optimal weights are ``w = y / kappa``.  Without a budget row in ``A`` the
+        portfolio is fully invested, ``kappa = 1'y``.
 
         Args:
             risk_free_rate: Risk-free rate for Sharpe computation.
@@ -459,55 +460,49 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         Returns:
             OptimizationResult: Optimal weights, return, and volatility.
         """
-        mu_excess = np.asarray(self._mean).ravel() - risk_free_rate
+        mu = np.asarray(self._mean, dtype=float).ravel()
         N = self._I
 
-        # Build the auxiliary problem: min y'Σy s.t. (μ-rf)'y = 1
-        P = matrix(2.0 * np.asarray(self._cov, dtype=float))
-        q = matrix(np.zeros(N))
+        # Variables (y, kappa): the affine rules G w <= h, A w = b are homogenised
+        # with w = y / kappa, so they hold exactly for the returned weights.
+        P_np = np.zeros((N + 1, N + 1))
+        P_np[:N, :N] = 2.0 * np.asarray(self._cov, dtype=float)
+        P, q = matrix(P_np), matrix(np.zeros(N + 1))
 
-        # Equality: (μ-rf)'y = 1  +  any user equalities scaled to 0
-        A_rows = [mu_excess.reshape(1, -1)]
+        A_rows = [np.append(mu, -risk_free_rate)]
         b_vals = [1.0]
+        has_budget = False
         if self._A is not None:
-            # User equalities become homogeneous: A y = 0 (since we normalize later).
-            # Non-homogeneous constraints (b != 0) cannot be enforced in this
-            # reformulation (Cornuejols-Tutuncu) and are skipped with a warning.
-            A_np = np.asarray(self._A)
-            b_np = np.asarray(self._b).ravel()
-            for row_idx in range(A_np.shape[0]):
-                if not np.isclose(b_np[row_idx], 0.0, atol=1e-12):
-                    _LOGGER.warning(
-                        "max_sharpe: equality b[%d]=%.4g is non-homogeneous; "
-                        "skipping (cannot be enforced in Cornuejols-Tutuncu "
-                        "reformulation).",
-                        row_idx, b_np[row_idx],
-                    )
-                    continue
-                A_rows.append(A_np[row_idx:row_idx+1])
+            for row, rhs in zip(np.asarray(self._A, dtype=float), np.asarray(self._b, dtype=float).ravel()):
+                has_budget |= bool(np.allclose(row, row[0]) and row[0] != 0.0)
+                A_rows.append(np.append(row, -rhs))
                 b_vals.append(0.0)
+        if not has_budget:
+            A_rows.append(np.append(np.ones(N), -1.0))
+            b_vals.append(0.0)
 
-        A_mat = matrix(np.vstack(A_rows))
-        b_vec = matrix(np.array(b_vals, dtype=float))
-
-        # Inequalities: G y <= 0 (homogeneous version of G w <= h)
+        G_rows = [np.append(np.zeros(N), -1.0)]
         if self._G is not None:
-            G_mat = matrix(np.asarray(self._G, dtype=float))
-            h_vec = matrix(np.zeros(np.asarray(self._G).shape[0]))
-        else:
-            G_mat = None
-            h_vec = None
-
-        sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
+            for row, rhs in zip(np.asarray(self._G, dtype=float), np.asarray(self._h, dtype=float).ravel()):
+                G_rows.append(np.append(row, -rhs))
+
+        sol = solvers.qp(
+            P,
+            q,
+            matrix(np.vstack(G_rows)),
+            matrix(np.zeros(len(G_rows))),
+            matrix(np.vstack(A_rows)),
+            matrix(np.array(b_vals, dtype=float)),
+        )
         if sol["status"] != "optimal":
             raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.")
 
-        y = np.asarray(sol["x"]).ravel()
-        y_sum = y.sum()
-        if abs(y_sum) < 1e-12:
+        solution = np.asarray(sol["x"]).ravel()
+        y, kappa = solution[:N], solution[N]
+        if kappa < 1e-12:
             raise InfeasibleOptimizationError("Max Sharpe portfolio has zero weight sum (degenerate).")
 
-        w = y / y_sum
+        w = y / kappa
         ret = float(np.dot(np.asarray(self._mean).ravel(), w))
         risk = float(np.sqrt(w @ np.asarray(self._cov, dtype=float) @ w))
         return OptimizationResult(weights=w, nominal_return=ret, risk=risk)
-- 
2.43.0


From 5ae9bf19e54fa98c75f034b199c1c01474071d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 28/79] fix: frontiers reported a negative CVaR as a positive
 one

---
 pyvallocation/portfolioapi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 40eb604..0c9e208 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -780,8 +780,8 @@ class PortfolioWrapper:
                     if self.dist.probabilities is not None
                     else generate_uniform_probabilities(scen.shape[0])
                 )
-                alt[f"CVaR ({int(confidence*100)}%)"] = np.abs(
-                    np.asarray(portfolio_cvar(weights, scen, probs, confidence=confidence))
+                alt[f"CVaR ({int(confidence*100)}%)"] = np.asarray(
+                    portfolio_cvar(weights, scen, probs, confidence=confidence)
                 ).reshape(-1)
             except Exception as exc:  # pragma: no cover
                 logger.debug("CVaR overlay skipped: %s", exc)
@@ -1371,7 +1371,7 @@ class PortfolioWrapper:
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
-        risks = np.abs(np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))).reshape(-1)
+        risks = np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)).reshape(-1)
         raw_risks = risks.copy()
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
@@ -1538,7 +1538,7 @@ class PortfolioWrapper:
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
             try:
-                alt_cvar = np.abs(np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95))).reshape(-1)
+                alt_cvar = np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95)).reshape(-1)
                 alternate_risks["CVaR (95%)"] = alt_cvar
             except Exception as exc:  # pragma: no cover
                 logger.debug("Unable to compute CVaR overlay for robust frontier: %s", exc)
@@ -1664,7 +1664,7 @@ class PortfolioWrapper:
             ) from e
 
         actual_return = mu_for_cvar @ weights
-        risk = float(np.abs(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)))
+        risk = float(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"CVaR Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From efbc6ecefa4b8b22fd175139c3746d6788162850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 29/79] fix: mean-CVaR return targets ignored the
 distribution's expected returns

---
 pyvallocation/optimization.py | 5 ++++-
 pyvallocation/portfolioapi.py | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 40fe082..c19ebdc 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -557,6 +557,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         *,
         initial_weights: Optional[npt.NDArray[np.floating]] = None,
         proportional_costs: Optional[npt.NDArray[np.floating]] = None,
+        mean: Optional[npt.ArrayLike] = None,
     ):
         """Create a mean-CVaR optimizer instance.
 
@@ -568,12 +569,14 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             A, b: Equality constraints ``A w = b``.
             initial_weights: Optional initial portfolio for proportional costs.
             proportional_costs: Optional linear cost vector (requires ``initial_weights``).
+            mean: Optional expected-return vector for return targets and frontiers.
+                Defaults to the scenario mean ``p @ R``.
         """
         R, p = np.asarray(R, float), np.asarray(p, float)
         T, N = R.shape
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
-        super()._init_constraints(p @ R, G, h, A, b)
+        super()._init_constraints(p @ R if mean is None else mean, G, h, A, b)
 
         base_len = N + 1 + T
         extra_len = 2 * N if self._has_costs else 0
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 0c9e208..4d3d59d 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1367,7 +1367,8 @@ class PortfolioWrapper:
         optimizer = MeanCVaR(
             R=scenarios, p=probs, alpha=alpha, G=G, h=h, A=A, b=b,
             initial_weights=iw,
-            proportional_costs=pc
+            proportional_costs=pc,
+            mean=mu_for_frontier,
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
@@ -1652,7 +1653,8 @@ class PortfolioWrapper:
         optimizer = MeanCVaR(
             R=scenarios, p=probs, alpha=alpha, G=G, h=h, A=A, b=b,
             initial_weights=iw,
-            proportional_costs=pc
+            proportional_costs=pc,
+            mean=mu_for_cvar,
         )
 
         try:
-- 
2.43.0


From a7d27e1bf3abdfd6508d91e3ceb9864dcae155b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 30/79] fix: RobustOptimizer could not be solved with
 proportional costs

---
 pyvallocation/optimization.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index c19ebdc..8084c79 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -859,9 +859,8 @@ class RobustOptimizer(_BaseOptimization):
         n_vars = n + 1 + extra            #  w | t | (u^+,u^-)
         penalty = kw.get("lam", kw.get("gamma_mu"))
 
-        c = np.hstack(
-            (-self._mean, penalty, (self._costs, self._costs) if self._has_costs else [])
-        )
+        turnover_cost = np.tile(self._costs, 2) if self._has_costs else []
+        c = np.hstack((-self._mean, penalty, turnover_cost))
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
-- 
2.43.0


From f8603d2cf051af9132659c55824b71a88812d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 31/79] fix: volatility of a riskless portfolio could be
 reported as NaN

---
 pyvallocation/portfolioapi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 4d3d59d..2a0db19 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1318,7 +1318,7 @@ class PortfolioWrapper:
         weights = optimizer.efficient_frontier(num_portfolios)
         mu_r, cov_r = self._report_mu_cov()
         returns = mu_r @ weights
-        risks = np.sqrt(np.sum((weights.T @ cov_r) * weights.T, axis=1))
+        risks = np.sqrt(np.maximum(np.sum((weights.T @ cov_r) * weights.T, axis=1), 0.0))
 
         alternate_risks = self._cvar_overlay(weights)
 
@@ -1377,7 +1377,7 @@ class PortfolioWrapper:
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
             cov = np.cov(scenarios.T, aweights=probs, bias=True)
-            vols = np.sqrt(np.sum((weights.T @ cov) * weights.T, axis=1))
+            vols = np.sqrt(np.maximum(np.sum((weights.T @ cov) * weights.T, axis=1), 0.0))
             alternate_risks["Volatility"] = vols
         except Exception as exc:  # pragma: no cover - defensive convenience
             logger.debug("Unable to compute volatility proxy for CVaR frontier: %s", exc)
@@ -1519,7 +1519,7 @@ class PortfolioWrapper:
                     cov_ref = np.asarray(cov_ref, dtype=float)
                 if cov_ref.shape != (weights_arr.shape[0], weights_arr.shape[0]):
                     raise ValueError("`return_cov` must be a square matrix matching asset count.")
-                vols = np.sqrt(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1))
+                vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1), 0.0))
                 alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
@@ -1534,7 +1534,7 @@ class PortfolioWrapper:
                 )
                 if "Volatility" not in alternate_risks:
                     cov = np.cov(scen.T, aweights=probs, bias=True)
-                    vols = np.sqrt(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1))
+                    vols = np.sqrt(np.maximum(np.sum((weights_arr.T @ cov) * weights_arr.T, axis=1), 0.0))
                     alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
@@ -1609,7 +1609,7 @@ class PortfolioWrapper:
 
         mu_r, cov_r = self._report_mu_cov()
         actual_return = mu_r @ weights
-        risk = np.sqrt(weights.T @ cov_r @ weights)
+        risk = np.sqrt(max(weights.T @ cov_r @ weights, 0.0))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"MV Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From a8f6cc6107eaabf6678432d77b90873152b96369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 32/79] fix: mean-variance solver could cycle and fail on
 feasible problems

---
 pyvallocation/optimization.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 8084c79..2282aac 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -282,6 +282,19 @@ class _BaseOptimization(ABC):
         if sol["status"] != "optimal":
             raise RuntimeError(f"{kind} solver failed (status='{sol['status']}').")
 
+    @staticmethod
+    def _restart_point(sol: dict, G: matrix | None) -> dict | None:
+        """Another interior starting point: interior-point iterates occasionally cycle.
+
+        Args:
+            sol: Output of a QP solve that did not terminate optimally.
+            G: Inequality matrix of that solve.
+        """
+        if G is None:
+            return None
+        interior = matrix(0.1, (G.size[0], 1))
+        return {"x": sol["x"], "y": sol["y"], "s": interior, "z": +interior}
+
     def _max_expected_return(self) -> float:
         r"""
         Solve a single auxiliary LP to *maximise* :math:`\mu^{\top}w` subject to
@@ -419,7 +432,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             ridge = max(1e-8, 1e-8 * np.trace(P_np) / max(self._I, 1))
             P_reg = matrix(P_np + np.eye(self._I) * ridge)
             _LOGGER.debug("QP retry with ridge=%.2e", ridge)
-            sol = solvers.qp(P_reg, self._q, G, h, self._A, self._b)
+            sol = solvers.qp(P_reg, self._q, G, h, self._A, self._b, initvals=self._restart_point(sol, G))
         self._assert_optimal(sol, "QP")
         return np.asarray(sol["x"]).ravel()
 
@@ -486,14 +499,11 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             for row, rhs in zip(np.asarray(self._G, dtype=float), np.asarray(self._h, dtype=float).ravel()):
                 G_rows.append(np.append(row, -rhs))
 
-        sol = solvers.qp(
-            P,
-            q,
-            matrix(np.vstack(G_rows)),
-            matrix(np.zeros(len(G_rows))),
-            matrix(np.vstack(A_rows)),
-            matrix(np.array(b_vals, dtype=float)),
-        )
+        G, h = matrix(np.vstack(G_rows)), matrix(np.zeros(len(G_rows)))
+        A, b = matrix(np.vstack(A_rows)), matrix(np.array(b_vals, dtype=float))
+        sol = solvers.qp(P, q, G, h, A, b)
+        if sol["status"] != "optimal":
+            sol = solvers.qp(P, q, G, h, A, b, initvals=self._restart_point(sol, G))
         if sol["status"] != "optimal":
             raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.")
 
-- 
2.43.0


From b3969fd00a4887aa207af7386b0586c05bf33a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 33/79] fix: mean-variance solver could still cycle after its
 restart

---
 pyvallocation/optimization.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 2282aac..7321d2a 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -283,17 +283,27 @@ class _BaseOptimization(ABC):
             raise RuntimeError(f"{kind} solver failed (status='{sol['status']}').")
 
     @staticmethod
-    def _restart_point(sol: dict, G: matrix | None) -> dict | None:
-        """Another interior starting point: interior-point iterates occasionally cycle.
+    def _resolve_qp(sol: dict, P, q, G, h, A, b) -> dict:
+        """Solve a QP again whose interior-point iterates did not settle.
+
+        Mehrotra's corrector occasionally makes the iterates cycle, so the plain
+        predictor step is used, from other interior starting points.
 
         Args:
             sol: Output of a QP solve that did not terminate optimally.
-            G: Inequality matrix of that solve.
+            P, q, G, h, A, b: The quadratic programme.
         """
-        if G is None:
-            return None
-        interior = matrix(0.1, (G.size[0], 1))
-        return {"x": sol["x"], "y": sol["y"], "s": interior, "z": +interior}
+        options = {**solvers.options, "use_correction": False}
+        start = sol
+        for level in (0.1, 10.0):
+            if G is None:
+                return solvers.qp(P, q, G, h, A, b, options=options)
+            interior = matrix(level, (G.size[0], 1))
+            initvals = {"x": start["x"], "y": start["y"], "s": interior, "z": +interior}
+            sol = solvers.qp(P, q, G, h, A, b, initvals=initvals, options=options)
+            if sol["status"] == "optimal":
+                break
+        return sol
 
     def _max_expected_return(self) -> float:
         r"""
@@ -432,7 +442,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             ridge = max(1e-8, 1e-8 * np.trace(P_np) / max(self._I, 1))
             P_reg = matrix(P_np + np.eye(self._I) * ridge)
             _LOGGER.debug("QP retry with ridge=%.2e", ridge)
-            sol = solvers.qp(P_reg, self._q, G, h, self._A, self._b, initvals=self._restart_point(sol, G))
+            sol = self._resolve_qp(sol, P_reg, self._q, G, h, self._A, self._b)
         self._assert_optimal(sol, "QP")
         return np.asarray(sol["x"]).ravel()
 
@@ -503,7 +513,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         A, b = matrix(np.vstack(A_rows)), matrix(np.array(b_vals, dtype=float))
         sol = solvers.qp(P, q, G, h, A, b)
         if sol["status"] != "optimal":
-            sol = solvers.qp(P, q, G, h, A, b, initvals=self._restart_point(sol, G))
+            sol = self._resolve_qp(sol, P, q, G, h, A, b)
         if sol["status"] != "optimal":
             raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.")
 
-- 
2.43.0


From 8a7bd5c7e6de9716f7d263caa6957adced340539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 34/79] fix: mean-variance solver could fail when constraint
 rows are nearly parallel

---
 pyvallocation/optimization.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 7321d2a..0a21722 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -286,23 +286,23 @@ class _BaseOptimization(ABC):
     def _resolve_qp(sol: dict, P, q, G, h, A, b) -> dict:
         """Solve a QP again whose interior-point iterates did not settle.
 
-        Mehrotra's corrector occasionally makes the iterates cycle, so the plain
-        predictor step is used, from other interior starting points.
+        The LDL factorisation tolerates nearly parallel rows, which the default one
+        does not.  Mehrotra's corrector occasionally makes the iterates cycle, so
+        the plain predictor step is tried next, from other interior starting points.
 
         Args:
             sol: Output of a QP solve that did not terminate optimally.
             P, q, G, h, A, b: The quadratic programme.
         """
-        options = {**solvers.options, "use_correction": False}
         start = sol
+        sol = solvers.qp(P, q, G, h, A, b, kktsolver="ldl")
+        options = {**solvers.options, "use_correction": False}
         for level in (0.1, 10.0):
-            if G is None:
-                return solvers.qp(P, q, G, h, A, b, options=options)
+            if sol["status"] == "optimal" or G is None:
+                break
             interior = matrix(level, (G.size[0], 1))
             initvals = {"x": start["x"], "y": start["y"], "s": interior, "z": +interior}
-            sol = solvers.qp(P, q, G, h, A, b, initvals=initvals, options=options)
-            if sol["status"] == "optimal":
-                break
+            sol = solvers.qp(P, q, G, h, A, b, kktsolver="ldl", initvals=initvals, options=options)
         return sol
 
     def _max_expected_return(self) -> float:
-- 
2.43.0


From f76ba8e12ec2f8c308f18143170cca78b1083e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:08 +0000
Subject: [PATCH 35/79] fix: report zero rather than NaN volatility for exactly
 hedged portfolios

Rounding can leave w' Sigma w a few ulps below zero; take the root of its
positive part in stress_test and performance_report.
---
 pyvallocation/stress.py            | 3 ++-
 pyvallocation/utils/performance.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index a073219..c9a49eb 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -188,7 +188,8 @@ def stress_test(
         mean = (W.T @ mu_vec).reshape(-1)
         var = np.asarray(portfolio_var(W, R_matrix, probs, confidence=conf, demean=demean)).reshape(-1)
         cvar = np.asarray(portfolio_cvar(W, R_matrix, probs, confidence=conf, demean=demean)).reshape(-1)
-        stdev = np.sqrt(np.einsum("ik,kl,il->i", W.T, sigma_mat, W.T))
+        variance = np.einsum("ik,kl,il->i", W.T, sigma_mat, W.T)
+        stdev = np.sqrt(np.maximum(variance, 0.0))
         ens = compute_effective_number_scenarios(probs)
         return mean, stdev, var, cvar, ens
 
diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index e5d1fab..3d0c29a 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -189,7 +189,7 @@ def performance_report(
     cov_mat = np.asarray(cov, dtype=float)
 
     mean = float(np.dot(w_vec, mu_vec.reshape(-1)))
-    stdev = float(np.sqrt(w_vec @ cov_mat @ w_vec))
+    stdev = float(np.sqrt(max(float(w_vec @ cov_mat @ w_vec), 0.0)))
     w_matrix = w_vec.reshape(-1, 1)
     var = float(portfolio_var(w_matrix, R_arr, p, confidence=conf, demean=demean))
     cvar = float(portfolio_cvar(w_matrix, R_arr, p, confidence=conf, demean=demean))
-- 
2.43.0


From 43951b026b2b5692ae8a6a28f6899c8dac449799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 36/79] fix: match weights to instruments by label in
 stress_invariants

With stress_views the weights were applied by position, ignoring Series
labels, and mappings or several portfolios failed.  Align them as the
unstressed branch does, and reject weights that do not fit.
---
 pyvallocation/stress.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index c9a49eb..7f5de65 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -515,6 +515,11 @@ def stress_invariants(
         nom_probs = resolve_probabilities(None, pnl_nom.shape[0])
         stressed_probs = resolve_probabilities(None, pnl_stressed.shape[0])
 
+        asset_names = list(pnl_df.columns) if isinstance(pnl_df, pd.DataFrame) else None
+        W, _, portfolio_names = _align_weights(weights, asset_names)
+        if W.shape[0] != pnl_nom.shape[1]:
+            raise ValueError("Weight dimension does not match number of instruments.")
+
         # Compute metrics for both distributions directly
         def _metrics(R, p, w):
             from .moments import estimate_sample_moments
@@ -523,21 +528,19 @@ def stress_invariants(
             sigma_m = np.asarray(sigma, float)
             w_v = np.asarray(w, float).ravel()
             mean_r = float(w_v @ mu_v)
-            stdev_r = float(np.sqrt(w_v @ sigma_m @ w_v))
+            stdev_r = float(np.sqrt(max(float(w_v @ sigma_m @ w_v), 0.0)))
             var_r = float(np.asarray(portfolio_var(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
             cvar_r = float(np.asarray(portfolio_cvar(w_v, R, p, confidence=confidence, demean=demean)).ravel()[0])
             ens = compute_effective_number_scenarios(p)
             return mean_r, stdev_r, var_r, cvar_r, ens
 
-        w_arr = np.asarray(weights, float).ravel() if not isinstance(weights, pd.Series) else weights.values
-        m_n = _metrics(pnl_nom, nom_probs, w_arr)
-        m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
         ci = int(round(confidence * 100))
-        return pd.DataFrame({
-            "return_nom": [m_n[0]], "stdev_nom": [m_n[1]],
-            f"VaR{ci}_nom": [m_n[2]], f"CVaR{ci}_nom": [m_n[3]], "ENS_nom": [m_n[4]],
-            "return_stressed": [m_s[0]], "stdev_stressed": [m_s[1]],
-            f"VaR{ci}_stressed": [m_s[2]], f"CVaR{ci}_stressed": [m_s[3]], "ENS_stressed": [m_s[4]],
-        })
+        keys = ("return", "stdev", f"VaR{ci}", f"CVaR{ci}", "ENS")
+        columns = {}
+        for suffix, R, p in (("nom", pnl_nom, nom_probs), ("stressed", pnl_stressed, stressed_probs)):
+            per_portfolio = [_metrics(R, p, W[:, k]) for k in range(W.shape[1])]
+            for i, key in enumerate(keys):
+                columns[f"{key}_{suffix}"] = [metrics[i] for metrics in per_portfolio]
+        return pd.DataFrame(columns, index=portfolio_names)
 
     return stress_test(weights, pnl_df, confidence=confidence, demean=demean)
-- 
2.43.0


From 91fde1d964d77ed367a8e755afa214844d73de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 37/79] fix: reject weights whose labels do not match the
 scenario assets

scenario_pnl returned NaN for missing labels, and both scenario_pnl and
performance_report silently dropped the weights of unknown assets.
---
 pyvallocation/utils/performance.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 3d0c29a..03fbba9 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -23,6 +23,20 @@ WeightsLike = Union[np.ndarray, pd.Series, pd.DataFrame]
 __all__ = ["scenario_pnl", "performance_report", "horizon_report", "drawdown_quantile"]
 
 
+def _align_to_assets(weights, asset_names):
+    """Reorder labelled weights to ``asset_names``; reject labels that do not match."""
+    if asset_names is None or list(weights.index) == list(asset_names):
+        return weights
+    missing = [name for name in asset_names if name not in weights.index]
+    extra = [name for name in weights.index if name not in asset_names]
+    if missing or extra:
+        raise ValueError(
+            "Weight labels do not match scenario asset names. "
+            f"Missing={missing}, extra={extra}"
+        )
+    return weights.reindex(asset_names)
+
+
 def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
     """
     Compute scenario-by-scenario portfolio P&L.
@@ -64,12 +78,10 @@ def scenario_pnl(weights: WeightsLike, scenarios: ArrayLike) -> ArrayLike:
         weights = pd.Series(weights, dtype=float)
 
     if isinstance(weights, pd.Series):
-        if columns is not None and list(weights.index) != columns:
-            weights = weights.reindex(columns)
+        weights = _align_to_assets(weights, columns)
         w = weights.to_numpy(dtype=float).reshape(-1, 1)
     elif isinstance(weights, pd.DataFrame):
-        if columns is not None and list(weights.index) != columns:
-            weights = weights.reindex(columns)
+        weights = _align_to_assets(weights, columns)
         w = weights.to_numpy(dtype=float)
     else:
         arr_w = np.asarray(weights, dtype=float)
@@ -155,8 +167,7 @@ def performance_report(
     p = resolve_probabilities(probabilities, R_arr.shape[0])
 
     if isinstance(weights, pd.Series):
-        if asset_names is not None and list(weights.index) != asset_names:
-            weights = weights.reindex(asset_names)
+        weights = _align_to_assets(weights, asset_names)
         if weights.isna().any():
             raise ValueError(
                 "Weight labels do not match scenario asset names after reindexing."
@@ -165,8 +176,7 @@ def performance_report(
     elif isinstance(weights, pd.DataFrame):
         if weights.shape[1] != 1:
             raise ValueError("`weights` must represent a single allocation.")
-        if asset_names is not None and list(weights.index) != asset_names:
-            weights = weights.reindex(asset_names)
+        weights = _align_to_assets(weights, asset_names)
         if weights.isna().any().any():
             raise ValueError(
                 "Weight labels do not match scenario asset names after reindexing."
-- 
2.43.0


From beaf0667bad9891243afc3364b39db6930633d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 38/79] fix: match weights to assets by label in
 drawdown_quantile

Labelled weights were applied by position, whatever their order.
---
 pyvallocation/utils/performance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 03fbba9..f446f0a 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -304,6 +304,10 @@ def drawdown_quantile(
     if reprice is None:
         reprice = _reprice_exp
 
+    if isinstance(weights, Mapping):
+        weights = pd.Series(weights, dtype=float)
+    if isinstance(weights, (pd.Series, pd.DataFrame)) and isinstance(invariants, pd.DataFrame):
+        weights = _align_to_assets(weights, list(invariants.columns))
     w = np.asarray(weights, dtype=float).ravel()
     paths = simulate_paths(
         invariants, horizon=horizon, n_paths=n_paths,
-- 
2.43.0


From 9f7ae4d1825a84cbf52582e565c84cdec9df6845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 39/79] fix: count losses from the initial wealth as drawdown

The running peak started at the first simulated step, so a path that falls
from the start reported a smaller drawdown than its loss, and one-step
paths always reported zero.
---
 pyvallocation/utils/performance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index f446f0a..6c55b3b 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -318,8 +318,8 @@ def drawdown_quantile(
     port_cum = paths @ w  # (n_paths, horizon)
     wealth = 1.0 + port_cum  # wealth relative to $1
 
-    # Running maximum and drawdown
-    running_max = np.maximum.accumulate(wealth, axis=1)
+    # Running maximum (the initial wealth of 1 is the first peak) and drawdown
+    running_max = np.maximum(np.maximum.accumulate(wealth, axis=1), 1.0)
     drawdowns = (running_max - wealth) / np.where(running_max > 0, running_max, 1.0)
     max_dd = drawdowns.max(axis=1)  # (n_paths,)
 
-- 
2.43.0


From 5f125e0ec790eafbee5640cfbbff2136bbad1ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 40/79] fix: normalise nearly normalised probabilities in
 project_scenarios

Masses within isclose of one were passed on as they are and refused by
Generator.choice, whose tolerance is tighter.
---
 pyvallocation/utils/projection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 5e7c594..3c8c468 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -237,8 +237,7 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
         weight_sum = weights.sum()
         if not np.isfinite(weight_sum) or weight_sum <= 0:
             raise ValueError("Scenario probabilities must sum to a positive finite value.")
-        if not np.isclose(weight_sum, 1.0):
-            weights = weights / weight_sum
+        weights = weights / weight_sum
 
     rng = np.random.default_rng(seed)
     idx = rng.choice(num_rows, size=(n_simulations, investment_horizon), p=weights)
-- 
2.43.0


From 420e5b4d26b2053d05b988697338c1d1d4a94ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 41/79] fix: keep repriced paths of integer drivers as floats

simulate_paths stored repriced values in an array of the drivers' dtype, so
integer drivers truncated prices to whole numbers.
---
 pyvallocation/utils/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 3c8c468..3f3f1df 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -303,7 +303,7 @@ def simulate_paths(
 
     if reprice is not None:
         # Apply repricing at each time step
-        out = np.empty_like(cumulative)
+        out = np.empty(cumulative.shape, dtype=float)
         for t in range(horizon):
             out[:, t, :] = reprice(cumulative[:, t, :])
         return out
-- 
2.43.0


From b4b4bedf74251b77939c6386356419bf1dfe3683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 42/79] fix: price paths instrument by instrument in
 simulate_paths

A repricing that maps K drivers to N instruments failed, or, with one
instrument, was broadcast over the driver columns.
---
 pyvallocation/utils/projection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 3f3f1df..371bafd 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -303,10 +303,11 @@ def simulate_paths(
 
     if reprice is not None:
         # Apply repricing at each time step
-        out = np.empty(cumulative.shape, dtype=float)
-        for t in range(horizon):
-            out[:, t, :] = reprice(cumulative[:, t, :])
-        return out
+        steps = [
+            np.asarray(reprice(cumulative[:, t, :]), dtype=float).reshape(n_paths, -1)
+            for t in range(horizon)
+        ]
+        return np.stack(steps, axis=1)
 
     return cumulative
 
-- 
2.43.0


From 44cbcd344e3daf1d04c48ed71c69477ca6d2c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:27 +0000
Subject: [PATCH 43/79] fix: compute the Ledoit-Wolf shrinkage intensity from
 the sample

---
 pyvallocation/moments.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 2503484..fd29931 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -357,8 +357,9 @@ def shrink_covariance_ledoit_wolf(
         F = np.eye(N) * np.trace(S_arr) / N
     elif target == "constant_correlation":
         std = np.sqrt(np.diag(S_arr))
-        corr = S_arr / np.outer(std, std)
-        r_bar = (corr.sum() - N) / (N * (N - 1))
+        inv_std = np.divide(1.0, std, out=np.zeros(N), where=std > 0.0)
+        corr = S_arr * np.outer(inv_std, inv_std)
+        r_bar = (corr.sum() - np.trace(corr)) / (N * (N - 1)) if N > 1 else 0.0
         F = r_bar * np.outer(std, std)
         np.fill_diagonal(F, np.diag(S_arr))
     else:
@@ -367,21 +368,22 @@ def shrink_covariance_ledoit_wolf(
 
     M = X[:, :, None] * X[:, None, :]
     pi_mat = np.mean((M - S_arr) ** 2, axis=0)
-    pi_hat = np.mean(pi_mat)
-    diag_pi = np.trace(pi_mat)
-    off_pi = pi_hat - diag_pi
+    pi_hat = pi_mat.sum()
 
     if target == "identity":
-        rho_hat = diag_pi
+        # The target is treated as known (Ledoit-Wolf 2004): no covariance term.
+        rho_hat = 0.0
     else:
-        rho_hat = diag_pi + ((F - np.diag(np.diag(F))).sum() / (N * (N - 1))) * off_pi
+        # Asymptotic covariance between the target and the sample covariance
+        # (Ledoit-Wolf 2003, constant-correlation target).
+        theta = np.einsum("ti,tij->ij", X**2, M) / T - np.diag(S_arr)[:, None] * M.mean(axis=0)
+        theta -= S_arr * (np.mean(X**2, axis=0) - np.diag(S_arr))[:, None]
+        np.fill_diagonal(theta, 0.0)
+        rho_hat = np.trace(pi_mat) + r_bar * np.sum(np.outer(inv_std, std) * theta)
 
     gamma_hat = np.linalg.norm(S_arr - F, "fro") ** 2
-    kappa = (pi_hat - rho_hat) / gamma_hat
-    # For identity target: delta = kappa (Ledoit-Wolf 2004, Eq. 2).
-    # For constant_correlation target: delta = kappa / T (variant that accounts
-    # for the larger number of estimated parameters in the structured target).
-    delta = float(np.clip(kappa if target == "identity" else kappa / T, 0.0, 1.0))
+    kappa = (pi_hat - rho_hat) / gamma_hat if gamma_hat > 0.0 else 0.0
+    delta = float(np.clip(kappa / T, 0.0, 1.0))
 
     Sigma = ensure_psd_matrix(delta * F + (1 - delta) * S_arr)
     Sigma = (Sigma + Sigma.T) / 2
-- 
2.43.0


From 460596811d503a21defd09338ec771e0008e5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:27 +0000
Subject: [PATCH 44/79] fix: take asset labels from the returns in
 estimate_sample_moments

---
 pyvallocation/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index fd29931..7182964 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -203,9 +203,9 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     Returns:
         Tuple[ArrayLike, ArrayLike]: A tuple containing:
             -   **mu** (ArrayLike): The weighted mean vector of asset returns.
-                If `R` or `p` were pandas objects, `mu` will be a :class:`pandas.Series`.
+                If `R` is a pandas object, `mu` will be a :class:`pandas.Series`.
             -   **S** (ArrayLike): The weighted covariance matrix of asset returns.
-                If `R` or `p` were pandas objects, `S` will be a :class:`pandas.DataFrame`.
+                If `R` is a pandas object, `S` will be a :class:`pandas.DataFrame`.
 
     Raises:
         ValueError: If `p` has a length mismatch with `R`, or if `p` contains
@@ -231,7 +231,7 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
     S = np.einsum('ti,tj,t->ij', X, X, p_arr, optimize=True)
     S = (S + S.T) / 2
 
-    labels = _labels(R, p)
+    labels = _labels(R)  # `p` is indexed by scenario, not by asset
     logger.debug("Estimated weighted mean and covariance matrix.")
     return _wrap(mu, labels, True), _wrap(S, labels, False)
 
-- 
2.43.0


From c80f9a3a44b87feb454064c1dd9e28b2a7f38ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:27 +0000
Subject: [PATCH 45/79] fix: keep the James-Stein weight within one for a
 single asset

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 7182964..7c1624f 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -977,7 +977,7 @@ def shrink_mean_james_stein(
     if quad <= 0.0:
         shrink = 0.0
     else:
-        shrink = max(0.0, 1.0 - (N - 2.0) / quad)
+        shrink = max(0.0, 1.0 - max(N - 2.0, 0.0) / quad)
     mu_js = mu_target + shrink * diff
     return _wrap(mu_js, _labels(mu_hat, S), True)
 
-- 
2.43.0


From 2e4e2d65e36c8743180924a23cfa94aba85788dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 46/79] fix: estimate single-asset moments

---
 pyvallocation/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 7c1624f..3476542 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -521,7 +521,7 @@ def factor_covariance_poet(
     else:
         scale = np.ones(N, dtype=float)
     X_scaled = X_centered / scale
-    S_scaled = np.cov(X_scaled, rowvar=False, ddof=1)
+    S_scaled = np.atleast_2d(np.cov(X_scaled, rowvar=False, ddof=1))
     eigvals, eigvecs = np.linalg.eigh(S_scaled)
     order = np.argsort(eigvals)[::-1]
     eigvals = eigvals[order]
@@ -652,7 +652,7 @@ def robust_covariance_tyler(
         raise ValueError("`shrinkage` must lie in [0, 1].")
 
     X = X - X.mean(axis=0, keepdims=True)
-    sample_cov = np.cov(X, rowvar=False, ddof=1)
+    sample_cov = np.atleast_2d(np.cov(X, rowvar=False, ddof=1))
     sample_cov = ensure_psd_matrix(sample_cov)
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
@@ -1228,7 +1228,7 @@ def estimate_moments(
     if p is None:
         mu_sample = X.mean(axis=0)
         # Use ddof=0 (MLE) for consistency with estimate_sample_moments
-        S_sample = np.cov(X, rowvar=False, ddof=0)
+        S_sample = np.atleast_2d(np.cov(X, rowvar=False, ddof=0))
         mu_sample_wrapped = _wrap(mu_sample, labels, True)
         S_sample_wrapped = _wrap(S_sample, labels, False)
     else:
-- 
2.43.0


From 92a6a50bc28f7ad6fbcdf415474c1de6bb59474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 47/79] fix: accept every span the EWMA documents

---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 3476542..8f3d5aa 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -747,6 +747,8 @@ def covariance_ewma(
     if T < min_periods:
         raise ValueError(f"Need at least {min_periods} observations, got {T}.")
 
+    if not span >= 1:
+        raise ValueError("`span` must be at least one.")
     lam = 1.0 - 2.0 / (span + 1)
 
     # Initialize with first observation outer product
-- 
2.43.0


From 9a5073809ddc8f13cd720da3404ce0bba1c76492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 48/79] fix: find the eigen-gap of ascending eigenvalues in
 POET

---
 pyvallocation/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 8f3d5aa..7b622d1 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -532,7 +532,7 @@ def factor_covariance_poet(
         elif eigvals.size == 2:
             k_sel = 1
         else:
-            diffs = np.diff(eigvals)
+            diffs = -np.diff(eigvals)
             accel = diffs[:-1] - diffs[1:]
             k_sel = int(np.argmax(accel) + 1)
     else:
-- 
2.43.0


From 5fa4b1ae266d042a1bd716974a609c7f63df2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 49/79] fix: keep the total variance of the sample in the Tyler
 covariance

---
 pyvallocation/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 7b622d1..6737e43 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -669,7 +669,7 @@ def robust_covariance_tyler(
         target_matrix = ensure_psd_matrix(target_matrix)
     target_matrix *= N / np.trace(target_matrix)
 
-    covariance = sample_cov / trace_target * N
+    covariance = sample_cov / trace_target
     for _ in range(max_iter):
         try:
             inv_cov = np.linalg.pinv(covariance)
@@ -704,7 +704,7 @@ def robust_covariance_tyler(
             max_iter, delta / denom, tol,
         )
 
-    covariance *= trace_target / N
+    covariance *= trace_target
     covariance = 0.5 * (covariance + covariance.T)
     if ensure_psd:
         covariance = ensure_psd_matrix(covariance)
-- 
2.43.0


From 6f87c4082292fa9db6fdc3c1375db73ebb707c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 50/79] fix: copy the caller's arrays into AssetsDistribution

---
 pyvallocation/portfolioapi.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 2a0db19..1d61c88 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -109,23 +109,23 @@ class AssetsDistribution:
 
         if isinstance(mu, pd.Series):
             asset_names = _merge_names(asset_names, mu.index)
-            mu = mu.to_numpy(dtype=float)
+            mu = mu.to_numpy(dtype=float, copy=True)
         elif mu is not None:
-            mu = np.asarray(mu, dtype=float)
+            mu = np.array(mu, dtype=float)
 
         if isinstance(cov, pd.DataFrame):
             asset_names = _merge_names(asset_names, cov.index)
             if asset_names is not None and list(cov.columns) != asset_names:
                 raise ValueError("Covariance matrix columns must match asset names.")
-            cov = cov.to_numpy(dtype=float)
+            cov = cov.to_numpy(dtype=float, copy=True)
         elif cov is not None:
-            cov = np.asarray(cov, dtype=float)
+            cov = np.array(cov, dtype=float)
 
         if isinstance(scenarios, pd.DataFrame):
             asset_names = _merge_names(asset_names, scenarios.columns)
-            scenarios = scenarios.to_numpy(dtype=float)
+            scenarios = scenarios.to_numpy(dtype=float, copy=True)
         elif scenarios is not None:
-            scenarios = np.asarray(scenarios, dtype=float)
+            scenarios = np.array(scenarios, dtype=float)
 
         if isinstance(probs, pd.Series):
             probs = probs.to_numpy(dtype=float)
-- 
2.43.0


From b2e22c815c5457bf3abfd4fb20bab53000b9557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:28 +0000
Subject: [PATCH 51/79] fix: reject infinite prices in from_prices

---
 pyvallocation/portfolioapi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 1d61c88..1310025 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -985,8 +985,8 @@ class PortfolioWrapper:
             bounds: Shortcut for per-asset bounds.
 
         Raises:
-            ValueError: If *prices* contains fewer than 2 rows, NaN, or
-                non-positive values.
+            ValueError: If *prices* contains fewer than 2 rows, NaN, infinite,
+                or non-positive values.
 
         Examples:
             >>> wrapper = PortfolioWrapper.from_prices(price_df)
@@ -997,6 +997,8 @@ class PortfolioWrapper:
                 raise ValueError("`prices` must have at least 2 rows to compute returns.")
             if prices.isnull().any().any():
                 raise ValueError("`prices` contains NaN values. Fill or drop missing data before calling from_prices.")
+            if np.isinf(prices.to_numpy(dtype=float)).any():
+                raise ValueError("`prices` contains infinite values.")
             if (prices <= 0).any().any():
                 raise ValueError("`prices` contains non-positive values. Prices must be strictly positive.")
             returns = prices.pct_change().iloc[1:]
-- 
2.43.0


From 09ff768b7c17e9b6d58f9241a95a8d8ab2ce3542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 52/79] fix: reject negative ensemble weights

---
 pyvallocation/utils/weights.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index 212ef7e..4ff59cb 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -126,4 +126,6 @@ def normalize_weights(
     total = float(np.sum(weights_vector))
     if not np.isfinite(total) or total <= 0.0:
         raise ValueError("`weights` must sum to a positive finite value.")
+    if np.any(weights_vector < 0.0):
+        raise ValueError("`weights` must be non-negative.")
     return weights_vector / total
-- 
2.43.0


From edefb2f4e38ca2583869c8d1102ed35770b2599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 53/79] fix: keep the min_risk selector's risk label across
 repeated use

---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 625ca2b..4bf7362 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -981,6 +981,7 @@ def _build_selector(
         return _tangency
 
     if key in {"min_risk", "minimum_risk"}:
+        risk_label = selector_kwargs.pop("risk_label", None)
 
         def _min(frontier: "PortfolioFrontier") -> pd.Series:
             """Select the minimum-risk portfolio.
@@ -991,7 +992,6 @@ def _build_selector(
             Returns:
                 pd.Series: Minimum-risk portfolio weights.
             """
-            risk_label = selector_kwargs.pop("risk_label", None)
             weights, *_ = frontier.min_risk(risk_label=risk_label)
             return weights.rename(label)
 
-- 
2.43.0


From fa718e6519533133f62ccdbd56a284fce6c1cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 54/79] fix: reject ensemble specs sharing a name

---
 pyvallocation/ensembles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 4bf7362..8237f19 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -550,6 +550,8 @@ def assemble_portfolio_ensemble(
     """
     if not specs:
         raise ValueError("At least one EnsembleSpec must be provided.")
+    if len({spec.name for spec in specs}) != len(specs):
+        raise ValueError("EnsembleSpec names must be unique.")
 
     frontiers: Dict[str, "PortfolioFrontier"] = {}
     selections: List[pd.Series] = []
-- 
2.43.0


From 14a42493ce59e9a717d5e0849ee7343298e984e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 55/79] fix: refuse to blend selections over different asset
 universes

---
 pyvallocation/ensembles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 8237f19..bad3240 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -577,6 +577,8 @@ def assemble_portfolio_ensemble(
 
     if ensemble_names:
         if combine_mode == "selected":
+            if any(set(series.index) != set(selection_df.index) for series in selections):
+                raise ValueError("All selected portfolios must share the same asset universe.")
             total_portfolios = selection_df.shape[1]
             folds = _determine_stack_folds(stack_folds, total_portfolios)
             for entry in ensemble_names:
-- 
2.43.0


From fa477416bcb04a9b751f0107fa427bc6a29196bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 56/79] fix: align labelled ensemble weights to spec names when
 combining frontiers

---
 pyvallocation/ensembles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index bad3240..c5a08e2 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -617,10 +617,13 @@ def assemble_portfolio_ensemble(
             folds = _determine_stack_folds(stack_folds, total_portfolios)
             for entry in ensemble_names:
                 if entry == "average":
+                    # one column per frontier, so labelled weights refer to spec names
                     ensembles["average"] = average_frontiers(
                         frontier_list,
                         selections=cleaned_selections,
-                        ensemble_weights=ensemble_weights,
+                        ensemble_weights=normalize_weights(
+                            ensemble_weights, len(specs), [spec.name for spec in specs]
+                        ),
                     )
                 elif entry == "stack":
                     ensembles["stack"] = exposure_stack_frontiers(
-- 
2.43.0


From d98dda44d946b4a05ae3eae40564268b6d9aa8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 57/79] fix: optimisers own copies of the arrays they are given

MeanVariance, MeanCVaR, RobustOptimizer and RelaxedRiskParity kept views of the
caller's mean, covariance, cost and budget arrays, so overwriting those arrays
changed later answers.
---
 pyvallocation/optimization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 0a21722..87fbd2d 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -253,7 +253,7 @@ class _BaseOptimization(ABC):
             G, h: Inequality constraint matrices such that ``G w <= h``.
             A, b: Equality constraint matrices such that ``A w = b``.
         """
-        self._mean = np.asarray(mean, float)
+        self._mean = np.array(mean, float)
         self._I = self._mean.size
         self._G = matrix(G) if G is not None else None
         self._h = matrix(h) if h is not None else None
@@ -411,7 +411,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             initial_weights: Optional initial portfolio for quadratic costs.
             market_impact_costs: Optional diagonal costs (requires ``initial_weights``).
         """
-        self._cov = np.asarray(covariance, float)
+        self._cov = np.array(covariance, float)
         super()._init_constraints(mean, G, h, A, b)
 
         P, q = 2 * self._cov, np.zeros(self._I)
@@ -811,10 +811,11 @@ class RobustOptimizer(_BaseOptimization):
         """
         super()._init_constraints(expected_return, G, h, A, b)
         self._s_sqrt = _cholesky_pd(np.asarray(uncertainty_cov, float))
-        self._w0, self._costs = initial_weights, proportional_costs
+        self._w0 = None if initial_weights is None else np.array(initial_weights, float)
+        self._costs = None if proportional_costs is None else np.array(proportional_costs, float)
         self._has_costs = initial_weights is not None and proportional_costs is not None
         if self._has_costs:
-            _check_shapes(initial_weights=initial_weights, proportional_costs=proportional_costs)
+            _check_shapes(initial_weights=self._w0, proportional_costs=self._costs)
 
     # ---------------------------------------------------------------- #
     # public wrappers
@@ -1028,7 +1029,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         n = self._I
         if risk_budgets is not None:
-            rb = np.asarray(risk_budgets, dtype=float).ravel()
+            rb = np.array(risk_budgets, dtype=float).ravel()
             if rb.shape[0] != n:
                 raise ValueError(f"`risk_budgets` must have length {n}, got {rb.shape[0]}.")
             if np.any(rb <= 0):
-- 
2.43.0


From fd06d613df0c9effd47e1e68e95278418b1a6ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:06 +0000
Subject: [PATCH 58/79] fix: a frontier owns its arrays, names and diagnostics

PortfolioFrontier shared its asset-name list with the distribution it came from
and kept the caller's arrays, so writing to one frontier (or to the arrays it
was built from) altered other objects.
---
 pyvallocation/portfolioapi.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 1310025..1a3d36b 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -281,6 +281,17 @@ class PortfolioFrontier:
         for label, arr in (self.alternate_risks or {}).items():
             if arr.shape[0] != M:
                 raise ValueError(f"alternate_risks['{label}'] has {arr.shape[0]} entries but frontier has {M}.")
+        # Own every component, so that arrays shared with the caller cannot alter the frontier.
+        for name in ("weights", "returns", "risks"):
+            object.__setattr__(self, name, np.array(getattr(self, name)))
+        if self.asset_names is not None:
+            object.__setattr__(self, "asset_names", list(self.asset_names))
+        if self.metadata is not None:
+            object.__setattr__(self, "metadata", [dict(entry) for entry in self.metadata])
+        if self.alternate_risks is not None:
+            object.__setattr__(
+                self, "alternate_risks", {label: np.array(arr) for label, arr in self.alternate_risks.items()}
+            )
 
     def __repr__(self):
         N, M = self.weights.shape
-- 
2.43.0


From 8c169f947feb88e0bfdee0e448e3af6320ac42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:06 +0000
Subject: [PATCH 59/79] fix: a wrapper copies the transaction costs it is given

Overwriting the arrays of a TransactionCosts object changed the costs in force
of every wrapper built with it.
---
 pyvallocation/portfolioapi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 1a3d36b..ad69d26 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1130,21 +1130,21 @@ class PortfolioWrapper:
         Args:
             costs: Transaction cost specification.
         """
-        iw = np.asarray(costs.initial_weights, dtype=float).ravel()
+        iw = np.array(costs.initial_weights, dtype=float).ravel()
         if iw.shape != (self.dist.N,):
             raise ValueError(
                 f"`initial_weights` must have shape ({self.dist.N},), got {iw.shape}"
             )
         self.initial_weights = iw
         if costs.market_impact_costs is not None:
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel()
+            mic = np.array(costs.market_impact_costs, dtype=float).ravel()
             if mic.shape != (self.dist.N,):
                 raise ValueError(
                     f"`market_impact_costs` must have shape ({self.dist.N},), got {mic.shape}"
                 )
             self.market_impact_costs = mic
         if costs.proportional_costs is not None:
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel()
+            pc = np.array(costs.proportional_costs, dtype=float).ravel()
             if pc.shape != (self.dist.N,):
                 raise ValueError(
                     f"`proportional_costs` must have shape ({self.dist.N},), got {pc.shape}"
-- 
2.43.0


From bb0676852c108e6344f28a27ee734240d054d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:06 +0000
Subject: [PATCH 60/79] fix: match labelled transaction costs to the assets

Initial weights and cost vectors given as Series were taken by position, so a
Series in another order charged the wrong assets; per-call costs were not even
checked for length.
---
 pyvallocation/portfolioapi.py  | 45 +++++++++++++++++-----------------
 pyvallocation/utils/weights.py | 26 ++++++++++++++++++++
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index ad69d26..c519e9f 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -23,7 +23,7 @@ from .optimization import (
 )
 from .probabilities import generate_uniform_probabilities
 from .utils.functions import portfolio_cvar
-from .utils.weights import wrap_exposure_vector
+from .utils.weights import align_to_labels, wrap_exposure_vector
 
 if TYPE_CHECKING:
     from .ensembles import EnsembleResult, EnsembleSpec
@@ -1130,26 +1130,27 @@ class PortfolioWrapper:
         Args:
             costs: Transaction cost specification.
         """
-        iw = np.array(costs.initial_weights, dtype=float).ravel()
-        if iw.shape != (self.dist.N,):
-            raise ValueError(
-                f"`initial_weights` must have shape ({self.dist.N},), got {iw.shape}"
-            )
-        self.initial_weights = iw
+        self.initial_weights = self._cost_vector(costs.initial_weights, "initial_weights")
         if costs.market_impact_costs is not None:
-            mic = np.array(costs.market_impact_costs, dtype=float).ravel()
-            if mic.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`market_impact_costs` must have shape ({self.dist.N},), got {mic.shape}"
-                )
-            self.market_impact_costs = mic
+            self.market_impact_costs = self._cost_vector(costs.market_impact_costs, "market_impact_costs")
         if costs.proportional_costs is not None:
-            pc = np.array(costs.proportional_costs, dtype=float).ravel()
-            if pc.shape != (self.dist.N,):
-                raise ValueError(
-                    f"`proportional_costs` must have shape ({self.dist.N},), got {pc.shape}"
-                )
-            self.proportional_costs = pc
+            self.proportional_costs = self._cost_vector(costs.proportional_costs, "proportional_costs")
+
+    def _cost_vector(self, values, name: str) -> Optional[np.ndarray]:
+        """Return a copy of a per-asset cost input in the order of the assets.
+
+        Args:
+            values: Per-asset values (labelled or not), or ``None``.
+            name: Parameter name for error messages.
+        """
+        if values is None:
+            return None
+        arr = np.array(align_to_labels(values, self.dist.asset_names, name), dtype=float).ravel()
+        if arr.shape != (self.dist.N,):
+            raise ValueError(
+                f"`{name}` must have shape ({self.dist.N},), got {arr.shape}"
+            )
+        return arr
 
     def _resolve_constraints(
         self,
@@ -1178,9 +1179,9 @@ class PortfolioWrapper:
                 G, h, A, b = self.G, self.h, self.A, self.b
 
         if costs is not None:
-            iw = np.asarray(costs.initial_weights, dtype=float).ravel()
-            mic = np.asarray(costs.market_impact_costs, dtype=float).ravel() if costs.market_impact_costs is not None else None
-            pc = np.asarray(costs.proportional_costs, dtype=float).ravel() if costs.proportional_costs is not None else None
+            iw = self._cost_vector(costs.initial_weights, "initial_weights")
+            mic = self._cost_vector(costs.market_impact_costs, "market_impact_costs")
+            pc = self._cost_vector(costs.proportional_costs, "proportional_costs")
         else:
             iw = self.initial_weights
             mic = self.market_impact_costs
diff --git a/pyvallocation/utils/weights.py b/pyvallocation/utils/weights.py
index 4ff59cb..fdcaa44 100644
--- a/pyvallocation/utils/weights.py
+++ b/pyvallocation/utils/weights.py
@@ -24,6 +24,32 @@ __all__ = [
 ]
 
 
+def align_to_labels(values, labels, name: str):
+    """Return labelled ``values`` in the order of ``labels``.
+
+    Unlabelled values, and values meeting unlabelled assets, are returned as they are.
+
+    Args:
+        values: Per-asset array, Series or DataFrame (assets in rows).
+        labels: Asset labels to match, or ``None``.
+        name: Parameter name for error messages.
+
+    Returns:
+        ArrayLike: Values ordered like ``labels``.
+
+    Raises:
+        ValueError: If the labels of ``values`` are not the given ones.
+    """
+    if labels is None or not isinstance(values, (pd.Series, pd.DataFrame)):
+        return values
+    own, labels = list(values.index), list(labels)
+    if own == labels:
+        return values
+    if len(own) != len(labels) or set(own) != set(labels):
+        raise ValueError(f"`{name}` labels {own} do not match the assets {labels}.")
+    return values.reindex(labels)
+
+
 def ensure_samples_matrix(
     sample_portfolios: ArrayLike,
     *,
-- 
2.43.0


From a99e2004bd3fc2102d2af11b496e372a2a3c7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:06 +0000
Subject: [PATCH 61/79] fix: match labelled weights to labelled risk inputs

portfolio_variance, portfolio_volatility, portfolio_cvar and portfolio_var
combined Series and DataFrames by position whatever their labels said.
---
 pyvallocation/utils/functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index 76bc712..e904ed3 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -5,6 +5,7 @@ import numpy as np
 import pandas as pd
 
 from ..probabilities import resolve_probabilities
+from .weights import align_to_labels
 
 def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarray:
     """Accept vector or matrix weights and return an ``(N, M)`` ndarray.
@@ -32,6 +33,9 @@ def portfolio_variance(
     Returns:
         Scalar variance (single portfolio) or ``(M,)`` array for multiple portfolios.
     """
+    if isinstance(cov, pd.DataFrame):
+        w = align_to_labels(w, cov.index, "w")
+        cov = align_to_labels(cov.T, cov.index, "cov").T
     W = _ensure_weights_matrix(w)
     cov_np = np.asarray(cov, dtype=float)
     quad = np.sum((W.T @ cov_np) * W.T, axis=1)
@@ -80,6 +84,8 @@ def portfolio_cvar(
     elif not isinstance(demean, bool):
         raise ValueError("demean must be either True or False.")
 
+    if isinstance(R, pd.DataFrame):
+        w = align_to_labels(w, R.columns, "w")
     R_arr = np.asarray(R, dtype=float)
     p = resolve_probabilities(p, R_arr.shape[0], name="p").reshape(-1, 1)
 
@@ -141,6 +147,8 @@ def portfolio_var(
     elif not isinstance(demean, bool):
         raise ValueError("demean must be either True or False.")
 
+    if isinstance(R, pd.DataFrame):
+        w = align_to_labels(w, R.columns, "w")
     R_arr = np.asarray(R, dtype=float)
     p = resolve_probabilities(p, R_arr.shape[0], name="p").reshape(-1, 1)
 
-- 
2.43.0


From c76121fa8aeb1def704e85cae8caf231c10fed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:06 +0000
Subject: [PATCH 62/79] fix: refuse moments with differing labels in return
 conversions

log2simple, simple2log and project_mean_covariance paired the mean of one asset
with the variance of another when the labels came in different orders.
---
 pyvallocation/utils/projection.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 371bafd..f349095 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -9,6 +9,18 @@ from ..probabilities import resolve_probabilities
 logger = logging.getLogger(__name__)
 
 
+def _check_same_assets(mu, cov) -> None:
+    """Refuse labelled moments whose labels differ or come in different orders.
+
+    Args:
+        mu: Mean vector.
+        cov: Covariance matrix.
+    """
+    axes = [list(axis) for x in (mu, cov) if isinstance(x, (pd.Series, pd.DataFrame)) for axis in x.axes]
+    if any(axis != axes[0] for axis in axes[1:]):
+        raise ValueError("Mean and covariance must carry the same asset labels in the same order.")
+
+
 def project_mean_covariance(
     mu: Union[np.ndarray, pd.Series],
     cov: Union[np.ndarray, pd.DataFrame],
@@ -25,6 +37,7 @@ def project_mean_covariance(
         tuple: Scaled mean vector and covariance matrix.
     """
 
+    _check_same_assets(mu, cov)
     return mu * annualization_factor, cov * annualization_factor
 
 
@@ -119,6 +132,7 @@ def log2simple(mu_g, cov_g):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in simple-return units.
     """
+    _check_same_assets(mu_g, cov_g)
     mu_g_np = _to_numpy(mu_g)
     cov_g_np = _to_numpy(cov_g)
 
@@ -144,6 +158,7 @@ def simple2log(mu_r, cov_r):
     Returns:
         Tuple[ArrayLike, ArrayLike]: Mean and covariance in log-return units.
     """
+    _check_same_assets(mu_r, cov_r)
     mu_r_np = _to_numpy(mu_r)
     cov_r_np = _to_numpy(cov_r)
 
-- 
2.43.0


From 63aa82d532ae5e061c433381d860b487a96bf208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:06 +0000
Subject: [PATCH 63/79] fix: refuse shrinkage inputs whose labels disagree

Custom targets given as Series or DataFrame were taken by position, and
covariance frames with rows and columns in different orders were symmetrised
across different assets.
---
 pyvallocation/moments.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 6737e43..f62feb1 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -163,6 +163,17 @@ def _labels(*objs: ArrayLike) -> Optional[Sequence[str]]:
     return found
 
 
+def _check_square(S: ArrayLike, name: str) -> None:
+    """Refuse a labelled matrix whose rows and columns carry different labels.
+
+    Args:
+        S: Square matrix, labelled or not.
+        name: Parameter name for error messages.
+    """
+    if isinstance(S, pd.DataFrame) and S.index.to_list() != S.columns.to_list():
+        raise ValueError(f"`{name}` must carry the same labels in the same order on both axes.")
+
+
 def _wrap(x: np.ndarray, labels: Optional[Sequence[str]], vector: bool) -> ArrayLike:
     """Wrap arrays into pandas containers when labels are available.
 
@@ -276,6 +287,7 @@ def shrink_mean_jorion(mu: ArrayLike, S: ArrayLike, T: int) -> ArrayLike:
         )
         raise ValueError("Invalid dimensions for Jorion shrinkage.")
 
+    _check_square(S, "S")
     S_arr = (S_arr + S_arr.T) / 2
     try:
         S_inv = inv(S_arr + 1e-8 * np.eye(N))
@@ -350,6 +362,7 @@ def shrink_covariance_ledoit_wolf(
         )
         raise ValueError("Shape mismatch in inputs.")
 
+    _check_square(S_hat, "S_hat")
     S_arr = (S_arr + S_arr.T) / 2
     X = R_arr - R_arr.mean(0)
 
@@ -665,6 +678,8 @@ def robust_covariance_tyler(
         target_matrix = np.asarray(target, dtype=float)
         if target_matrix.shape != (N, N):
             raise ValueError("Custom target must have shape (N, N).")
+        _check_square(target, "target")
+        _labels(R, target)
         target_matrix = 0.5 * (target_matrix + target_matrix.T)
         target_matrix = ensure_psd_matrix(target_matrix)
     target_matrix *= N / np.trace(target_matrix)
@@ -970,7 +985,9 @@ def shrink_mean_james_stein(
         mu_target = np.asarray(target, dtype=float).reshape(-1)
         if mu_target.size != N:
             raise ValueError("Custom target must have length N.")
+        _labels(mu_hat, S, target)
 
+    _check_square(S, "S")
     Sigma = 0.5 * (Sigma + Sigma.T)
     Sigma = ensure_psd_matrix(Sigma)
     Sigma_inv = np.linalg.pinv(Sigma, rcond=1e-12)
-- 
2.43.0


From 7650683c6ab6cb8f5ea6ecb5dd7d5342e58f644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:06 +0000
Subject: [PATCH 64/79] fix: refuse NIW inputs whose labels disagree

With an unlabelled prior mean or prior, frames in another order were still
combined by position.
---
 pyvallocation/bayesian.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 04c441e..4f75225 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -267,6 +267,8 @@ class NIWPosterior:
                 # If prior_mu was not pandas but prior_sigma is, infer index
                 self._pandas = True
                 self._asset_index = prior_sigma.index.copy()
+                if not prior_sigma.columns.equals(self._asset_index):
+                    raise ValueError("Index and columns of prior_sigma must match.")
             else:
                 # Ensure indices match
                 if not prior_sigma.index.equals(self._asset_index) or not prior_sigma.columns.equals(self._asset_index):
@@ -351,12 +353,13 @@ class NIWPosterior:
             )
 
         # Labelled statistics must refer to the assets of the prior, in order
-        if self._asset_index is not None:
-            for name, stat in (("sample_mu", sample_mu), ("sample_sigma", sample_sigma)):
-                if isinstance(stat, (pd.Series, pd.DataFrame)) and not all(
-                    axis.equals(self._asset_index) for axis in stat.axes
-                ):
-                    raise ValueError(f"Index/columns of {name} must match index of the prior.")
+        reference = self._asset_index
+        for name, stat in (("sample_mu", sample_mu), ("sample_sigma", sample_sigma)):
+            if not isinstance(stat, (pd.Series, pd.DataFrame)):
+                continue
+            reference = stat.index if reference is None else reference
+            if not all(axis.equals(reference) for axis in stat.axes):
+                raise ValueError(f"Index/columns of {name} must match index of the prior and of each other.")
 
         # Convert pandas inputs if present
         if isinstance(sample_mu, pd.Series):
-- 
2.43.0


From 59dbfa7f43ea6326dba32cb4e628b0aef3d44374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:06 +0000
Subject: [PATCH 65/79] fix: match labelled view vectors and confidences to the
 assets

FlexibleViewsProcessor took view Series by position; BlackLittermanProcessor did
so for confidences, and for every vector when the covariance was unlabelled.
---
 pyvallocation/views.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index a60b179..8847667 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -11,6 +11,7 @@ from scipy.optimize import Bounds, minimize
 
 from .bayesian import _cholesky_pd
 from .probabilities import normalize_probability_vector
+from .utils.weights import align_to_labels
 
 # ---------------------------------------------------------------------------
 # View helper functions — readable shortcuts for constraint operators
@@ -611,6 +612,8 @@ class FlexibleViewsProcessor:
                 return {}
             if isinstance(vec_like, dict):
                 return dict(vec_like)
+            if self._use_pandas:
+                vec_like = align_to_labels(vec_like, self.assets, name)
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
@@ -1362,6 +1365,7 @@ class BlackLittermanProcessor:
             if self._is_pandas
             else list(range(np.asarray(prior_cov).shape[0]))
         )
+        self._vector_labels: Optional[List[Any]] = None  # order of vectors given with an unlabelled covariance
         self._sigma: np.ndarray = np.asarray(prior_cov, dtype=float)
         n_assets: int = self._sigma.shape[0]
 
@@ -1444,10 +1448,10 @@ class BlackLittermanProcessor:
         Returns:
             np.ndarray: One value per asset.
         """
-        if self._is_pandas and isinstance(vec_like, pd.Series):
-            if set(vec_like.index) != set(self._assets):
-                raise ValueError(f"`{name}` labels must match the assets of prior_cov.")
-            vec_like = vec_like.reindex(self._assets)
+        if isinstance(vec_like, pd.Series):
+            if not self._is_pandas and self._vector_labels is None:
+                self._vector_labels = list(vec_like.index)
+            vec_like = align_to_labels(vec_like, self._assets if self._is_pandas else self._vector_labels, name)
         vec = np.asarray(vec_like, dtype=float).ravel()
         if vec.size != len(self._assets):
             raise ValueError(f"`{name}` must have length {len(self._assets)}.")
@@ -1553,6 +1557,8 @@ class BlackLittermanProcessor:
                     )
                 result.append(float(conf.get(k, 1.0)))
             return np.array(result)
+        if not (isinstance(conf, pd.Series) and isinstance(conf.index, pd.RangeIndex)):
+            conf = align_to_labels(conf, keys, "view_confidences")
         arr = np.asarray(conf, dtype=float).ravel()
         if arr.size != len(keys):
             raise ValueError("view_confidences length mismatch.")
-- 
2.43.0


From b3ef71514e48550c24575c4c810778e00f535686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:06 +0000
Subject: [PATCH 66/79] fix: match labelled scenario probabilities to the
 scenarios

A probability Series carrying the scenario labels in another order was taken by
position, weighting the wrong scenarios.
---
 pyvallocation/moments.py           |  3 ++-
 pyvallocation/portfolioapi.py      |  4 +++-
 pyvallocation/probabilities.py     | 19 +++++++++++++++++++
 pyvallocation/stress.py            |  5 +++--
 pyvallocation/utils/functions.py   |  4 +++-
 pyvallocation/utils/performance.py |  3 ++-
 pyvallocation/utils/projection.py  |  5 +++--
 pyvallocation/views.py             |  4 ++--
 8 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index f62feb1..323b423 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -123,6 +123,7 @@ from typing import Any, Dict, Optional, Sequence, Tuple, Union
 import numpy as np
 from numpy.linalg import LinAlgError, inv
 
+from pyvallocation.probabilities import align_probabilities
 from pyvallocation.utils.validation import (
     check_non_negativity,
     check_weights_sum_to_one,
@@ -223,7 +224,7 @@ def estimate_sample_moments(R: ArrayLike, p: ArrayLike) -> Tuple[ArrayLike, Arra
             negative values or does not sum to one.
     """
     R_arr = np.asarray(R, dtype=float)
-    p_arr = np.asarray(p, dtype=float).reshape(-1)
+    p_arr = np.asarray(align_probabilities(p, R), dtype=float).reshape(-1)
     T, N = R_arr.shape
 
     if p_arr.shape[0] != T:
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index c519e9f..7760807 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -21,7 +21,7 @@ from .optimization import (
     RelaxedRiskParityResult,
     RobustOptimizer,
 )
-from .probabilities import generate_uniform_probabilities
+from .probabilities import align_probabilities, generate_uniform_probabilities
 from .utils.functions import portfolio_cvar
 from .utils.weights import align_to_labels, wrap_exposure_vector
 
@@ -121,6 +121,7 @@ class AssetsDistribution:
         elif cov is not None:
             cov = np.array(cov, dtype=float)
 
+        probs = align_probabilities(probs, scenarios)
         if isinstance(scenarios, pd.DataFrame):
             asset_names = _merge_names(asset_names, scenarios.columns)
             scenarios = scenarios.to_numpy(dtype=float, copy=True)
@@ -1104,6 +1105,7 @@ class PortfolioWrapper:
             # K→N mapping: project as numpy to avoid column-count mismatch,
             # then wrap the output with instrument names.
             inv_np = invariants.to_numpy(dtype=float) if isinstance(invariants, pd.DataFrame) else np.asarray(invariants, dtype=float)
+            p = align_probabilities(p, invariants)
             p_arr = np.asarray(p, dtype=float).ravel() if p is not None else None
             pnl_np = project_scenarios(
                 inv_np, investment_horizon=horizon, p=p_arr,
diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index b126921..35872b8 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -1,6 +1,7 @@
 import logging
 from typing import Optional, Sequence, Union
 import numpy as np
+import pandas as pd
 
 logger = logging.getLogger(__name__)
 
@@ -45,6 +46,24 @@ def normalize_probability_vector(
     return probs
 
 
+def align_probabilities(probabilities, scenarios):
+    """Return labelled probabilities in the order of labelled scenarios.
+
+    A Series is reordered when it carries the labels of the scenarios in another
+    order; anything else is returned as it is.
+
+    Args:
+        probabilities: Scenario probabilities, or ``None``.
+        scenarios: Scenarios in rows (labelled or not).
+    """
+    if not isinstance(probabilities, pd.Series) or not isinstance(scenarios, (pd.Series, pd.DataFrame)):
+        return probabilities
+    own, index = probabilities.index, scenarios.index
+    if own.equals(index) or len(own) != len(index) or not own.is_unique or set(own) != set(index):
+        return probabilities
+    return probabilities.reindex(index)
+
+
 def resolve_probabilities(
     probabilities: Optional[ProbabilityLike],
     n_observations: int,
diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 7f5de65..b82eb7e 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -10,6 +10,7 @@ import pandas as pd
 
 from .moments import estimate_sample_moments
 from .probabilities import (
+    align_probabilities,
     compute_effective_number_scenarios,
     generate_exp_decay_probabilities,
     generate_gaussian_kernel_probabilities,
@@ -164,7 +165,7 @@ def stress_test(
         raise ValueError("`scenarios` must be a 2D array-like.")
 
     n_scenarios, n_assets = R_arr.shape
-    p_nom = resolve_probabilities(probabilities, n_scenarios)
+    p_nom = resolve_probabilities(align_probabilities(probabilities, scenarios), n_scenarios)
     W, aligned_assets, portfolio_names = _align_weights(weights, asset_names)
     if W.shape[0] != n_assets:
         raise ValueError("Weight dimension does not match number of assets in `scenarios`.")
@@ -214,7 +215,7 @@ def stress_test(
     if stressed_probabilities is not None or transform is not None:
         p_star = (
             resolve_probabilities(
-                stressed_probabilities,
+                align_probabilities(stressed_probabilities, scenarios),
                 n_scenarios,
                 name="stressed_probabilities",
             )
diff --git a/pyvallocation/utils/functions.py b/pyvallocation/utils/functions.py
index e904ed3..2d5e009 100644
--- a/pyvallocation/utils/functions.py
+++ b/pyvallocation/utils/functions.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 import numpy as np
 import pandas as pd
 
-from ..probabilities import resolve_probabilities
+from ..probabilities import align_probabilities, resolve_probabilities
 from .weights import align_to_labels
 
 def _ensure_weights_matrix(w: np.ndarray | pd.Series | pd.DataFrame) -> np.ndarray:
@@ -86,6 +86,7 @@ def portfolio_cvar(
 
     if isinstance(R, pd.DataFrame):
         w = align_to_labels(w, R.columns, "w")
+    p = align_probabilities(p, R)
     R_arr = np.asarray(R, dtype=float)
     p = resolve_probabilities(p, R_arr.shape[0], name="p").reshape(-1, 1)
 
@@ -149,6 +150,7 @@ def portfolio_var(
 
     if isinstance(R, pd.DataFrame):
         w = align_to_labels(w, R.columns, "w")
+    p = align_probabilities(p, R)
     R_arr = np.asarray(R, dtype=float)
     p = resolve_probabilities(p, R_arr.shape[0], name="p").reshape(-1, 1)
 
diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index 6c55b3b..a172a58 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -11,6 +11,7 @@ import pandas as pd
 
 from ..moments import estimate_sample_moments
 from ..probabilities import (
+    align_probabilities,
     compute_effective_number_scenarios,
     resolve_probabilities,
 )
@@ -164,7 +165,7 @@ def performance_report(
     if R_arr.ndim != 2:
         raise ValueError("`scenarios` must be a 2D array-like.")
 
-    p = resolve_probabilities(probabilities, R_arr.shape[0])
+    p = resolve_probabilities(align_probabilities(probabilities, scenarios), R_arr.shape[0])
 
     if isinstance(weights, pd.Series):
         weights = _align_to_assets(weights, asset_names)
diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index f349095..b0bbd45 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -4,7 +4,7 @@ from typing import Union
 import numpy as np
 import pandas as pd
 
-from ..probabilities import resolve_probabilities
+from ..probabilities import align_probabilities, resolve_probabilities
 
 logger = logging.getLogger(__name__)
 
@@ -241,6 +241,7 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
         raise ValueError("`R` must be a 1D or 2D array-like of scenarios.")
 
     num_rows = R_np.shape[0]
+    p = align_probabilities(p, R)
     weights = np.asarray(p, dtype=float).reshape(-1) if p is not None else None
     if weights is None:
         weights = np.full(num_rows, 1.0 / num_rows, dtype=float)
@@ -308,7 +309,7 @@ def simulate_paths(
         raise ValueError("`R` must be 1D or 2D.")
 
     T, N = R_np.shape
-    weights = resolve_probabilities(p, T, name="p")
+    weights = resolve_probabilities(align_probabilities(p, R), T, name="p")
     weights = weights / weights.sum()
 
     rng = np.random.default_rng(seed)
diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 8847667..b5392fe 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -10,7 +10,7 @@ import pandas as pd
 from scipy.optimize import Bounds, minimize
 
 from .bayesian import _cholesky_pd
-from .probabilities import normalize_probability_vector
+from .probabilities import align_probabilities, normalize_probability_vector
 from .utils.weights import align_to_labels
 
 # ---------------------------------------------------------------------------
@@ -523,7 +523,7 @@ class FlexibleViewsProcessor:
                 self.p0 = np.full((S, 1), 1.0 / S)
             else:
                 p_array = normalize_probability_vector(
-                    prior_probabilities,
+                    align_probabilities(prior_probabilities, risk_drivers),
                     name="prior_probabilities",
                     strictly_positive=True,
                 )
-- 
2.43.0


From a318a5932d75ffcd60568574095ba70ff3f9ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:44 +0000
Subject: [PATCH 67/79] fix: match labelled risk budgets to the assets

A budget Series in another order was taken by position.
---
 pyvallocation/portfolioapi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 7760807..8b8eded 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1775,7 +1775,7 @@ class PortfolioWrapper:
             h=h,
             A=A,
             b=b,
-            risk_budgets=risk_budgets,
+            risk_budgets=align_to_labels(risk_budgets, self.dist.asset_names, "risk_budgets"),
         )
 
         mu_r, cov_r = self._report_mu_cov()
@@ -1907,7 +1907,7 @@ class PortfolioWrapper:
             h=h,
             A=A,
             b=b,
-            risk_budgets=risk_budgets,
+            risk_budgets=align_to_labels(risk_budgets, self.dist.asset_names, "risk_budgets"),
         )
 
         mu_r, cov_r = self._report_mu_cov()
-- 
2.43.0


From 808e8c98356c73d2b50844e863bf6b68242bdd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:49 +0000
Subject: [PATCH 68/79] fix: match a labelled mean-uncertainty matrix to the
 assets

---
 pyvallocation/bayesian.py     | 17 +++++++++++++----
 pyvallocation/portfolioapi.py |  3 +++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 4f75225..8f77922 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -10,6 +10,8 @@ from scipy import linalg as sla
 from scipy.stats import chi2
 import pandas as pd
 
+from .utils.weights import align_to_labels
+
 
 def _to_numpy(x: Union[npt.NDArray[np.floating], pd.Series, pd.DataFrame]) -> npt.NDArray[np.floating]:
     """Return ``x`` as a NumPy array with ``float`` dtype.
@@ -763,9 +765,16 @@ class RobustBayesPosterior:
                 the Jensen inequality correction. Default ``False`` uses the
                 simpler ``J = diag(exp(mu_g))``.
         """
-        mu_np = _to_numpy(self.mu)
-        s_mu_np = _to_numpy(self.s_mu)
-        sigma_np = _to_numpy(self.sigma)
+        mu, s_mu, sigma = self.mu, self.s_mu, self.sigma
+        if isinstance(s_mu, pd.DataFrame):
+            names = s_mu.index
+            s_mu = align_to_labels(s_mu.T, names, "s_mu").T
+            mu = align_to_labels(mu, names, "mu")
+            if isinstance(sigma, pd.DataFrame):
+                sigma = align_to_labels(align_to_labels(sigma, names, "sigma").T, names, "sigma").T
+        mu_np = _to_numpy(mu)
+        s_mu_np = _to_numpy(s_mu)
+        sigma_np = _to_numpy(sigma)
         mu_log = mu_np * annualization_factor
         s_mu_log = s_mu_np * (annualization_factor ** 2)
         if exact:
@@ -774,4 +783,4 @@ class RobustBayesPosterior:
         else:
             scale = np.exp(mu_log)
         cov_simple = (scale[:, None] * s_mu_log) * scale[None, :]
-        return _wrap_matrix_like(cov_simple, self.s_mu)
+        return _wrap_matrix_like(cov_simple, s_mu)
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 8b8eded..e590946 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -967,6 +967,9 @@ class PortfolioWrapper:
             bounds=bounds,
         )
         wrapper._return_type = "log"
+        if isinstance(s_mu, pd.DataFrame):  # match the rows, then the columns
+            s_mu = align_to_labels(s_mu, wrapper.dist.asset_names, "s_mu").T
+            s_mu = align_to_labels(s_mu, wrapper.dist.asset_names, "s_mu").T
         wrapper._uncertainty_cov = np.asarray(s_mu, dtype=float)
         return wrapper
 
-- 
2.43.0


From c360dce0aed5def881a7684e1ad726bdeee7d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:47 +0000
Subject: [PATCH 69/79] fix: plot_frontiers_grid draws every frontier when
 labels repeat within a group

---
 pyvallocation/plotting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 89f7331..5062f50 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -444,11 +444,10 @@ def plot_frontiers_grid(
     normalized = _normalize_frontiers(frontiers, labels)
     grouper = by or (lambda supplied, fr: fr.risk_measure or "Risk")
 
-    grouped: "OrderedDict[str, OrderedDict[str, PortfolioFrontier]]" = OrderedDict()
+    grouped: "OrderedDict[str, List[Tuple[Optional[str], PortfolioFrontier]]]" = OrderedDict()
     for supplied_label, frontier in normalized:
         key = str(grouper(supplied_label, frontier))
-        bucket = grouped.setdefault(key, OrderedDict())
-        bucket[supplied_label or frontier.risk_measure] = frontier
+        grouped.setdefault(key, []).append((supplied_label, frontier))
 
     if not grouped:
         raise ValueError("No frontiers supplied.")
@@ -458,7 +457,7 @@ def plot_frontiers_grid(
     fig, axes = plt.subplots(rows, cols, figsize=figsize, sharex=sharex, sharey=sharey)
     axes_flat = np.atleast_1d(axes).ravel()
 
-    for ax, (group_name, mapping) in zip(axes_flat, grouped.items()):
+    for ax, (group_name, members) in zip(axes_flat, grouped.items()):
         show_legend = legend
         if legend_policy == "auto":
             show_legend = legend and len(grouped) == 1
@@ -470,8 +469,9 @@ def plot_frontiers_grid(
             raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
 
         plot_frontiers(
-            mapping,
+            [frontier for _, frontier in members],
             ax=ax,
+            labels=[supplied_label for supplied_label, _ in members],
             highlight=highlight,
             risk_free_rate=risk_free_rate,
             legend=show_legend,
-- 
2.43.0


From d76a8ae7463effb9002dae81a39f936d9adffa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:05 +0000
Subject: [PATCH 70/79] fix: plot_frontier_report keeps risk_free_rate for the
 tangency highlight

---
 pyvallocation/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 5062f50..b9fd8f2 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -948,7 +948,7 @@ def plot_frontier_report(
         elif selection_key in {"max_return", "maximum_return"}:
             selected_weights, selected_return, selected_risk = frontier.max_return()
         elif selection_key in {"tangency", "max_sharpe", "sharpe"}:
-            rf = float(selection_kwargs.pop("risk_free_rate", 0.0))
+            rf = float(selection_kwargs.setdefault("risk_free_rate", 0.0))
             selected_weights, selected_return, selected_risk = frontier.tangency(rf)
         elif selection_key in {"risk_target", "max_return_subject_to_risk"}:
             max_risk = float(selection_kwargs.pop("max_risk"))
-- 
2.43.0


From 9967c7523b62779096fb38687782ce1f38cd4d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:09 +0000
Subject: [PATCH 71/79] fix: plot_weights bar charts put percent labels on the
 weights, not on the asset names

---
 pyvallocation/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index b9fd8f2..9f7babe 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -533,9 +533,8 @@ def plot_weights(
         try:
             from matplotlib.ticker import FuncFormatter
             fmt = FuncFormatter(lambda x, _pos: f"{x:.1%}")
-            ax.xaxis.set_major_formatter(fmt)
-            if kind == "bar":
-                ax.yaxis.set_major_formatter(fmt)
+            value_axis = ax.xaxis if kind == "barh" else ax.yaxis
+            value_axis.set_major_formatter(fmt)
         except Exception:  # pragma: no cover
             pass
 
-- 
2.43.0


From 57966ecb7bf5efd0f4b78b0fd204866e30ad9037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:13 +0000
Subject: [PATCH 72/79] fix: plot_frontier_report marks the selected portfolio
 at the risk shown on the axis

---
 pyvallocation/plotting.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 9f7babe..5647789 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -977,7 +977,24 @@ def plot_frontier_report(
         else:
             raise ValueError(f"Unknown selection '{selection}'.")
 
-    highlight = (selection_key,) if selection_key in {"min_risk", "max_return", "tangency"} else ()
+    on_primary_axis = risk_label is None or risk_label == frontier.risk_measure
+    if weights is None and not on_primary_axis and selection_key in {
+        "max_return",
+        "maximum_return",
+        "tangency",
+        "max_sharpe",
+        "sharpe",
+    }:
+        # These selectors report the primary risk; the x-axis shows ``risk_label``.
+        chosen = np.asarray(selected_weights, dtype=float)[:, None]
+        matches = (np.asarray(frontier.weights) == chosen).all(axis=0)
+        matches &= (frontier.returns == selected_return) & (frontier.risks == selected_risk)
+        selected_risk = float(frontier._risk_vector(risk_label)[np.flatnonzero(matches)[0]])
+
+    if selection_key in {"min_risk", "max_return"} or (selection_key == "tangency" and on_primary_axis):
+        highlight = (selection_key,)
+    else:
+        highlight = ()
     plot_frontiers(
         frontier,
         ax=ax_frontier,
-- 
2.43.0


From cd4d0d2fbbe8fa47038df30504cf7b1bc8832640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:17 +0000
Subject: [PATCH 73/79] fix: plot_frontiers_grid accepts the documented
 legend_policy 'all'

---
 pyvallocation/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 5647789..48d202b 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -463,10 +463,10 @@ def plot_frontiers_grid(
             show_legend = legend and len(grouped) == 1
         elif legend_policy == "none":
             show_legend = False
-        elif legend_policy == "each":
+        elif legend_policy in {"all", "each"}:
             show_legend = legend
         else:
-            raise ValueError("`legend_policy` must be 'auto', 'each', or 'none'.")
+            raise ValueError("`legend_policy` must be 'auto', 'all' (or 'each'), or 'none'.")
 
         plot_frontiers(
             [frontier for _, frontier in members],
-- 
2.43.0


From ed1304df3f21cb94c3e05d5584b9eb44354eaf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:20 +0000
Subject: [PATCH 74/79] fix: plot_param_impact accepts the pair of axes it
 documents

---
 pyvallocation/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/plotting.py b/pyvallocation/plotting.py
index 48d202b..4c8cfc6 100644
--- a/pyvallocation/plotting.py
+++ b/pyvallocation/plotting.py
@@ -623,7 +623,7 @@ def plot_param_impact(
         param: Metadata key to plot along the x-axis.
         risk_label: Risk label for the risk panel.
         percent_axes: Whether to format y-axes as percentages.
-        ax: Optional tuple of axes or a figure axis to reuse.
+        ax: Optional pair of axes (return panel, risk panel) to reuse.
 
     Returns:
         Tuple[matplotlib.figure.Figure, tuple]: Figure and axes tuple.
@@ -641,8 +641,8 @@ def plot_param_impact(
     if ax is None:
         fig, axes = plt.subplots(1, 2, figsize=(8, 3))
     else:
-        fig = ax.figure
-        axes = ax
+        axes = tuple(ax)
+        fig = axes[0].figure
 
     ax_return, ax_risk = axes
     ax_return.plot(values, returns, marker="o")
-- 
2.43.0


From 46a3e97600e6b112493f0aa28c59a0d11e5de5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:35 +0000
Subject: [PATCH 75/79] fix: accept integer and nested-list constraint arrays
 and holdings in the optimizers

---
 pyvallocation/optimization.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 87fbd2d..3b7a7dd 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -150,6 +150,7 @@ def _linear_turnover_blocks(
     b_trade : np.ndarray
         Right-hand side (simply ``w0``).
     """
+    w0, costs = np.asarray(w0, float), np.asarray(costs, float)
     _check_shapes(w0=w0, costs=costs)
     c_cost = np.hstack((costs, costs))
     A_trade = np.concatenate(
@@ -255,10 +256,11 @@ class _BaseOptimization(ABC):
         """
         self._mean = np.array(mean, float)
         self._I = self._mean.size
-        self._G = matrix(G) if G is not None else None
-        self._h = matrix(h) if h is not None else None
-        self._A = matrix(A) if A is not None else None
-        self._b = matrix(b) if b is not None else None
+        # CVXOPT keeps integer input integral and reads nested lists by column.
+        self._G = matrix(np.asarray(G, float)) if G is not None else None
+        self._h = matrix(np.atleast_1d(np.asarray(h, float))) if h is not None else None
+        self._A = matrix(np.asarray(A, float)) if A is not None else None
+        self._b = matrix(np.atleast_1d(np.asarray(b, float))) if b is not None else None
 
     def _finalise_expected_row(self, extra: int) -> None:
         r"""Pad ``-\mu`` with *extra* zeros for later frontier sweeps.
@@ -597,6 +599,8 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
         super()._init_constraints(p @ R if mean is None else mean, G, h, A, b)
+        G, A = (np.asarray(x, float) if x is not None else None for x in (G, A))
+        h, b = (np.atleast_1d(np.asarray(x, float)) if x is not None else None for x in (h, b))
 
         base_len = N + 1 + T
         extra_len = 2 * N if self._has_costs else 0
-- 
2.43.0


From 5b70a3bbb52f2f76d364ca5ece9086499d8fe5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:15 +0000
Subject: [PATCH 76/79] fix: report a failed relaxed risk parity cone solve as
 RuntimeError so the fallback applies

---
 pyvallocation/optimization.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 3b7a7dd..7ed085d 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1210,14 +1210,19 @@ class RelaxedRiskParity(_BaseOptimization):
             else np.hstack(h_soc_all)
         )
 
-        sol = solvers.conelp(
-            matrix(c),
-            matrix(G_total),
-            matrix(h_total),
-            dims=dims,
-            A=matrix(A_mat),
-            b=matrix(b_vec),
-        )
+        try:
+            sol = solvers.conelp(
+                matrix(c),
+                matrix(G_total),
+                matrix(h_total),
+                dims=dims,
+                A=matrix(A_mat),
+                b=matrix(b_vec),
+            )
+        except (ValueError, ArithmeticError) as exc:
+            # The feasible set may have no interior (e.g. a target equal to the
+            # best attainable return); report it like any other solver failure.
+            raise RuntimeError(f"SOCP solver failed: {exc}") from exc
         self._assert_optimal(sol, "SOCP")
 
         x_opt = np.asarray(sol["x"], dtype=float).ravel()
-- 
2.43.0


From 32f8405a5623fa6a9ba35aeac4a63edb0d008be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:48 +0000
Subject: [PATCH 77/79] fix: compute kernel probabilities in floating point for
 integer data

---
 pyvallocation/probabilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/probabilities.py b/pyvallocation/probabilities.py
index 35872b8..8e77495 100644
--- a/pyvallocation/probabilities.py
+++ b/pyvallocation/probabilities.py
@@ -141,7 +141,7 @@ def silverman_bandwidth(x: np.ndarray) -> float:
     Uses the standard Gaussian kernel bandwidth constant of 1.06.
     """
     SILVERMAN_CONSTANT = 1.06  # Standard rule-of-thumb for Gaussian kernels
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     n = len(x)
     sigma = np.std(x, ddof=1)
     return SILVERMAN_CONSTANT * sigma * n ** (-1 / 5)
@@ -165,11 +165,11 @@ def generate_gaussian_kernel_probabilities(
         np.ndarray: Kernel-based probabilities summing to one.
     """
 
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     if v is None:
         v = x.copy()
     else:
-        v = np.asarray(v)
+        v = np.asarray(v, dtype=float)
     if h is None:
         h = silverman_bandwidth(x)
     h = float(h)
-- 
2.43.0


From 0fc01d86cefcbdb1d547b670039da57c4382a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:34 +0000
Subject: [PATCH 78/79] fix: refuse a mean and covariance of different sizes in
 moment conversions

---
 pyvallocation/utils/projection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index b0bbd45..d2eb661 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -10,7 +10,7 @@ logger = logging.getLogger(__name__)
 
 
 def _check_same_assets(mu, cov) -> None:
-    """Refuse labelled moments whose labels differ or come in different orders.
+    """Refuse moments of different sizes, or whose labels differ or come in different orders.
 
     Args:
         mu: Mean vector.
@@ -19,6 +19,8 @@ def _check_same_assets(mu, cov) -> None:
     axes = [list(axis) for x in (mu, cov) if isinstance(x, (pd.Series, pd.DataFrame)) for axis in x.axes]
     if any(axis != axes[0] for axis in axes[1:]):
         raise ValueError("Mean and covariance must carry the same asset labels in the same order.")
+    if np.ndim(mu) == 1 and np.ndim(cov) == 2 and np.shape(cov) != 2 * np.shape(mu):
+        raise ValueError("Mean and covariance must describe the same number of assets.")
 
 
 def project_mean_covariance(
-- 
2.43.0


From bba9f14771bbec309b8307864f80319e8f52af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:24 +0000
Subject: [PATCH 79/79] fix: square integer driver changes in floating point
 when repricing by Taylor expansion

---
 pyvallocation/utils/projection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index d2eb661..f42d371 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -394,7 +394,8 @@ def reprice_taylor(
     if delta is not None:
         pnl = pnl + np.asarray(delta, dtype=float) * delta_y
     if gamma is not None:
-        pnl = pnl + 0.5 * np.asarray(gamma, dtype=float) * delta_y ** 2
+        # ``** 2.0``: an integer square could overflow
+        pnl = pnl + 0.5 * np.asarray(gamma, dtype=float) * delta_y ** 2.0
     return pnl
 
 
-- 
2.43.0

