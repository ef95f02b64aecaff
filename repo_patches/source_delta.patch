From 3c9e88fb3ea00fc3ed1668bc4ffdfe830b34c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 01/65] fix: exposure_stacking no longer rewrites the
 process-wide cvxopt options

The context manager cleared and restored solvers.options around the solve, so
concurrent callers saw (and could permanently keep) each other's options or an
emptied dictionary. Options are passed to the single qp call instead.
---
 pyvallocation/ensembles.py | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 625ca2b..201240b 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -38,7 +38,6 @@ Name: Exposure Stacking (L=3), dtype: float64
 from __future__ import annotations
 
 from dataclasses import dataclass, field
-from contextlib import contextmanager
 from typing import (
     Any,
     Callable,
@@ -118,26 +117,6 @@ def average_exposures(
     return wrap_exposure_vector(averaged, asset_names, label="Average Exposure")
 
 
-@contextmanager
-def _temporary_solver_options(overrides: Optional[dict]):
-    """Context manager that applies temporary CVXOPT solver options.
-
-    Args:
-        overrides: Optional dictionary of solver option overrides.
-
-    Yields:
-        None
-    """
-    previous = solvers.options.copy()
-    if overrides:
-        solvers.options.update(overrides)
-    try:
-        yield
-    finally:
-        solvers.options.clear()
-        solvers.options.update(previous)
-
-
 def exposure_stacking(
     sample_portfolios: ArrayLike,
     L: int,
@@ -207,12 +186,12 @@ def exposure_stacking(
     qp_G = matrix(-np.identity(num_samples))
     qp_h = matrix(np.zeros((num_samples, 1)))
 
-    options = {"show_progress": False}
+    # Passed per call: ``solvers.options`` is process-wide and shared by threads.
+    options = {**solvers.options, "show_progress": False}
     if solver_options:
         options.update(solver_options)
 
-    with _temporary_solver_options(options):
-        solution = solvers.qp(qp_P, qp_q, qp_G, qp_h, qp_A, qp_b)
+    solution = solvers.qp(qp_P, qp_q, qp_G, qp_h, qp_A, qp_b, options=options)
 
     if solution.get("status") != "optimal":
         raise RuntimeError(f"Exposure stacking QP failed (status={solution.get('status')}).")
-- 
2.43.0


From eddbb94eaba26d55bb29f8c98afdecf6a3dc5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 02/65] fix: min_risk selector honours risk_label on every
 evaluation

The label was popped from the spec's kwargs inside the selector, so the first
evaluation consumed it and later ones silently used the primary risk measure.
---
 pyvallocation/ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 201240b..9fdd534 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -960,6 +960,7 @@ def _build_selector(
         return _tangency
 
     if key in {"min_risk", "minimum_risk"}:
+        risk_label = selector_kwargs.pop("risk_label", None)
 
         def _min(frontier: "PortfolioFrontier") -> pd.Series:
             """Select the minimum-risk portfolio.
@@ -970,7 +971,6 @@ def _build_selector(
             Returns:
                 pd.Series: Minimum-risk portfolio weights.
             """
-            risk_label = selector_kwargs.pop("risk_label", None)
             weights, *_ = frontier.min_risk(risk_label=risk_label)
             return weights.rename(label)
 
-- 
2.43.0


From a7d7222e68671b8d7751850c6f5d4090d8fccd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 03/65] fix: rank_mean no longer inserts views into the
 caller's mean_views

The processor kept the caller's dictionary and added the ranking pairs to it, so
reusing the dictionary silently carried the ranking into the next posterior.
---
 pyvallocation/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 549c53f..bb1e2f5 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -585,7 +585,7 @@ class FlexibleViewsProcessor:
             if vec_like is None:
                 return {}
             if isinstance(vec_like, dict):
-                return vec_like
+                return dict(vec_like)
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != len(self.assets):
                 raise ValueError(f"`{name}` must have length {len(self.assets)} matching the number of assets.")
@@ -1369,7 +1369,7 @@ class BlackLittermanProcessor:
             if vec_like is None:
                 return {}
             if isinstance(vec_like, dict):
-                return vec_like
+                return dict(vec_like)
             vec = np.asarray(vec_like, float).ravel()
             if vec.size != n_assets:
                 raise ValueError(f"`mean_views` must have length {n_assets}.")
-- 
2.43.0


From 62e6f2678444f942024e8ab08241b471a356df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 04/65] fix: BlackLittermanProcessor no longer normalises
 market_weights in place

A float array (or its flattened view) passed by the caller was rescaled.
---
 pyvallocation/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index bb1e2f5..c66403e 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1346,7 +1346,7 @@ class BlackLittermanProcessor:
             weights = np.asarray(market_weights, dtype=float).ravel()
             if weights.size != n_assets:
                 raise ValueError("market_weights length mismatch.")
-            weights /= weights.sum()
+            weights = weights / weights.sum()
             self._pi = risk_aversion * self._sigma @ weights.reshape(-1, 1)
             src = "\\delta \\Sigma w"
         elif prior_mean is not None:
-- 
2.43.0


From ec83f3513624c220e5ca10ea555252dfee4babf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 05/65] fix: TypeError raised inside distribution_fn is no
 longer swallowed

The processor retried the callback without its generator on any TypeError, so a
failing callback ran twice and its error was lost.
---
 pyvallocation/views.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index c66403e..6bac7c9 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -1,5 +1,6 @@
 # entropy_pooling and _dual_objective functions are adapted from fortitudo-tech https://github.com/fortitudo-tech/fortitudo.tech
 
+import inspect
 import logging
 import warnings
 from collections.abc import Sequence
@@ -553,9 +554,21 @@ class FlexibleViewsProcessor:
                     simulated = standard_normals @ chol.T
                 self.R = simulated + mu
             else:
+                # Choose the call form from the signature so that a TypeError
+                # raised inside the callback is neither hidden nor retried.
                 try:
+                    signature = inspect.signature(distribution_fn)
+                except (TypeError, ValueError):
+                    signature = None
+                takes_rng = True
+                if signature is not None:
+                    try:
+                        signature.bind(mu, cov, num_scenarios, rng)
+                    except TypeError:
+                        takes_rng = False
+                if takes_rng:
                     self.R = distribution_fn(mu, cov, num_scenarios, rng)
-                except TypeError:
+                else:
                     self.R = distribution_fn(mu, cov, num_scenarios)
 
             self.R = np.atleast_2d(np.asarray(self.R, float))
-- 
2.43.0


From 47b9325933343e570369efd5f3bed80fab317aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 06/65] fix: robust optimiser penalises w'Sw, not the norm of
 the wrong Cholesky factor

S = L L', so the radius sqrt(w'Sw) is ||L'w||; the cone used ||L w||, which
depends on asset order and under-reports the estimation risk.
---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 77e65fe..4e7e160 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -868,7 +868,7 @@ class RobustOptimizer(_BaseOptimization):
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt
+        G_soc[1:, :n] = -self._s_sqrt.T  # S = L L', so ||L'w||^2 = w'Sw
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
-- 
2.43.0


From 19f995735292b5bfdbeacc3fb9f97f3c072ac29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 07/65] fix: risk parity cone uses the portfolio volatility,
 not ||L x||

Same factor orientation error as in the robust optimiser.
---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 4e7e160..b75ee41 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1145,7 +1145,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol
+        G1[1:, x_slice] = -self._chol.T  # cov = L L', so ||L'x||^2 = x'cov x
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
-- 
2.43.0


From 0e18cb46fb752af6842144bd13794ea001c81cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 08/65] fix: robust results report the radius of the returned
 weights

With a zero (or tiny) penalty the epigraph variable is not tight; the first
point of every default robust frontier reported an arbitrary estimation risk.
---
 pyvallocation/optimization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index b75ee41..f485b61 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -933,8 +933,11 @@ class RobustOptimizer(_BaseOptimization):
         )
         self._assert_optimal(sol, "SOCP")
         x = np.asarray(sol["x"]).ravel()
-        w, t = x[:n], x[n]
-        return OptimizationResult(w, float(self._mean @ w), float(t))
+        w = x[:n]
+        # The epigraph variable is only an upper bound (and free when the penalty
+        # is zero), so report the radius of the returned weights themselves.
+        radius = float(np.linalg.norm(self._s_sqrt.T @ w))
+        return OptimizationResult(w, float(self._mean @ w), radius)
 
 
 # =================================================================== #
-- 
2.43.0


From fc26fe9d14c6b0209801d9bb12348058187a222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 09/65] fix: robust optimisation with proportional costs no
 longer raises

The cost vectors were stacked as one 2-D block next to 1-D ones, so every robust
problem with transaction costs failed before reaching the solver.
---
 pyvallocation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index f485b61..3267fac 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -862,7 +862,7 @@ class RobustOptimizer(_BaseOptimization):
         penalty = kw.get("lam", kw.get("gamma_mu"))
 
         c = np.hstack(
-            (-self._mean, penalty, (self._costs, self._costs) if self._has_costs else [])
+            (-self._mean, penalty, *((self._costs, self._costs) if self._has_costs else ()))
         )
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
-- 
2.43.0


From f03bf0a946d7986eebf000c004f594c43cc2a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 10/65] fix: max_sharpe enforces inequality constraints with
 non-zero right-hand sides

The homogenised problem dropped h, so lower bounds were silently violated and any
upper bound made the problem infeasible. Rows are homogenised against 1'y; a
non-positive weight sum is rejected because normalising would flip them.
---
 pyvallocation/optimization.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 3267fac..0885170 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -449,7 +449,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
            \min_{y}\; y^\top \Sigma\, y
            \quad\text{s.t.}\quad
-           (\mu - r_f)^\top y = 1,\; G\,y \le 0,\; A\,y = 0
+           (\mu - r_f)^\top y = 1,\; (G - h\mathbf{1}^\top)\,y \le 0,\; A\,y = 0
 
         The optimal weights are ``w = y / \mathbf{1}^\top y``.
 
@@ -490,10 +490,13 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         A_mat = matrix(np.vstack(A_rows))
         b_vec = matrix(np.array(b_vals, dtype=float))
 
-        # Inequalities: G y <= 0 (homogeneous version of G w <= h)
+        # Inequalities: with w = y / 1'y and 1'y > 0, G w <= h reads
+        # (G - h 1') y <= 0.
         if self._G is not None:
-            G_mat = matrix(np.asarray(self._G, dtype=float))
-            h_vec = matrix(np.zeros(np.asarray(self._G).shape[0]))
+            G_np = np.asarray(self._G, dtype=float)
+            h_np = np.asarray(self._h, dtype=float).reshape(-1, 1)
+            G_mat = matrix(G_np - h_np)
+            h_vec = matrix(np.zeros(G_np.shape[0]))
         else:
             G_mat = None
             h_vec = None
@@ -504,8 +507,8 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
 
         y = np.asarray(sol["x"]).ravel()
         y_sum = y.sum()
-        if abs(y_sum) < 1e-12:
-            raise InfeasibleOptimizationError("Max Sharpe portfolio has zero weight sum (degenerate).")
+        if y_sum < 1e-12:
+            raise InfeasibleOptimizationError("Max Sharpe portfolio has a non-positive weight sum (degenerate).")
 
         w = y / y_sum
         ret = float(np.dot(np.asarray(self._mean).ravel(), w))
-- 
2.43.0


From 67176e2ea2d970dc2b70e4296dbd52868170a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 11/65] fix: discrete allocation rounding guard scales with the
 budget

With budgets around 1e9 the floating-point noise of an exactly exhausted budget
exceeded the absolute 1e-8 guard and a valid greedy allocation raised.
---
 pyvallocation/discrete_allocation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index 847eb63..eb9f305 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -176,8 +176,9 @@ def _build_result(inputs: DiscreteAllocationInput, raw_shares: pd.Series) -> Dis
     values = shares * inputs.latest_prices
     portfolio_value = float(values.sum())
     leftover = float(inputs.total_value - portfolio_value)
-    # Numerical noise guard
-    if leftover < 0 and abs(leftover) < 1e-8:
+    # Numerical noise guard (rounding noise grows with the amounts involved)
+    tolerance = max(1e-8, 1e-12 * float(inputs.total_value))
+    if leftover < 0 and abs(leftover) < tolerance:
         leftover = 0.0
     elif leftover < 0:
         raise RuntimeError("Allocation exceeded available funds by more than tolerance.")
-- 
2.43.0


From 399423b39f0789f8c4fec736072b9aeb082de13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 12/65] fix: simultaneous quantile and CVaR views no longer
 discard the other views

Each was solved as a separate step with only its own constraint, so the posterior
silently violated the moment (and earlier CVaR) views stated with it. The
constraints are carried forward; sequential mode keeps its override semantics.
---
 pyvallocation/views.py | 44 +++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 6bac7c9..d1324e9 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -871,7 +871,7 @@ class FlexibleViewsProcessor:
         other_G: List[np.ndarray] = None,
         other_h: List[float] = None,
         max_newton_iter: int = 20,
-    ) -> np.ndarray:
+    ) -> Tuple[np.ndarray, List[np.ndarray], List[float]]:
         """Solve CVaR view via Meucci (2011) recursive EP (Eqs 9-15).
 
         For a view E[X | X <= VaR_gamma] = cvar_target, we search over
@@ -888,7 +888,8 @@ class FlexibleViewsProcessor:
             max_newton_iter: Maximum Newton-Raphson iterations.
 
         Returns:
-            np.ndarray: Posterior probability vector (S, 1).
+            tuple: Posterior probability vector (S, 1) and the tail constraint rows and
+            targets it satisfies, so that later views can keep them.
         """
         R = self.R
         x = R[:, asset_idx]  # marginal scenarios for this asset
@@ -924,6 +925,8 @@ class FlexibleViewsProcessor:
             A_cvar.append(row_mean[np.argsort(order)])  # unsort
             b_cvar.append(gamma * cvar_target)
 
+            tail = (list(A_cvar), list(b_cvar))
+
             # Normalization: sum(q) = 1
             A_cvar.append(np.ones(S))
             b_cvar.append(1.0)
@@ -946,22 +949,22 @@ class FlexibleViewsProcessor:
                 q_flat = q.flatten()
                 mask = q_flat > 0
                 kl = float(np.sum(q_flat[mask] * np.log(q_flat[mask] / p[mask])))
-                return q, kl
+                return q, kl, tail
             except Exception:
-                return None, np.inf
+                return None, np.inf, tail
 
         # Newton-Raphson search (Eqs 12-15)
         s = s_bar
-        best_q, best_kl = _solve_for_s(s)
+        best_q, best_kl, best_tail = _solve_for_s(s)
 
         for _ in range(max_newton_iter):
             # Compute D(s) = E(s+1) - E(s) and D2(s) = D(s+1) - D(s)
             s_lo = max(1, s - 1)
             s_hi = min(S - 2, s + 1)
 
-            _, kl_lo = _solve_for_s(s_lo)
-            _, kl_mid = _solve_for_s(s)
-            _, kl_hi = _solve_for_s(s_hi)
+            _, kl_lo, _ = _solve_for_s(s_lo)
+            _, kl_mid, _ = _solve_for_s(s)
+            _, kl_hi, _ = _solve_for_s(s_hi)
 
             d1 = kl_hi - kl_mid  # first difference
             d2 = (kl_hi - 2 * kl_mid + kl_lo)  # second difference
@@ -980,14 +983,14 @@ class FlexibleViewsProcessor:
                 break
 
             s = s_new
-            q_new, kl_new = _solve_for_s(s)
+            q_new, kl_new, tail_new = _solve_for_s(s)
             if q_new is not None and kl_new < best_kl:
-                best_q, best_kl = q_new, kl_new
+                best_q, best_kl, best_tail = q_new, kl_new, tail_new
 
         if best_q is None:
             raise RuntimeError(f"CVaR view solve failed for asset {asset_idx}.")
 
-        return best_q.reshape(-1, 1)
+        return best_q.reshape(-1, 1), best_tail[0], best_tail[1]
 
     def _compute_posterior_probabilities(self) -> np.ndarray:
         """
@@ -1042,6 +1045,10 @@ class FlexibleViewsProcessor:
         if not has_any:
             return p0
 
+        # Constraints that views processed later have to keep (simultaneous mode only:
+        # sequential processing lets each block override the earlier ones).
+        A_keep, b_keep, G_keep, h_keep = [], [], [], []
+
         if self.sequential:
             q_result = p0
             view_blocks = [
@@ -1084,6 +1091,8 @@ class FlexibleViewsProcessor:
                     G_all.extend(G)
                     h_all.extend(h)
 
+            A_keep, b_keep, G_keep, h_keep = list(A_all), list(b_all), list(G_all), list(h_all)
+
             if A_all or G_all:
                 q_result = do_ep(p0, A_all, b_all, G_all, h_all)
             else:
@@ -1114,8 +1123,12 @@ class FlexibleViewsProcessor:
                     else:  # >= or >
                         G_q.append(-indicator)
                         h_q.append(-prob)
-            if A_q or G_q:
+            if self.sequential:
                 q_result = do_ep(q_result, A_q, b_q, G_q, h_q)
+            else:
+                A_keep, b_keep = A_keep + A_q, b_keep + b_q
+                G_keep, h_keep = G_keep + G_q, h_keep + h_q
+                q_result = do_ep(p0, list(A_keep), list(b_keep), G_keep, h_keep)
 
         # --- CVaR views (recursive EP, Meucci 2011 ssrn-1542083) ---
         if self.cvar_views:
@@ -1127,10 +1140,15 @@ class FlexibleViewsProcessor:
                 else:
                     cvar_target = float(vw)
                     gamma = 0.05
-                q_result = self._solve_cvar_view(
+                q_result, A_tail, b_tail = self._solve_cvar_view(
                     asset_idx=idx, gamma=gamma, cvar_target=cvar_target,
                     prior_probs=q_result,
+                    other_A=A_keep, other_b=b_keep,
+                    other_G=G_keep, other_h=h_keep,
                 )
+                if not self.sequential:
+                    A_keep = A_keep + A_tail
+                    b_keep = b_keep + b_tail
 
         return q_result
 
-- 
2.43.0


From f983a28e78fc384fb7ef3cc5d817e02da758d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 13/65] fix: combine='frontier' uses each specification's own
 frontier

Frontiers were looked up again by name, so two specifications sharing a name both
contributed the last one's portfolio.
---
 pyvallocation/ensembles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 9fdd534..90f29a5 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -531,12 +531,14 @@ def assemble_portfolio_ensemble(
         raise ValueError("At least one EnsembleSpec must be provided.")
 
     frontiers: Dict[str, "PortfolioFrontier"] = {}
+    frontier_list: List["PortfolioFrontier"] = []
     selections: List[pd.Series] = []
     metadata: Dict[str, Dict[str, Any]] = {}
 
     for spec in specs:
         frontier = spec.frontier_factory()
         frontiers[spec.name] = frontier
+        frontier_list.append(frontier)
         metadata[spec.name] = dict(spec.metadata or {})
         selected = _coerce_weights_series(frontier, spec.selector(frontier), spec.name)
         selections.append(selected)
@@ -568,7 +570,6 @@ def assemble_portfolio_ensemble(
                 else:
                     raise ValueError(f"Unsupported ensemble option '{entry}'.")
         else:  # combine on full frontier matrices
-            frontier_list = [frontiers[spec.name] for spec in specs]
             selections_norm = [
                 None if spec.frontier_selection is None else list(spec.frontier_selection)
                 for spec in specs
-- 
2.43.0


From 40602069381f8a7635bb406f48ac5a2dfdace0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 14/65] fix: entropy pooling scales its constraint rows so that
 small-valued views are met

---
 pyvallocation/views.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index d1324e9..17a1a1a 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -256,6 +256,15 @@ def entropy_pooling(
         bounds_lower = [-np.inf] * num_equalities + [0.0] * num_inequalities
         bounds_upper = [np.inf] * (num_equalities + num_inequalities)
 
+    # Bring every constraint row to unit size: the dual solver's tolerances are
+    # absolute, so rows of small numbers (e.g. squared daily returns) would
+    # otherwise be left visibly unsatisfied.
+    current_lhs = np.asarray(current_lhs, dtype=float)
+    row_scale = np.max(np.abs(current_lhs), axis=1, keepdims=True)
+    row_scale[row_scale == 0.0] = 1.0
+    current_lhs = current_lhs / row_scale
+    current_rhs_stacked = current_rhs_stacked / row_scale
+
     log_p_col = np.log(p_col)
 
     initial_lagrange_multipliers = np.zeros(current_lhs.shape[0])
-- 
2.43.0


From 7f4843d343719b3f3b1124b6ea2fcc2034f60c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 15/65] fix: entropy pooling raises when its result misses the
 views

---
 pyvallocation/views.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 17a1a1a..103af6f 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -308,6 +308,17 @@ def entropy_pooling(
         raise RuntimeError("Entropy pooling posterior probabilities could not be normalised.")
     q_posterior /= total_prob
 
+    # The dual of contradictory views is unbounded and the solver may still stop
+    # with a success flag, so check the (scaled) views on the result itself.
+    residual = (current_lhs @ q_posterior - current_rhs_stacked).ravel()
+    residual[:num_equalities] = np.abs(residual[:num_equalities])
+    allowed = 1e-3 * np.maximum(1.0, np.abs(current_rhs_stacked).ravel())
+    if np.any(residual > allowed):
+        raise RuntimeError(
+            "Entropy pooling optimisation failed: the views are contradictory or could "
+            f"not be met (largest residual {residual.max():.3g})."
+        )
+
     return q_posterior
 
 class FlexibleViewsProcessor:
-- 
2.43.0


From 6372444526d2d935e5783e7c2ca75080b35e04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 16/65] fix: infeasible mean-variance targets raise
 InfeasibleOptimizationError, not 'domain error'

---
 pyvallocation/optimization.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 0885170..0fbb18c 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -112,6 +112,23 @@ def _check_shapes(**arrays: npt.NDArray[np.floating]) -> None:
         raise ValueError(f"Shape mismatch: {shapes}")
 
 
+def _solve_qp(*args) -> dict:
+    """``cvxopt.solvers.qp`` with a numerical breakdown reported as a status.
+
+    On infeasible or ill-conditioned problems the interior-point iterates may
+    leave the domain of the barrier, in which case CVXOPT raises (typically
+    ``ValueError: domain error``) instead of returning a status.  Callers decide
+    on ``sol["status"]``, so a breakdown has to reach them the same way.
+    Rank-deficient problem data remain a ``ValueError``.
+    """
+    try:
+        return solvers.qp(*args)
+    except (ArithmeticError, ValueError) as exc:
+        if "Rank(" in str(exc):
+            raise
+        return {"status": f"numerical breakdown: {exc}"}
+
+
 def _quadratic_turnover(
     P: np.ndarray,
     q: np.ndarray,
@@ -413,13 +430,13 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             h = matrix([-return_target]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
             )
-        sol = solvers.qp(self._P, self._q, G, h, self._A, self._b)
+        sol = _solve_qp(self._P, self._q, G, h, self._A, self._b)
         if sol["status"] != "optimal":  # scale-adaptive ridge regularisation fallback
             P_np = np.asarray(self._P)
             ridge = max(1e-8, 1e-8 * np.trace(P_np) / max(self._I, 1))
             P_reg = matrix(P_np + np.eye(self._I) * ridge)
             _LOGGER.debug("QP retry with ridge=%.2e", ridge)
-            sol = solvers.qp(P_reg, self._q, G, h, self._A, self._b)
+            sol = _solve_qp(P_reg, self._q, G, h, self._A, self._b)
         self._assert_optimal(sol, "QP")
         return np.asarray(sol["x"]).ravel()
 
@@ -501,7 +518,7 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
             G_mat = None
             h_vec = None
 
-        sol = solvers.qp(P, q, G_mat, h_vec, A_mat, b_vec)
+        sol = _solve_qp(P, q, G_mat, h_vec, A_mat, b_vec)
         if sol["status"] != "optimal":
             raise InfeasibleOptimizationError("Max Sharpe portfolio is infeasible.")
 
-- 
2.43.0


From d895bb6795d97891d88aa9d61cbac32efd4c4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 17/65] fix: entropy pooling accepts a line-search stop that is
 already at the optimum

---
 pyvallocation/views.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 103af6f..1c916a3 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -284,7 +284,21 @@ def entropy_pooling(
         options=solver_options,
     )
 
-    if not solution.success:
+    # TNC reports "linear search failed" (status 4) when it cannot improve on a
+    # point that is already optimal to machine precision.  The dual is convex, so
+    # a vanishing projected gradient certifies the optimum.
+    converged = bool(solution.success)
+    if not converged and opt_method == "TNC" and getattr(solution, "status", None) == 4:
+        multipliers = np.asarray(solution.x, dtype=float)
+        _, gradient = _entropy_pooling_dual_objective(
+            multipliers, log_p_col, current_lhs, current_rhs_stacked.squeeze()
+        )
+        gradient = np.atleast_1d(gradient) / 1000.0
+        at_bound = multipliers <= np.asarray(bounds_lower)
+        gradient = np.where(at_bound, np.minimum(gradient, 0.0), gradient)
+        converged = bool(np.max(np.abs(gradient)) <= 1e-6)
+
+    if not converged:
         status = getattr(solution, "status", None)
         message = getattr(solution, "message", "")
         raise RuntimeError(
-- 
2.43.0


From 9a7c4ecd9380933aa1674437e0a25407d3b5c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 18/65] fix: bound risk-parity return targets under the budget
 the programme imposes

---
 pyvallocation/optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 0fbb18c..f7df035 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1314,6 +1314,10 @@ class RelaxedRiskParity(_BaseOptimization):
             b_lp = np.array([1.0], dtype=float)
         else:
             A_lp, b_lp = A_user, b_user
+            # The risk parity programme is always fully invested (see ``solve``).
+            if not any(np.allclose(row, np.ones(n), atol=1e-8, rtol=1e-8) for row in A_user):
+                A_lp = np.vstack([A_user, np.ones((1, n), dtype=float)])
+                b_lp = np.append(b_user, 1.0)
 
         sol_lp = solvers.lp(
             matrix(-self._mean),
-- 
2.43.0


From b69f3534e25bdb964b6a5dd4c1eceaa7bd0bf035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 19/65] fix: MILP allocation can reach long targets above the
 budget when shorts fund them

---
 pyvallocation/discrete_allocation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index eb9f305..ced51eb 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -373,7 +373,9 @@ def allocate_mip(
         [cash_penalty],
     ])
 
-    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(inputs.total_value / price_per_lot).astype(int), 0)
+    # With short positions a single long target may exceed total_value.
+    max_position = np.maximum(inputs.total_value, np.abs(target_values))
+    max_shares_per_lot = np.where(price_per_lot > 0, np.floor(max_position / price_per_lot).astype(int), 0)
     max_shares_per_lot = np.clip(max_shares_per_lot + 1, 0, None)
 
     # With short positions, short-sale proceeds can push leftover cash
@@ -392,7 +394,7 @@ def allocate_mip(
     lb = np.concatenate([lot_lb, np.zeros(n + 1)])  # u and r stay >= 0
     ub = np.concatenate([
         max_shares_per_lot.astype(float),
-        np.full(n, inputs.total_value, dtype=float),
+        np.full(n, np.inf),
         [upper_cash],
     ])
     bounds = optimize.Bounds(lb, ub)
-- 
2.43.0


From e209a0f9191dd4954d30806a193a1ed6a150147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 20/65] fix: discrete allocation rejects non-finite and
 repeated assets

---
 pyvallocation/discrete_allocation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyvallocation/discrete_allocation.py b/pyvallocation/discrete_allocation.py
index ced51eb..8d167a4 100644
--- a/pyvallocation/discrete_allocation.py
+++ b/pyvallocation/discrete_allocation.py
@@ -97,6 +97,11 @@ class DiscreteAllocationInput:
         weights = _to_series(self.weights, "weights").astype(float)
         latest_prices = _to_series(self.latest_prices, "latest_prices").astype(float)
 
+        if weights.index.has_duplicates or latest_prices.index.has_duplicates:
+            raise ValueError("`weights` and `latest_prices` must not repeat an asset.")
+        if not np.isfinite(weights.to_numpy()).all():
+            raise ValueError("`weights` must be finite.")
+
         missing_prices = set(weights.index) - set(latest_prices.index)
         if missing_prices:
             missing_str = ", ".join(sorted(missing_prices))
@@ -111,6 +116,8 @@ class DiscreteAllocationInput:
         latest_prices = latest_prices.reindex(weights.index)
         if (latest_prices <= 0).any():
             raise ValueError("All latest prices must be strictly positive.")
+        if not np.isfinite(latest_prices.to_numpy()).all():
+            raise ValueError("All latest prices must be finite.")
 
         if self.total_value <= 0:
             raise ValueError("`total_value` must be positive.")
-- 
2.43.0


From 22bf248ba55c98e85c8fbee3a3b13e6a4d66ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 21/65] fix: ensembles reject selections that cover different
 assets

---
 pyvallocation/ensembles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 90f29a5..2c4d828 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -556,6 +556,9 @@ def assemble_portfolio_ensemble(
 
     if ensemble_names:
         if combine_mode == "selected":
+            # Aligning selections with different labels leaves gaps.
+            if not np.isfinite(selection_df.to_numpy(dtype=float)).all():
+                raise ValueError("Selected portfolios must be finite and cover the same assets.")
             total_portfolios = selection_df.shape[1]
             folds = _determine_stack_folds(stack_folds, total_portfolios)
             for entry in ensemble_names:
-- 
2.43.0


From 3cfaa64982b63b6da60042e9a12efff0895eeb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 22/65] fix: robust Cholesky rejects non-finite matrices
 instead of returning a NaN factor

---
 pyvallocation/bayesian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index 392d28e..e08a58a 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -69,13 +69,15 @@ def _cholesky_pd(
         The lower Cholesky factor of `mat` (or `mat` + `jitter` * I).
 
     Raises:
-        ValueError: If `mat` is not a square matrix.
+        ValueError: If `mat` is not a square matrix or is not finite.
         RuntimeError: If the matrix is not positive-definite even after
             adding jitter.
     """
     mat = np.asarray(mat, dtype=float)
     if mat.ndim != 2 or mat.shape[0] != mat.shape[1]:
         raise ValueError("Input to _cholesky_pd must be a square matrix.")
+    if not np.all(np.isfinite(mat)):
+        raise ValueError("Input to _cholesky_pd contains NaN or Inf values.")
     if not np.allclose(mat, mat.T, rtol=1e-8, atol=1e-10):
         warnings.warn(
             "Input matrix is not symmetric (max asymmetry: "
-- 
2.43.0


From afb0771bb302a2ee075c0a56a4b438684229e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 23/65] fix: ensure_psd_matrix never adds a positive smallest
 eigenvalue to the diagonal

---
 pyvallocation/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/validation.py b/pyvallocation/utils/validation.py
index af2289c..ec16352 100644
--- a/pyvallocation/utils/validation.py
+++ b/pyvallocation/utils/validation.py
@@ -54,7 +54,7 @@ def ensure_psd_matrix(matrix: np.ndarray, jitter: float = 1e-8) -> np.ndarray:
         logger.warning(
             f"Matrix still not PSD after initial jittering with k={k}. Attempting larger jitter."
         )
-        psd_matrix = matrix + (np.abs(min_eig) + 1e-6) * np.eye(matrix.shape[0])
+        psd_matrix = matrix + (max(0, -min_eig) + 1e-6) * np.eye(matrix.shape[0])
         if not is_psd(psd_matrix, tolerance=jitter):
             raise ValueError(
                 "Failed to make matrix PSD even with increased jitter. Input matrix might be severely ill-conditioned."
-- 
2.43.0


From e797624a1f33fb1e67138f1db71c1d5f0b7d6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:06 +0000
Subject: [PATCH 24/65] fix: is_psd rejects infinite entries

---
 pyvallocation/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/utils/validation.py b/pyvallocation/utils/validation.py
index ec16352..c8e1904 100644
--- a/pyvallocation/utils/validation.py
+++ b/pyvallocation/utils/validation.py
@@ -18,7 +18,7 @@ def is_psd(matrix: np.ndarray, tolerance: float = 1e-8) -> bool:
     """
     if matrix.ndim != 2 or matrix.shape[0] != matrix.shape[1]:
         raise ValueError("Input matrix must be a square 2D NumPy array.")
-    if not np.allclose(matrix, matrix.T, atol=tolerance):
+    if not np.all(np.isfinite(matrix)) or not np.allclose(matrix, matrix.T, atol=tolerance):
         return False
     try:
         eigenvalues = la.eigvalsh(matrix)
-- 
2.43.0


From a2b30c857e1ad1c5cceb06885c2d128e3b6a68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 25/65] fix: NIWPosterior keeps its own copies of the prior and
 the posterior

---
 pyvallocation/bayesian.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index e08a58a..b66fb30 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -256,7 +256,7 @@ class NIWPosterior:
             self._asset_index = prior_mu.index.copy()
             self.prior_mu: npt.NDArray[np.floating] = prior_mu.values.astype(float)
         else:
-            self.prior_mu = np.asarray(prior_mu, dtype=float)
+            self.prior_mu = np.array(prior_mu, dtype=float)
 
         if self.prior_mu.ndim != 1:
             raise ValueError("`prior_mu` must be a 1D array or pandas.Series.")
@@ -275,7 +275,7 @@ class NIWPosterior:
                     raise ValueError("Index/columns of prior_sigma must match index of prior_mu.")
             self.prior_sigma: npt.NDArray[np.floating] = prior_sigma.values.astype(float)
         else:
-            self.prior_sigma = np.asarray(prior_sigma, dtype=float)
+            self.prior_sigma = np.array(prior_sigma, dtype=float)
 
         if self.prior_sigma.ndim != 2 or self.prior_sigma.shape != (self.N, self.N):
             raise ValueError(f"`prior_sigma` must be a square matrix of shape ({self.N}, {self.N}), or a pandas.DataFrame with matching index/columns.")
@@ -397,8 +397,9 @@ class NIWPosterior:
         mu1 = self._wrap_vector(mu1_array)
         sigma1 = self._wrap_matrix(sigma1_array)
 
+        params = NIWParams(T1=T1, mu1=mu1.copy(), nu1=nu1, sigma1=sigma1.copy())
         self._posterior = NIWParams(T1=T1, mu1=mu1, nu1=nu1, sigma1=sigma1)
-        return self._posterior
+        return params
 
     def get_mu_ce(self) -> Union[npt.NDArray[np.floating], "pd.Series[np.floating]"]:
         r"""Computes the classical-equivalent estimator for the mean, :math:`\hat{\mu}_{ce}`.
@@ -419,7 +420,7 @@ class NIWPosterior:
         """
         if self._posterior is None:
             raise RuntimeError("Posterior parameters not computed. Call `update()` first.")
-        return self._wrap_vector(np.asarray(self._posterior.mu1, dtype=float).ravel())
+        return self._wrap_vector(np.array(self._posterior.mu1, dtype=float).ravel())
 
     def get_S_mu(self) -> Union[npt.NDArray[np.floating], "pd.DataFrame[np.floating]"]:
         r"""Computes the scatter matrix :math:`S_{\mu}` for the posterior of :math:`\mu`.
-- 
2.43.0


From bcb73d6941b71971e32d2219d76fa93daf93ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 26/65] fix: NIWPosterior.update rejects sample moments whose
 labels do not match the prior

---
 pyvallocation/bayesian.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvallocation/bayesian.py b/pyvallocation/bayesian.py
index b66fb30..fe5bd3b 100644
--- a/pyvallocation/bayesian.py
+++ b/pyvallocation/bayesian.py
@@ -354,6 +354,8 @@ class NIWPosterior:
 
         # Convert pandas inputs if present
         if isinstance(sample_mu, pd.Series):
+            if self._asset_index is not None and not sample_mu.index.equals(self._asset_index):
+                raise ValueError("Index of sample_mu must match the prior's asset index.")
             smu = sample_mu.values.astype(float)
         else:
             smu = np.asarray(sample_mu, dtype=float)
@@ -365,6 +367,10 @@ class NIWPosterior:
             raise ValueError("`n_obs` (number of observations) must be strictly positive.")
 
         if isinstance(sample_sigma, pd.DataFrame):
+            if self._asset_index is not None and not (
+                sample_sigma.index.equals(self._asset_index) and sample_sigma.columns.equals(self._asset_index)
+            ):
+                raise ValueError("Index/columns of sample_sigma must match the prior's asset index.")
             ssigma = sample_sigma.values.astype(float)
         else:
             ssigma = np.asarray(sample_sigma, dtype=float)
-- 
2.43.0


From 5326dde4ccd1ac8275e27be318d12dd57eb6e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 27/65] fix: compose_repricers rejects per-instrument results
 of the wrong length and isolates driver slices

---
 pyvallocation/utils/projection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 41ed005..528faef 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -494,7 +494,14 @@ def compose_repricers(instruments, invariant_columns):
                 chunk = delta_y[:, col_idx[0]] if delta_y.ndim == 2 else delta_y
             else:
                 chunk = delta_y[:, col_idx]
-            pnl[:, j] = np.asarray(fn(chunk), dtype=float).ravel()
+            # Each callable owns its slice: in-place work must not reach the next one.
+            values = np.asarray(fn(chunk.copy()), dtype=float)
+            if values.ndim and values.size != n_sim:
+                raise ValueError(
+                    f"Repricing function for '{instrument_names[j]}' must return "
+                    f"{n_sim} values, got shape {values.shape}."
+                )
+            pnl[:, j] = values.ravel()
         return pnl
 
     return _combined, instrument_names
-- 
2.43.0


From 99b9f71c4942fafbfe88f1e8f2969e4e109cd11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 28/65] fix: simulate_paths neither broadcasts wrong-shaped
 repriced values nor truncates them to integers

---
 pyvallocation/utils/projection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 528faef..085af2f 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -302,9 +302,14 @@ def simulate_paths(
 
     if reprice is not None:
         # Apply repricing at each time step
-        out = np.empty_like(cumulative)
+        out = np.empty(cumulative.shape, dtype=float)
         for t in range(horizon):
-            out[:, t, :] = reprice(cumulative[:, t, :])
+            values = reprice(cumulative[:, t, :])
+            if np.shape(values) != (n_paths, N):
+                raise ValueError(
+                    f"`reprice` must return shape ({n_paths}, {N}), got {np.shape(values)}."
+                )
+            out[:, t, :] = values
         return out
 
     return cumulative
-- 
2.43.0


From 140b251c3d2ba30c722d7a1c8055808c0c27b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 29/65] fix: project_scenarios rejects repriced results with
 another number of rows and keeps pandas results

---
 pyvallocation/utils/projection.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 085af2f..d0d73c1 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -244,6 +244,20 @@ def project_scenarios(R, investment_horizon=2, p=None, n_simulations=1000,
 
     if reprice is not None:
         scenario_sums = reprice(scenario_sums)
+        if np.shape(scenario_sums)[:1] != (n_simulations,):
+            raise ValueError(
+                f"`reprice` must return one row per simulation ({n_simulations}), "
+                f"got shape {np.shape(scenario_sums)}."
+            )
+        if is_series or is_dataframe:
+            if (
+                is_dataframe
+                and isinstance(scenario_sums, pd.DataFrame)
+                and set(scenario_sums.columns) == set(R.columns)
+            ):
+                scenario_sums = scenario_sums[R.columns]
+            # Row labels are assigned below; keep the values, not their index.
+            scenario_sums = _to_numpy(scenario_sums)
 
     if is_series:
         template_ser = pd.Series(dtype=float, index=range(n_simulations), name=R.name)
-- 
2.43.0


From 01bf09627e0ba60a6d1a0217278e8411bad193aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 30/65] fix: make_repricing_fn owns the current drivers and
 rejects prices of another shape

---
 pyvallocation/utils/projection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index d0d73c1..d64fcca 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -426,12 +426,19 @@ def make_repricing_fn(pricing_fn, current_drivers: np.ndarray):
         >>> repricer = make_repricing_fn(pricing_fn, current_yield)
         >>> # repricer(delta_y) returns bond P&L scenarios
     """
-    y0 = np.asarray(current_drivers, dtype=float)
-    p0 = pricing_fn(y0)
+    y0 = np.array(current_drivers, dtype=float)
+    p0 = pricing_fn(y0.copy())
 
     def _reprice(delta_y: np.ndarray) -> np.ndarray:
         y_horizon = y0 + delta_y
-        return pricing_fn(y_horizon) - p0
+        prices = pricing_fn(y_horizon)
+        pnl = prices - p0
+        if np.shape(pnl) != np.shape(prices):
+            raise ValueError(
+                "`pricing_fn` returned incompatible shapes for the current drivers "
+                f"{np.shape(p0)} and the scenarios {np.shape(prices)}."
+            )
+        return pnl
 
     return _reprice
 
-- 
2.43.0


From 2116c046b3b3d580ec59dc40a587bff659fd70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 31/65] fix: stress_test hands its transform a copy of the
 caller's scenarios

---
 pyvallocation/stress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index a073219..4339988 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -204,7 +204,7 @@ def stress_test(
 
     stressed_R = R_arr
     if transform is not None:
-        stressed_R = np.asarray(transform(R_arr), dtype=float)
+        stressed_R = np.asarray(transform(R_arr.copy()), dtype=float)
         if stressed_R.shape != R_arr.shape:
             raise ValueError("`transform` must return an array with the same shape as `scenarios`.")
         if not np.all(np.isfinite(stressed_R)):
-- 
2.43.0


From ef76fd637a8e58434756aa5a9c6b36f14264c9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 32/65] fix: stress_invariants aligns labelled weights with the
 instruments when views are given

---
 pyvallocation/stress.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 4339988..187e748 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -528,7 +528,8 @@ def stress_invariants(
             ens = compute_effective_number_scenarios(p)
             return mean_r, stdev_r, var_r, cvar_r, ens
 
-        w_arr = np.asarray(weights, float).ravel() if not isinstance(weights, pd.Series) else weights.values
+        asset_names = list(pnl_df.columns) if isinstance(pnl_df, pd.DataFrame) else None
+        w_arr = _align_weights(weights, asset_names)[0].ravel()
         m_n = _metrics(pnl_nom, nom_probs, w_arr)
         m_s = _metrics(pnl_stressed, stressed_probs, w_arr)
         ci = int(round(confidence * 100))
-- 
2.43.0


From e9807e40255e8e26e2b5cc7bf3179003e1d84a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 33/65] fix: drawdown_quantile aligns labelled weights with the
 invariant columns

---
 pyvallocation/utils/performance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyvallocation/utils/performance.py b/pyvallocation/utils/performance.py
index e5d1fab..66394e9 100644
--- a/pyvallocation/utils/performance.py
+++ b/pyvallocation/utils/performance.py
@@ -294,6 +294,11 @@ def drawdown_quantile(
     if reprice is None:
         reprice = _reprice_exp
 
+    if isinstance(weights, pd.Series) and isinstance(invariants, pd.DataFrame):
+        if list(weights.index) != list(invariants.columns):
+            weights = weights.reindex(invariants.columns)
+            if weights.isna().any():
+                raise ValueError("Weight labels do not match invariant columns.")
     w = np.asarray(weights, dtype=float).ravel()
     paths = simulate_paths(
         invariants, horizon=horizon, n_paths=n_paths,
-- 
2.43.0


From 689e9272cc13638cf1bbe5278d13331973f03ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 34/65] fix: view processing hands distribution_fn its own copy
 of the prior mean

---
 pyvallocation/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 1c916a3..27edb93 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -601,9 +601,9 @@ class FlexibleViewsProcessor:
                     except TypeError:
                         takes_rng = False
                 if takes_rng:
-                    self.R = distribution_fn(mu, cov, num_scenarios, rng)
+                    self.R = distribution_fn(mu.copy(), cov, num_scenarios, rng)
                 else:
-                    self.R = distribution_fn(mu, cov, num_scenarios)
+                    self.R = distribution_fn(mu.copy(), cov, num_scenarios)
 
             self.R = np.atleast_2d(np.asarray(self.R, float))
             if self.R.shape != (num_scenarios, N):
-- 
2.43.0


From 227b0244f052832640302d57988f8d9e050b2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 35/65] fix: stress_invariants keeps nominal scenarios when the
 repricer reuses its output buffer

---
 pyvallocation/stress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/stress.py b/pyvallocation/stress.py
index 187e748..68594f6 100644
--- a/pyvallocation/stress.py
+++ b/pyvallocation/stress.py
@@ -486,7 +486,7 @@ def stress_invariants(
     # Nominal P&L
     pnl_nom = project_scenarios(inv_np, investment_horizon=horizon, p=p_nom,
                                 n_simulations=n_simulations, reprice=combined, seed=seed)
-    pnl_nom = np.asarray(pnl_nom, dtype=float)
+    pnl_nom = np.array(pnl_nom, dtype=float)  # own copy: reprice runs again below
 
     # Stressed P&L
     if stress_views:
-- 
2.43.0


From e8f807393cd78ff03fc7bdb09038ef12fcc9e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 36/65] fix: compose_repricers rejects a repricing function
 that returns nothing

---
 pyvallocation/utils/projection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index d64fcca..728eba6 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -521,7 +521,10 @@ def compose_repricers(instruments, invariant_columns):
             else:
                 chunk = delta_y[:, col_idx]
             # Each callable owns its slice: in-place work must not reach the next one.
-            values = np.asarray(fn(chunk.copy()), dtype=float)
+            values = fn(chunk.copy())
+            if values is None:
+                raise ValueError(f"Repricing function for '{instrument_names[j]}' returned None.")
+            values = np.asarray(values, dtype=float)
             if values.ndim and values.size != n_sim:
                 raise ValueError(
                     f"Repricing function for '{instrument_names[j]}' must return "
-- 
2.43.0


From 29a06e16e7abb307018d2cbf7278847b2090fd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 37/65] fix: repricers from make_repricing_fn reject prices
 with another number of scenarios

---
 pyvallocation/utils/projection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 728eba6..54eceee 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -433,7 +433,8 @@ def make_repricing_fn(pricing_fn, current_drivers: np.ndarray):
         y_horizon = y0 + delta_y
         prices = pricing_fn(y_horizon)
         pnl = prices - p0
-        if np.shape(pnl) != np.shape(prices):
+        rows_lost = y_horizon.ndim == 2 and np.shape(prices)[:1] != y_horizon.shape[:1]
+        if rows_lost or np.shape(pnl) != np.shape(prices):
             raise ValueError(
                 "`pricing_fn` returned incompatible shapes for the current drivers "
                 f"{np.shape(p0)} and the scenarios {np.shape(prices)}."
-- 
2.43.0


From c00efb5b9759b524054557f10bde292132e91d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 38/65] fix: view processing accepts a single risk driver

---
 pyvallocation/views.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/views.py b/pyvallocation/views.py
index 27edb93..3c79eec 100644
--- a/pyvallocation/views.py
+++ b/pyvallocation/views.py
@@ -616,7 +616,7 @@ class FlexibleViewsProcessor:
             self.p0 = np.full((S, 1), 1.0 / S)
 
         self.mu0 = (self.R.T @ self.p0).flatten()
-        self.cov0 = np.cov(self.R.T, aweights=self.p0.flatten(), bias=True)
+        self.cov0 = np.atleast_2d(np.cov(self.R.T, aweights=self.p0.flatten(), bias=True))
         self.var0 = np.diag(self.cov0)
 
         def _vec_to_dict(vec_like, name):
@@ -664,7 +664,7 @@ class FlexibleViewsProcessor:
 
         q = self.posterior_probabilities
         mu_post = (self.R.T @ q).flatten()
-        cov_post = np.cov(self.R.T, aweights=q.flatten(), bias=True)
+        cov_post = np.atleast_2d(np.cov(self.R.T, aweights=q.flatten(), bias=True))
 
         if self._use_pandas:
             self.posterior_returns = pd.Series(mu_post, index=self.assets)
-- 
2.43.0


From c18a9a602725d796f9f28ef640d7ec5caccb770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 39/65] fix: make_repricing_fn keeps the current prices when
 pricing_fn reuses its output buffer

---
 pyvallocation/utils/projection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 54eceee..6fa6add 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 from typing import Union
 
@@ -427,7 +428,7 @@ def make_repricing_fn(pricing_fn, current_drivers: np.ndarray):
         >>> # repricer(delta_y) returns bond P&L scenarios
     """
     y0 = np.array(current_drivers, dtype=float)
-    p0 = pricing_fn(y0.copy())
+    p0 = copy.copy(pricing_fn(y0.copy()))  # pricing_fn may reuse its output buffer
 
     def _reprice(delta_y: np.ndarray) -> np.ndarray:
         y_horizon = y0 + delta_y
-- 
2.43.0


From fa0ea3d01ae8b989937ff96f3ed63b2575a6cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 40/65] fix: Tyler estimator clipped weights on an absolute
 scale

The 1e-6 floor on the quadratic form was applied to returns in raw units, so
low-volatility data fell below it and the result was not a fixed point.
---
 pyvallocation/moments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 2503484..5b083c8 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -654,7 +654,9 @@ def robust_covariance_tyler(
     sample_cov = ensure_psd_matrix(sample_cov)
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
-        trace_target = 1.0
+        raise ValueError("Input `R` has no variation; robust covariance is undefined.")
+    # The weight floors below are absolute, so iterate on data of unit scale.
+    X = X / np.sqrt(trace_target)
     if isinstance(target, str):
         if target != "identity":
             raise ValueError("`target` must be 'identity' or an array-like.")
-- 
2.43.0


From d8257849422084f385ba8d91a0c8a3469cf9b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 41/65] fix: Tyler estimator hid a failed inversion and
 rejected budgets late

A non-finite pseudo-inverse became maximal weights (i.e. the sample
covariance) without any message, and max_iter < 1 raised UnboundLocalError.
---
 pyvallocation/moments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 5b083c8..cce7706 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -648,6 +648,8 @@ def robust_covariance_tyler(
         raise ValueError("Input `R` must contain at least one observation and one asset.")
     if not 0.0 <= shrinkage <= 1.0:
         raise ValueError("`shrinkage` must lie in [0, 1].")
+    if max_iter < 1:
+        raise ValueError("`max_iter` must be at least 1.")
 
     X = X - X.mean(axis=0, keepdims=True)
     sample_cov = np.cov(X, rowvar=False, ddof=1)
@@ -675,6 +677,8 @@ def robust_covariance_tyler(
             inv_cov = np.linalg.pinv(covariance)
         except np.linalg.LinAlgError as exc:
             raise ValueError("Covariance became singular during iterations.") from exc
+        if not np.all(np.isfinite(inv_cov)):
+            raise ValueError("Covariance could not be inverted during iterations.")
         quad = np.einsum("ti,ij,tj->t", X, inv_cov, X)
         quad = np.clip(quad, 1e-6, None)
         inv_quad = np.divide(
-- 
2.43.0


From 9effd77038a9e5a78cd4750c2415a8916437ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 42/65] fix: Tyler covariance understated every variance by the
 number of assets

The trace-N shape matrix was scaled by the average sample variance divided by
N once more, so N independent assets of variance v came out with v / N.
---
 pyvallocation/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index cce7706..6c4175f 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -671,7 +671,7 @@ def robust_covariance_tyler(
         target_matrix = ensure_psd_matrix(target_matrix)
     target_matrix *= N / np.trace(target_matrix)
 
-    covariance = sample_cov / trace_target * N
+    covariance = sample_cov / trace_target
     for _ in range(max_iter):
         try:
             inv_cov = np.linalg.pinv(covariance)
@@ -708,7 +708,7 @@ def robust_covariance_tyler(
             max_iter, delta / denom, tol,
         )
 
-    covariance *= trace_target / N
+    covariance *= trace_target
     covariance = 0.5 * (covariance + covariance.T)
     if ensure_psd:
         covariance = ensure_psd_matrix(covariance)
-- 
2.43.0


From dd31ea3c8689eafdcf42cb75f61ab612bde0befd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 43/65] fix: graphical lasso declared convergence far from the
 optimum

Step size and stopping thresholds are absolute, so data of another scale than
unity (daily returns, P&L) was accepted at once; very large data gave a zero
covariance.
---
 pyvallocation/moments.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 6c4175f..9f61e0c 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -800,6 +800,12 @@ def _graphical_lasso_admm(
         Tuple[np.ndarray, np.ndarray, int]: Covariance, precision, and iteration count.
     """
     p = emp_cov.shape[0]
+    # The step size and stopping thresholds are absolute, so solve on unit scale.
+    scale = np.trace(emp_cov) / p
+    if not (np.isfinite(scale) and scale > 0.0):
+        raise ValueError("Graphical lasso needs data with finite, positive variance.")
+    emp_cov = emp_cov / scale
+    alpha = alpha / scale
     Theta = np.linalg.inv(emp_cov + alpha * np.eye(p))
     Z = Theta.copy()
     U = np.zeros_like(emp_cov)
@@ -838,7 +844,7 @@ def _graphical_lasso_admm(
     except np.linalg.LinAlgError:
         covariance = np.linalg.pinv(precision)
     covariance = ensure_psd_matrix(covariance)
-    return covariance, precision, iteration
+    return covariance * scale, precision / scale, iteration
 
 
 def sparse_precision_glasso(
-- 
2.43.0


From e225dd5e07b5085cb5c00a4de98b9b8105ac8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 44/65] fix: graphical lasso replaced non-finite values by
 zeros

NaN data or a failed eigendecomposition was turned into zeros and estimated
without any message.
---
 pyvallocation/moments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 9f61e0c..affbadd 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -817,7 +817,8 @@ def _graphical_lasso_admm(
         diag_vals = (eigvals + sqrt_term) / denom
         with np.errstate(over="ignore", under="ignore", divide="ignore", invalid="ignore"):
             Theta = (eigvecs * diag_vals) @ eigvecs.T
-        Theta = np.nan_to_num(Theta, copy=False)
+        if not np.all(np.isfinite(Theta)):
+            raise RuntimeError("Graphical lasso produced non-finite values.")
         Theta = 0.5 * (Theta + Theta.T)
 
         X = Theta + U
@@ -873,6 +874,8 @@ def sparse_precision_glasso(
         raise ValueError("Input `R` must be two-dimensional with shape (T, N).")
     if X.shape[0] < 2:
         raise ValueError("Graphical lasso requires at least two observations.")
+    if not np.all(np.isfinite(X)):
+        raise ValueError("Input `R` must contain finite values only.")
     if not assume_centered:
         X = X - X.mean(axis=0, keepdims=True)
     T = X.shape[0]
-- 
2.43.0


From eb92656e294c51366eb507064118bf1abcdd2a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 45/65] fix: OAS shrinkage replaced non-finite data by zeros

---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index affbadd..25eeef0 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -409,6 +409,8 @@ def shrink_covariance_oas(R: ArrayLike, assume_centered: bool = True) -> ArrayLi
     T, N = X.shape
     if T == 0 or N == 0:
         raise ValueError("Input `R` must contain at least one observation and one asset.")
+    if not np.all(np.isfinite(X)):
+        raise ValueError("Input `R` must contain finite values only.")
     if not assume_centered:
         X = X - X.mean(axis=0, keepdims=True)
     with np.errstate(over="ignore", under="ignore", divide="ignore", invalid="ignore"):
-- 
2.43.0


From 6e84f024e1e56f04b24b2872e3a2edffe20a8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 46/65] fix: shrinkage means hid a failed inversion

A non-finite inverse gave a NaN mean (Jorion) or full shrinkage to the target
(James-Stein) without any message.
---
 pyvallocation/moments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 25eeef0..de6ef2a 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -282,6 +282,8 @@ def shrink_mean_jorion(mu: ArrayLike, S: ArrayLike, T: int) -> ArrayLike:
     except LinAlgError as e:
         logger.error("Covariance matrix singular during inversion.")
         raise ValueError("Covariance matrix singular.") from e
+    if not np.all(np.isfinite(S_inv)):
+        raise ValueError("Covariance matrix could not be inverted.")
 
     ones = np.ones(N)
     mu_gmv = (ones @ S_inv @ mu_arr) / (ones @ S_inv @ ones)
@@ -987,6 +989,8 @@ def shrink_mean_james_stein(
     Sigma = 0.5 * (Sigma + Sigma.T)
     Sigma = ensure_psd_matrix(Sigma)
     Sigma_inv = np.linalg.pinv(Sigma, rcond=1e-12)
+    if not np.all(np.isfinite(Sigma_inv)):
+        raise ValueError("Covariance matrix could not be inverted.")
     diff = mu_arr - mu_target
     quad = float(diff.T @ (T * Sigma_inv) @ diff)
     if quad <= 0.0:
-- 
2.43.0


From c6232260981660c67bde097c9fcf09ede65a7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 47/65] fix: Huber mean said nothing when it did not converge

---
 pyvallocation/moments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index de6ef2a..9176ed8 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -1043,6 +1043,11 @@ def robust_mean_huber(
                 mu = float(mu_new)
                 break
             mu = float(mu_new)
+        else:
+            logger.warning(
+                "Huber mean of column %d did not converge in %d iterations (tol=%.2e).",
+                j, max_iter, tol,
+            )
         estimates[j] = mu
     return _wrap(estimates, _labels(R), True)
 
-- 
2.43.0


From 61b8f1774664afd3cabf5eefe6d17e06995ec829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 48/65] fix: moment estimators failed or returned a scalar for
 a single asset

---
 pyvallocation/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 9176ed8..bc6468f 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -523,7 +523,7 @@ def factor_covariance_poet(
     else:
         scale = np.ones(N, dtype=float)
     X_scaled = X_centered / scale
-    S_scaled = np.cov(X_scaled, rowvar=False, ddof=1)
+    S_scaled = np.atleast_2d(np.cov(X_scaled, rowvar=False, ddof=1))
     eigvals, eigvecs = np.linalg.eigh(S_scaled)
     order = np.argsort(eigvals)[::-1]
     eigvals = eigvals[order]
@@ -656,7 +656,7 @@ def robust_covariance_tyler(
         raise ValueError("`max_iter` must be at least 1.")
 
     X = X - X.mean(axis=0, keepdims=True)
-    sample_cov = np.cov(X, rowvar=False, ddof=1)
+    sample_cov = np.atleast_2d(np.cov(X, rowvar=False, ddof=1))
     sample_cov = ensure_psd_matrix(sample_cov)
     trace_target = np.trace(sample_cov) / max(N, 1)
     if trace_target <= 0.0:
@@ -1252,7 +1252,7 @@ def estimate_moments(
     if p is None:
         mu_sample = X.mean(axis=0)
         # Use ddof=0 (MLE) for consistency with estimate_sample_moments
-        S_sample = np.cov(X, rowvar=False, ddof=0)
+        S_sample = np.atleast_2d(np.cov(X, rowvar=False, ddof=0))
         mu_sample_wrapped = _wrap(mu_sample, labels, True)
         S_sample_wrapped = _wrap(S_sample, labels, False)
     else:
-- 
2.43.0


From 03ed23c68631f272f4e6bdfd830de7c8059aef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 49/65] fix: Ledoit-Wolf shrinkage never shrank

The intensity compared the mean of the asymptotic variances with the sum of
their diagonal, which is negative, so it was always clipped to zero (and 0 / 0
for a single asset). Use the published formulas for both targets.
---
 pyvallocation/moments.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index bc6468f..4ea47f6 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -332,7 +332,7 @@ def shrink_covariance_ledoit_wolf(
         The function calculates various components of the Ledoit-Wolf formula:
 
         *   `F`: The target matrix.
-        *   `pi_mat`, `pi_hat`, `diag_pi`, `off_pi`, `rho_hat`: Components related
+        *   `pi_mat`, `pi_hat`, `theta`, `rho_hat`: Components related
             to the estimation of the optimal shrinkage intensity.
         *   `gamma_hat`: The squared Frobenius norm of the difference between
             the sample covariance and the target matrix.
@@ -360,7 +360,7 @@ def shrink_covariance_ledoit_wolf(
     elif target == "constant_correlation":
         std = np.sqrt(np.diag(S_arr))
         corr = S_arr / np.outer(std, std)
-        r_bar = (corr.sum() - N) / (N * (N - 1))
+        r_bar = (corr.sum() - N) / (N * (N - 1)) if N > 1 else 0.0
         F = r_bar * np.outer(std, std)
         np.fill_diagonal(F, np.diag(S_arr))
     else:
@@ -369,21 +369,20 @@ def shrink_covariance_ledoit_wolf(
 
     M = X[:, :, None] * X[:, None, :]
     pi_mat = np.mean((M - S_arr) ** 2, axis=0)
-    pi_hat = np.mean(pi_mat)
-    diag_pi = np.trace(pi_mat)
-    off_pi = pi_hat - diag_pi
+    pi_hat = pi_mat.sum()
 
     if target == "identity":
-        rho_hat = diag_pi
+        # The target is estimated far more precisely than the sample covariance.
+        rho_hat = 0.0
     else:
-        rho_hat = diag_pi + ((F - np.diag(np.diag(F))).sum() / (N * (N - 1))) * off_pi
+        theta = np.einsum("ti,tij->ij", X**2 - np.diag(S_arr), M - S_arr) / T
+        np.fill_diagonal(theta, 0.0)
+        rho_hat = np.trace(pi_mat) + r_bar * (np.outer(1.0 / std, std) * theta).sum()
 
     gamma_hat = np.linalg.norm(S_arr - F, "fro") ** 2
-    kappa = (pi_hat - rho_hat) / gamma_hat
-    # For identity target: delta = kappa (Ledoit-Wolf 2004, Eq. 2).
-    # For constant_correlation target: delta = kappa / T (variant that accounts
-    # for the larger number of estimated parameters in the structured target).
-    delta = float(np.clip(kappa if target == "identity" else kappa / T, 0.0, 1.0))
+    # A sample covariance equal to the target leaves nothing to shrink.
+    kappa = (pi_hat - rho_hat) / gamma_hat if gamma_hat > 0.0 else 0.0
+    delta = float(np.clip(kappa / T, 0.0, 1.0))
 
     Sigma = ensure_psd_matrix(delta * F + (1 - delta) * S_arr)
     Sigma = (Sigma + Sigma.T) / 2
-- 
2.43.0


From 431ed7eed8da26e36be2964d7c2b5112a8da22b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:17 +0000
Subject: [PATCH 50/65] fix: graphical lasso cross-validation skipped penalties
 whose score failed

A non-finite log-determinant made the comparison false, so another penalty was
chosen without any message.
---
 pyvallocation/moments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/moments.py b/pyvallocation/moments.py
index 4ea47f6..dfe5035 100644
--- a/pyvallocation/moments.py
+++ b/pyvallocation/moments.py
@@ -925,6 +925,8 @@ def sparse_precision_glasso(
                 S_valid = np.nan_to_num(S_valid, copy=False)
                 logdet = np.linalg.slogdet(precision_cv)[1]
                 score = logdet - np.trace(S_valid @ precision_cv)
+                if not np.isfinite(score):
+                    raise RuntimeError("Graphical lasso cross-validation score is not finite.")
                 scores.append(score)
             if scores:
                 avg_score = float(np.mean(scores))
-- 
2.43.0


From 09525bebd5c5f5fb80f1c8119130ce36ec2295cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 51/65] fix: ensure_psd_matrix altered a valid matrix when its
 eigenvalues could not be computed

A failed decomposition counted as a smallest eigenvalue of zero, so the matrix
was returned with jitter added and no message; a transient failure did the same
to a matrix found valid on the second look.
---
 pyvallocation/utils/validation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyvallocation/utils/validation.py b/pyvallocation/utils/validation.py
index c8e1904..f34a324 100644
--- a/pyvallocation/utils/validation.py
+++ b/pyvallocation/utils/validation.py
@@ -42,12 +42,15 @@ def ensure_psd_matrix(matrix: np.ndarray, jitter: float = 1e-8) -> np.ndarray:
     matrix = (matrix + matrix.T) / 2.0
     if is_psd(matrix, tolerance=jitter):
         return matrix
-    min_eig = 0
     try:
         eigenvalues = la.eigvalsh(matrix)
         min_eig = np.min(eigenvalues)
-    except la.LinAlgError:
-        pass
+    except la.LinAlgError as exc:
+        raise ValueError("Failed to compute the eigenvalues needed to make the matrix PSD.") from exc
+    if not np.isfinite(min_eig):
+        raise ValueError("Failed to make matrix PSD: its eigenvalues are not finite.")
+    if min_eig >= -jitter:
+        return matrix
     k = max(0, -min_eig) + jitter
     psd_matrix = matrix + k * np.eye(matrix.shape[0])
     if not is_psd(psd_matrix, tolerance=jitter):
-- 
2.43.0


From 66f744a98a2c346a3fdc2bb44a4ba3e113801492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 52/65] fix: CVaR of a portfolio whose tail is a gain was
 reported as a loss

---
 pyvallocation/portfolioapi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 40eb604..0c9e208 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -780,8 +780,8 @@ class PortfolioWrapper:
                     if self.dist.probabilities is not None
                     else generate_uniform_probabilities(scen.shape[0])
                 )
-                alt[f"CVaR ({int(confidence*100)}%)"] = np.abs(
-                    np.asarray(portfolio_cvar(weights, scen, probs, confidence=confidence))
+                alt[f"CVaR ({int(confidence*100)}%)"] = np.asarray(
+                    portfolio_cvar(weights, scen, probs, confidence=confidence)
                 ).reshape(-1)
             except Exception as exc:  # pragma: no cover
                 logger.debug("CVaR overlay skipped: %s", exc)
@@ -1371,7 +1371,7 @@ class PortfolioWrapper:
         )
         weights = optimizer.efficient_frontier(num_portfolios)
         returns = mu_for_frontier @ weights
-        risks = np.abs(np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))).reshape(-1)
+        risks = np.asarray(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)).reshape(-1)
         raw_risks = risks.copy()
         alternate_risks: Dict[str, np.ndarray] = {}
         try:
@@ -1538,7 +1538,7 @@ class PortfolioWrapper:
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
             try:
-                alt_cvar = np.abs(np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95))).reshape(-1)
+                alt_cvar = np.asarray(portfolio_cvar(weights_arr, scen, probs, confidence=0.95)).reshape(-1)
                 alternate_risks["CVaR (95%)"] = alt_cvar
             except Exception as exc:  # pragma: no cover
                 logger.debug("Unable to compute CVaR overlay for robust frontier: %s", exc)
@@ -1664,7 +1664,7 @@ class PortfolioWrapper:
             ) from e
 
         actual_return = mu_for_cvar @ weights
-        risk = float(np.abs(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha)))
+        risk = float(portfolio_cvar(weights, scenarios, probs, confidence=1.0 - alpha))
 
         w_series = pd.Series(weights, index=self.dist.asset_names, name=f"CVaR Portfolio (Return >= {return_target:.4f})")
 
-- 
2.43.0


From 9055987d8a89d7ca0ca5c38dbc1bf2853d0920cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 53/65] fix: a NaN risk percentile selected the first portfolio

---
 pyvallocation/portfolioapi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 0c9e208..93c85ad 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -600,7 +600,7 @@ class PortfolioFrontier:
             if pct > 100.0:
                 raise ValueError("`percentile` must be within [0, 1] or [0, 100].")
             pct /= 100.0
-        if pct < 0.0 or pct > 1.0:
+        if not 0.0 <= pct <= 1.0:
             raise ValueError("`percentile` must be within [0, 1] or [0, 100].")
         return pct
 
-- 
2.43.0


From 60d69fd24f41c8009e4c8c1b4fdb19dcd1534751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 54/65] fix: a frontier accepted metadata that does not match
 its portfolios

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 93c85ad..648be0b 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -281,6 +281,8 @@ class PortfolioFrontier:
         for label, arr in (self.alternate_risks or {}).items():
             if arr.shape[0] != M:
                 raise ValueError(f"alternate_risks['{label}'] has {arr.shape[0]} entries but frontier has {M}.")
+        if self.metadata and len(self.metadata) != M:
+            raise ValueError(f"metadata has {len(self.metadata)} entries but frontier has {M}.")
 
     def __repr__(self):
         N, M = self.weights.shape
-- 
2.43.0


From 4e0d380661751b6a894bb68f04cb319bfdef30ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 55/65] fix: convexity correction flattened CVaR frontiers of
 small returns

---
 pyvallocation/portfolioapi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 648be0b..56716c9 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1397,6 +1397,7 @@ class PortfolioWrapper:
 
             # 2) convexify via lower convex envelope in (return, risk)
             def _lower_convex_envelope(x: np.ndarray, y: np.ndarray, eps: float = 1e-12) -> np.ndarray:
+                eps = eps * float(np.ptp(x)) * float(np.ptp(y))
                 idx_stack: list[int] = []
                 for i in range(len(x)):
                     while len(idx_stack) >= 2:
-- 
2.43.0


From 894b6a7f33e55cff15485df0f95bf725913ff293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 56/65] fix: volatility overlay of a robust posterior frontier
 was in log space

---
 pyvallocation/portfolioapi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 56716c9..4daa4c5 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1509,7 +1509,7 @@ class PortfolioWrapper:
 
         alternate_risks: Dict[str, np.ndarray] = {}
         if return_cov is None and self._uncertainty_cov is not None:
-            return_cov = self.dist.cov  # Sigma_ce lives in dist.cov after from_robust_posterior
+            _, return_cov = self._report_mu_cov()  # Sigma_ce lives in dist.cov after from_robust_posterior
         if return_cov is not None:
             try:
                 cov_ref = return_cov
-- 
2.43.0


From e114630da625b067c71ac29feabf7f662cc451ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 57/65] fix: robust frontier kept a partly NaN volatility
 overlay

---
 pyvallocation/portfolioapi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 4daa4c5..63025b8 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1522,6 +1522,8 @@ class PortfolioWrapper:
                 if cov_ref.shape != (weights_arr.shape[0], weights_arr.shape[0]):
                     raise ValueError("`return_cov` must be a square matrix matching asset count.")
                 vols = np.sqrt(np.sum((weights_arr.T @ cov_ref) * weights_arr.T, axis=1))
+                if not np.all(np.isfinite(vols)):
+                    raise ValueError("`return_cov` does not give a finite volatility for every portfolio.")
                 alternate_risks["Volatility"] = vols
             except Exception as exc:  # pragma: no cover - defensive
                 logger.debug("Unable to compute volatility overlay for robust frontier: %s", exc)
-- 
2.43.0


From 2e7da60d92efeff4c77a3c38ed66704a3f8b3136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 58/65] fix: a NaN risk-free rate or target risk selected the
 first portfolio

---
 pyvallocation/portfolioapi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 63025b8..796349f 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -459,6 +459,8 @@ class PortfolioFrontier:
                 -   **returns** (float): The expected return of the tangency portfolio.
                 -   **risk** (float): The risk of the tangency portfolio.
         """
+        if not np.isfinite(risk_free_rate):
+            raise ValueError("`risk_free_rate` must be finite.")
         if np.all(np.isclose(self.risks, 0)):
             raise InfeasibleOptimizationError(
                 "All portfolios on the frontier have zero risk. Sharpe ratio is undefined."
@@ -563,6 +565,8 @@ class PortfolioFrontier:
         Useful for aligning risk levels across frontiers built with different
         models.
         """
+        if not np.isfinite(target_risk):
+            raise ValueError("`target_risk` must be finite.")
         risks = self._risk_vector(risk_label)
         idx = int(np.argmin(np.abs(risks - target_risk)))
         w = self.weights[:, idx]
-- 
2.43.0


From 32a257f4261b74b779859a8289ae0005fb75e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 59/65] fix: mean-variance portfolios were far from optimal for
 small returns

---
 pyvallocation/optimization.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index f7df035..c898069 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -411,7 +411,10 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         P, q = 2 * self._cov, np.zeros(self._I)
         if initial_weights is not None and market_impact_costs is not None:
             P, q = _quadratic_turnover(P, q, initial_weights, market_impact_costs)
-        self._P, self._q = matrix(P), matrix(q)
+        # The solver's tolerances are absolute: pose the problem in units of order one.
+        scale = float(np.mean(np.abs(np.diag(P)))) or 1.0
+        self._P, self._q = matrix(P / scale), matrix(q / scale)
+        self._return_scale = float(np.max(np.abs(self._mean))) or 1.0
         self._finalise_expected_row(0)
 
     # ---------------------------------------------------------------- #
@@ -426,10 +429,9 @@ class MeanVariance(_FrontierMixin, _BaseOptimization):
         """
         G, h = self._G, self._h
         if return_target is not None:
-            G = self._expected_row if G is None else matrix([G, self._expected_row])
-            h = matrix([-return_target]) if h is None else matrix(
-                np.append(np.asarray(h).ravel(), -return_target)
-            )
+            row, bound = self._expected_row / self._return_scale, -return_target / self._return_scale
+            G = row if G is None else matrix([G, row])
+            h = matrix([bound]) if h is None else matrix(np.append(np.asarray(h).ravel(), bound))
         sol = _solve_qp(self._P, self._q, G, h, self._A, self._b)
         if sol["status"] != "optimal":  # scale-adaptive ridge regularisation fallback
             P_np = np.asarray(self._P)
-- 
2.43.0


From 7d8bdad103f4a82423982d4f3aca4afff62e0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 60/65] fix: robust portfolios were inaccurate for small
 returns

---
 pyvallocation/optimization.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index c898069..c074eb9 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -883,14 +883,16 @@ class RobustOptimizer(_BaseOptimization):
         n_vars = n + 1 + extra            #  w | t | (u^+,u^-)
         penalty = kw.get("lam", kw.get("gamma_mu"))
 
+        # The solver's tolerances are absolute: express returns and risk in units of order one.
+        scale = float(max(np.max(np.abs(self._mean)), np.max(np.abs(self._s_sqrt)))) or 1.0
         c = np.hstack(
-            (-self._mean, penalty, *((self._costs, self._costs) if self._has_costs else ()))
-        )
+            (-self._mean, penalty * scale, *((self._costs, self._costs) if self._has_costs else ()))
+        ) / scale
 
         # --- SOC:  ||S^{1/2}w||_2 <= t  ------------------------------- #
         G_soc = np.zeros((n + 1, n_vars))
         G_soc[0, n] = -1
-        G_soc[1:, :n] = -self._s_sqrt.T  # S = L L', so ||L'w||^2 = w'Sw
+        G_soc[1:, :n] = -self._s_sqrt.T / scale  # S = L L', so ||L'w||^2 = w'Sw
         h_soc = np.zeros(n + 1)
 
         # --- linear inequalities ----------------------------------- #
@@ -919,7 +921,7 @@ class RobustOptimizer(_BaseOptimization):
         # optional *gamma_sigma_sq* translates to an upper bound on *t*
         if "gamma_sigma_sq" in kw:
             G_lin = np.vstack([G_lin, np.eye(1, n_vars, n)])
-            h_lin = np.hstack([h_lin, np.sqrt(kw["gamma_sigma_sq"])])
+            h_lin = np.hstack([h_lin, np.sqrt(kw["gamma_sigma_sq"]) / scale])
 
         # --- equalities -------------------------------------------- #
         if self._has_costs:
-- 
2.43.0


From 1554985c53336c255c3a73360c401b8336a782ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 61/65] fix: relaxed risk parity broke down for small returns

---
 pyvallocation/optimization.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index c074eb9..b5a15ac 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -1086,6 +1086,10 @@ class RelaxedRiskParity(_BaseOptimization):
             if min_target is not None and target_used is not None:
                 target_used = max(target_used, min_target)
 
+        # The solver's tolerances are absolute: express risk and returns in units of order one.
+        scale = float(np.sqrt(np.mean(self._theta_sqrt ** 2))) or 1.0
+        mean_scale = float(np.max(np.abs(self._mean))) or 1.0
+
         c = np.zeros(n_vars, dtype=float)
         c[psi_idx] = 1.0
         c[gamma_idx] = -1.0
@@ -1096,7 +1100,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         A_rows.append(
             np.hstack(
-                (-self._cov, np.eye(n, dtype=float), np.zeros((n, 4), dtype=float))
+                (-self._cov / scale**2, np.eye(n, dtype=float), np.zeros((n, 4), dtype=float))
             )
         )
         b_rows.append(np.zeros(n, dtype=float))
@@ -1154,9 +1158,9 @@ class RelaxedRiskParity(_BaseOptimization):
 
         if target_used is not None:
             G_ret = np.zeros((1, n_vars), dtype=float)
-            G_ret[0, x_slice] = -self._mean
+            G_ret[0, x_slice] = -self._mean / mean_scale
             G_blocks.append(G_ret)
-            h_blocks.append(np.array([-target_used], dtype=float))
+            h_blocks.append(np.array([-target_used / mean_scale], dtype=float))
 
         if G_blocks:
             G_lin = np.vstack(G_blocks)
@@ -1172,7 +1176,7 @@ class RelaxedRiskParity(_BaseOptimization):
 
         G1 = np.zeros((n + 1, n_vars), dtype=float)
         G1[0, q_idx] = -1.0
-        G1[1:, x_slice] = -self._chol.T  # cov = L L', so ||L'x||^2 = x'cov x
+        G1[1:, x_slice] = -self._chol.T / scale  # cov = L L', so ||L'x||^2 = x'cov x
         G_soc_all.append(G1)
         h_soc_all.append(np.zeros(n + 1, dtype=float))
         soc_dims.append(n + 1)
@@ -1189,7 +1193,7 @@ class RelaxedRiskParity(_BaseOptimization):
         if lambda_reg > 0.0:
             G3 = np.zeros((n + 1, n_vars), dtype=float)
             G3[0, rho_idx] = -1.0
-            coeffs = np.diag(np.sqrt(lambda_reg) * self._theta_sqrt, k=0)
+            coeffs = np.diag(np.sqrt(lambda_reg) * self._theta_sqrt / scale, k=0)
             G3[1:, x_slice] = -coeffs
             G_soc_all.append(G3)
             h_soc_all.append(np.zeros(n + 1, dtype=float))
@@ -1232,10 +1236,10 @@ class RelaxedRiskParity(_BaseOptimization):
 
         x_opt = np.asarray(sol["x"], dtype=float).ravel()
         weights = x_opt[x_slice]
-        marginal_risk = x_opt[zeta_slice]
-        psi = float(x_opt[psi_idx])
-        gamma = float(x_opt[gamma_idx])
-        rho = float(x_opt[rho_idx])
+        marginal_risk = x_opt[zeta_slice] * scale**2
+        psi = float(x_opt[psi_idx]) * scale
+        gamma = float(x_opt[gamma_idx]) * scale
+        rho = float(x_opt[rho_idx]) * scale
 
         return RelaxedRiskParityResult(
             weights=weights,
-- 
2.43.0


From a4d7de5e62d16222a09e35c5453ddc83f3df5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 62/65] fix: NaN or infinite data aborted the process or
 dropped constraints in linear programmes

---
 pyvallocation/optimization.py | 28 +++++++++++++++++++++-------
 pyvallocation/portfolioapi.py |  2 +-
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index b5a15ac..4f1cc9d 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -129,6 +129,23 @@ def _solve_qp(*args) -> dict:
         return {"status": f"numerical breakdown: {exc}"}
 
 
+def _solve_lp(c, G, h, A, b) -> dict:
+    """``cvxopt.solvers.lp`` with GLPK, refusing data GLPK cannot handle.
+
+    GLPK aborts the whole process, or silently drops entries, when the problem
+    data contain NaN or infinite values.  Only ``h`` may hold ``+inf`` (no limit).
+
+    Raises:
+        ValueError: If the problem data are not finite.
+    """
+    data = [np.asarray(m) for m in (c, G, A, b) if m is not None]
+    if h is not None:
+        data.append(np.minimum(np.asarray(h), 0.0))
+    if not all(np.all(np.isfinite(d)) for d in data):
+        raise ValueError("Linear programme data must be finite.")
+    return solvers.lp(c, G, h, A, b, solver="glpk")
+
+
 def _quadratic_turnover(
     P: np.ndarray,
     q: np.ndarray,
@@ -305,9 +322,7 @@ class _BaseOptimization(ABC):
         the current constraint set.  Used to anchor the **right end** of every
         efficient frontier.
         """
-        sol = solvers.lp(
-            self._expected_row.T, self._G, self._h, self._A, self._b, solver="glpk"
-        )
+        sol = _solve_lp(self._expected_row.T, self._G, self._h, self._A, self._b)
         self._assert_optimal(sol, "LP")
         return -sol["primal objective"]
 
@@ -680,7 +695,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             h = matrix([-return_target]) if h is None else matrix(
                 np.append(np.asarray(h).ravel(), -return_target)
             )
-        sol = solvers.lp(self._c, G, h, self._A, self._b, solver="glpk")
+        sol = _solve_lp(self._c, G, h, self._A, self._b)
         self._assert_optimal(sol, "LP")
         return np.asarray(sol["x"]).ravel()[: self._I]
 
@@ -1060,7 +1075,7 @@ class RelaxedRiskParity(_BaseOptimization):
         Solve the relaxed risk parity SOCP for a given ``lambda_reg`` and
         optional target return ``return_target``.
         """
-        if lambda_reg < 0:
+        if not lambda_reg >= 0:
             raise ValueError("`lambda_reg` must be non-negative.")
         if return_target is not None and (not np.isfinite(return_target)):
             raise ValueError("`return_target` must be a finite scalar.")
@@ -1327,13 +1342,12 @@ class RelaxedRiskParity(_BaseOptimization):
                 A_lp = np.vstack([A_user, np.ones((1, n), dtype=float)])
                 b_lp = np.append(b_user, 1.0)
 
-        sol_lp = solvers.lp(
+        sol_lp = _solve_lp(
             matrix(-self._mean),
             matrix(G_lp),
             matrix(h_lp),
             matrix(A_lp),
             matrix(b_lp),
-            solver="glpk",
         )
         self._assert_optimal(sol_lp, "LP")
         return -sol_lp["primal objective"]
diff --git a/pyvallocation/portfolioapi.py b/pyvallocation/portfolioapi.py
index 796349f..6d29b73 100644
--- a/pyvallocation/portfolioapi.py
+++ b/pyvallocation/portfolioapi.py
@@ -1887,7 +1887,7 @@ class PortfolioWrapper:
             volatility proxy (standard deviation), and diagnostic metadata for each node.
         """
         self._require_mu_cov("Relaxed risk parity frontier")
-        if lambda_reg < 0:
+        if not lambda_reg >= 0:
             raise ValueError("`lambda_reg` must be non-negative.")
         G, h, A, b, iw, mic, pc = self._resolve_constraints(constraints, costs)
 
-- 
2.43.0


From 9d7464998ae175c32755245c4341fb15d7a32c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 63/65] fix: mean-CVaR portfolios and return limits were
 inaccurate for small returns

---
 pyvallocation/optimization.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/pyvallocation/optimization.py b/pyvallocation/optimization.py
index 4f1cc9d..47ad9eb 100644
--- a/pyvallocation/optimization.py
+++ b/pyvallocation/optimization.py
@@ -322,9 +322,11 @@ class _BaseOptimization(ABC):
         the current constraint set.  Used to anchor the **right end** of every
         efficient frontier.
         """
-        sol = _solve_lp(self._expected_row.T, self._G, self._h, self._A, self._b)
+        # The solver's tolerances are absolute: pose the problem in units of order one.
+        scale = float(np.max(np.abs(self._mean))) or 1.0
+        sol = _solve_lp(self._expected_row.T / scale, self._G, self._h, self._A, self._b)
         self._assert_optimal(sol, "LP")
-        return -sol["primal objective"]
+        return -sol["primal objective"] * scale
 
 # ------------------------------------------------------------------ #
 # Frontier mix-in
@@ -616,6 +618,9 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         self._alpha = float(alpha)
         self._has_costs = initial_weights is not None and proportional_costs is not None
         super()._init_constraints(p @ R, G, h, A, b)
+        # The solver's tolerances are absolute: pose the problem in units of order one.
+        scale = float(np.max(np.abs(R))) or 1.0
+        self._return_scale = float(np.max(np.abs(self._mean))) or 1.0
 
         base_len = N + 1 + T
         extra_len = 2 * N if self._has_costs else 0
@@ -625,6 +630,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
             if self._has_costs
             else []
         )
+        turnover_cost = np.asarray(turnover_cost, dtype=float) / scale
         self._c = matrix(np.hstack((np.zeros(N), 1.0, p / alpha, turnover_cost)))
 
         # --- inequality blocks -------------------------------------- #
@@ -632,7 +638,7 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         # 1) \xi >= -R w - c
         G_blocks += [
             np.concatenate(
-                (-R, -np.ones((T, 1)), -np.eye(T), np.zeros((T, extra_len))), axis=1
+                (-R / scale, -np.ones((T, 1)), -np.eye(T), np.zeros((T, extra_len))), axis=1
             ),
             # 2) \xi >= 0
             np.concatenate(
@@ -691,10 +697,9 @@ class MeanCVaR(_FrontierMixin, _BaseOptimization):
         """
         G, h = self._G, self._h
         if return_target is not None:
-            G = self._expected_row if G is None else matrix([G, self._expected_row])
-            h = matrix([-return_target]) if h is None else matrix(
-                np.append(np.asarray(h).ravel(), -return_target)
-            )
+            row, bound = self._expected_row / self._return_scale, -return_target / self._return_scale
+            G = row if G is None else matrix([G, row])
+            h = matrix([bound]) if h is None else matrix(np.append(np.asarray(h).ravel(), bound))
         sol = _solve_lp(self._c, G, h, self._A, self._b)
         self._assert_optimal(sol, "LP")
         return np.asarray(sol["x"]).ravel()[: self._I]
@@ -1342,12 +1347,13 @@ class RelaxedRiskParity(_BaseOptimization):
                 A_lp = np.vstack([A_user, np.ones((1, n), dtype=float)])
                 b_lp = np.append(b_user, 1.0)
 
+        scale = float(np.max(np.abs(self._mean))) or 1.0
         sol_lp = _solve_lp(
-            matrix(-self._mean),
+            matrix(-self._mean / scale),
             matrix(G_lp),
             matrix(h_lp),
             matrix(A_lp),
             matrix(b_lp),
         )
         self._assert_optimal(sol_lp, "LP")
-        return -sol_lp["primal objective"]
+        return -sol_lp["primal objective"] * scale
-- 
2.43.0


From cfa195352c6c0b91fab7c76fb1d31b5863f88469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:35 +0000
Subject: [PATCH 64/65] fix: simple-return moments of small log-returns lost
 their digits

---
 pyvallocation/utils/projection.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyvallocation/utils/projection.py b/pyvallocation/utils/projection.py
index 6fa6add..af994c7 100644
--- a/pyvallocation/utils/projection.py
+++ b/pyvallocation/utils/projection.py
@@ -123,12 +123,8 @@ def log2simple(mu_g, cov_g):
 
     d = np.diag(cov_g_np)
     exp_mu = np.exp(mu_g_np + 0.5 * d)
-    mu_r_np = exp_mu - 1
-
-    cov_r_np = (
-        np.exp(mu_g_np[:, None] + mu_g_np + 0.5 * (d[:, None] + d + 2 * cov_g_np))
-        - exp_mu[:, None] * exp_mu
-    )
+    mu_r_np = np.expm1(mu_g_np + 0.5 * d)
+    cov_r_np = exp_mu[:, None] * exp_mu * np.expm1(cov_g_np)
 
     return (_wrap_vector(mu_r_np, mu_g), _wrap_matrix(cov_r_np, cov_g))
 
-- 
2.43.0


From ee25c18bf30156027d009076c09965d29d9e0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:30 +0000
Subject: [PATCH 65/65] fix: ensemble weights labelled by spec were combined by
 position for frontiers

---
 pyvallocation/ensembles.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyvallocation/ensembles.py b/pyvallocation/ensembles.py
index 2c4d828..c415e41 100644
--- a/pyvallocation/ensembles.py
+++ b/pyvallocation/ensembles.py
@@ -594,12 +594,21 @@ def assemble_portfolio_ensemble(
                 for frontier, selection in zip(frontier_list, cleaned_selections)
             )
             folds = _determine_stack_folds(stack_folds, total_portfolios)
+            frontier_weights = ensemble_weights
+            names = selection_df.columns
+            if (
+                isinstance(frontier_weights, pd.Series)
+                and frontier_weights.index.isin(names).any()
+                and not frontier_weights.index.equals(names)
+            ):
+                # Weights labelled by spec follow their labels, as they do for selected portfolios.
+                frontier_weights = normalize_weights(frontier_weights, total_portfolios, list(names))
             for entry in ensemble_names:
                 if entry == "average":
                     ensembles["average"] = average_frontiers(
                         frontier_list,
                         selections=cleaned_selections,
-                        ensemble_weights=ensemble_weights,
+                        ensemble_weights=frontier_weights,
                     )
                 elif entry == "stack":
                     ensembles["stack"] = exposure_stack_frontiers(
-- 
2.43.0

