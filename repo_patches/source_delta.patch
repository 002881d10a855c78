From d6a4060d92adc603a8ebf46eea323bc10f956caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:52 +0000
Subject: [PATCH 01/17] fix: weight_bounds pairs are (lower, upper) for two
 assets as well

---
 pypfopt/base_optimizer.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index f988409..bd75767 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -211,9 +211,22 @@ class BaseConvexOptimizer(BaseOptimizer):
         :return: bounds suitable for cvxpy
         :rtype: tuple pair of np.ndarray
         """
+        # With two assets, a (lower, upper) pair has the same length as a collection of
+        # bounds: a pair of scalars/None or of arrays is always (lower, upper).
+        is_lower_upper_pair = (
+            len(test_bounds) == 2
+            and isinstance(test_bounds, (tuple, list))
+            and all(
+                b is None or np.isscalar(b) or isinstance(b, np.ndarray)
+                for b in test_bounds
+            )
+        )
+
         # If it is a collection with the right length, assume they are all bounds.
-        if len(test_bounds) == self.n_assets and not isinstance(
-            test_bounds[0], (float, int)
+        if (
+            len(test_bounds) == self.n_assets
+            and not is_lower_upper_pair
+            and not isinstance(test_bounds[0], (float, int))
         ):
             bounds = np.array(test_bounds, dtype=float)
             self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-- 
2.43.0


From 4d1063b5e6aa6da3341ebca39092cec7189d13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 02/17] fix: max_sharpe homogenises constants on either side of
 affine constraints

---
 .../efficient_frontier/efficient_frontier.py  | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index bec2fe0..64f6d3f 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -222,6 +222,32 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         else:
             return res
 
+    @staticmethod
+    def _homogenise(expression, k):
+        """
+        Helper method for the max_sharpe variable transformation: the affine expression
+        A @ w + b becomes A @ w + b * k, whichever side of a constraint it is on.
+
+        :param expression: one side of a constraint
+        :type expression: cp.Expression
+        :param k: scaling variable
+        :type k: cp.Variable
+        :return: transformed expression
+        :rtype: cp.Expression
+        """
+        if expression.is_constant():
+            return expression * k
+        variables = expression.variables()
+        values = [variable.value for variable in variables]
+        for variable in variables:
+            variable.value = np.zeros(variable.shape)
+        offset = expression.value
+        for variable, value in zip(variables, values):
+            variable.value = value
+        if offset is None or not np.any(offset):
+            return expression
+        return expression + offset * (k - 1)
+
     def max_sharpe(self, risk_free_rate=0.0):
         """
         Maximise the Sharpe Ratio. The result is also referred to as the tangency portfolio,
@@ -266,15 +292,11 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         # Must rebuild the constraints
         for constr in self._constraints:
             if isinstance(constr, cp.constraints.nonpos.Inequality):
-                # Either the first or second item is the expression
-                if isinstance(
-                    constr.args[0], cp.expressions.constants.constant.Constant
-                ):
-                    new_constraints.append(constr.args[1] >= constr.args[0] * k)
-                else:
-                    new_constraints.append(constr.args[0] <= constr.args[1] * k)
+                lhs, rhs = (self._homogenise(arg, k) for arg in constr.args)
+                new_constraints.append(lhs <= rhs)
             elif isinstance(constr, cp.constraints.zero.Equality):
-                new_constraints.append(constr.args[0] == constr.args[1] * k)
+                lhs, rhs = (self._homogenise(arg, k) for arg in constr.args)
+                new_constraints.append(lhs == rhs)
             else:
                 raise TypeError(
                     "Please check that your constraints are in a suitable format"
-- 
2.43.0


From 9a97faa62ed05f5c05e23a088acef13868b46e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 03/17] fix: EfficientCDaR accepts expected_returns=None as
 documented

---
 pypfopt/efficient_frontier/efficient_cdar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index febd6e3..c6cf7c7 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -75,9 +75,13 @@ class EfficientCDaR(EfficientFrontier):
         :type solver_options: dict, optional
         :raises TypeError: if ``expected_returns`` is not a series, list or array
         """
+        # expected_returns is optional: the number of assets then comes from the returns
+        num_assets = (
+            returns.shape[1] if expected_returns is None else len(expected_returns)
+        )
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((len(expected_returns),) * 2),  # dummy
+            cov_matrix=np.zeros((num_assets,) * 2),  # dummy
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
-- 
2.43.0


From e9a878572b7457301dfd969da89262e7e0c8d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 04/17] fix: EfficientSemivariance subtracts the benchmark from
 the portfolio return

---
 .../efficient_semivariance.py                 | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 89d520c..465e624 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -100,6 +100,18 @@ class EfficientSemivariance(EfficientFrontier):
         self.frequency = frequency
         self._T = self.returns.shape[0]
 
+    def _scaled_returns(self):
+        """
+        Helper for the downside constraint. The benchmark is subtracted from the
+        portfolio return (not from each asset's return, which only amounts to the same
+        thing when the weights sum to one).
+
+        :return: returns and benchmark, each divided by the square root of the number of periods
+        :rtype: (np.ndarray, float)
+        """
+        scale = np.sqrt(self._T)
+        return self.returns.values / scale, self.benchmark / scale
+
     def min_volatility(self):
         raise NotImplementedError("Please use min_semivariance instead.")
 
@@ -123,8 +135,8 @@ class EfficientSemivariance(EfficientFrontier):
         for obj in self._additional_objectives:
             self._objective += obj
 
-        B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-        self.add_constraint(lambda w: B @ w - p + n == 0)
+        B, b = self._scaled_returns()
+        self.add_constraint(lambda w: B @ w - b - p + n == 0)
         self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -161,8 +173,8 @@ class EfficientSemivariance(EfficientFrontier):
             for obj in self._additional_objectives:
                 self._objective += obj
 
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B, b = self._scaled_returns()
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -200,8 +212,8 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda _: self.frequency * cp.sum(cp.square(n)) <= target_semivariance
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B, b = self._scaled_returns()
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -241,8 +253,8 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda w: cp.sum(w @ self.expected_returns) >= target_return_par
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B, b = self._scaled_returns()
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
-- 
2.43.0


From 172fc68df8dd863a1fddc41740543c56f01e0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 05/17] fix: efficient_return can be called again when the
 largest return is zero

---
 pypfopt/efficient_frontier/efficient_frontier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 64f6d3f..9faec20 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -415,7 +415,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         """
         if not isinstance(target_return, float):
             raise ValueError("target_return should be a float")
-        if not self._max_return_value:
+        if self._max_return_value is None:
             a = self.deepcopy()
             self._max_return_value = a._max_return()
         if target_return > self._max_return_value:
-- 
2.43.0


From 5ffa9c892e75daf586c63898c6bc3c82b8c979ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:02 +0000
Subject: [PATCH 06/17] fix: BlackLittermanModel.portfolio_performance reports
 the posterior return of weights set by hand

---
 pypfopt/black_litterman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index f24df06..1795c0a 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -495,6 +495,8 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
         :return: expected return, volatility, Sharpe ratio.
         :rtype: (float, float, float)
         """
+        if self.posterior_rets is None:
+            self.posterior_rets = self.bl_returns()
         if self.posterior_cov is None:
             self.posterior_cov = self.bl_cov()
         return base_optimizer.portfolio_performance(
-- 
2.43.0


From 08df7ea3b9c5855e72a8baf67e1df5518b510621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 07/17] fix: capm_return leaves the caller's market returns
 unchanged

With returns_data=True the market frame passed in had its columns renamed in place.
---
 pypfopt/expected_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index b9ab02e..a47de83 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -245,7 +245,7 @@ def capm_return(
     if returns_data:
         returns = prices.copy()
         if market_prices is not None:
-            market_returns = market_prices
+            market_returns = market_prices.copy()
     else:
         returns = returns_from_prices(prices, log_returns)
 
-- 
2.43.0


From 74d3d08742a454a5aa37048cc0895e2175c3d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 08/17] fix: BlackLittermanModel.bl_weights solves its own
 system when the covariance matrix is singular

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 1795c0a..69da84e 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -466,7 +466,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             weight_solution = np.linalg.solve(A, b)
         except np.linalg.LinAlgError as e:
             if "Singular matrix" in str(e):
-                weight_solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
+                weight_solution = np.linalg.lstsq(A, b, rcond=None)[0]
             else:
                 raise e
         raw_weights = weight_solution
-- 
2.43.0


From 078d60ee0c0a33aa80bec3eac98def7b41586be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 09/17] fix: the market prior works with a covariance matrix
 given as an array

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 69da84e..fcd8433 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -272,7 +272,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             market_prior = market_implied_prior_returns(
                 market_caps, self.risk_aversion, self._raw_cov_matrix, risk_free_rate
             )
-            self.pi = market_prior.values.reshape(-1, 1)
+            self.pi = np.asarray(market_prior).reshape(-1, 1)
         elif pi == "equal":
             self.pi = np.ones((self.n_assets, 1)) / self.n_assets
         else:
-- 
2.43.0


From 706a6754af2cfcf828c9ab82561c10fdc04da13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 10/17] fix: Idzorek view confidences given as an array must
 match the number of views

---
 pypfopt/black_litterman.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index fcd8433..b16bd4e 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -299,16 +299,16 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
                     "To use Idzorek's method, please supply a vector of percentage "
                     "confidence levels for each view."
                 )
-            if not isinstance(view_confidences, np.ndarray):
-                try:
+            try:
+                if not isinstance(view_confidences, np.ndarray):
                     view_confidences = np.array(view_confidences).reshape(-1, 1)
-                    assert view_confidences.shape[0] == self.Q.shape[0]
                     assert np.issubdtype(view_confidences.dtype, np.number)
-                except AssertionError:
-                    raise ValueError(
-                        "view_confidences should be a numpy 1D array or vector with the same length "
-                        "as the number of views."
-                    )
+                assert view_confidences.shape[0] == self.Q.shape[0]
+            except AssertionError:
+                raise ValueError(
+                    "view_confidences should be a numpy 1D array or vector with the same length "
+                    "as the number of views."
+                )
 
             self.omega = BlackLittermanModel.idzorek_method(
                 view_confidences,
-- 
2.43.0


From 1dae73dbc536c9d6beba6cd635223e4734ae4dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 11/17] fix: pair each weight with its own price in
 lp_portfolio

The linear programme took the prices in the order of the price series,
and the weights in the order of the weight dictionary.
---
 pypfopt/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index d67f911..95fea84 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -306,7 +306,7 @@ class DiscreteAllocation:
             self.allocation = self._remove_zero_positions(self.allocation)
             return self.allocation, long_leftover + short_leftover
 
-        p = self.latest_prices.values
+        p = self.latest_prices[[t for t, _ in self.weights]].values
         n = len(p)
         w = np.fromiter([i[1] for i in self.weights], dtype=float)
 
-- 
2.43.0


From cd6969ffa8fa29b81e859bef4f4b1da854fbf991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 12/17] fix: keep CVaR and CDaR figures independent of deep
 copies

A deep copy shares the optimisation variables, so solving one changed the
figure portfolio_performance reported for the other's weights.
---
 pypfopt/efficient_frontier/efficient_cdar.py | 15 +++++++++++----
 pypfopt/efficient_frontier/efficient_cvar.py | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index c6cf7c7..9c49ded 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -93,6 +93,7 @@ class EfficientCDaR(EfficientFrontier):
         self._alpha = cp.Variable()
         self._u = cp.Variable(len(self.returns) + 1)
         self._z = cp.Variable(len(self.returns))
+        self._cdar_value = None
 
     def set_weights(self, input_weights):
         raise NotImplementedError("Method not available in EfficientCDaR.")
@@ -214,6 +215,15 @@ class EfficientCDaR(EfficientFrontier):
         self.add_constraint(lambda _: self._z >= 0)
         self.add_constraint(lambda _: self._u[1:] >= 0)
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # The variables are shared with deep copies: keep the value for these weights.
+        cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
+            self._z
+        )
+        self._cdar_value = cdar.value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -229,10 +239,7 @@ class EfficientCDaR(EfficientFrontier):
             self.weights, self.expected_returns, negative=False
         )
 
-        cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._z
-        )
-        cdar_val = cdar.value
+        cdar_val = self._cdar_value
 
         if verbose:
             print("Expected annual return: {:.1f}%".format(100 * mu))
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index d456f79..b256468 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -89,6 +89,7 @@ class EfficientCVaR(EfficientFrontier):
         self._beta = self._validate_beta(beta)
         self._alpha = cp.Variable()
         self._u = cp.Variable(len(self.returns))
+        self._cvar_value = None
 
     def set_weights(self, input_weights):
         raise NotImplementedError("Method not available in EfficientCVaR.")
@@ -217,6 +218,15 @@ class EfficientCVaR(EfficientFrontier):
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # The variables are shared with deep copies: keep the value for these weights.
+        cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
+            self._u
+        )
+        self._cvar_value = cvar.value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -232,10 +242,7 @@ class EfficientCVaR(EfficientFrontier):
             self.weights, self.expected_returns, negative=False
         )
 
-        cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._u
-        )
-        cvar_val = cvar.value
+        cvar_val = self._cvar_value
 
         if verbose:
             print("Expected annual return: {:.1f}%".format(100 * mu))
-- 
2.43.0


From f9f07a999ac988aac59b55887a250952faa893d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 13/17] fix: do not plot a stale point for a parameter that
 cannot be solved

---
 pypfopt/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 54fcf48..2d8e32d 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -255,6 +255,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                     param_value
                 )
             )
+            continue
 
         ret, sigma, _ = ef.portfolio_performance()
         mus.append(ret)
-- 
2.43.0


From 32f843807c8e98386f59a0322e1efbc2e1113454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 14/17] fix: CLA binds a free asset at its bound, not at its
 previous weight

When a free weight reaches a bound, _get_matrices took its fixed weight from
the previous turning point (self.w[-1]) instead of the bound just assigned in
w, so the new weights did not sum to one and the turning point was purged.
---
 pypfopt/cla.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 910d598..92c9897 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -176,13 +176,13 @@ class CLA(base_optimizer.BaseOptimizer):
             l2 = np.dot(onesF.T, l3)
             return float(((1 - l1 + l2) * c4[i] - c1 * (bi + l3[i])) / c), bi
 
-    def _get_matrices(self, f):
+    def _get_matrices(self, f, w):
         # Slice covarF,covarFB,covarB,meanF,meanB,wF,wB
         covarF = self._reduce_matrix(self.cov_matrix, f, f)
         meanF = self._reduce_matrix(self.mean, f, [0])
         b = self._get_b(f)
         covarFB = self._reduce_matrix(self.cov_matrix, f, b)
-        wB = self._reduce_matrix(self.w[-1], b, [0])
+        wB = self._reduce_matrix(w, b, [0])
         return covarF, covarFB, meanF, wB
 
     def _get_b(self, f):
@@ -310,7 +310,7 @@ class CLA(base_optimizer.BaseOptimizer):
             # 1) case a): Bound one free weight
             l_in = None
             if len(f) > 1:
-                covarF, covarFB, meanF, wB = self._get_matrices(f)
+                covarF, covarFB, meanF, wB = self._get_matrices(f, w)
                 covarF_inv = np.linalg.inv(covarF)
                 j = 0
                 for i in f:
@@ -325,7 +325,7 @@ class CLA(base_optimizer.BaseOptimizer):
             if len(f) < self.mean.shape[0]:
                 b = self._get_b(f)
                 for i in b:
-                    covarF, covarFB, meanF, wB = self._get_matrices(f + [i])
+                    covarF, covarFB, meanF, wB = self._get_matrices(f + [i], w)
                     covarF_inv = np.linalg.inv(covarF)
                     l, bi = self._compute_lambda(
                         covarF_inv,
@@ -342,7 +342,7 @@ class CLA(base_optimizer.BaseOptimizer):
             if (l_in is None or l_in < 0) and (l_out is None or l_out < 0):
                 # 3) compute minimum variance solution
                 self.ls.append(0)
-                covarF, covarFB, meanF, wB = self._get_matrices(f)
+                covarF, covarFB, meanF, wB = self._get_matrices(f, w)
                 covarF_inv = np.linalg.inv(covarF)
                 meanF = np.zeros(meanF.shape)
             else:
@@ -354,7 +354,7 @@ class CLA(base_optimizer.BaseOptimizer):
                 else:
                     self.ls.append(l_out)
                     f.append(i_out)
-                covarF, covarFB, meanF, wB = self._get_matrices(f)
+                covarF, covarFB, meanF, wB = self._get_matrices(f, w)
                 covarF_inv = np.linalg.inv(covarF)
             # 5) compute solution vector
             wF, g = self._compute_w(covarF_inv, covarFB, meanF, wB)
-- 
2.43.0


From 0c6c45670661a048ef119a1861ef315ebd3dc973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 15/17] fix: CLA keeps whole-number weight bounds as floats, so
 weights are not truncated

---
 pypfopt/cla.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 92c9897..60a252d 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -71,17 +71,21 @@ class CLA(base_optimizer.BaseOptimizer):
         if len(weight_bounds) == len(self.mean) and not isinstance(
             weight_bounds[0], (float, int)
         ):
-            self.lB = np.array([b[0] for b in weight_bounds]).reshape(-1, 1)
-            self.uB = np.array([b[1] for b in weight_bounds]).reshape(-1, 1)
+            self.lB = np.array([b[0] for b in weight_bounds], dtype=float).reshape(-1, 1)
+            self.uB = np.array([b[1] for b in weight_bounds], dtype=float).reshape(-1, 1)
         else:
             if isinstance(weight_bounds[0], (float, int)):
                 self.lB = np.ones(self.mean.shape) * weight_bounds[0]
             else:
-                self.lB = np.array(weight_bounds[0]).reshape(self.mean.shape)
+                self.lB = np.array(weight_bounds[0], dtype=float).reshape(
+                    self.mean.shape
+                )
             if isinstance(weight_bounds[0], (float, int)):
                 self.uB = np.ones(self.mean.shape) * weight_bounds[1]
             else:
-                self.uB = np.array(weight_bounds[1]).reshape(self.mean.shape)
+                self.uB = np.array(weight_bounds[1], dtype=float).reshape(
+                    self.mean.shape
+                )
 
         self.w = []  # solution
         self.ls = []  # lambdas
-- 
2.43.0


From e90dd2a6c06f951ddc6543e6cf7a60bb466132d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 16/17] fix: CLA does not free the asset it has just bound,
 which could cycle forever

---
 pypfopt/cla.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 60a252d..6f83e5b 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -328,7 +328,10 @@ class CLA(base_optimizer.BaseOptimizer):
             l_out = None
             if len(f) < self.mean.shape[0]:
                 b = self._get_b(f)
+                f_prev = self.f[-2] if len(self.f) > 1 else []
                 for i in b:
+                    if i in f_prev:  # bound by the previous step, at the current lambda
+                        continue
                     covarF, covarFB, meanF, wB = self._get_matrices(f + [i], w)
                     covarF_inv = np.linalg.inv(covarF)
                     l, bi = self._compute_lambda(
-- 
2.43.0


From 60f7ff8e96fed8819ab6ef3d92275f584a48bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:26 +0000
Subject: [PATCH 17/17] fix: greedy_portfolio accepts prices that are whole
 numbers

---
 pypfopt/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 95fea84..d7afc6a 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -210,7 +210,7 @@ class DiscreteAllocation:
             # Calculate the equivalent continuous weights of the shares that
             # have already been bought
             current_weights = np.array(buy_prices) * np.array(shares_bought)
-            current_weights /= current_weights.sum()
+            current_weights = current_weights / current_weights.sum()
             ideal_weights = np.array([i[1] for i in self.weights])
             deficit = ideal_weights - current_weights
 
-- 
2.43.0

