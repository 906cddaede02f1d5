From 166a46349e85aeacbf91c7a8f801de890098b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 01/21] fix: histories shorter than the volatility warm-up
 yield no estimate instead of IndexError

---
 cvx/covariance/ewma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index a61a7c9..1d2ebae 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -244,6 +244,10 @@ def _general(
 
     beta = 1 - alpha
 
+    # no observations, no estimates
+    if len(y) == 0:
+        return
+
     # first row, important to initialize the _ewma variable
     _ewma = fct(y[0])
     yield f(k=0)
-- 
2.43.0


From 80d099265ed4c765db0ebcdefbd53ae17df6c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 02/21] fix: solve(times=...) no longer drops requested dates
 when the first ones lack a full window

---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 783aed6..23329c4 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -234,7 +234,7 @@ class _CovarianceCombination:
             "times must be consecutive"
 
             # add window - 1 previous time steps to times
-            times = list(all_available_times[zero_index - window + 1 : zero_index]) + times
+            times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times
 
         Bs = {time: np.column_stack(Lts_at_r.loc[time]) for time in times}
         prod_Bs = pd.Series({time: B.T @ B for time, B in Bs.items()})
-- 
2.43.0


From 080460cc25ecaf7d8cba1941542013f45affa187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 03/21] fix: combine experts that cover different dates over
 their common dates

---
 cvx/covariance/combination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 23329c4..f42a0b5 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -169,7 +169,8 @@ class _CovarianceCombination:
         self.__returns = returns
 
         # all those quantities don't depend on the window size
-        self.__Ls = pd.DataFrame({k: _cholesky_precision(sigma) for k, sigma in self.sigmas.items()})
+        # (only dates covered by every expert can be combined)
+        self.__Ls = pd.DataFrame({k: _cholesky_precision(sigma) for k, sigma in self.sigmas.items()}).dropna()
         self.__Ls_shifted = self.__Ls.shift(1).dropna()
         self.__nus = pd.DataFrame({key: _nu(Ls, self.means[key]) for key, Ls in self.__Ls.items()})
         self.__nus_shifted = self.__nus.shift(1).dropna()
-- 
2.43.0


From d8e7674191f957856e11c3ac667986cdbd8bce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 04/21] fix: rolling_window averages over the window (weights
 were one step ahead)

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 30c0af7..ad79da9 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -256,8 +256,8 @@ def rolling_window(returns, memory, min_periods=20):
     Sigmas[0] = np.outer(returns[0], returns[0])
 
     for t in range(1, returns.shape[0]):
-        alpha_old = 1 / min(t + 1, memory)
-        alpha_new = 1 / min(t + 2, memory)
+        alpha_old = 1 / min(t, memory)
+        alpha_new = 1 / min(t + 1, memory)
 
         if t >= memory:
             Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
-- 
2.43.0


From 7f018b034f7190eacdeeef04ea88e15f12862668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 05/21] fix: log_likelihood_sequential returns the likelihoods

---
 experiments/utils/experiment_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index ad79da9..87753fd 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -240,9 +240,11 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
         ll[t] = (
             -n / 2 * np.log(2 * np.pi)
             - 1 / 2 * np.log(det)
-            - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
+            - 1 / 2 * ((r - m).T @ Sigma_inv @ (r - m)).item()
         )
 
+    return ll
+
 
 def rolling_window(returns, memory, min_periods=20):
     min_periods = max(min_periods, 1)
-- 
2.43.0


From b9134609354cd8616ed3c93fc5870f855698975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 06/21] fix: likelihoods accept integer asset labels

---
 experiments/utils/experiment_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 87753fd..4ec0782 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -120,7 +120,7 @@ def log_likelihood_low_rank(returns, Sigmas, means=None):
         # TODO: forming the covariance matrix is bad...
         cov = low_rank.F @ (low_rank.F).T + np.diag(low_rank.d)
 
-        if not returns.loc[time].isna()[0]:
+        if not returns.loc[time].isna().iloc[0]:
             if means is not None:
                 m = means.loc[time].values.reshape(-1, 1)
             ll.append(
@@ -153,7 +153,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
 
     if r is not None:
         for time, cov in regularize_covariance(Sigmas, r=r):
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
@@ -164,7 +164,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
                 times.append(time)
     else:
         for time, cov in Sigmas.items():
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
-- 
2.43.0


From 081963bb8e3fbb370a9c7336767abc673e029422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 07/21] fix: summary table labels the PRESCIENT row correctly

---
 experiments/utils/portfolio_backtests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index bea7078..ce9a14f 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -48,7 +48,7 @@ def _create_table_helper(metrics, prescient=True):
         metric = metrics["PRESCIENT"]
         print(
             "   {} & {:.1f}\\% & {:.1f}\\% & {:.1f} & {:.0f}\\% \\\\".format(
-                name,
+                "PRESCIENT",
                 metric.mean_return * 100,
                 metric.risk * 100,
                 metric.sharpe,
-- 
2.43.0


From f6c0c010f6f1f420e617120147be0db9f8baf477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 08/21] fix: prediction scales use the half-life as a half-life

---
 experiments/utils/return_combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/return_combination.py b/experiments/utils/return_combination.py
index 96cf3b3..f8a63a4 100644
--- a/experiments/utils/return_combination.py
+++ b/experiments/utils/return_combination.py
@@ -170,7 +170,7 @@ class ReturnCombinator:
         ]
 
         variances = [
-            squared_prediction.ewm(halflife).mean().shift(1)
+            squared_prediction.ewm(halflife=halflife).mean().shift(1)
             for squared_prediction in squared_returns_predictions
         ]
 
-- 
2.43.0


From dcd8c6ace93f2ef32833e8caeb44987834e40b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 09/21] fix: Trader accepts rhos

---
 experiments/utils/trading_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 9267bbf..55d21dc 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -55,8 +55,8 @@ class Trader:
             assert list(self.returns.columns) == list(self.r_hats.columns)
 
         if rhos is not None:
-            assert list(self.returns.index) == list(self.rhos.index)
-            assert list(self.returns.columns) == list(self.rhos.columns)
+            assert list(self.returns.index) == list(rhos.index)
+            assert list(self.returns.columns) == list(rhos.columns)
 
         # Generate dataframe of standard deviations
         sigma_hats = np.array(sigma_hats)
-- 
2.43.0


From 8821aa365d2d1aef4615a1454613a94175d3cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 10/21] fix: portfolio constraints do not accumulate over
 backtests

---
 experiments/utils/trading_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 55d21dc..be7abaf 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -246,7 +246,7 @@ class Trader:
     def backtest(
         self,
         portfolio_type="min_risk",
-        cons=[],
+        cons=None,
         sigma_des=None,
         adjust_factor=1,
         additonal_cons={"short_lim": 1.6, "upper_bound": 0.15, "lower_bound": -0.1},
@@ -264,6 +264,7 @@ class Trader:
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
         self.C_speedup = C_speedup
+        cons = list(cons or [])
 
         # TODO: ugly to have this here
         if rhos is not None:
-- 
2.43.0


From dc2c8874efec706e9637a22e9858ceba23ea3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 11/21] fix: robust minimum risk portfolio uses each date's
 volatilities

---
 experiments/utils/trading_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index be7abaf..e394dbf 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -365,7 +365,9 @@ class Trader:
                     all_prob,
                     all_w,
                     all_L_inv_param,
-                    [*self.L_inv_hats.values(), all_sigma_hat_param, all_sigma_hats],
+                    [*self.L_inv_hats.values()],
+                    all_sigma_hat_param,
+                    all_sigma_hats,
                 ),
             )
             pool.close()
-- 
2.43.0


From 543eb3dd7e94971f8c3e15279ca4a89da0c48ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 12/21] fix: volatility controlled weights scale each date's
 weights

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index e394dbf..7942262 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -158,7 +158,7 @@ class Trader:
 
         sigma_r = obj
         w_cash = (1 - sigma_des / sigma_r).reshape(-1, 1)
-        ws = (1 - w_cash) * ws
+        ws = (1 - w_cash) * ws.reshape(len(ws), -1)
 
         return np.hstack([ws, w_cash])
 
-- 
2.43.0


From a94609b85617941a6f5b661c2ec4b11696da2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 13/21] fix: maximum Sharpe portfolio uses the existing
 whiteners

---
 experiments/utils/trading_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 7942262..ea235bc 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -193,7 +193,7 @@ class Trader:
         param r_hat: return
 
         """
-        L_inv_param.value = L_inv.T
+        L_inv_param.value = L_inv
         r_hat_param.value = r_hat
         prob.solve(solver="ECOS")
 
@@ -544,7 +544,7 @@ class Trader:
             prob = cp.Problem(cp.Minimize(obj), cons)
 
             # Solve problem once to speed up later solves
-            L_inv_param.value = [*self.Lt_inv_hats.values()][0].T
+            L_inv_param.value = [*self.L_inv_hats.values()][0]
             r_hat_param.value = np.ones((self.n, 1))
             prob.solve(solver="ECOS")
 
@@ -563,7 +563,7 @@ class Trader:
                     all_z,
                     all_L_inv_param,
                     all_r_hat_param,
-                    [*self.Lt_inv_hats.values()],
+                    [*self.L_inv_hats.values()],
                     all_r_hats,
                 ),
             )
-- 
2.43.0


From 25687b9e9028925d85a4a5ce2c494b365ae61e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:29 +0000
Subject: [PATCH 14/21] fix: compile the portfolio problem once instead of
 solving it, so that it can be sent to workers

---
 experiments/utils/trading_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index ea235bc..d4618d1 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -347,7 +347,7 @@ class Trader:
                 L_inv_param.value = [*self.L_inv_hats.values()][0]
                 if portfolio_type == "robust_min_risk":
                     sigma_hat_param.value = all_sigma_hats[0]
-                prob.solve()
+                prob.get_problem_data(solver=None)
 
             # solve the problem for each date
             all_w = [w for _ in range(self.T)]
@@ -513,7 +513,7 @@ class Trader:
             # Solve once for speedup later
             # Solve problem with random inputs once to speed up later solves
             L_inv_param.value = [*self.L_inv_hats.values()][0]
-            prob.solve()
+            prob.get_problem_data(solver=None)
 
             all_w = [w for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
-- 
2.43.0


From eea81dbb16ab24ee1f414770c79293b6fbe549f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 15/21] fix: cash dilution follows the requested volatility and
 the latest backtest

---
 experiments/utils/trading_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index d4618d1..542874b 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -209,7 +209,7 @@ class Trader:
         """
         Dilutes the portfolio with cash to achieve a desired volatility.
         """
-        if self.diluted:
+        if self.diluted and self.sigma_diluted in (None, sigma_des):
             print("Already trades cash...")
             return None
         ws_new = []
@@ -224,6 +224,7 @@ class Trader:
 
         self.ws_diluted = np.array(ws_new)
         self.diluted = True
+        self.sigma_diluted = sigma_des
 
     def get_risk_adj_returns(self, sigma_des=0.1):
         """
@@ -264,6 +265,8 @@ class Trader:
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
         self.C_speedup = C_speedup
+        self.diluted = False
+        self.sigma_diluted = None  # target volatility of ws_diluted
         cons = list(cons or [])
 
         # TODO: ugly to have this here
@@ -589,7 +592,7 @@ class Trader:
                 or diluted_with_cash
             ):
                 if diluted_with_cash:
-                    if not self.diluted == True:
+                    if not self.diluted or sigma_des not in (None, self.sigma_diluted):
                         assert sigma_des is not None
                         self.dilute_with_cash(sigma_des)
                     w_t = self.ws_diluted[t]
-- 
2.43.0


From 899bb1ecfa0483225496cd0375b60e7dd8eb0f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 16/21] fix: excess return metrics report the risk in the same
 units

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 542874b..d341dd0 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -650,7 +650,7 @@ class Trader:
             assert rf is not None
             excess_returns = self.rets / self.adjust_factor - rf
             mean_return = np.mean(excess_returns) * 252
-            stdev = np.std(self.rets) * np.sqrt(252)
+            stdev = np.std(self.rets / self.adjust_factor) * np.sqrt(252)
             # mean_return = (np.mean(self.rets/self.adjust_factor) - np.mean(rf))* 252
             # stdev = np.std(self.rets / self.adjust_factor-rf) * np.sqrt(252)
         else:
-- 
2.43.0


From 2f62aa31e968addf7691ab7c6ff2395fb1595141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 17/21] fix: vectorised iterated_ewma runs again (its EWMA
 helper had become a generator over dicts)

---
 experiments/utils/iterated_ewma_vec.py | 47 ++++++++++----------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 95f9da3..7625b0e 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -35,32 +35,19 @@ def get_next_ewma(EWMA, y_last, t, beta, clip_at=None, min_periods=None):
     return old_weight * EWMA + new_weight * y_last
 
 
-# def ewma(y, halflife, clip_at=None, min_periods=None):
-#     """
-#     param y: array with measurements for times t=1,2,...,T=len(y)
-#     halflife: EWMA half life
-#     param clip_at: clip y_last at  +- clip_at*EWMA (optional)
-
-#     returns: list of EWMAs for times t=2,3,...,T+1 = len(y)
-
-
-#     Note: We define EWMA_t as a function of the
-#     observations up to time t-1. This means that
-#     y = [y_1,y_2,...,y_T] (for some T), while
-#     EWMA = [EWMA_2, EWMA_3, ..., EWMA_{T+1}]
-#     This way we don't get a "look-ahead bias" in the EWMA
-#     """
-
-#     beta = np.exp(-np.log(2) / halflife)
-#     EWMAs = np.zeros_like(y)
-#     EWMAs[0] = y[0]
-#     for t in range(1, y.shape[0]):  # First EWMA is for t=2
-#         # y_last = y[t-1] # Note zero-indexing
-#         # EWMA_t = get_next_ewma(EWMA_t, y_last, t, beta, clip_at, min_periods)
-#         EWMAs[t] = get_next_ewma(EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods)
-
-#         # EWMAs.append(EWMA_t)
-#     return np.array(EWMAs)
+def _ewma_array(y, halflife, clip_at=None, min_periods=None):
+    """
+    Like ewma, for an array y with one measurement per entry of the first axis;
+    returns the array of EWMAs, starting with the first measurement
+    """
+    beta = np.exp(-np.log(2) / halflife)
+    EWMAs = np.zeros(y.shape)
+    EWMAs[0] = y[0]
+    for t in range(1, y.shape[0]):
+        EWMAs[t] = get_next_ewma(
+            EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods
+        )
+    return EWMAs
 
 
 def ewma(y, halflife, clip_at=None, min_periods=None):
@@ -218,7 +205,7 @@ def iterated_ewma(
     if mean:  # Need to remove one entry for each estimate
         min_periods_vola = max(min_periods_vola, 2)
         min_periods_cov = max(min_periods_cov, 2)
-        returns_mean = ewma(returns.values, halflife=vola_halflife)
+        returns_mean = _ewma_array(returns.values, halflife=vola_halflife)
     else:
         returns_mean = np.zeros_like(returns)
 
@@ -229,7 +216,7 @@ def iterated_ewma(
         clip_at_var = None
     realized_vars = _get_realized_vars(returns.values - returns_mean)
     D = np.sqrt(
-        ewma(
+        _ewma_array(
             realized_vars,
             halflife=vola_halflife,
             clip_at=clip_at_var,
@@ -257,13 +244,13 @@ def iterated_ewma(
 
     ### Correlation estimation
     if mean:
-        returns_adj_mean = ewma(returns_adj, halflife=cov_halflife)
+        returns_adj_mean = _ewma_array(returns_adj, halflife=cov_halflife)
     else:
         returns_adj_mean = np.zeros_like(returns_adj)
     realized_covs = _get_realized_covs(returns_adj - returns_adj_mean)
 
     # Create correlation matrix
-    R_tilde = ewma(realized_covs, halflife=cov_halflife)
+    R_tilde = _ewma_array(realized_covs, halflife=cov_halflife)
 
     # Apply min_periods_cov
     R_tilde = R_tilde[min_periods_cov - 1 :]
-- 
2.43.0


From 2390c4f3a79db2f5027367563ad0d4cda5886359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 18/21] fix: low-rank EWMA of a history shorter than the
 warm-up is empty

---
 experiments/utils/low_rank_ewma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 83e694c..164e8e9 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -219,6 +219,10 @@ def _general_low_rank(
 
     beta = 1 - alpha
 
+    # no observations, no estimates
+    if len(y) == 0:
+        return
+
     # first row, important to initialize the _ewma variable
     F_init = np.zeros((n, rank))
     F_init[:, 0] = y[0]
-- 
2.43.0


From fe877eb6982f5bbf147165128aa8d86da869c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:43 +0000
Subject: [PATCH 19/21] fix: realised measures of a date with a single intraday
 return

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 4ec0782..0e30e46 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -10,7 +10,7 @@ from experiments.utils.iterated_ewma_vec import ewma
 
 def _realized_covariance(returns):
     for time in returns.index.unique():
-        returns_temp = returns.loc[time]
+        returns_temp = returns.loc[[time]]  # a table, also for a single row
         T_temp = len(returns_temp)
 
         yield time, returns_temp.cov(ddof=0) * T_temp
@@ -29,7 +29,7 @@ def realized_ewma(returns, halflife, clip_at=None, min_periods=None):
 
 def realized_volas(returns):
     for time in returns.index.unique():
-        yield time, np.sqrt((returns.loc[time] ** 2).sum(axis=0))
+        yield time, np.sqrt((returns.loc[[time]] ** 2).sum(axis=0))
 
 
 def MSE(returns, covariances):
-- 
2.43.0


From 52ba2e2bab334a08a4be72b1bf3939ebbe5dd08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 20/21] fix: vectorised iterated EWMA of a history shorter than
 its warm-ups is empty

---
 experiments/utils/iterated_ewma_vec.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 7625b0e..0b532ec 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -205,6 +205,12 @@ def iterated_ewma(
     if mean:  # Need to remove one entry for each estimate
         min_periods_vola = max(min_periods_vola, 2)
         min_periods_cov = max(min_periods_cov, 2)
+
+    # Too few returns for any estimate
+    if len(returns) < min_periods_vola + min_periods_cov - 1:
+        return IEWMA(mean={}, covariance={}) if mean else {}
+
+    if mean:
         returns_mean = _ewma_array(returns.values, halflife=vola_halflife)
     else:
         returns_mean = np.zeros_like(returns)
-- 
2.43.0


From 382c3b7af87893570fa24ae5ce86d47dbfb30193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:36 +0000
Subject: [PATCH 21/21] fix: return combination ignores returns on dates
 without predictions

---
 experiments/utils/return_combination.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments/utils/return_combination.py b/experiments/utils/return_combination.py
index f8a63a4..3cd12a4 100644
--- a/experiments/utils/return_combination.py
+++ b/experiments/utils/return_combination.py
@@ -196,6 +196,7 @@ class ReturnCombinator:
 
         assert set(times).issubset(returns.index)
         "returns must have all predictor indices"
+        returns = returns.loc[times]
 
         # Create empty pandas dataframe to store weights
         all_weights = [
@@ -275,6 +276,7 @@ class ReturnCombinatorOld:
 
         assert set(times).issubset(returns.index)
         "returns must have all predictor indices"
+        returns = returns.loc[times]
 
         # Create empty pandas dataframe to store weights
         all_weights = np.nan * returns_predictions.iloc[self.memory :].copy()
-- 
2.43.0

