From 166e21d73ffaa95921d2694ff5d62211888fc4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:27 +0000
Subject: [PATCH 01/35] fix: accept a scalar weight in batch updates of the
 inverted Gram matrix

---
 src/ondil/gram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ondil/gram.py b/src/ondil/gram.py
index f7d4c0e..820f5f6 100644
--- a/src/ondil/gram.py
+++ b/src/ondil/gram.py
@@ -225,6 +225,7 @@ def update_inverted_gram(
     if X.shape[0] == 1:
         new_gram = _update_inverted_gram(gram, X, forget=forget, w=w)
     else:
+        w = np.broadcast_to(w, X.shape[0])
         new_gram = _update_inverted_gram(
             gram, X=np.expand_dims(X[0, :], 0), forget=forget, w=w[0]
         )
-- 
2.43.0


From 1a0ba8e6060b6d67d04e0cecb190630fe324fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:34 +0000
Subject: [PATCH 02/35] fix: use the absolute response Gram for the largest
 regularisation strength

---
 src/ondil/methods/elasticnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/methods/elasticnet.py b/src/ondil/methods/elasticnet.py
index e3c9fd1..92be4c9 100644
--- a/src/ondil/methods/elasticnet.py
+++ b/src/ondil/methods/elasticnet.py
@@ -89,7 +89,7 @@ class ElasticNetPath(EstimationMethod):
     @staticmethod
     def _get_lambda_max(x_gram, y_gram, is_regularized):
         if np.all(is_regularized):
-            lambda_max = np.max(y_gram)
+            lambda_max = np.max(np.abs(y_gram))
         elif np.sum(~is_regularized) == 1:
             intercept = y_gram[~is_regularized] / np.diag(x_gram)[~is_regularized]
             lambda_max = np.max(
-- 
2.43.0


From 21ccb061f34598239ab7aef6ed952d3cb88b29f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:34 +0000
Subject: [PATCH 03/35] fix: do not overwrite the average warm start of the
 coordinate descent path

---
 src/ondil/coordinate_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/coordinate_descent.py b/src/ondil/coordinate_descent.py
index a55e57e..56042ad 100644
--- a/src/ondil/coordinate_descent.py
+++ b/src/ondil/coordinate_descent.py
@@ -140,7 +140,7 @@ def online_coordinate_descent_path(
         # Select the according start values for the next CD update
         if which_start_value == "average":
             beta = (beta_path_new[max(i - 1, 0), :] + beta_path[max(i, 0), :]) / 2
-        if which_start_value == "previous_lambda":
+        elif which_start_value == "previous_lambda":
             beta = beta_path_new[max(i - 1, 0), :]
         else:
             beta = beta_path[max(i, 0), :]
-- 
2.43.0


From 5f65584f498f23127f71d92f209c8832166493ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:34 +0000
Subject: [PATCH 04/35] fix: weight and discount the residual sum of squares of
 the linear model path

---
 src/ondil/estimators/online_linear_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 3a246b3..c1d548d 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -14,6 +14,7 @@ from sklearn.utils.validation import (
 
 from ..base import EstimationMethod, OndilEstimatorMixin
 from ..design_matrix import add_intercept
+from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
@@ -154,10 +155,9 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 y_gram=self._y_gram,
                 is_regularized=self._is_regularized,
             )
-            residuals = np.expand_dims(sample_weight, -1) * (
-                np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            )
-            self._rss = np.sum(residuals**2, axis=0)
+            residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
+            discount = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = np.sum(residuals**2 * discount[:, None], axis=0)
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
@@ -218,7 +218,10 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             )
 
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            self._rss = (1 - self.forget) * self._rss + np.sum(residuals**2, axis=0)
+            discount = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = (1 - self.forget) ** y.shape[0] * self._rss + np.sum(
+                residuals**2 * discount[:, None], axis=0
+            )
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
-- 
2.43.0


From 2cce7cd256b2033a5bd7cfe6028102b90599bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:34 +0000
Subject: [PATCH 05/35] fix: evaluate AICc for arrays of parameter counts

---
 src/ondil/information_criteria.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/information_criteria.py b/src/ondil/information_criteria.py
index 6933cd9..e411639 100644
--- a/src/ondil/information_criteria.py
+++ b/src/ondil/information_criteria.py
@@ -84,7 +84,7 @@ class InformationCriterion:
         if c == "aic":
             return - 2 * ll + p * 2 
         elif c == "aicc":
-            if n - p - 1 == 0:
+            if np.any(n - p - 1 == 0):
                 raise ValueError("Invalid inputs: n - p - 1 must not be zero for AICC calculation.")
             return - 2 * ll + p * 2 * n / ( n - p - 1)
         elif c == "bic":
-- 
2.43.0


From bdfe58845691ca7778d0f62d7600fe9df20a0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 06/35] fix: keep the working weights positive in
 distributional updates

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a2adaa9..e79775f 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1227,7 +1227,7 @@ class OnlineDistributionalRegression(
             dl1dp1 = self.distribution.dl1_dp1(y, fv_it, param=param)
             dl2dp2 = self.distribution.dl2_dp2(y, fv_it, param=param)
             wt = -(dl2dp2 / (dr * dr))
-            wt = np.clip(wt, -1e10, 1e10)
+            wt = np.clip(wt, 1e-10, 1e10)
             wv = eta + dl1dp1 / (dr * wt)
 
             if self.debug:
-- 
2.43.0


From 4634f3eebb24a5442ebfa8c0e5db5ba4aa60eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 07/35] fix: weight the global log-likelihood in the initial
 model selection

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index e79775f..bfe896d 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -498,7 +498,7 @@ class OnlineDistributionalRegression(
                 theta[:, param] = self.distribution.link_inverse(
                     prediction_path[:, i], param=param
                 )
-                ll[i] = np.sum(f * self.distribution.logpdf(y, theta))
+                ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))
 
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
-- 
2.43.0


From 24d5f7cabb44c94898867f216a7dd5fea0917cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 08/35] fix: carry the residual sum of squares of the
 distributional model consistently

---
 src/ondil/estimators/online_gamlss.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index bfe896d..a139a2a 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1182,7 +1182,7 @@ class OnlineDistributionalRegression(
 
             # Sum and mean of the weights
             self._sum_of_weights[param] = np.sum(w * wt)
-            self._mean_of_weights[param] = np.mean(w * wt)
+            self._mean_of_weights[param] = np.mean(w * wt * f)
 
             # RSS
             self._rss[param] = rss_it
@@ -1293,7 +1293,7 @@ class OnlineDistributionalRegression(
             f = init_forget_vector(self._forget[param], y.shape[0])
             prediction_it = X[param] @ beta_it.T
             residuals_it = wv - prediction_it
-            rss_it = np.sum(residuals_it**2 * wt * w * f) / np.mean(wt * w * f)
+            rss_it = np.sum(residuals_it**2 * wt * w * f)
 
             denom = online_mean_update(
                 self._mean_of_weights[param],
@@ -1371,9 +1371,7 @@ class OnlineDistributionalRegression(
         self._sum_of_weights_new[param] = (
             np.sum(w * wt) + (1 - self._forget[param]) * self._sum_of_weights[param]
         )
-        self._mean_of_weights_new[param] = (
-            self._sum_of_weights_new[param] / self.n_training_[param]
-        )
+        self._mean_of_weights_new[param] = denom
         self._it_inner[param] = it_inner
         return dv_it
 
-- 
2.43.0


From bb0d950cd311c7264d885aa7e1f8960f3be2bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 09/35] fix: do not fill missing entries into the dictionaries
 passed by the user

---
 src/ondil/estimators/online_gamlss.py | 2 ++
 src/ondil/utils.py                    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a139a2a..195949e 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -273,6 +273,7 @@ class OnlineDistributionalRegression(
 
     def _process_parameter(self, attribute: Any, default: Any, name: str) -> None:
         if isinstance(attribute, dict):
+            attribute = copy.copy(attribute)
             for p in range(self.distribution.n_params):
                 if p not in attribute.keys():
                     warnings.warn(
@@ -307,6 +308,7 @@ class OnlineDistributionalRegression(
                 for p in range(self.distribution.n_params)
             }
         else:
+            equation = copy.copy(equation)
             for p in range(self.distribution.n_params):
                 # Check that all distribution parameters are in the equation.
                 # If not, add intercept.
diff --git a/src/ondil/utils.py b/src/ondil/utils.py
index 79e80b2..85edc64 100644
--- a/src/ondil/utils.py
+++ b/src/ondil/utils.py
@@ -36,6 +36,7 @@ def handle_param_dict(
     """
     # Handle (incomplete) dictionaries of parameters.
     if isinstance(param, dict):
+        param = param.copy()
         for p in range(n_params):
             if p not in param.keys():
                 warnings.warn(
-- 
2.43.0


From 8052170f6440fd50cc7d16886abec6707d235d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 10/35] fix: order the step sizes by distribution parameter

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 195949e..3382fb8 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -635,7 +635,7 @@ class OnlineDistributionalRegression(
 
     def _make_step_size_schedule(self):
         return np.tile(
-            A=list(self._step_size.values()),
+            A=[self._step_size[p] for p in range(self.distribution.n_params)],
             reps=(self.max_it_outer, self.max_it_inner, 1),
         ).astype(float)
 
-- 
2.43.0


From dc6178d79ebb44ef28c8d2beb8776419d13178ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 11/35] fix: accept the documented per-parameter dictionaries
 in the parameter validation

---
 src/ondil/estimators/online_gamlss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 3382fb8..3c5f7f8 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -35,12 +35,12 @@ class OnlineDistributionalRegression(
     """The online/incremental GAMLSS class."""
 
     _parameter_constraints = {
-        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left")],
-        "fit_intercept": [bool],
+        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left"), dict],
+        "fit_intercept": [bool, dict],
         "scale_inputs": [bool, np.ndarray],
-        "regularize_intercept": [bool],
-        "method": [EstimationMethod, str],
-        "ic": [StrOptions({"aic", "bic", "hqc", "max"})],
+        "regularize_intercept": [bool, dict],
+        "method": [EstimationMethod, str, dict],
+        "ic": [StrOptions({"aic", "bic", "hqc", "max"}), dict],
         "distribution": [callable],
         "equation": [dict, type(None)],
         "model_selection": [StrOptions({"local_rss", "global_ll"})],
-- 
2.43.0


From 876dcf57a7da0019f4b71828f9ac34dd3c73a029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:29 +0000
Subject: [PATCH 12/35] fix: normalise the updated residual sum of squares with
 the discounted weights

---
 src/ondil/estimators/online_gamlss.py | 30 +++++++++++----------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 3c5f7f8..adecc11 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -21,7 +21,7 @@ from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
-from ..utils import calculate_effective_training_length, online_mean_update
+from ..utils import calculate_effective_training_length
 
 if HAS_PANDAS:
     import pandas as pd
@@ -558,14 +558,11 @@ class OnlineDistributionalRegression(
         n_nonzero_coef = np.count_nonzero(beta_path, axis=1)
         prediction_path = X @ beta_path.T
         if self.model_selection == "local_rss":
-            # Denominator
-            # TODO: This should go in the online mean update function.
-            denom = online_mean_update(
-                self._mean_of_weights[param],
-                wt,
-                self._forget[param],
-                self.n_observations_,
-            )
+            # Denominator: mean of the discounted weights, including the new ones
+            denom = (
+                np.sum(w * wt * f)
+                + (1 - self._forget[param]) ** y.shape[0] * self._sum_of_weights[param]
+            ) / self.n_training_[param]
             residuals = wv[:, None] - prediction_path
             rss = (
                 np.sum((residuals**2) * w[:, None] * wt[:, None] * f[:, None], axis=0)
@@ -1183,7 +1180,7 @@ class OnlineDistributionalRegression(
             self._fv[:, param] = fv_it_new[:, param]
 
             # Sum and mean of the weights
-            self._sum_of_weights[param] = np.sum(w * wt)
+            self._sum_of_weights[param] = np.sum(w * wt * f)
             self._mean_of_weights[param] = np.mean(w * wt * f)
 
             # RSS
@@ -1297,12 +1294,11 @@ class OnlineDistributionalRegression(
             residuals_it = wv - prediction_it
             rss_it = np.sum(residuals_it**2 * wt * w * f)
 
-            denom = online_mean_update(
-                self._mean_of_weights[param],
-                wt,
-                self._forget[param],
-                self.n_observations_,
+            sum_of_weights_it = (
+                np.sum(w * wt * f)
+                + (1 - self._forget[param]) ** y.shape[0] * self._sum_of_weights[param]
             )
+            denom = sum_of_weights_it / self.n_training_[param]
             sum_of_rss_it = (
                 rss_it
                 + (1 - self._forget[param]) ** y.shape[0]
@@ -1370,9 +1366,7 @@ class OnlineDistributionalRegression(
         self._model_selection_data[param] = model_selection_data_it
 
         # Update the weights
-        self._sum_of_weights_new[param] = (
-            np.sum(w * wt) + (1 - self._forget[param]) * self._sum_of_weights[param]
-        )
+        self._sum_of_weights_new[param] = sum_of_weights_it
         self._mean_of_weights_new[param] = denom
         self._it_inner[param] = it_inner
         return dv_it
-- 
2.43.0


From d6ae8aba8910b62f953a46fbbc693b56f13d35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 13/35] fix: resolve column names in the equation of the
 distributional model

---
 src/ondil/estimators/online_gamlss.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index adecc11..30596ae 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -391,6 +391,16 @@ class OnlineDistributionalRegression(
                 raise ValueError("Something unexpected happened")
         return J
 
+    def _get_column_index(self, columns: Union[np.ndarray, list]):
+        """Translate column names to the column positions seen in fit."""
+        if isinstance(columns, list) and all(isinstance(c, str) for c in columns):
+            names = list(getattr(self, "feature_names_in_", []))
+            missing = [c for c in columns if c not in names]
+            if missing:
+                raise ValueError(f"Columns {missing} of the equation are not in X.")
+            return [names.index(c) for c in columns]
+        return columns
+
     def make_model_array(self, X: Union[np.ndarray], param: int):
         eq = self._equation[param]
         n = X.shape[0]
@@ -412,7 +422,7 @@ class OnlineDistributionalRegression(
                     out = X.to_numpy()
             elif isinstance(eq, np.ndarray) | isinstance(eq, list):
                 if isinstance(X, np.ndarray):
-                    out = X[:, eq]
+                    out = X[:, self._get_column_index(eq)]
                 if HAS_PANDAS and isinstance(X, pd.DataFrame):
                     out = X.loc[:, eq]
                 if HAS_POLARS and isinstance(X, pl.DataFrame):
-- 
2.43.0


From 483dcf46cc847b785a0d9c9fbb9d9681f9ee40db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 14/35] fix: provide the median used by predict_median

---
 src/ondil/base/distribution.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index e0f8e95..3b5ede0 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -132,6 +132,17 @@ class Distribution(ABC):
         """
         return self.ppf(q, theta)
 
+    def median(self, theta: np.ndarray) -> np.ndarray:
+        """Compute the median of the distribution for the given parameters.
+
+        Args:
+            theta (np.ndarray): The parameters of the distribution.
+
+        Returns:
+            np.ndarray: An array of medians corresponding to the parameters in `theta`.
+        """
+        return self.ppf(0.5, theta)
+
     @abstractmethod
     def calculate_conditional_initial_values(
         self,
-- 
2.43.0


From 018c06db2152f0585e9099492c29d13add5a8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 15/35] fix: provide mean and row-wise random draws for the
 mixed distributions

---
 src/ondil/distributions/betainflated.py      | 8 ++++++--
 src/ondil/distributions/betainflatedzero.py  | 8 ++++++--
 src/ondil/distributions/zeroadjustedgamma.py | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 22abe2b..4860db3 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -221,8 +221,12 @@ class BetaInflated(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
+
+    def mean(self, theta):
+        mu, _, nu, tau = self.theta_to_params(theta)
+        return (mu + tau) / (1 + nu + tau)
 
     def logpdf(self, y, theta):
         mu, sigma, nu, tau = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 17126fd..9c728f7 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -181,8 +181,12 @@ class BetaInflatedZero(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
+
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return mu / (1 + nu)
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index c01aead..fc6491f 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -143,8 +143,12 @@ class ZeroAdjustedGamma(Distribution):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
     def rvs(self, size, theta):
-        sim_unif = st.uniform.rvs(size=size)
-        return self.ppf(q=sim_unif, theta=theta)
+        sim_unif = st.uniform.rvs(size=(size, theta.shape[0]))
+        return self.ppf(q=sim_unif, theta=theta).T
+
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return (1 - nu) * mu
 
     def logpdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
-- 
2.43.0


From 332a2c214ec73bc46ab77f40e7d944c7c432e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 16/35] fix: exclude zero from the support of positive
 distributions

---
 src/ondil/distributions/inversegamma.py    | 2 +-
 src/ondil/distributions/lognormal.py       | 2 +-
 src/ondil/distributions/lognormalmedian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/inversegamma.py b/src/ondil/distributions/inversegamma.py
index d957db4..1164fb6 100644
--- a/src/ondil/distributions/inversegamma.py
+++ b/src/ondil/distributions/inversegamma.py
@@ -29,7 +29,7 @@ class InverseGamma(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.invgamma
     scipy_names = {"mu": "scale", "sigma": "a"}
 
diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 9b97ebe..74d1a4e 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -37,7 +37,7 @@ class LogNormal(ScipyMixin, Distribution):
     corresponding_gamlss: str = "LOGNO"
     parameter_names = {0: "mu", 1: "sigma"}
     parameter_support = {0: (-np.inf, np.inf), 1: (np.nextafter(0, 1), np.inf)}
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
diff --git a/src/ondil/distributions/lognormalmedian.py b/src/ondil/distributions/lognormalmedian.py
index 3929d35..eda162f 100644
--- a/src/ondil/distributions/lognormalmedian.py
+++ b/src/ondil/distributions/lognormalmedian.py
@@ -28,7 +28,7 @@ class LogNormalMedian(ScipyMixin, Distribution):
         0: (np.nextafter(0, 1), np.inf),
         1: (np.nextafter(0, 1), np.inf),
     }
-    distribution_support = (0, np.inf)
+    distribution_support = (np.nextafter(0, 1), np.inf)
     scipy_dist = st.lognorm
     scipy_names = {"mu": "scale", "sigma": "s"}
 
-- 
2.43.0


From 10c7bb10021fcb19ebd3f5614b7dc7c12be7ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 17/35] fix: mixed distributions outside their support and for
 small dispersion

---
 src/ondil/distributions/betainflated.py      |  2 +-
 src/ondil/distributions/betainflatedzero.py  |  2 +-
 src/ondil/distributions/zeroadjustedgamma.py | 19 +++++++------------
 3 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 4860db3..39cf732 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -237,7 +237,7 @@ class BetaInflated(Distribution):
 
         result = np.where(
             (y < 0) | (y > 1),
-            0,
+            -np.inf,
             np.where(
                 y == 0,
                 np.log(nu) - np.log(1 + nu + tau),
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 9c728f7..22ea4f1 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -200,7 +200,7 @@ class BetaInflatedZero(Distribution):
         logfy = np.where(y == 0, np.log(nu), logfy)
         result = logfy - np.log(1 + nu)
 
-        return result
+        return np.where((y < 0) | (y >= 1), -np.inf, result)
 
     def logcdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index fc6491f..fd5c40f 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -113,7 +113,7 @@ class ZeroAdjustedGamma(Distribution):
 
         result = np.where(y == 0, nu, cont_cdf)
 
-        return result
+        return np.where(y < 0, 0.0, result)
 
     def pdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -121,14 +121,7 @@ class ZeroAdjustedGamma(Distribution):
         scale = mu * sigma**2
         pdf_gamma = st.gamma(a=shape, loc=0, scale=scale).pdf(y)
 
-        result = (
-            (1 - nu)
-            * (y / (mu * sigma**2)) ** (1 / sigma**2)
-            * (np.exp(-y / (mu * sigma**2)))
-            / (y * spc.gamma(1 / sigma**2))
-        )
-
-        return np.where(y == 0, nu, result)
+        return np.where(y == 0, nu, (1 - nu) * pdf_gamma)
 
     def ppf(self, q, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -137,7 +130,8 @@ class ZeroAdjustedGamma(Distribution):
 
         result = st.gamma(a=shape, loc=0, scale=scale).ppf((q - nu) / (1 - nu))
 
-        return np.where(q <= nu, 0, result)
+        result = np.where(q <= nu, 0, result)
+        return np.where((q < 0) | (q > 1), np.nan, result)
 
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
@@ -161,7 +155,8 @@ class ZeroAdjustedGamma(Distribution):
             - spc.gammaln(1 / sigma**2)
         )
 
-        return np.where(y == 0, np.log(nu), result)
+        result = np.where(y == 0, np.log(nu), result)
+        return np.where(y < 0, -np.inf, result)
 
     def logcdf(self, y, theta):
         mu, sigma, nu = self.theta_to_params(theta)
@@ -172,7 +167,7 @@ class ZeroAdjustedGamma(Distribution):
 
         result = np.where(y == 0, np.log(nu), cont_logcdf_gamma)
 
-        return result
+        return np.where(y < 0, -np.inf, result)
 
     def logpmf(self, y, theta):
         return super().logpmf(y, theta)
-- 
2.43.0


From a05664d402a82854d20ca389a74edb8ed424f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 18/35] fix: log-normal density and distribution function
 outside the support

---
 src/ondil/distributions/lognormal.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/ondil/distributions/lognormal.py b/src/ondil/distributions/lognormal.py
index 74d1a4e..f9993bb 100644
--- a/src/ondil/distributions/lognormal.py
+++ b/src/ondil/distributions/lognormal.py
@@ -89,23 +89,24 @@ class LogNormal(ScipyMixin, Distribution):
         initial_params = [np.mean(log_y), np.std(log_y, ddof=1)]
         return np.tile(initial_params, (y.shape[0], 1))
 
+    @staticmethod
+    def _log(y: np.ndarray) -> np.ndarray:
+        """Logarithm which maps everything below the support to minus infinity."""
+        with np.errstate(divide="ignore"):
+            return np.log(np.maximum(y, 0.0))
+
     def pdf(self, y: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
         Probability density function of the Log-Normal distribution.
         """
-        mu, sigma = self.theta_to_params(theta)
-        return (
-            1
-            / (y * sigma * np.sqrt(2 * np.pi))
-            * np.exp(-((np.log(y) - mu) ** 2) / (2 * sigma**2))
-        )
+        return np.exp(self.logpdf(y, theta))
 
     def cdf(self, y: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
         Cumulative distribution function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return st.norm.cdf((np.log(y) - mu) / sigma)
+        return st.norm.cdf((self._log(y) - mu) / sigma)
 
     def ppf(self, p: np.ndarray, theta: np.ndarray) -> np.ndarray:
         """
@@ -119,9 +120,11 @@ class LogNormal(ScipyMixin, Distribution):
         Logarithm of the probability density function of the Log-Normal distribution.
         """
         mu, sigma = self.theta_to_params(theta)
-        return np.log(1 / (y * sigma * np.sqrt(2 * np.pi))) + (
-            -((np.log(y) - mu) ** 2) / (2 * sigma**2)
-        )
+        inside = np.asarray(y) > 0
+        log_y = np.log(np.where(inside, y, 1.0))
+        logpdf = st.norm.logpdf(log_y, loc=mu, scale=sigma) - log_y
+        return np.where(inside, logpdf, -np.inf)
 
     def logcdf(self, y, theta):
-        return np.log(self.cdf(y, theta))
+        mu, sigma = self.theta_to_params(theta)
+        return st.norm.logcdf((self._log(y) - mu) / sigma)
-- 
2.43.0


From 8cf5d26208cc27d160767b78cf2bd08efc90764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 19/35] fix: avoid overflow in the derivatives of the logistic
 distribution

---
 src/ondil/distributions/logistic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ondil/distributions/logistic.py b/src/ondil/distributions/logistic.py
index ddb15a4..ddc363e 100644
--- a/src/ondil/distributions/logistic.py
+++ b/src/ondil/distributions/logistic.py
@@ -1,6 +1,7 @@
 from typing import Tuple
 
 import numpy as np
+import scipy.special as spc
 import scipy.stats as st
 
 from ..base import Distribution, LinkFunction, ScipyMixin
@@ -42,16 +43,15 @@ class Logistic(ScipyMixin, Distribution):
         self._validate_dln_dpn_inputs(y, theta, param)
         mu, sigma = self.theta_to_params(theta)
         z = (y - mu) / sigma
-        expz = np.exp(z)
 
         if param == 0:
-            return (1 / sigma) * (expz - 1) / (1 + expz)
+            return (1 / sigma) * np.tanh(z / 2)
 
         if param == 1:
             return (
                 -1 / sigma
                 - (y - mu) / sigma**2
-                + 2 * ((y - mu) / sigma**2) * expz / (1 + expz)
+                + 2 * ((y - mu) / sigma**2) * spc.expit(z)
             )
 
     def dl2_dp2(self, y: np.ndarray, theta: np.ndarray, param: int = 0) -> np.ndarray:
-- 
2.43.0


From c2c59896775ae0bdde0c7440dee9dcaa64d48d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 20/35] fix: reject derivatives for distribution parameters
 that do not exist

---
 src/ondil/base/distribution.py             | 4 ++--
 src/ondil/distributions/inversegaussian.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index 3b5ede0..59b6f24 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -80,7 +80,7 @@ class Distribution(ABC):
     def _validate_dln_dpn_inputs(
         self, y: np.ndarray, theta: np.ndarray, param: int
     ) -> None:
-        if param >= self.n_params:
+        if param < 0 or param >= self.n_params:
             raise ValueError(
                 f"{self.__class__.__name__} has only {self.n_params} distribution parameters.\nYou have passed {param}. Please remember we start counting at 0."
             )
@@ -88,7 +88,7 @@ class Distribution(ABC):
     def _validate_dl2_dpp_inputs(
         self, y: np.ndarray, theta: np.ndarray, params: Tuple[int, int]
     ) -> None:
-        if max(params) >= self.n_params:
+        if min(params) < 0 or max(params) >= self.n_params:
             raise ValueError(
                 f"{self.__class__.__name__} has only {self.n_params} distribution parameters.\nYou have passed {params}. Please remember we start counting at 0."
             )
diff --git a/src/ondil/distributions/inversegaussian.py b/src/ondil/distributions/inversegaussian.py
index a874dff..0c46b07 100644
--- a/src/ondil/distributions/inversegaussian.py
+++ b/src/ondil/distributions/inversegaussian.py
@@ -87,8 +87,7 @@ class InverseGaussian(ScipyMixin, Distribution):
     def dl2_dpp(
         self, y: np.ndarray, theta: np.ndarray, params: tuple[int, int] = (0, 1)
     ) -> np.ndarray:
-        if params[0] == params[1]:
-            raise ValueError("Cross derivatives must use different parameters.")
+        self._validate_dl2_dpp_inputs(y, theta, params)
         return np.zeros_like(y)
 
     def initial_values(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From f4fae1e0caf03205d1d1e8ac5aaa0feaa20abde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 21/35] fix: derivative of the inverse softplus link

---
 src/ondil/links/softpluslinks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/links/softpluslinks.py b/src/ondil/links/softpluslinks.py
index 7739731..3996673 100644
--- a/src/ondil/links/softpluslinks.py
+++ b/src/ondil/links/softpluslinks.py
@@ -37,7 +37,7 @@ class InverseSoftPlus(LinkFunction):
         return robust_softplus(x)
 
     def link_derivative(self, x: np.ndarray):
-        return zero_safe_division(1, (robust_exp(x) - 1) + 1)
+        return zero_safe_division(1, -np.expm1(-x))
 
     def link_second_derivative(self, x: np.ndarray):
         # return 1 / (2 - 2 * np.cosh(x)) # equivalent
-- 
2.43.0


From f8d525da99f22097592659c33e05edd735ad302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 22/35] fix: second derivative of the inverse softplus links
 for small values

---
 src/ondil/links/softpluslinks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ondil/links/softpluslinks.py b/src/ondil/links/softpluslinks.py
index 3996673..3f7039b 100644
--- a/src/ondil/links/softpluslinks.py
+++ b/src/ondil/links/softpluslinks.py
@@ -42,7 +42,7 @@ class InverseSoftPlus(LinkFunction):
     def link_second_derivative(self, x: np.ndarray):
         # return 1 / (2 - 2 * np.cosh(x)) # equivalent
         # return -1 / (np.exp(x) - 1) - 1 / (np.exp(x) - 1) ** 2
-        return zero_safe_division(1, (2 - 2 * np.cosh(x)))
+        return -np.exp(-x) / np.expm1(-x) ** 2
 
     def inverse_derivative(self, x: np.ndarray):
         return zero_safe_division(1, (robust_exp(-x) + 1))
@@ -76,7 +76,8 @@ class InverseSoftPlusShiftValue(LinkFunction):
         return zero_safe_division(1, (1 - robust_exp(self.value - x)))
 
     def link_second_derivative(self, x: np.ndarray) -> np.ndarray:
-        return zero_safe_division(1, (2 - 2 * np.cosh(self.value - x)))
+        z = x - self.value
+        return -np.exp(-z) / np.expm1(-z) ** 2
 
 
 class InverseSoftPlusShiftTwo(InverseSoftPlusShiftValue):
-- 
2.43.0


From fd7d28e691ead1d05b1ce642f5be934ccdcc6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 23/35] fix: keep the softplus positive for very negative
 predictors

---
 src/ondil/links/robust_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/links/robust_math.py b/src/ondil/links/robust_math.py
index 76327f1..4606e64 100644
--- a/src/ondil/links/robust_math.py
+++ b/src/ondil/links/robust_math.py
@@ -49,7 +49,7 @@ def robust_softplus(value):
     if value > 40:
         return value
     else:
-        return np.log(1 + np.exp(value))
+        return np.log1p(np.exp(value))
 
 
 @nb.vectorize(["float32(float32)", "float64(float64)"])
-- 
2.43.0


From 3773ece1d802e547a5c011c690132983dce8b130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 24/35] fix: implement the derivatives of the LogIdent link

---
 src/ondil/links/loglinks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/links/loglinks.py b/src/ondil/links/loglinks.py
index fccd75d..718756f 100644
--- a/src/ondil/links/loglinks.py
+++ b/src/ondil/links/loglinks.py
@@ -105,7 +105,7 @@ class LogIdent(LinkFunction):
         return np.where(x <= 0, robust_exp(x), 1)
 
     def link_derivative(self, x: np.ndarray) -> np.ndarray:
-        return super().link_derivative(x)
+        return np.where(x <= 1, 1 / x, 1.0)
 
     def link_second_derivative(self, x) -> np.ndarray:
-        return super().link_second_derivative(x)
+        return np.where(x <= 1, -1 / x**2, 0.0)
-- 
2.43.0


From a88b55f438880632d2d123ca7b902003612cb6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:43 +0000
Subject: [PATCH 25/35] fix: an estimator whose first fit was rejected does not
 count as fitted

---
 src/ondil/base/estimator.py                 |  3 +++
 src/ondil/estimators/online_gamlss.py       |  8 ++++----
 src/ondil/estimators/online_linear_model.py | 12 +++++++-----
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ondil/base/estimator.py b/src/ondil/base/estimator.py
index ed6689b..db5e53a 100644
--- a/src/ondil/base/estimator.py
+++ b/src/ondil/base/estimator.py
@@ -11,6 +11,9 @@ class OndilEstimatorMixin(ABC):
         """Has the estimator been fitted."""
         return hasattr(self, "n_observations_")
 
+    def __sklearn_is_fitted__(self) -> bool:
+        return self.is_fitted
+
     @property
     def n_samples_(self) -> int:
         check_is_fitted(self, "n_observations_")
diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 30596ae..871bd4d 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -678,11 +678,9 @@ class OnlineDistributionalRegression(
         sample_weight = _check_sample_weight(X=X, sample_weight=sample_weight)
         self._validate_inputs(X, y)
 
-        self.n_observations_ = sample_weight.sum()
+        n_observations = sample_weight.sum()
         self.n_training_ = {
-            p: calculate_effective_training_length(
-                self._forget[p], self.n_observations_
-            )
+            p: calculate_effective_training_length(self._forget[p], n_observations)
             for p in range(self.distribution.n_params)
         }
 
@@ -777,6 +775,8 @@ class OnlineDistributionalRegression(
             y=y,
             w=sample_weight,
         )
+        # Mark the estimator as fitted only after everything went well
+        self.n_observations_ = n_observations
         message = "Finished fit call"
         self._print_message(message=message, level=1)
         return self
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index c1d548d..809c329 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -117,21 +117,21 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
         _ = type_of_target(y, raise_unknown=True)
         sample_weight = _check_sample_weight(X=X, sample_weight=sample_weight)
 
-        self.n_observations_ = np.sum(sample_weight)
+        n_observations = np.sum(sample_weight)
         self.n_features_ = X.shape[1] + int(self.fit_intercept)
 
-        if self.n_observations_ <= self.n_features_ and self.method == "ols":
+        if n_observations <= self.n_features_ and self.method == "ols":
             raise ValueError(
-                f"You have tried to fit using n_samples={self.n_observations_} and n_features={self.n_features_}. "
+                f"You have tried to fit using n_samples={n_observations} and n_features={self.n_features_}. "
                 "Since we need calculate the inverse Gram matrix, we need at least as many observations as features for OLS-based methods"
             )
-        if self.n_observations_ == 1:
+        if n_observations == 1:
             raise ValueError(
                 "You have tried to fit using only one sample. This is not supported for online linear regression."
             )
 
         self.n_training_ = calculate_effective_training_length(
-            self.forget, self.n_observations_
+            self.forget, n_observations
         )
 
         self._scaler.fit(X, sample_weight=sample_weight)
@@ -171,6 +171,8 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 self._x_gram, self._y_gram, self._is_regularized
             )
 
+        # Mark the estimator as fitted only after everything went well
+        self.n_observations_ = n_observations
         return self
 
     @_fit_context(prefer_skip_nested_validation=True)
-- 
2.43.0


From caa9187eff6848c02230210e03c5082bb51265c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:43 +0000
Subject: [PATCH 26/35] fix: do not apply the initial prefit to updates

---
 src/ondil/estimators/online_gamlss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 871bd4d..0713fee 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -857,6 +857,8 @@ class OnlineDistributionalRegression(
             self._print_message(message=message, level=1)
             self._schedule_iteration[: self.prefit_update] = 1
             self._current_min_it_outer = int(self.prefit_update)
+        else:
+            self._current_min_it_outer = int(self.min_it_outer)
 
         if self.cautious_updates:
             lower = self.distribution.quantile(0.005, self._fv).item()
-- 
2.43.0


From a94be66ac96e15e5aede5392a5d7b0e98b47c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:43 +0000
Subject: [PATCH 27/35] fix: cautious updates with more than one new
 observation

---
 src/ondil/estimators/online_gamlss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 0713fee..fb0cacc 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -861,8 +861,8 @@ class OnlineDistributionalRegression(
             self._current_min_it_outer = int(self.min_it_outer)
 
         if self.cautious_updates:
-            lower = self.distribution.quantile(0.005, self._fv).item()
-            upper = self.distribution.quantile(0.995, self._fv).item()
+            lower = self.distribution.quantile(0.005, self._fv)
+            upper = self.distribution.quantile(0.995, self._fv)
 
             if np.any(y < lower) or np.any(y > upper):
                 message = (
-- 
2.43.0


From 688552d51ea619e5ec87cb9d39d5019673347c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:16 +0000
Subject: [PATCH 28/35] fix: keep the constructor arguments of the online LASSO

---
 src/ondil/estimators/online_lasso.py | 38 ++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/ondil/estimators/online_lasso.py b/src/ondil/estimators/online_lasso.py
index 616a675..97136c1 100644
--- a/src/ondil/estimators/online_lasso.py
+++ b/src/ondil/estimators/online_lasso.py
@@ -46,23 +46,35 @@ class OnlineLasso(OnlineLinearModel):
             selection (Literal["cyclic", "random"], optional): Whether to cycle through all coordinates in order or random. For large problems, random might increase convergence. Defaults to 100.
         """
 
-        concrete_method = LassoPath(
-            lambda_eps=lambda_eps,
-            lambda_n=lambda_n,
-            start_value_initial="previous_lambda",
-            early_stop=early_stop,
-            start_value_update=start_value,
-            tolerance=tolerance,
-            max_iterations=max_iterations,
-            selection=selection,
-            beta_lower_bound=beta_lower_bound,
-            beta_upper_bound=beta_upper_bound,
-        )
         super().__init__(
             forget=forget,
             scale_inputs=scale_inputs,
             fit_intercept=fit_intercept,
             regularize_intercept=regularize_intercept,
-            method=concrete_method,
+            method="lasso",
             ic=ic,
         )
+        self.early_stop = early_stop
+        self.beta_lower_bound = beta_lower_bound
+        self.beta_upper_bound = beta_upper_bound
+        self.lambda_n = lambda_n
+        self.lambda_eps = lambda_eps
+        self.start_value = start_value
+        self.tolerance = tolerance
+        self.max_iterations = max_iterations
+        self.selection = selection
+
+    def _prepare_fit(self):
+        self.method = LassoPath(
+            lambda_eps=self.lambda_eps,
+            lambda_n=self.lambda_n,
+            start_value_initial="previous_lambda",
+            early_stop=self.early_stop,
+            start_value_update=self.start_value,
+            tolerance=self.tolerance,
+            max_iterations=self.max_iterations,
+            selection=self.selection,
+            beta_lower_bound=self.beta_lower_bound,
+            beta_upper_bound=self.beta_upper_bound,
+        )
+        super()._prepare_fit()
-- 
2.43.0


From 2a0cdd425aee6205a58a95f9a7cf98aafe45d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:00 +0000
Subject: [PATCH 29/35] fix: discount the deviance that controls the initial
 distributional fit

With forget > 0 every iteration solves the discounted weighted least squares
problem, but steps were accepted and iterations stopped by the undiscounted
deviance, so the fit ended away from the discounted likelihood's optimum.
---
 src/ondil/estimators/online_gamlss.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index fb0cacc..94cdb42 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -948,8 +948,10 @@ class OnlineDistributionalRegression(
         return global_dev, it_outer
 
     def _outer_fit(self, X, y, w):
+        # Same discount as in the last inner fit, so that the deviances are comparable
+        f = init_forget_vector(self._forget[self._param_order[-1]], y.shape[0])
         global_di = -2 * self.distribution.logpdf(y, self._fv)
-        global_dev = np.sum(w * global_di)
+        global_dev = np.sum(w * f * global_di)
         global_dev_old = global_dev + 1000
         it_outer = 0
 
@@ -1005,7 +1007,9 @@ class OnlineDistributionalRegression(
         param,
         dv,
     ):
-        dv_start = np.sum(-2 * self.distribution.logpdf(y, self._fv) * w)
+        # The deviance is discounted as the weighted least squares problem
+        f = init_forget_vector(self._forget[param], y.shape[0])
+        dv_start = np.sum(-2 * self.distribution.logpdf(y, self._fv) * w * f)
         dv_iterations = np.repeat(dv_start, self.max_it_inner + 1)
         fv_it = copy.copy(self._fv)
         fv_it_new = copy.copy(self._fv)
@@ -1115,7 +1119,6 @@ class OnlineDistributionalRegression(
                 self._debug_coef_path[key] = copy.copy(beta_path_it)
 
             # Calculate the prediction, residuals and RSS
-            f = init_forget_vector(self._forget[param], y.shape[0])
             prediction_it = step_it * (X[param] @ beta_it.T) + (1 - step_it) * eta
             residuals_it = wv - prediction_it
             rss_it = np.sum(residuals_it**2 * wt * w * f) / np.mean(wt * w * f)
@@ -1124,7 +1127,7 @@ class OnlineDistributionalRegression(
             fv_it_new[:, param] = self.distribution.link_inverse(
                 prediction_it, param=param
             )
-            dv_it = np.sum(-2 * self.distribution.logpdf(y, fv_it_new) * w)
+            dv_it = np.sum(-2 * self.distribution.logpdf(y, fv_it_new) * w * f)
             dv_old = dv_iterations[it_inner]
             dv_increasing = dv_it > dv_old
 
-- 
2.43.0


From b3aa4caef694ddbd21cf1dda582d05b64ce461f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:34 +0000
Subject: [PATCH 30/35] fix: do not count rounding residues as non-zero
 coefficients in the model selection

At the largest regularisation strength the soft threshold leaves residues of the
order 1e-17, which the distributional regression counted as model parameters.
---
 src/ondil/estimators/online_gamlss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 94cdb42..d09dc9a 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -485,7 +485,7 @@ class OnlineDistributionalRegression(
         The function uses an information criterion (e.g., AIC, BIC) to select the best model.
         """
         f = init_forget_vector(self._forget[param], y.shape[0])
-        n_nonzero_coef = np.count_nonzero(beta_path, axis=1)
+        n_nonzero_coef = np.sum(~np.isclose(beta_path, 0), axis=1)
         n_nonzero_coef_other = self._count_nonzero_coef(exclude=param)
 
         prediction_path = X @ beta_path.T
@@ -565,7 +565,7 @@ class OnlineDistributionalRegression(
 
         """
         f = init_forget_vector(self._forget[param], y.shape[0])
-        n_nonzero_coef = np.count_nonzero(beta_path, axis=1)
+        n_nonzero_coef = np.sum(~np.isclose(beta_path, 0), axis=1)
         prediction_path = X @ beta_path.T
         if self.model_selection == "local_rss":
             # Denominator: mean of the discounted weights, including the new ones
-- 
2.43.0


From 845db79a398100f1391559476b13cbeca633a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:31 +0000
Subject: [PATCH 31/35] fix: do not discard the last iteration of the initial
 fit when the deviance is unchanged up to the tolerance

---
 src/ondil/estimators/online_gamlss.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index d09dc9a..073b661 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1132,8 +1132,11 @@ class OnlineDistributionalRegression(
             dv_increasing = dv_it > dv_old
 
             # This should really not happen unless your start values are
-            # way to good and the model cannot reach these
-            bad_state = dv_it > dv_iterations[0]
+            # way to good and the model cannot reach these. Changes within the
+            # tolerances mean that the parameter has converged.
+            bad_state = dv_it - dv_iterations[0] > max(
+                self.abs_tol_inner, self.rel_tol_inner * abs(dv_iterations[0])
+            )
 
             # print(dv_it, dv_old, dv_increasing)
             message = f"Outer iteration {it_outer}: Fitting Parameter {param}: Inner iteration {it_inner}: Current Deviance {dv_it}"
-- 
2.43.0


From c5a6f118d9e112040206edb1d5af26fdc33f0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:21 +0000
Subject: [PATCH 32/35] fix: reject non-numeric responses in updates before any
 state changes

---
 src/ondil/estimators/online_gamlss.py       | 7 ++++++-
 src/ondil/estimators/online_linear_model.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 073b661..eb5e6fc 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -796,7 +796,12 @@ class OnlineDistributionalRegression(
             sample_weight (Optional[np.ndarray], optional): User-defined sample weights. Defaults to None (all observations have the same weight).
         """
         X, y = validate_data(
-            self, X=X, y=y, reset=False, dtype=[np.float64, np.float32]
+            self,
+            X=X,
+            y=y,
+            reset=False,
+            dtype=[np.float64, np.float32],
+            y_numeric=True,
         )
         sample_weight = _check_sample_weight(X=X, sample_weight=sample_weight)
         _ = type_of_target(y, raise_unknown=True)
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 809c329..cf89328 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -191,7 +191,12 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
         """
 
         X, y = validate_data(
-            self, X=X, y=y, reset=False, dtype=[np.float64, np.float32]
+            self,
+            X=X,
+            y=y,
+            reset=False,
+            dtype=[np.float64, np.float32],
+            y_numeric=True,
         )
         sample_weight = _check_sample_weight(X=X, sample_weight=sample_weight)
         _ = type_of_target(y, raise_unknown=True)
-- 
2.43.0


From 56115dfaf0a438d133663fb901dd7653215a689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:26 +0000
Subject: [PATCH 33/35] fix: accept single-precision inputs without an
 intercept

---
 src/ondil/estimators/online_gamlss.py       | 2 ++
 src/ondil/estimators/online_linear_model.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index eb5e6fc..953ab08 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -432,6 +432,8 @@ class OnlineDistributionalRegression(
 
             if self._fit_intercept[param]:
                 out = np.hstack((self._make_intercept(n), out))
+            else:
+                out = np.asarray(out, dtype=float)
 
         return out
 
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index cf89328..12dfc44 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -94,7 +94,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
         if self.fit_intercept:
             design = add_intercept(X)
         else:
-            design = np.copy(X)
+            design = np.array(X, dtype=float)
         return design
 
     @_fit_context(prefer_skip_nested_validation=True)
-- 
2.43.0


From 5a40d0e801ffff677744abd688c958a0b8e44e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:37 +0000
Subject: [PATCH 34/35] fix: count non-zero coefficients independently of the
 units of the response

---
 src/ondil/estimators/online_gamlss.py       |  6 +++---
 src/ondil/estimators/online_linear_model.py |  6 +++---
 src/ondil/information_criteria.py           | 16 ++++++++++++++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 953ab08..2bd8ba1 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -18,7 +18,7 @@ from ..base import Distribution, EstimationMethod, OndilEstimatorMixin
 from ..distributions import Normal
 from ..error import OutOfSupportError
 from ..gram import init_forget_vector
-from ..information_criteria import InformationCriterion
+from ..information_criteria import InformationCriterion, count_nonzero_coef
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
 from ..utils import calculate_effective_training_length
@@ -487,7 +487,7 @@ class OnlineDistributionalRegression(
         The function uses an information criterion (e.g., AIC, BIC) to select the best model.
         """
         f = init_forget_vector(self._forget[param], y.shape[0])
-        n_nonzero_coef = np.sum(~np.isclose(beta_path, 0), axis=1)
+        n_nonzero_coef = count_nonzero_coef(beta_path)
         n_nonzero_coef_other = self._count_nonzero_coef(exclude=param)
 
         prediction_path = X @ beta_path.T
@@ -567,7 +567,7 @@ class OnlineDistributionalRegression(
 
         """
         f = init_forget_vector(self._forget[param], y.shape[0])
-        n_nonzero_coef = np.sum(~np.isclose(beta_path, 0), axis=1)
+        n_nonzero_coef = count_nonzero_coef(beta_path)
         prediction_path = X @ beta_path.T
         if self.model_selection == "local_rss":
             # Denominator: mean of the discounted weights, including the new ones
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 12dfc44..7059921 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -15,7 +15,7 @@ from sklearn.utils.validation import (
 from ..base import EstimationMethod, OndilEstimatorMixin
 from ..design_matrix import add_intercept
 from ..gram import init_forget_vector
-from ..information_criteria import InformationCriterion
+from ..information_criteria import InformationCriterion, count_nonzero_coef
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
 from ..utils import calculate_effective_training_length
@@ -158,7 +158,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
             discount = sample_weight * init_forget_vector(self.forget, y.shape[0])
             self._rss = np.sum(residuals**2 * discount[:, None], axis=0)
-            n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
+            n_params = count_nonzero_coef(self.coef_path_)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
                 n_parameters=n_params,
@@ -229,7 +229,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             self._rss = (1 - self.forget) ** y.shape[0] * self._rss + np.sum(
                 residuals**2 * discount[:, None], axis=0
             )
-            n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
+            n_params = count_nonzero_coef(self.coef_path_)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
                 n_parameters=n_params,
diff --git a/src/ondil/information_criteria.py b/src/ondil/information_criteria.py
index e411639..99fa36b 100644
--- a/src/ondil/information_criteria.py
+++ b/src/ondil/information_criteria.py
@@ -2,6 +2,22 @@ from typing import Literal, Union
 import numpy as np
 
 
+def count_nonzero_coef(beta_path: np.ndarray) -> np.ndarray:
+    """Count the non-zero coefficients of every model on a coefficient path.
+
+    Coefficients are compared with the largest value the same coefficient takes on
+    the path, so that the count does not depend on the units of the response.
+
+    Args:
+        beta_path (np.ndarray): Coefficient path, one row per model.
+
+    Returns:
+        np.ndarray: The number of non-zero coefficients per row.
+    """
+    scale = np.max(np.abs(beta_path), axis=0)
+    return np.sum(np.abs(beta_path) > 1e-8 * scale, axis=1)
+
+
 class InformationCriterion:
     """Calculate the information criteria.
 
-- 
2.43.0


From 12324bced488f6a690827a61652221bf13ff07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:16 +0000
Subject: [PATCH 35/35] fix: compute the log-density of Johnson's SU without
 taking the log of an underflowed density

---
 src/ondil/distributions/johnsonsu.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ondil/distributions/johnsonsu.py b/src/ondil/distributions/johnsonsu.py
index 869312e..f64f431 100644
--- a/src/ondil/distributions/johnsonsu.py
+++ b/src/ondil/distributions/johnsonsu.py
@@ -51,6 +51,17 @@ class JSU(ScipyMixin, Distribution):
         )
         self.gamlss_init_values = use_gamlss_init_values
 
+    def logpdf(self, y: np.ndarray, theta: np.ndarray) -> np.ndarray:
+        # Closed form, since scipy takes the logarithm of a density that underflows
+        mu, sigma, nu, tau = self.theta_to_params(theta)
+        z = (y - mu) / sigma
+        r = nu + tau * np.arcsinh(z)
+        return (
+            np.log(tau / sigma)
+            - np.log(np.hypot(1.0, z))
+            - (r**2 + np.log(2 * np.pi)) / 2
+        )
+
     def dl1_dp1(self, y: np.ndarray, theta: np.ndarray, param: int = 0) -> np.ndarray:
         self._validate_dln_dpn_inputs(y, theta, param)
         mu, sigma, nu, tau = self.theta_to_params(theta)
-- 
2.43.0

