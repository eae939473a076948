From 91baf463f6ec1211cc175c81eb3161a57b062015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 01/57] fix: Kalman filter log-likelihood of multivariate and
 partially missing observations

The normal log density was missing one constant per observed series (StandardFilter), scaled the
log determinant by the number of series and solved twice with the same triangle (SquareRootFilter),
and both penalised missing elements of partially observed rows.
---
 .../statespace/filters/kalman_filter.py       | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 0ca47b5..57b42ac 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -308,15 +308,18 @@ class BaseFilter(ABC):
         return filter_results
 
     def handle_missing_values(
-        self, y, Z, H
-    ) -> tuple[TensorVariable, TensorVariable, TensorVariable, float]:
+        self, y, d, Z, H
+    ) -> tuple[TensorVariable, TensorVariable, TensorVariable, TensorVariable, float]:
         """
         Handle missing values in the observation data `y`
 
-        Adjusts the design matrix `Z` and the observation noise covariance matrix `H` by removing rows and/or columns
+        Adjusts the observation intercept `d`, the design matrix `Z` and the observation noise covariance matrix `H` by removing rows and/or columns
         associated with the data that is not observed at this iteration. Missing values are replaced with zeros to prevent
         propagating NaNs through the computation.
 
+        The variance of each missing element is set to 1 / (2 * pi), so that the log density of the zero that replaces
+        it is exactly zero: missing elements contribute nothing to the log-likelihood.
+
         Return a binary flag tensor `all_nan_flag`,indicating if all values in the observation data are missing. This
         flag is used for numerical adjustments in the update method.
 
@@ -324,6 +327,8 @@ class BaseFilter(ABC):
         ----------
         y : TensorVariable
             The observation data at time t.
+        d : TensorVariable
+            The observation intercept.
         Z : TensorVariable
             The design matrix.
         H : TensorVariable
@@ -334,6 +339,9 @@ class BaseFilter(ABC):
         y_masked : TensorVariable
             Observation vector with missing values replaced by zeros.
 
+        d_masked : TensorVariable
+            Observation intercept, with zeros for missing values
+
         Z_masked: TensorVariable
             Design matrix adjusted to exclude the missing states from the information set of observed variables in the
             update step
@@ -353,11 +361,13 @@ class BaseFilter(ABC):
         all_nan_flag = pt.all(nan_mask).astype(pytensor.config.floatX)
         W = pt.diag(pt.bitwise_not(nan_mask).astype(pytensor.config.floatX))
 
+        d_masked = W.dot(d)
         Z_masked = W.dot(Z)
-        H_masked = W.dot(H)
+        H_fill = pt.diag(nan_mask / (2 * np.pi)).astype(pytensor.config.floatX)
+        H_masked = W.dot(H).dot(W) + H_fill
         y_masked = pt.set_subtensor(y[nan_mask], 0.0)
 
-        return y_masked, Z_masked, H_masked, all_nan_flag
+        return y_masked, d_masked, Z_masked, H_masked, all_nan_flag
 
     @staticmethod
     def predict(a, P, c, T, R, Q) -> tuple[TensorVariable, TensorVariable]:
@@ -527,10 +537,12 @@ class BaseFilter(ABC):
                2nd ed, Oxford University Press, 2012.
         """
         y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
-        y_masked, Z_masked, H_masked, all_nan_flag = self.handle_missing_values(y, Z, H)
+        y_masked, d_masked, Z_masked, H_masked, all_nan_flag = self.handle_missing_values(
+            y, d, Z, H
+        )
 
         a_filtered, P_filtered, obs_mu, obs_cov, ll = self.update(
-            y=y_masked, a=a, d=d, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag
+            y=y_masked, a=a, d=d_masked, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag
         )
 
         P_filtered = stabilize(P_filtered, self.cov_jitter)
@@ -611,7 +623,7 @@ class StandardFilter(BaseFilter):
         ll = pt.switch(
             all_nan_flag,
             0.0,
-            -0.5 * (MVN_CONST + F_logdet + inner_term).ravel()[0],
+            -0.5 * (self.n_endog * MVN_CONST + F_logdet + inner_term).ravel()[0],
         )
 
         return a_filtered, P_filtered, y_hat, F, ll
@@ -663,7 +675,9 @@ class SquareRootFilter(BaseFilter):
         y_hat = Z.dot(a) + d
         v = y - y_hat
 
-        H_chol = pytensor.ifelse(pt.all(pt.eq(H, 0.0)), H, pt.linalg.cholesky(H, lower=True))
+        # H may be singular: rows and columns without measurement error (zero variance) are left at zero
+        H_zeros = pt.diag(pt.eq(pt.diag(H), 0.0).astype(pytensor.config.floatX))
+        H_chol = pt.linalg.cholesky(H + H_zeros, lower=True) - H_zeros
 
         # The following notation comes from https://ipnpr.jpl.nasa.gov/progress_report/42-233/42-233A.pdf
         # Construct upper-triangular block matrix A = [[chol(H), Z @ L_pred],
@@ -685,15 +699,13 @@ class SquareRootFilter(BaseFilter):
         def compute_non_degenerate(P_chol_filtered, F_chol, K_F_chol, v):
             a_filtered = a + K_F_chol @ solve_triangular(F_chol, v, lower=True)
 
-            inner_term = solve_triangular(
-                F_chol, solve_triangular(F_chol, v, lower=True), lower=True
-            )
-            loss = (v.T @ inner_term).ravel()
+            F_chol_inv_v = solve_triangular(F_chol, v, lower=True)
+            loss = (F_chol_inv_v.T @ F_chol_inv_v).ravel()
 
             # abs necessary because we're not guaranteed a positive diagonal from the schur decomposition
             logdet = 2 * pt.log(pt.abs(pt.diag(F_chol))).sum()
 
-            ll = -0.5 * (self.n_endog * (MVN_CONST + logdet) + loss)[0]
+            ll = -0.5 * (self.n_endog * MVN_CONST + logdet + loss)[0]
 
             return [a_filtered, P_chol_filtered, ll]
 
-- 
2.43.0


From 32dd0002c8e51bfc97d1b73bd734e92a12595152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 02/57] fix: UnivariateFilter with missing fill values,
 time-varying matrices and several observed states

It only recognised NaN although the data handed to it mark missing values with the fill value, took
the scan arguments positionally, reported the predicted moments of the last observed state only, and
dropped the normalising constant whenever a likelihood term happened to be zero.
---
 .../statespace/filters/kalman_filter.py       | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 57b42ac..a0835dc 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -796,12 +796,13 @@ class UnivariateFilter(BaseFilter):
         a_filtered = a + K * v
         P_filtered = P - pt.outer(K, K) * F
 
-        ll_inner = pt.switch(F_zero_flag, 0.0, pt.log(F) + v**2 / F)
+        ll_inner = pt.switch(F_zero_flag, 0.0, MVN_CONST + pt.log(F) + v**2 / F)
 
-        return a_filtered, P_filtered, pt.atleast_1d(y_hat), pt.atleast_2d(F), ll_inner
+        return a_filtered, P_filtered, ll_inner
 
-    def kalman_step(self, y, a, P, c, d, T, Z, R, H, Q):
-        nan_mask = pt.isnan(y)
+    def kalman_step(self, *args):
+        y, a, P, c, d, T, Z, R, H, Q = self.unpack_args(args)
+        nan_mask = pt.or_(pt.isnan(y), pt.eq(y, self.missing_fill_value))
 
         W = pt.set_subtensor(pt.eye(y.shape[0])[nan_mask, nan_mask], 0.0)
         Z_masked = W.dot(Z)
@@ -811,22 +812,20 @@ class UnivariateFilter(BaseFilter):
         result, updates = pytensor.scan(
             self._univariate_inner_filter_step,
             sequences=[y_masked, Z_masked, d, pt.diag(H_masked), nan_mask],
-            outputs_info=[a, P, None, None, None],
+            outputs_info=[a, P, None],
             mode=get_mode(self.mode),
             name="univariate_inner_scan",
         )
 
-        a_filtered, P_filtered, obs_mu, obs_cov, ll_inner = result
-        a_filtered, P_filtered, obs_mu, obs_cov = (
-            a_filtered[-1],
-            P_filtered[-1],
-            obs_mu[-1],
-            obs_cov[-1],
-        )
+        a_filtered, P_filtered, ll_inner = result
+        a_filtered, P_filtered = a_filtered[-1], P_filtered[-1]
+
+        obs_mu = d + Z.dot(a)
+        obs_cov = quad_form_sym(Z, P) + stabilize(H, self.cov_jitter)
 
         P_filtered = stabilize(0.5 * (P_filtered + P_filtered.T), self.cov_jitter)
         a_hat, P_hat = self.predict(a=a_filtered, P=P_filtered, c=c, T=T, R=R, Q=Q)
 
-        ll = -0.5 * ((pt.neq(ll_inner, 0).sum()) * MVN_CONST + ll_inner.sum())
+        ll = -0.5 * ll_inner.sum()
 
         return a_filtered, a_hat, obs_mu, P_filtered, P_hat, obs_cov, ll
-- 
2.43.0


From ea67d23c90af6b6dd244c0f2b19ce9b1f398b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 03/57] fix: SquareRootFilter with a single hidden state

The predicted Cholesky factor lost its static shape, so scan rejected (1, 1) states.
---
 pymc_extras/statespace/filters/kalman_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index a0835dc..030f168 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -656,6 +656,7 @@ class SquareRootFilter(BaseFilter):
         M = pt.horizontal_stack(T @ P_chol, R @ Q_chol).T
         R_decomp = pt.linalg.qr(M, mode="r")
         P_chol_hat = R_decomp[: self.n_states, : self.n_states].T
+        P_chol_hat = pt.specify_shape(P_chol_hat, (self.n_states, self.n_states))
 
         return a_hat, P_chol_hat
 
-- 
2.43.0


From 827135a2de7f2ef221460791a9b968604a4c86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 04/57] fix: predicted moments of missing observations in the
 Kalman filters

The forecast of a missing element was masked together with the element, reporting the bare intercept
with (almost) no uncertainty instead of its one-step forecast.
---
 .../statespace/filters/kalman_filter.py       | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 030f168..36f2cd6 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -419,6 +419,12 @@ class BaseFilter(ABC):
 
         return a_hat, P_hat
 
+    def predict_observed(self, a, P, d, Z, H) -> tuple[TensorVariable, TensorVariable]:
+        """
+        Mean and covariance matrix of the observed states, given the one-step forecast of the hidden states.
+        """
+        return d + Z.dot(a), quad_form_sym(Z, P) + stabilize(H, self.cov_jitter)
+
     @staticmethod
     def update(
         a, P, y, d, Z, H, all_nan_flag
@@ -541,10 +547,13 @@ class BaseFilter(ABC):
             y, d, Z, H
         )
 
-        a_filtered, P_filtered, obs_mu, obs_cov, ll = self.update(
+        a_filtered, P_filtered, _, _, ll = self.update(
             y=y_masked, a=a, d=d_masked, P=P, Z=Z_masked, H=H_masked, all_nan_flag=all_nan_flag
         )
 
+        # The forecast covers all observed states, including those that turn out to be missing
+        obs_mu, obs_cov = self.predict_observed(a=a, P=P, d=d, Z=Z, H=H)
+
         P_filtered = stabilize(P_filtered, self.cov_jitter)
 
         a_hat, P_hat = self.predict(a=a_filtered, P=P_filtered, c=c, T=T, R=R, Q=Q)
@@ -660,6 +669,19 @@ class SquareRootFilter(BaseFilter):
 
         return a_hat, P_chol_hat
 
+    @staticmethod
+    def _obs_cov_cholesky(H):
+        # H may be singular: rows and columns without measurement error (zero variance) are left at zero
+        H_zeros = pt.diag(pt.eq(pt.diag(H), 0.0).astype(pytensor.config.floatX))
+        return pt.linalg.cholesky(H + H_zeros, lower=True) - H_zeros
+
+    def predict_observed(self, a, P, d, Z, H):
+        """
+        Mean and (cholesky factor of the) covariance matrix of the observed states. Again, P is a cholesky factor.
+        """
+        M = pt.horizontal_stack(self._obs_cov_cholesky(H), Z @ P).T
+        return d + Z.dot(a), pt.linalg.qr(M, mode="r").T
+
     def update(self, a, P, y, d, Z, H, all_nan_flag):
         """
         Compute posterior estimates of the hidden state distributions conditioned on the observed data, up to and
@@ -676,9 +698,7 @@ class SquareRootFilter(BaseFilter):
         y_hat = Z.dot(a) + d
         v = y - y_hat
 
-        # H may be singular: rows and columns without measurement error (zero variance) are left at zero
-        H_zeros = pt.diag(pt.eq(pt.diag(H), 0.0).astype(pytensor.config.floatX))
-        H_chol = pt.linalg.cholesky(H + H_zeros, lower=True) - H_zeros
+        H_chol = self._obs_cov_cholesky(H)
 
         # The following notation comes from https://ipnpr.jpl.nasa.gov/progress_report/42-233/42-233A.pdf
         # Construct upper-triangular block matrix A = [[chol(H), Z @ L_pred],
@@ -821,8 +841,7 @@ class UnivariateFilter(BaseFilter):
         a_filtered, P_filtered, ll_inner = result
         a_filtered, P_filtered = a_filtered[-1], P_filtered[-1]
 
-        obs_mu = d + Z.dot(a)
-        obs_cov = quad_form_sym(Z, P) + stabilize(H, self.cov_jitter)
+        obs_mu, obs_cov = self.predict_observed(a=a, P=P, d=d, Z=Z, H=H)
 
         P_filtered = stabilize(0.5 * (P_filtered + P_filtered.T), self.cov_jitter)
         a_hat, P_hat = self.predict(a=a_filtered, P=P_filtered, c=c, T=T, R=R, Q=Q)
-- 
2.43.0


From bc00a936d4946bbd3c0439bd9311bc8b822822e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 05/57] fix: pass the Cholesky factor of P0 to the
 SquareRootFilter

Models with filter_type='cholesky' handed it the covariance matrix, which it reads as a factor, so
likelihoods and state covariances were those of a model with initial covariance P0 @ P0.T.
---
 pymc_extras/statespace/core/statespace.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 8ad86c1..feacca9 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -865,9 +865,13 @@ class PyMCStateSpace:
             missing_fill_value=missing_fill_value,
         )
 
+        x0, P0, *matrices = self.unpack_statespace()
+
         filter_outputs = self.kalman_filter.build_graph(
             pt.as_tensor_variable(data),
-            *self.unpack_statespace(),
+            x0,
+            self._prepare_initial_cov(P0, cov_jitter),
+            *matrices,
             mode=mode,
             missing_fill_value=missing_fill_value,
             cov_jitter=cov_jitter,
@@ -900,6 +904,19 @@ class PyMCStateSpace:
         self._fit_dims = pm_mod.named_vars_to_dims.copy()
         self._fit_mode = mode
 
+    def _prepare_initial_cov(
+        self, P0: pt.TensorVariable, cov_jitter: float | None = None
+    ) -> pt.TensorVariable:
+        """
+        Convert the initial state covariance to the form expected by the Kalman filter. The SquareRootFilter works
+        with the cholesky factor of the state covariance; the other filters need the covariance itself.
+        """
+        if not isinstance(self.kalman_filter, SquareRootFilter):
+            return P0
+
+        cov_jitter = JITTER_DEFAULT if cov_jitter is None else cov_jitter
+        return pt.linalg.cholesky(stabilize(P0, cov_jitter), lower=True)
+
     def _build_smoother_graph(
         self,
         filtered_states: pt.TensorVariable,
@@ -1029,7 +1046,7 @@ class PyMCStateSpace:
         filter_outputs = self.kalman_filter.build_graph(
             data,
             x0,
-            P0,
+            self._prepare_initial_cov(P0),
             c,
             d,
             T,
-- 
2.43.0


From f73266f3044f6087fe141df1c72d817c8eb17f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 06/57] fix: Kalman smoother ignores the state intercept and
 misaligns time-varying matrices

---
 pymc_extras/statespace/core/statespace.py     | 13 +++++--
 .../statespace/filters/kalman_smoother.py     | 37 +++++++++++++------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index feacca9..e9bc172 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -957,10 +957,17 @@ class PyMCStateSpace:
 
         pymc_model = modelcontext(None)
         with pymc_model:
-            *_, T, Z, R, H, Q = matrices
+            *_, c, d, T, Z, R, H, Q = matrices
 
             smooth_states, smooth_covariances = self.kalman_smoother.build_graph(
-                T, R, Q, filtered_states, filtered_covariances, mode=mode, cov_jitter=cov_jitter
+                T,
+                R,
+                Q,
+                filtered_states,
+                filtered_covariances,
+                mode=mode,
+                cov_jitter=cov_jitter,
+                c=c,
             )
             smooth_states.name = "smooth_states"
             smooth_covariances.name = "smooth_covariances"
@@ -1064,7 +1071,7 @@ class PyMCStateSpace:
         filtered_covariances, predicted_covariances, _ = covariances
 
         [smoothed_states, smoothed_covariances] = self.kalman_smoother.build_graph(
-            T, R, Q, filtered_states, filtered_covariances, mode=self._fit_mode
+            T, R, Q, filtered_states, filtered_covariances, mode=self._fit_mode, c=c
         )
 
         grouped_outputs = [
diff --git a/pymc_extras/statespace/filters/kalman_smoother.py b/pymc_extras/statespace/filters/kalman_smoother.py
index f15913b..7ba7701 100644
--- a/pymc_extras/statespace/filters/kalman_smoother.py
+++ b/pymc_extras/statespace/filters/kalman_smoother.py
@@ -31,7 +31,7 @@ class KalmanSmoother:
         non-sequences. This function works out which matrices are where, and returns a standardized order expected
         by the kalman_step function.
 
-        The standard order is: a, P, a_smooth, P_smooth, T, R, Q
+        The standard order is: a, P, a_smooth, P_smooth, c, T, R, Q
         """
         # If there are no sequence parameters (all params are static),
         # no changes are needed, params will be in order.
@@ -51,7 +51,7 @@ class KalmanSmoother:
             args[n_seq + 2 :],
         )
         return_ordered = []
-        for name in ["T", "R", "Q"]:
+        for name in ["c", "T", "R", "Q"]:
             if name in self.seq_names:
                 idx = self.seq_names.index(name)
                 return_ordered.append(seqs[idx])
@@ -59,12 +59,20 @@ class KalmanSmoother:
                 idx = self.non_seq_names.index(name)
                 return_ordered.append(non_seqs[idx])
 
-        T, R, Q = return_ordered
+        c, T, R, Q = return_ordered
 
-        return a, P, a_smooth, P_smooth, T, R, Q
+        return a, P, a_smooth, P_smooth, c, T, R, Q
 
     def build_graph(
-        self, T, R, Q, filtered_states, filtered_covariances, mode=None, cov_jitter=JITTER_DEFAULT
+        self,
+        T,
+        R,
+        Q,
+        filtered_states,
+        filtered_covariances,
+        mode=None,
+        cov_jitter=JITTER_DEFAULT,
+        c=None,
     ):
         self.mode = mode
         self.cov_jitter = cov_jitter
@@ -74,10 +82,17 @@ class KalmanSmoother:
         a_last = pt.specify_shape(filtered_states[-1], (k,))
         P_last = pt.specify_shape(filtered_covariances[-1], (k, k))
 
+        if c is None:
+            c = pt.zeros_like(a_last)
+
         sequences, non_sequences, seq_names, non_seq_names = split_vars_into_seq_and_nonseq(
-            [T, R, Q], ["T", "R", "Q"]
+            [c, T, R, Q], ["c", "T", "R", "Q"]
         )
 
+        # The transition out of the last state is not needed. It has to go, so that each filtered state is paired with
+        # the transition out of that state when scanning backwards.
+        sequences = [sequence[:-1] for sequence in sequences]
+
         self.seq_names = seq_names
         self.non_seq_names = non_seq_names
 
@@ -105,8 +120,8 @@ class KalmanSmoother:
         return smoothed_states, smoothed_covariances
 
     def smoother_step(self, *args):
-        a, P, a_smooth, P_smooth, T, R, Q = self.unpack_args(args)
-        a_hat, P_hat = self.predict(a, P, T, R, Q)
+        a, P, a_smooth, P_smooth, c, T, R, Q = self.unpack_args(args)
+        a_hat, P_hat = self.predict(a, P, c, T, R, Q)
 
         # Use pinv, otherwise P_hat is singular when there is missing data
         smoother_gain = matrix_dot(pt.linalg.pinv(P_hat), T, P).T
@@ -114,12 +129,12 @@ class KalmanSmoother:
 
         P_smooth_next = P + quad_form_sym(smoother_gain, P_smooth - P_hat)
         P_smooth_next = stabilize(P_smooth_next, self.cov_jitter)
-        P_smooth_next = pt.specify_shape(stabilize(P_smooth_next), P_smooth.type.shape)
+        P_smooth_next = pt.specify_shape(P_smooth_next, P_smooth.type.shape)
 
         return a_smooth_next, P_smooth_next
 
-    def predict(self, a, P, T, R, Q):
-        a_hat = T.dot(a)
+    def predict(self, a, P, c, T, R, Q):
+        a_hat = T.dot(a) + c
         P_hat = quad_form_sym(T, P) + quad_form_sym(R, Q)
         P_hat = stabilize(P_hat, self.cov_jitter)
 
-- 
2.43.0


From 192fad9339750ecd8c26c441b114884bba3c7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 07/57] fix: state names of interpretable SARIMA models with
 only seasonal AR or MA terms

---
 pymc_extras/statespace/models/SARIMAX.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/statespace/models/SARIMAX.py b/pymc_extras/statespace/models/SARIMAX.py
index f8a4203..759c853 100644
--- a/pymc_extras/statespace/models/SARIMAX.py
+++ b/pymc_extras/statespace/models/SARIMAX.py
@@ -303,11 +303,9 @@ class BayesianSARIMA(PyMCStateSpace):
 
         elif self.state_structure == "interpretable":
             states = ["data"]
-            if self.p > 0:
-                states += [f"L{i + 1}.data" for i in range(self._p_max - 1)]
+            states += [f"L{i + 1}.data" for i in range(self._p_max - 1)]
             states += ["innovations"]
-            if self.q > 0:
-                states += [f"L{i + 1}.innovations" for i in range(self._q_max - 1)]
+            states += [f"L{i + 1}.innovations" for i in range(self._q_max - 1)]
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 59272f857cbabded9050d6b5135ed5bf1f82c9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 08/57] fix: building a structural model modifies the component
 it is built from

---
 pymc_extras/statespace/core/representation.py |  4 +++-
 pymc_extras/statespace/models/structural.py   | 16 ++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index 450108d..e4be800 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -435,4 +435,6 @@ class PytensorRepresentation:
             setattr(self, name, matrix)
 
     def copy(self):
-        return copy.copy(self)
+        new = copy.copy(self)
+        new.shapes = self.shapes.copy()
+        return new
diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index bc61eab..7f47006 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -138,12 +138,16 @@ class StructuralTimeSeries(PyMCStateSpace):
 
     @staticmethod
     def _add_inital_state_cov_to_properties(param_names, param_dims, param_info, k_states):
-        param_names += ["P0"]
-        param_dims["P0"] = (ALL_STATE_DIM, ALL_STATE_AUX_DIM)
-        param_info["P0"] = {
-            "shape": (k_states, k_states),
-            "constraints": "Positive semi-definite",
-            "dims": param_dims["P0"],
+        # Work on copies: these objects belong to the component, which can be built again or added to others
+        param_names = [*param_names, "P0"]
+        param_dims = {**param_dims, "P0": (ALL_STATE_DIM, ALL_STATE_AUX_DIM)}
+        param_info = {
+            **param_info,
+            "P0": {
+                "shape": (k_states, k_states),
+                "constraints": "Positive semi-definite",
+                "dims": param_dims["P0"],
+            },
         }
 
         return param_names, param_dims, param_info
-- 
2.43.0


From b47c10787ed7a59823ec394bd8153a57ecfe1c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 09/57] fix: TimeSeasonality with pop_state=False

---
 pymc_extras/statespace/models/structural.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index 7f47006..1dabd30 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1188,6 +1188,8 @@ class TimeSeasonality(Component):
             # TODO: Can this be stashed and reconstructed automatically somehow?
             state_names.pop(0)
             k_states = season_length - 1
+        else:
+            k_states = season_length
 
         super().__init__(
             name=name,
@@ -1222,8 +1224,13 @@ class TimeSeasonality(Component):
             self.shock_names = [f"{self.name}"]
 
     def make_symbolic_graph(self) -> None:
-        T = np.eye(self.k_states, k=-1)
-        T[0, :] = -1
+        if self.pop_state:
+            T = np.eye(self.k_states, k=-1)
+            T[0, :] = -1
+        else:
+            # All seasonal effects are parameters, so the states just rotate: the effect observed at time t is
+            # state_names[t % season_length]
+            T = np.roll(np.eye(self.k_states), 1, axis=1)
 
         self.ssm["transition", :, :] = T
         self.ssm["design", 0, 0] = 1
-- 
2.43.0


From 5d928fc814d1b39c3a864b3ae57897d933f7d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 10/57] fix: CycleComponent without innovations has shocks that
 have no names

---
 pymc_extras/statespace/models/structural.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index 1dabd30..61d1e0d 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1482,7 +1482,7 @@ class CycleComponent(Component):
 
         k_states = 2
         k_endog = 1
-        k_posdef = 2
+        k_posdef = 2 * int(innovations)
 
         obs_state_idx = np.zeros(k_states)
         obs_state_idx[slice(0, k_states, 2)] = 1
@@ -1499,7 +1499,6 @@ class CycleComponent(Component):
 
     def make_symbolic_graph(self) -> None:
         self.ssm["design", 0, slice(0, self.k_states, 2)] = 1
-        self.ssm["selection", :, :] = np.eye(self.k_states)
         self.param_dims = {self.name: (f"{self.name}_state",)}
         self.coords = {f"{self.name}_state": self.state_names}
 
@@ -1522,6 +1521,7 @@ class CycleComponent(Component):
 
         if self.innovations:
             sigma_cycle = self.make_and_register_variable(f"sigma_{self.name}", shape=())
+            self.ssm["selection", :, :] = np.eye(self.k_states)
             self.ssm["state_cov", :, :] = pt.eye(self.k_posdef) * sigma_cycle**2
 
     def populate_component_properties(self):
-- 
2.43.0


From e046b17ef18a6b6a56024abea11200f5834f089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 11/57] fix: advertised shapes of parameters that disagree with
 the statespace model

---
 pymc_extras/statespace/models/ETS.py        | 7 ++++++-
 pymc_extras/statespace/models/VARMAX.py     | 4 ++--
 pymc_extras/statespace/models/structural.py | 6 +++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pymc_extras/statespace/models/ETS.py b/pymc_extras/statespace/models/ETS.py
index a64f278..7951ccc 100644
--- a/pymc_extras/statespace/models/ETS.py
+++ b/pymc_extras/statespace/models/ETS.py
@@ -337,7 +337,12 @@ class BayesianETS(PyMCStateSpace):
                 "shape": None if self.k_endog == 1 else (self.k_endog,),
                 "constraints": None,
             },
-            "initial_seasonal": {"shape": (self.seasonal_periods,), "constraints": None},
+            "initial_seasonal": {
+                "shape": (self.seasonal_periods,)
+                if self.k_endog == 1
+                else (self.k_endog, self.seasonal_periods),
+                "constraints": None,
+            },
             "sigma_obs": {
                 "shape": None if self.k_endog == 1 else (self.k_endog,),
                 "constraints": "Positive",
diff --git a/pymc_extras/statespace/models/VARMAX.py b/pymc_extras/statespace/models/VARMAX.py
index b49765d..7c82244 100644
--- a/pymc_extras/statespace/models/VARMAX.py
+++ b/pymc_extras/statespace/models/VARMAX.py
@@ -212,8 +212,8 @@ class BayesianVARMAX(PyMCStateSpace):
                 "constraints": "Positive Semi-definite",
             },
             "sigma_obs": {
-                "shape": (self.k_endog, self.k_endog),
-                "constraints": "Positive Semi-definite",
+                "shape": (self.k_endog,),
+                "constraints": "Positive",
             },
             "state_cov": {
                 "shape": (self.k_posdef, self.k_posdef),
diff --git a/pymc_extras/statespace/models/structural.py b/pymc_extras/statespace/models/structural.py
index 61d1e0d..c2cb5e2 100644
--- a/pymc_extras/statespace/models/structural.py
+++ b/pymc_extras/statespace/models/structural.py
@@ -1027,7 +1027,7 @@ class AutoregressiveComponent(Component):
 
         self.param_info = {
             "ar_params": {
-                "shape": (self.k_states,),
+                "shape": (len(self.ar_lags),),
                 "constraints": None,
                 "dims": (AR_PARAM_DIM,),
             },
@@ -1654,9 +1654,9 @@ class RegressionComponent(Component):
 
         if self.innovations:
             self.param_names += [f"sigma_beta_{self.name}"]
-            self.param_dims[f"sigma_beta_{self.name}"] = "exog_state"
+            self.param_dims[f"sigma_beta_{self.name}"] = ("exog_state",)
             self.param_info[f"sigma_beta_{self.name}"] = {
-                "shape": (),
+                "shape": (self.k_states,),
                 "constraints": "Positive",
                 "dims": ("exog_state",),
             }
-- 
2.43.0


From bbafd6e45400087526b63893e282099de3dea28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 12/57] fix: marginalization accepts reductions over the first
 dimension of the marginalized variable

---
 pymc_extras/model/marginal/graph_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/graph_analysis.py b/pymc_extras/model/marginal/graph_analysis.py
index d4ad98a..e136e2a 100644
--- a/pymc_extras/model/marginal/graph_analysis.py
+++ b/pymc_extras/model/marginal/graph_analysis.py
@@ -219,7 +219,7 @@ def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars)
             elif axes is None:
                 axes = tuple(range(node.inputs[0].type.ndim))
 
-            if any(input_dims[axis] for axis in axes):
+            if any(input_dims[axis] is not None for axis in axes):
                 raise ValueError(
                     f"Use of known dimensions as reduced dimensions of op {node.op} not supported."
                 )
-- 
2.43.0


From 59af8a6c24283610a3c6aa52d2abc6544c5e4fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 13/57] fix: alignment of dependent logps with the batch
 dimensions of the marginalized variable

---
 pymc_extras/model/marginal/distributions.py | 28 ++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pymc_extras/model/marginal/distributions.py b/pymc_extras/model/marginal/distributions.py
index 33f4bc7..05f74e2 100644
--- a/pymc_extras/model/marginal/distributions.py
+++ b/pymc_extras/model/marginal/distributions.py
@@ -29,16 +29,15 @@ class MarginalRV(OpFromGraph, MeasurableOp):
     @property
     def support_axes(self) -> tuple[tuple[int]]:
         """Dimensions of dependent RVs that belong to the core (non-batched) marginalized variable."""
-        marginalized_ndim_supp = self.inner_outputs[0].owner.op.ndim_supp
+        marginalized_rv = self.inner_outputs[0]
+        marginalized_batch_ndim = marginalized_rv.type.ndim - marginalized_rv.owner.op.ndim_supp
         support_axes_vars = []
         for dims_connection in self.dims_connections:
-            ndim = len(dims_connection)
-            marginalized_supp_axes = ndim - marginalized_ndim_supp
             support_axes_vars.append(
                 tuple(
                     -i
                     for i, dim in enumerate(reversed(dims_connection), start=1)
-                    if (dim is None or dim > marginalized_supp_axes)
+                    if (dim is None or dim >= marginalized_batch_ndim)
                 )
             )
         return tuple(support_axes_vars)
@@ -98,21 +97,22 @@ def reduce_batch_dependent_logps(
         dependent_ops, dependent_logps, dependent_dims_connections
     ):
         if dependent_logp.type.ndim > 0:
-            # Find which support axis implied by the MarginalRV need to be reduced
-            # Some may have already been reduced by the logp expression of the dependent RV (e.g., multivariate RVs)
+            # Dependent RV support axes are already collapsed in the logp (e.g., multivariate RVs), so we ignore them
             dep_supp_axes = get_support_axes(dependent_op)[0]
-
-            # Dependent RV support axes are already collapsed in the logp, so we ignore them
-            supp_axes = [
-                -i
-                for i, dim in enumerate(reversed(dependent_dims_connection), start=1)
-                if (dim is None and -i not in dep_supp_axes)
+            dependent_ndim = len(dependent_dims_connection)
+            logp_dims = [
+                dim
+                for axis, dim in enumerate(dependent_dims_connection, start=-dependent_ndim)
+                if axis not in dep_supp_axes
             ]
+
+            # The remaining axes that are not connected to the marginalized variable need to be reduced
+            supp_axes = [axis for axis, dim in enumerate(logp_dims) if dim is None]
             dependent_logp = dependent_logp.sum(supp_axes)
 
             # Finally, we need to align the dependent logp batch dimensions with the marginalized logp
-            dims_alignment = [dim for dim in dependent_dims_connection if dim is not None]
-            dependent_logp = dependent_logp.transpose(*dims_alignment)
+            dims_alignment = [dim for dim in logp_dims if dim is not None]
+            dependent_logp = dependent_logp.transpose(*np.argsort(dims_alignment))
 
         reduced_logps.append(dependent_logp)
 
-- 
2.43.0


From 6d129dc805135bf5dec7875f9e4475375d3e632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 14/57] fix: marginalization accepts length-one dimensions that
 are repeated by broadcasting

---
 pymc_extras/model/marginal/graph_analysis.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pymc_extras/model/marginal/graph_analysis.py b/pymc_extras/model/marginal/graph_analysis.py
index e136e2a..8003363 100644
--- a/pymc_extras/model/marginal/graph_analysis.py
+++ b/pymc_extras/model/marginal/graph_analysis.py
@@ -130,6 +130,19 @@ def _broadcast_dims(
     return tuple(output_dims)
 
 
+def _check_no_broadcasted_dims(inputs, inputs_dims: Sequence[DIMS], batch_shape) -> None:
+    """Check that known dimensions of length 1 are not repeated via broadcasting in the batch dims of the output."""
+    for inp, input_dims in zip(inputs, inputs_dims):
+        if all(dim is None for dim in input_dims):
+            continue
+        # Add missing dims
+        input_shape = (None,) * (len(input_dims) - inp.type.ndim) + inp.type.shape
+        missing_ndim = max(0, len(batch_shape) - len(input_dims))
+        for dim, input_length, length in zip(input_dims, input_shape, batch_shape[missing_ndim:]):
+            if dim is not None and input_length == 1 and length != 1:
+                raise ValueError("Known dimension of length 1 repeated via broadcasting")
+
+
 def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars) -> VAR_DIMS:
     for node in io_toposort(input_vars, output_vars):
         inputs_dims = [
@@ -204,6 +217,9 @@ def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars)
             batch_dims = _broadcast_dims(
                 tuple(input_dims[:op_batch_ndim] for input_dims in inputs_dims)
             )
+            _check_no_broadcasted_dims(
+                node.inputs, inputs_dims, node.default_output().type.shape[:op_batch_ndim]
+            )
             for out in node.outputs:
                 if isinstance(out.type, TensorType):
                     core_ndim = out.type.ndim - op_batch_ndim
@@ -305,6 +321,10 @@ def _subgraph_batch_dim_connection(var_dims: VAR_DIMS, input_vars, output_vars)
 
                 # Advanced indexing variables broadcast together, so we apply same rules as in Elemwise
                 adv_dims = _broadcast_dims(keys_dims)
+                out_shape = node.outputs[0].type.shape
+                _check_no_broadcasted_dims(
+                    keys, keys_dims, out_shape[adv_group_axis : adv_group_axis + adv_group_ndim]
+                )
 
                 start_non_adv_dims = (None,) * adv_group_axis
                 end_non_adv_dims = (None,) * (
-- 
2.43.0


From 6d3e06778b8b40bc43205d87b692320c88bde6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 15/57] fix: recover_marginals drops joint terms of variables
 that depend on other marginalized variables

---
 pymc_extras/model/marginal/marginal_model.py | 68 ++++++++++++++++----
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index 41ce699..8f9fca5 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -27,6 +27,7 @@ from pymc_extras.distributions import DiscreteMarkovChain
 from pymc_extras.model.marginal.distributions import (
     MarginalDiscreteMarkovChainRV,
     MarginalFiniteDiscreteRV,
+    MarginalRV,
     get_domain_of_finite_discrete_rv,
     reduce_batch_dependent_logps,
 )
@@ -423,19 +424,7 @@ class MarginalModel(Model):
             m = self.clone()
             marginalized_rv = m.vars_to_clone[marginalized_rv]
             m.unmarginalize([marginalized_rv])
-            dependent_rvs = find_conditional_dependent_rvs(marginalized_rv, m.basic_RVs)
-            logps = m.logp(vars=[marginalized_rv, *dependent_rvs], sum=False)
-
-            # Handle batch dims for marginalized value and its dependent RVs
-            dependent_rvs_dim_connections = subgraph_batch_dim_connection(
-                marginalized_rv, dependent_rvs
-            )
-            marginalized_logp, *dependent_logps = logps
-            joint_logp = marginalized_logp + reduce_batch_dependent_logps(
-                dependent_rvs_dim_connections,
-                [dependent_var.owner.op for dependent_var in dependent_rvs],
-                dependent_logps,
-            )
+            joint_logp = joint_logp_of_unmarginalized_rv(m, marginalized_rv)
 
             marginalized_value = m.rvs_to_values[marginalized_rv]
             other_values = [v for v in m.value_vars if v is not marginalized_value]
@@ -542,6 +531,59 @@ def marginalize(model: Model, rvs_to_marginalize: ModelRVs) -> MarginalModel:
     return marginal_model
 
 
+def joint_logp_of_unmarginalized_rv(model: MarginalModel, rv: TensorVariable) -> TensorVariable:
+    """Joint logp of an RV and the variables that depend on it, aligned with the dimensions of the RV.
+
+    Other marginalized variables of the model are integrated out. The joint logp of all the dependents of
+    a marginalized variable is assigned to the first one, so this is the term that must be included.
+    """
+    dependent_names = [var.name for var in find_conditional_dependent_rvs(rv, model.basic_RVs)]
+
+    m = model.clone()._marginalize()
+    rv = m[rv.name]
+    dependent_rvs = [m[name] for name in dependent_names]
+
+    def first_of_joint_rvs(var):
+        return var.owner.outputs[1] if isinstance(var.owner.op, MarginalRV) else var
+
+    first_rv = first_of_joint_rvs(rv)
+    first_dependent_rvs = list(dict.fromkeys(first_of_joint_rvs(var) for var in dependent_rvs))
+    if first_rv in first_dependent_rvs:
+        first_dependent_rvs.remove(first_rv)
+
+    if rv.type.ndim > 0 and (
+        any(var not in dependent_rvs for var in first_dependent_rvs)
+        or (
+            isinstance(rv.owner.op, MarginalRV)
+            and (first_rv is not rv or None in rv.owner.op.dims_connections[0])
+        )
+    ):
+        raise NotImplementedError(
+            f"Cannot recover batched {rv}, because it is not independent of other variables given the "
+            "variables that are not marginalized."
+        )
+
+    logp, *dependent_logps = m._logp(vars=[first_rv, *first_dependent_rvs], sum=False)
+
+    if rv.type.ndim == 0:
+        return pt.add(*[logp.sum() for logp in (logp, *dependent_logps)])
+
+    # Handle batch dims for marginalized value and its dependent RVs
+    try:
+        dependent_rvs_dim_connections = subgraph_batch_dim_connection(rv, first_dependent_rvs)
+    except ValueError as e:
+        raise NotImplementedError(
+            f"Cannot recover {rv}, because its batch dimensions are mixed by the marginalized variables."
+        ) from e
+    if first_dependent_rvs:
+        logp = logp + reduce_batch_dependent_logps(
+            dependent_rvs_dim_connections,
+            [dependent_rv.owner.op for dependent_rv in first_dependent_rvs],
+            dependent_logps,
+        )
+    return logp
+
+
 def collect_shared_vars(outputs, blockers):
     return [
         inp for inp in graph_inputs(outputs, blockers=blockers) if isinstance(inp, SharedVariable)
-- 
2.43.0


From 8c88601d9a23af064dac4b158f89db18b8fcd8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 16/57] fix: marginalize removes dims from the original model

---
 pymc_extras/model/marginal/marginal_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index 8f9fca5..46edc77 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -237,7 +237,7 @@ class MarginalModel(Model):
         new_model.named_vars = treedict(
             {name: vars_to_clone[var] for name, var in model.named_vars.items()}
         )
-        new_model.named_vars_to_dims = model.named_vars_to_dims
+        new_model.named_vars_to_dims = model.named_vars_to_dims.copy()
         new_model.values_to_rvs = {vv: vars_to_clone[rv] for vv, rv in model.values_to_rvs.items()}
         new_model.rvs_to_values = {vars_to_clone[rv]: vv for rv, vv in model.rvs_to_values.items()}
         new_model.rvs_to_transforms = {
@@ -252,7 +252,7 @@ class MarginalModel(Model):
         new_model.deterministics = [vars_to_clone[det] for det in model.deterministics]
 
         new_model.marginalized_rvs = [vars_to_clone[rv] for rv in marginalized_rvs]
-        new_model._marginalized_named_vars_to_dims = marginalized_named_vars_to_dims
+        new_model._marginalized_named_vars_to_dims = marginalized_named_vars_to_dims.copy()
         return new_model
 
     def clone(self):
-- 
2.43.0


From f4cedfb3af170b1c6f0e48866e8765944d3c9ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 17/57] fix: unmarginalize variables given by name

---
 pymc_extras/model/marginal/marginal_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/model/marginal/marginal_model.py b/pymc_extras/model/marginal/marginal_model.py
index 46edc77..d9d1122 100644
--- a/pymc_extras/model/marginal/marginal_model.py
+++ b/pymc_extras/model/marginal/marginal_model.py
@@ -318,9 +318,10 @@ class MarginalModel(Model):
         return fn, transformed_names
 
     def unmarginalize(self, rvs_to_unmarginalize: Sequence[TensorVariable | str]):
+        marginalized_rvs = {rv.name: rv for rv in self.marginalized_rvs}
         for rv in rvs_to_unmarginalize:
             if isinstance(rv, str):
-                rv = self[rv]
+                rv = marginalized_rvs[rv]
             self.marginalized_rvs.remove(rv)
             if rv.name in self._marginalized_named_vars_to_dims:
                 dims = self._marginalized_named_vars_to_dims.pop(rv.name)
-- 
2.43.0


From c5543b0ba9837bce87a7101e86dd562a4ea4354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:44 +0000
Subject: [PATCH 18/57] fix: initial point of batched DiscreteMarkovChains,
 which raised or was misaligned

---
 pymc_extras/distributions/timeseries.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/distributions/timeseries.py b/pymc_extras/distributions/timeseries.py
index bb4072f..00a414f 100644
--- a/pymc_extras/distributions/timeseries.py
+++ b/pymc_extras/distributions/timeseries.py
@@ -239,16 +239,16 @@ def discrete_mc_moment(op, rv, P, steps, init_dist, state_rng):
     def greedy_transition(*args):
         *states, transition_probs, old_rng = args
         p = transition_probs[tuple(states)]
-        return pt.argmax(p)
+        return pt.argmax(p, axis=-1)
 
     chain_moment, moment_updates = pytensor.scan(
         greedy_transition,
         non_sequences=[P, state_rng],
-        outputs_info=_make_outputs_info(n_lags, init_dist),
+        outputs_info=_make_outputs_info(n_lags, init_dist_moment),
         n_steps=steps,
         strict=True,
     )
-    chain_moment = pt.concatenate([init_dist_moment, chain_moment])
+    chain_moment = pt.moveaxis(pt.concatenate([init_dist_moment, chain_moment], axis=0), 0, -1)
     return chain_moment
 
 
-- 
2.43.0


From 1a86a0d779f2951872069ca2dc28b5cf4ad24637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:00 +0000
Subject: [PATCH 19/57] fix: DiscreteMarkovChain logp with a batched initial
 distribution

---
 pymc_extras/distributions/timeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/distributions/timeseries.py b/pymc_extras/distributions/timeseries.py
index 00a414f..7c2959d 100644
--- a/pymc_extras/distributions/timeseries.py
+++ b/pymc_extras/distributions/timeseries.py
@@ -259,7 +259,10 @@ def discrete_mc_logp(op, values, P, steps, init_dist, state_rng, **kwargs):
 
     indexes = [value[..., i : -(n_lags - i) if n_lags != i else None] for i in range(n_lags + 1)]
 
-    mc_logprob = logp(init_dist, value[..., :n_lags]).sum(axis=-1)
+    # The lags are the first dimension of init_dist, but the last dimension of the value
+    lag_axis = -init_dist.type.ndim
+    init_value = pt.moveaxis(value[..., :n_lags], -1, lag_axis)
+    mc_logprob = logp(init_dist, init_value).sum(axis=lag_axis)
     mc_logprob += pt.log(P[tuple(indexes)]).sum(axis=-1)
 
     # We cannot leave any RV in the logp graph, even if just for an assert
-- 
2.43.0


From 992b63b142313c6ded585d9a002202b9b5a0c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 20/57] fix: draws of the BetaNegativeBinomial used its
 probability as a mean

---
 pymc_extras/distributions/discrete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/distributions/discrete.py b/pymc_extras/distributions/discrete.py
index 0bfe8e7..23d41d3 100644
--- a/pymc_extras/distributions/discrete.py
+++ b/pymc_extras/distributions/discrete.py
@@ -251,7 +251,7 @@ class BetaNegativeBinomial:
             alpha, beta, r = pt.broadcast_arrays(alpha, beta, r)
 
         p = pm.Beta.dist(alpha, beta, size=size)
-        return pm.NegativeBinomial.dist(p, r, size=size)
+        return pm.NegativeBinomial.dist(p=p, n=r, size=size)
 
     @staticmethod
     def beta_negative_binomial_logp(value, alpha, beta, r):
-- 
2.43.0


From f3a7e0aa2563510be37b8afed8650c97d9f9846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:29 +0000
Subject: [PATCH 21/57] fix: Skellam logp with a zero rate

---
 pymc_extras/distributions/discrete.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymc_extras/distributions/discrete.py b/pymc_extras/distributions/discrete.py
index 23d41d3..bdc3b84 100644
--- a/pymc_extras/distributions/discrete.py
+++ b/pymc_extras/distributions/discrete.py
@@ -369,6 +369,12 @@ class Skellam:
             + 0.5 * value * (pt.log(mu1) - pt.log(mu2))
             + pt.log(pt.iv(value, 2 * pt.sqrt(mu1 * mu2)))
         )
+        # A Poisson variable with zero rate is always zero
+        res = pt.switch(
+            pt.eq(mu2, 0),
+            pm.logp(pm.Poisson.dist(mu=mu1), value),
+            pt.switch(pt.eq(mu1, 0), pm.logp(pm.Poisson.dist(mu=mu2), -value), res),
+        )
         return check_parameters(
             res,
             mu1 >= 0,
-- 
2.43.0


From 3dff4343b041a1541f0c9bc2a0151b2f5d434290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 22/57] fix: static symbolic matrices assigned to a
 representation lacked their time dimension

---
 pymc_extras/statespace/core/representation.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index e4be800..f46a11d 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -298,9 +298,9 @@ class PytensorRepresentation:
                     )
 
                 # Time varying vector case, check only the static shapes
-                if X.ndim == 2 and X.shape[1:] != expected_shape:
+                if X.ndim == 2 and shape[1:] != expected_shape:
                     raise ValueError(
-                        f"Last dimension of array provided for {name} has shape {X.shape[1]}, "
+                        f"Last dimension of array provided for {name} has shape {shape[1]}, "
                         f"expected {expected_shape}"
                     )
 
@@ -314,7 +314,7 @@ class PytensorRepresentation:
                 # Time varying matrix case, check only the static shapes
                 if X.ndim == 3 and shape[1:] != expected_shape:
                     raise ValueError(
-                        f"Last two dimensions of array provided for {name} have shapes {X.shape[1:]}, "
+                        f"Last two dimensions of array provided for {name} have shapes {shape[1:]}, "
                         f"expected {expected_shape}"
                     )
 
@@ -330,13 +330,10 @@ class PytensorRepresentation:
     def _check_provided_tensor(self, name: str, X: pt.TensorVariable) -> pt.TensorVariable:
         self._validate_matrix_shape(name, X)
         if name not in NEVER_TIME_VARYING:
-            if X.ndim == 1 and name in VECTOR_VALUED:
-                X = pt.expand_dims(X, (0,))
-                X = pt.specify_shape(X, self.shapes[name])
-
-            elif X.ndim == 2:
+            core_ndim = 1 if name in VECTOR_VALUED else 2
+            if X.ndim == core_ndim:
                 X = pt.expand_dims(X, (0,))
-                X = pt.specify_shape(X, self.shapes[name])
+                X = pt.specify_shape(X, (1, *self.shapes[name][1:]))
 
         return X
 
@@ -414,11 +411,13 @@ class PytensorRepresentation:
             self._validate_key(key)
             if isinstance(value, np.ndarray):
                 value = self._numpy_to_pytensor(key, value)
+                self._update_shape(key, value)
             else:
+                self._update_shape(key, value)
+                value = self._check_provided_tensor(key, value)
                 value.name = key
 
             setattr(self, key, value)
-            self._update_shape(key, value)
 
         # Case 2: key is a string plus a slice: we are setting a subset of a matrix
         elif _type is tuple:
-- 
2.43.0


From f02b5ac7a84187c56a77114bccea5d64d00d32de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 23/57] fix: sizes of matrices with an unknown time dimension
 stay symbolic in the Kalman filter

---
 pymc_extras/statespace/filters/kalman_filter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/statespace/filters/kalman_filter.py b/pymc_extras/statespace/filters/kalman_filter.py
index 36f2cd6..8539ca8 100644
--- a/pymc_extras/statespace/filters/kalman_filter.py
+++ b/pymc_extras/statespace/filters/kalman_filter.py
@@ -203,11 +203,10 @@ class BaseFilter(ABC):
         self.missing_fill_value = missing_fill_value
         self.cov_jitter = cov_jitter
 
-        [R_shape] = constant_fold([R.shape], raise_not_constant=False)
-        [Z_shape] = constant_fold([Z.shape], raise_not_constant=False)
-
-        self.n_states, self.n_shocks = R_shape[-2:]
-        self.n_endog = Z_shape[-2]
+        # Fold each dimension by itself: folding a whole shape leaves every dimension symbolic when the time dimension is
+        self.n_states, self.n_shocks, self.n_endog = constant_fold(
+            [R.shape[-2], R.shape[-1], Z.shape[-2]], raise_not_constant=False
+        )
 
         data, a0, P0, *params = self.check_params(data, a0, P0, c, d, T, Z, R, H, Q)
 
-- 
2.43.0


From 3afe26982348b911894724282f683f221645e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 24/57] fix: conditional samples of the observed states omit
 the observation intercept

---
 pymc_extras/statespace/core/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index e9bc172..ef434e0 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1162,7 +1162,7 @@ class PyMCStateSpace:
                     dims=state_dims,
                 )
 
-                obs_mu = (Z @ mu[..., None]).squeeze(-1)
+                obs_mu = d + (Z @ mu[..., None]).squeeze(-1)
                 obs_cov = Z @ cov @ pt.swapaxes(Z, -2, -1) + H
 
                 SequenceMvNormal(
-- 
2.43.0


From dca130d6529bedc884e4c8d13ce11bb65537607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 25/57] fix: sampled observations used the previous row of
 time-varying observation matrices and no intercept at the first row

---
 pymc_extras/statespace/filters/distributions.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index d3b70c8..e0cac1b 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -257,14 +257,23 @@ class _LinearGaussianStateSpace(Continuous):
 
             return next_state, {rng: next_rng}
 
+        d_init = d_ if d_ in non_sequences else d_[0]
         Z_init = Z_ if Z_ in non_sequences else Z_[0]
         H_init = H_ if H_ in non_sequences else H_[0]
 
         init_x_ = MvNormalSVD.dist(a0_, P0_, rng=rng)
-        init_y_ = MvNormalSVD.dist(Z_init @ init_x_, H_init, rng=rng)
+        init_y_ = MvNormalSVD.dist(d_init + Z_init @ init_x_, H_init, rng=rng)
 
         init_dist_ = pt.concatenate([init_x_, init_y_], axis=0)
 
+        if append_x0:
+            # The initial state is observed through the first row of d, Z and H, so the observation made after step t
+            # uses row t + 1 of these matrices.
+            for i, x in enumerate(sequences):
+                if x in [d_, Z_, H_]:
+                    sequences[i] = x[1:]
+                    sequences[i].name = x.name
+
         statespace, updates = pytensor.scan(
             step_fn,
             outputs_info=[init_dist_],
@@ -367,7 +376,7 @@ class LinearGaussianStateSpace(Continuous):
         latent_obs_combined = _LinearGaussianStateSpace.dist(
             a0, P0, c, d, T, Z, R, H, Q, steps=steps, **kwargs
         )
-        k_states = T.type.shape[0]
+        k_states = cls._get_k_states(T)
 
         latent_states = latent_obs_combined[..., :k_states]
         obs_states = latent_obs_combined[..., k_states:]
@@ -376,14 +385,14 @@ class LinearGaussianStateSpace(Continuous):
 
     @classmethod
     def _get_k_states(cls, T):
-        k_states = T.type.shape[0]
+        k_states = T.type.shape[-1]
         if k_states is None:
             raise ValueError(lgss_shape_message)
         return k_states
 
     @classmethod
     def _get_k_endog(cls, H):
-        k_endog = H.type.shape[0]
+        k_endog = H.type.shape[-1]
         if k_endog is None:
             raise ValueError(lgss_shape_message)
 
-- 
2.43.0


From 14ad38cd4c2ade0d6be9b46f10796ac8b8ab2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 26/57] fix: conditional sampling from a model without coords

---
 pymc_extras/statespace/core/statespace.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index ef434e0..d2db81d 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -900,7 +900,10 @@ class PyMCStateSpace:
             dims=obs_dims,
         )
 
-        self._fit_coords = pm_mod.coords.copy()
+        # Dimensions without coordinate values (such as those of data in a model without coords) cannot be given to a new model
+        self._fit_coords = {
+            dim: coord for dim, coord in pm_mod.coords.items() if coord is not None
+        }
         self._fit_dims = pm_mod.named_vars_to_dims.copy()
         self._fit_mode = mode
 
@@ -1146,12 +1149,12 @@ class PyMCStateSpace:
                 state_dims = (
                     (TIME_DIM, ALL_STATE_DIM)
                     if all([dim in self._fit_coords for dim in [TIME_DIM, ALL_STATE_DIM]])
-                    else (None, None)
+                    else None
                 )
                 obs_dims = (
                     (TIME_DIM, OBS_STATE_DIM)
                     if all([dim in self._fit_coords for dim in [TIME_DIM, OBS_STATE_DIM]])
-                    else (None, None)
+                    else None
                 )
 
                 SequenceMvNormal(
-- 
2.43.0


From fe545a5653c5a1571c9d20962953bfd9de660f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 27/57] fix: sample_unconditional with use_data_time_dim and
 steps drew one row too many

---
 pymc_extras/statespace/core/statespace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index d2db81d..db2eb52 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1262,6 +1262,7 @@ class PyMCStateSpace:
                     f"Length of time dimension does not match specified number of steps, expected"
                     f" {n_dimsteps} steps, or steps=None."
                 )
+            steps = n_dimsteps - 1
         else:
             steps = len(temp_coords[TIME_DIM]) - 1
 
-- 
2.43.0


From 82df42cfe1c9929953cfdf4bcc041245b50cd0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:48 +0000
Subject: [PATCH 28/57] fix: sample_statespace_matrices with time-varying
 matrices and with parameters named like a matrix

---
 pymc_extras/statespace/core/statespace.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index db2eb52..e516062 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1514,12 +1514,21 @@ class PyMCStateSpace:
 
             self._insert_data_variables()
             matrices = self.unpack_statespace()
+
+            # Parameters can have the name of a matrix (x0 and P0, for example), which is then not free for the matrix
+            sampled_names = {
+                name: f"{name}_matrix" if name in forward_model.named_vars else name
+                for name in matrix_names
+            }
             for short_name, matrix in zip(MATRIX_NAMES, matrices):
                 long_name = SHORT_NAME_TO_LONG[short_name]
                 if (long_name in matrix_names) or (short_name in matrix_names):
                     name = long_name if long_name in matrix_names else short_name
-                    dims = [x if x in self._fit_coords else None for x in MATRIX_DIMS[short_name]]
-                    pm.Deterministic(name, matrix, dims=dims)
+                    dims = MATRIX_DIMS[short_name]
+                    if matrix.ndim > len(dims):
+                        dims = (TIME_DIM, *dims)
+                    dims = [x if x in self._fit_coords else None for x in dims]
+                    pm.Deterministic(sampled_names[name], matrix, dims=dims)
 
         # TODO: Remove this after pm.Flat has its initial_value fixed
         forward_model.rvs_to_initial_values = {
@@ -1529,12 +1538,14 @@ class PyMCStateSpace:
         with frozen_model:
             matrix_idata = pm.sample_posterior_predictive(
                 idata if group == "posterior" else idata.prior,
-                var_names=matrix_names,
+                var_names=list(sampled_names.values()),
                 compile_kwargs={"mode": self._fit_mode},
                 extend_inferencedata=False,
             )
 
-        return matrix_idata
+        return matrix_idata.rename(
+            {sampled: name for name, sampled in sampled_names.items() if sampled != name}
+        )
 
     @staticmethod
     def _validate_forecast_args(
-- 
2.43.0


From c15f2c8807597362e0371105978776ac083ebf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:23 +0000
Subject: [PATCH 29/57] fix: forecast without a start date raised when
 verbose=False

---
 pymc_extras/statespace/core/statespace.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index e516062..1931caa 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -2002,11 +2002,12 @@ class PyMCStateSpace:
         _validate_filter_arg(filter_output)
         time_index = self._get_fit_time_index()
 
-        if start is None and verbose:
-            _log.warning(
-                "No start date provided. Using the last date in the data index. To silence this warning, "
-                "explicitly pass a start date or set verbose = False"
-            )
+        if start is None:
+            if verbose:
+                _log.warning(
+                    "No start date provided. Using the last date in the data index. To silence this warning, "
+                    "explicitly pass a start date or set verbose = False"
+                )
             start = time_index[-1]
 
         if self._needs_exog_data and not isinstance(scenario, dict):
-- 
2.43.0


From 46660f825b55c8f527e76d29ec5c633be41efce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:23 +0000
Subject: [PATCH 30/57] fix: forecast over the index of the scenario required
 periods or end

---
 pymc_extras/statespace/core/statespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 1931caa..9852964 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1564,9 +1564,9 @@ class PyMCStateSpace:
                 raise ValueError(
                     "Integer start must be within the range of the data index used to fit the model."
                 )
-        if periods is None and end is None:
+        if periods is None and end is None and not use_scenario_index:
             raise ValueError("Must specify one of either periods or end")
-        if periods is not None and end is not None:
+        if periods is not None and end is not None and not use_scenario_index:
             raise ValueError("Must specify exactly one of either periods or end")
         if scenario is None and use_scenario_index:
             raise ValueError("use_scenario_index=True requires a scenario to be provided.")
-- 
2.43.0


From 0a902036e3ba08335860cc8bad635fd2dfef8d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:23 +0000
Subject: [PATCH 31/57] fix: forecast scenarios with columns in another order
 were used as they came

---
 pymc_extras/statespace/core/statespace.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index 9852964..c9fb6e1 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1658,7 +1658,7 @@ class PyMCStateSpace:
 
                 # Recursively call this function to trigger the non-dictionary branch of the checks on each object
                 # inside the dictionary
-                scenario[name] = self._validate_scenario_data(data, name)
+                scenario[name] = self._validate_scenario_data(data, name, verbose=verbose)
 
             # The provided dictionary might be a mix of numpy arrays and dataframes if the user is truly horrible.
             # For checking shapes, the first object will always be good enough. But we also need to make sure all the
@@ -1736,13 +1736,14 @@ class PyMCStateSpace:
                         f"{', '.join(extra_columns)}"
                     )
 
-                if not (a == b for a, b in zip(expected_cols, cols)) and verbose:
-                    _log.warning(
-                        f"Scenario data for {name} has a different column order than the data used to fit the "
-                        f"model. Columns will be automatically re-ordered. Ensure consistent ordering to avoid "
-                        f"silent errors."
-                    )
-                    scenario = scenario[expected_cols]
+                if not all(a == b for a, b in zip(expected_cols, cols)):
+                    if verbose:
+                        _log.warning(
+                            f"Scenario data for {name} has a different column order than the data used to fit the "
+                            f"model. Columns will be automatically re-ordered. Ensure consistent ordering to avoid "
+                            f"silent errors."
+                        )
+                    scenario = scenario[list(expected_cols)]
 
             return scenario
 
-- 
2.43.0


From 3775a2a384dfdcb133685a81e7f24d641e14bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:23 +0000
Subject: [PATCH 32/57] fix: forecast replaced the entries of the caller's
 scenario dictionary

---
 pymc_extras/statespace/core/statespace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index c9fb6e1..a316ce2 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -1649,6 +1649,7 @@ class PyMCStateSpace:
             )
 
         if isinstance(scenario, dict):
+            scenario = scenario.copy()
             for name, data in scenario.items():
                 if name not in self._exog_names:
                     raise ValueError(
@@ -1894,6 +1895,7 @@ class PyMCStateSpace:
             return scenario
 
         if isinstance(scenario, dict):
+            scenario = scenario.copy()
             for name, data in scenario.items():
                 scenario[name] = self._finalize_scenario_initialization(data, forecast_index, name)
             return scenario
-- 
2.43.0


From 9c05652e7b83ecb3a4584530cc87a34c74e901a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 33/57] fix: a constant observation intercept listed among the
 time-varying inputs lost its only row

---
 pymc_extras/statespace/filters/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/filters/distributions.py b/pymc_extras/statespace/filters/distributions.py
index e0cac1b..75accaa 100644
--- a/pymc_extras/statespace/filters/distributions.py
+++ b/pymc_extras/statespace/filters/distributions.py
@@ -270,7 +270,7 @@ class _LinearGaussianStateSpace(Continuous):
             # The initial state is observed through the first row of d, Z and H, so the observation made after step t
             # uses row t + 1 of these matrices.
             for i, x in enumerate(sequences):
-                if x in [d_, Z_, H_]:
+                if (x is d_ and x.ndim == 2) or (x in [Z_, H_] and x.ndim == 3):
                     sequences[i] = x[1:]
                     sequences[i].name = x.name
 
-- 
2.43.0


From 36fc6317c675944cb7c8865fe1c16c018e9d0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 34/57] fix: impulse_response_function passed the caller's
 compile_kwargs twice and dropped them

---
 pymc_extras/statespace/core/statespace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/core/statespace.py b/pymc_extras/statespace/core/statespace.py
index a316ce2..9ad6cde 100644
--- a/pymc_extras/statespace/core/statespace.py
+++ b/pymc_extras/statespace/core/statespace.py
@@ -2261,9 +2261,9 @@ class PyMCStateSpace:
 
             pm.Deterministic("irf", irf, dims=[TIME_DIM, ALL_STATE_DIM])
 
-            compile_kwargs = kwargs.get("compile_kwargs", {})
+            compile_kwargs = dict(kwargs.pop("compile_kwargs", None) or {})
             if "mode" not in compile_kwargs.keys():
-                compile_kwargs = {"mode": self._fit_mode}
+                compile_kwargs.update({"mode": self._fit_mode})
             else:
                 mode = compile_kwargs.get("mode")
                 if mode is not None and mode != self._fit_mode:
-- 
2.43.0


From ccfc36d26ffa07c74b8e7e7f56b428e8d199a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 35/57] fix: assigning to an element of a time-varying or
 initial matrix overwrote whole rows

---
 pymc_extras/statespace/core/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index f46a11d..6049d22 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -426,7 +426,7 @@ class PytensorRepresentation:
 
             matrix = getattr(self, name)
 
-            slice_ = self._add_time_dim_to_slice(name, slice_, matrix.ndim)
+            slice_ = self._add_time_dim_to_slice(name, tuple(slice_), matrix.ndim)
             matrix = pt.set_subtensor(matrix[slice_], value)
             matrix = pt.specify_shape(matrix, self.shapes[name])
             matrix.name = name
-- 
2.43.0


From 8bb5b36cd6273e77deb737dcd4f853e646ec28d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:56 +0000
Subject: [PATCH 36/57] fix: reading all rows of the initial state covariance,
 or rows by an array, from the representation

---
 pymc_extras/statespace/core/representation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index 6049d22..2559695 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -382,14 +382,16 @@ class PytensorRepresentation:
             self._validate_key(name)
 
             matrix = getattr(self, name)
+            whole = all(isinstance(s, slice) and s == slice(None, None, None) for s in slice_)
+
             # Case 2a: The user asked for the whole matrix, with time dummies. Return the whole thing
             # without slicing anything away
-            if slice_ == (slice(None, None, None),) * matrix.ndim:
+            if whole and len(slice_) == matrix.ndim:
                 return matrix
 
             # Case 2b: The user asked for the whole matrix except time dummies. Ignore the slice and act like we're in
             # case 1.
-            elif slice_ == (slice(None, None, None),) * (matrix.ndim - 1):
+            elif whole and len(slice_) == matrix.ndim - 1 and name not in NEVER_TIME_VARYING:
                 X = matrix[(0,) + (slice(None),) * (matrix.ndim - 1)]
                 X = pt.specify_shape(X, self.shapes[name][1:])
                 X.name = name
-- 
2.43.0


From 071dc31c52ddaf36671fb65e4dd6864c6cc0d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:56 +0000
Subject: [PATCH 37/57] fix: array indices into a state space matrix read and
 assigned transposed values

---
 pymc_extras/statespace/core/representation.py | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index 2559695..c4a639e 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -244,22 +244,14 @@ class PytensorRepresentation:
 
         self.shapes[key] = shape
 
-    def _add_time_dim_to_slice(
-        self, name: str, slice_: list[int] | tuple[int], n_dim: int
-    ) -> tuple[int | slice, ...]:
-        # Case 1: There is never a time dim. No changes needed.
-        if name in NEVER_TIME_VARYING:
-            return slice_
-
-        # Case 2: The matrix has a time dim, and it was requested. No changes needed.
-        if len(slice_) == n_dim:
-            return slice_
-
-        # Case 3: There's no time dim on the matrix, and none requested. Slice away the dummy dim.
-        if len(slice_) < n_dim:
-            empty_slice = (slice(None, None, None),)
-            n_omitted = n_dim - len(slice_) - 1
-            return (0,) + tuple(slice_) + empty_slice * n_omitted
+    def _omits_time_dim(self, name: str, slice_: tuple, n_dim: int) -> bool:
+        # There is never a time dim, or it was requested: the slice can be used as it is
+        if name in NEVER_TIME_VARYING or len(slice_) == n_dim:
+            return False
+
+        # There's no time dim on the matrix, and none requested. Slice away the dummy dim. This has to happen before
+        # the slice is used, because array indices next to the index of the dummy would move their axis to the front.
+        return len(slice_) < n_dim
 
     @staticmethod
     def _validate_key_and_get_type(key: KeyLike) -> type[str]:
@@ -398,7 +390,8 @@ class PytensorRepresentation:
                 return X
 
             # Case 3b: User asked for an arbitrary sub-matrix. Give it back -- nothing else to be done
-            slice_ = self._add_time_dim_to_slice(name, slice_, matrix.ndim)
+            if self._omits_time_dim(name, slice_, matrix.ndim):
+                return matrix[0][slice_]
             return matrix[slice_]
 
         # Case 3: There is only one slice index, but it's not a string
@@ -428,7 +421,10 @@ class PytensorRepresentation:
 
             matrix = getattr(self, name)
 
-            slice_ = self._add_time_dim_to_slice(name, tuple(slice_), matrix.ndim)
+            slice_ = tuple(slice_)
+            if self._omits_time_dim(name, slice_, matrix.ndim):
+                value = pt.set_subtensor(matrix[0][slice_], value)
+                slice_ = (0,)
             matrix = pt.set_subtensor(matrix[slice_], value)
             matrix = pt.specify_shape(matrix, self.shapes[name])
             matrix.name = name
-- 
2.43.0


From 286c294ff7f05c425df242a683fc7978641a2509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:54 +0000
Subject: [PATCH 38/57] fix: a refused assignment changed the recorded shape of
 the state space matrix

---
 pymc_extras/statespace/core/representation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index c4a639e..cecb49a 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -408,6 +408,7 @@ class PytensorRepresentation:
                 value = self._numpy_to_pytensor(key, value)
                 self._update_shape(key, value)
             else:
+                self._validate_matrix_shape(key, value)
                 self._update_shape(key, value)
                 value = self._check_provided_tensor(key, value)
                 value.name = key
-- 
2.43.0


From f9d7b4791a1a80ba44d74a2a577087078dcb56fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 39/57] fix: matrices given to the representation's
 constructor: static shapes were not checked, time-varying ones not recorded

---
 pymc_extras/statespace/core/representation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymc_extras/statespace/core/representation.py b/pymc_extras/statespace/core/representation.py
index cecb49a..1cb1caf 100644
--- a/pymc_extras/statespace/core/representation.py
+++ b/pymc_extras/statespace/core/representation.py
@@ -210,6 +210,9 @@ class PytensorRepresentation:
                     matrix = self._numpy_to_pytensor(name, matrix)
                 else:
                     matrix = self._check_provided_tensor(name, matrix)
+                # The static shape of a symbolic matrix can be unknown, in which case there is nothing to check
+                if None not in matrix.type.shape[-len(shape) + (name not in NEVER_TIME_VARYING) :]:
+                    self._update_shape(name, matrix)
                 setattr(self, name, matrix)
 
             else:
-- 
2.43.0


From 2a1f8fb8887e351f6c955e85d7320d5971c985d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:02 +0000
Subject: [PATCH 40/57] fix: truncating reparametrization weights left those at
 the threshold alone

---
 pymc_extras/model/transforms/autoreparam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model/transforms/autoreparam.py b/pymc_extras/model/transforms/autoreparam.py
index 0b7f220..cd5fcd4 100644
--- a/pymc_extras/model/transforms/autoreparam.py
+++ b/pymc_extras/model/transforms/autoreparam.py
@@ -84,7 +84,7 @@ class VIP:
             lam = lambdas[var]
             update[var] = np.piecewise(
                 lam,
-                [lam < eps, lam > (1 - eps)],
+                [lam <= eps, lam >= (1 - eps)],
                 [0, 1, lambda x: x],
             )
         self.set_lambda(**update)
-- 
2.43.0


From e4ae661a06c01963304ddd6eb818a7bf5c21c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:46 +0000
Subject: [PATCH 41/57] fix: Laplace curvature was taken in another order than
 the mean and the row labels

---
 pymc_extras/inference/laplace.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 1cfe041..58d0dd9 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -288,8 +288,8 @@ def fit_mvn_to_MAP(
         logp = frozen_model.logp(jacobian=True)
         variables = frozen_model.continuous_value_vars
 
-    variable_names = {var.name for var in variables}
-    optimized_free_params = {k: v for k, v in optimized_point.items() if k in variable_names}
+    # The Hessian below is taken with respect to the variables in this order
+    optimized_free_params = {var.name: optimized_point[var.name] for var in variables}
     mu = DictToArrayBijection.map(optimized_free_params)
 
     _, f_hess, _ = scipy_optimize_funcs_from_loss(
@@ -396,9 +396,14 @@ def sample_laplace_posterior(
             slice(sum(flat_shapes[:i]), sum(flat_shapes[: i + 1])) for i in range(len(flat_shapes))
         ]
 
-        posterior_draws = [
-            posterior_draws[..., idx].reshape((chains, draws, *shape)).astype(dtype)
+        posterior_draws = {
+            name: posterior_draws[..., idx].reshape((chains, draws, *shape)).astype(dtype)
             for idx, (name, shape, _, dtype) in zip(slices, info)
+        }
+        posterior_draws = [
+            posterior_draws[x.name]
+            for x in get_default_varnames(model.unobserved_value_vars, include_transformed=False)
+            if x.name in posterior_draws
         ]
 
     idata = laplace_draws_to_inferencedata(posterior_draws, model)
-- 
2.43.0


From bdcbb9393a499606e458b51cf210ccae272658f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:46 +0000
Subject: [PATCH 42/57] fix: Laplace approximation of a model given outside its
 context

---
 pymc_extras/inference/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 58d0dd9..f481129 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -407,7 +407,7 @@ def sample_laplace_posterior(
         ]
 
     idata = laplace_draws_to_inferencedata(posterior_draws, model)
-    idata = add_fit_to_inferencedata(idata, mu, H_inv)
+    idata = add_fit_to_inferencedata(idata, mu, H_inv, model)
     idata = add_data_to_inferencedata(idata, progressbar, model, compile_kwargs)
 
     return idata
-- 
2.43.0


From 67fb5ecb65c310d9619ea70e429c42569d980800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:46 +0000
Subject: [PATCH 43/57] fix: Laplace draws lost the chain, draw and parameter
 axes of length one

---
 pymc_extras/inference/laplace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index f481129..2eb0d40 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -371,7 +371,8 @@ def sample_laplace_posterior(
     posterior_dist = stats.multivariate_normal(
         mean=mu.data, cov=H_inv, allow_singular=True, seed=rng
     )
-    posterior_draws = posterior_dist.rvs(size=(chains, draws))
+    # scipy drops axes of length one
+    posterior_draws = posterior_dist.rvs(size=(chains, draws)).reshape((chains, draws, -1))
 
     if transform_samples:
         constrained_rvs, unconstrained_vector = _unconstrained_vector_to_constrained_rvs(model)
-- 
2.43.0


From 5ab48459aea8ff23043a5960da7c1e8bc4d69abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 44/57] fix: Laplace approximation of vectors without
 coordinates for every entry

---
 pymc_extras/inference/laplace.py | 39 +++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 2eb0d40..072dc4d 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -79,13 +79,17 @@ def laplace_draws_to_inferencedata(
         extra_dims = model.named_vars_to_dims.get(name)
         if extra_dims is None:
             return coords
-        return coords | {dim: list(model.coords[dim]) for dim in extra_dims}
+        return coords | {
+            dim: list(model.coords[dim])
+            for dim in extra_dims
+            if model.coords.get(dim) is not None
+        }
 
-    def make_rv_dims(name):
+    def make_rv_dims(name, ndim):
         dims = ["chain", "draw"]
         extra_dims = model.named_vars_to_dims.get(name)
         if extra_dims is None:
-            return dims
+            return dims + [f"{name}_dim_{i}" for i in range(ndim - 2)]
         return dims + list(extra_dims)
 
     names = [
@@ -93,12 +97,12 @@ def laplace_draws_to_inferencedata(
     ]
     idata = {
         name: xr.DataArray(
-            data=draws,
+            data=values,
             coords=make_rv_coords(name),
-            dims=make_rv_dims(name),
+            dims=make_rv_dims(name, values.ndim),
             name=name,
         )
-        for name, draws in zip(names, posterior_draws)
+        for name, values in zip(names, posterior_draws)
     }
 
     coords, dims = coords_and_dims_for_inferencedata(model)
@@ -133,9 +137,7 @@ def add_fit_to_inferencedata(
     model = pm.modelcontext(model)
     coords = model.coords
 
-    variable_names, *_ = zip(*mu.point_map_info)
-
-    def make_unpacked_variable_names(name):
+    def make_unpacked_variable_names(name, shape):
         value_to_dim = {
             x.name: model.named_vars_to_dims.get(model.values_to_rvs[x].name, None)
             for x in model.value_vars
@@ -145,14 +147,25 @@ def add_fit_to_inferencedata(
         rv_to_dim = model.named_vars_to_dims
         dims_dict = rv_to_dim | value_to_dim
 
-        dims = dims_dict.get(name)
-        if dims is None:
+        if shape == ():
             return [name]
-        labels = product(*(coords[dim] for dim in dims))
+
+        dims = dims_dict.get(name)
+        dim_coords = None if dims is None else [coords.get(dim) for dim in dims]
+        if (
+            dim_coords is None
+            or any(values is None for values in dim_coords)
+            or tuple(map(len, dim_coords)) != shape
+        ):
+            # No coordinates for every entry (a transform can also change the shape of a variable)
+            dim_coords = [range(length) for length in shape]
+        labels = product(*dim_coords)
         return [f"{name}[{','.join(map(str, label))}]" for label in labels]
 
     unpacked_variable_names = reduce(
-        lambda lst, name: lst + make_unpacked_variable_names(name), variable_names, []
+        lambda lst, info: lst + make_unpacked_variable_names(info[0], tuple(info[1])),
+        mu.point_map_info,
+        [],
     )
 
     mean_dataarray = xr.DataArray(mu.data, dims=["rows"], coords={"rows": unpacked_variable_names})
-- 
2.43.0


From c57870efdcae7bd74a42c9e06cb5b72971004bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:46 +0000
Subject: [PATCH 45/57] fix: Laplace approximation of the unconstrained space
 without reported transformed values

---
 pymc_extras/inference/laplace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index 072dc4d..f2091ec 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -560,7 +560,8 @@ def fit_laplace(
         return_raw=return_raw,
         jitter_rvs=jitter_rvs,
         progressbar=progressbar,
-        include_transformed=include_transformed,
+        # The curvature of the unconstrained space is taken at the transformed values
+        include_transformed=include_transformed or fit_in_unconstrained_space,
         gradient_backend=gradient_backend,
         compile_kwargs=compile_kwargs,
         **optimizer_kwargs,
-- 
2.43.0


From ad416a3e8ca97a6c917f5ac5f9a898a2d5d1bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:46 +0000
Subject: [PATCH 46/57] fix: Laplace approximation asked for the raw optimizer
 result

---
 pymc_extras/inference/laplace.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/inference/laplace.py b/pymc_extras/inference/laplace.py
index f2091ec..8c39d77 100644
--- a/pymc_extras/inference/laplace.py
+++ b/pymc_extras/inference/laplace.py
@@ -519,8 +519,9 @@ def fit_laplace(
 
     Returns
     -------
-    idata: az.InferenceData
-        An InferenceData object containing the approximated posterior samples.
+    idata: az.InferenceData or tuple[az.InferenceData, OptimizerResult]
+        An InferenceData object containing the approximated posterior samples. If return_raw is True, also returns the
+        object returned by ``scipy.optimize.minimize``.
 
     Examples
     --------
@@ -567,6 +568,9 @@ def fit_laplace(
         **optimizer_kwargs,
     )
 
+    if return_raw:
+        optimized_point, optimizer_result = optimized_point
+
     mu, H_inv = fit_mvn_to_MAP(
         optimized_point=optimized_point,
         model=model,
@@ -577,7 +581,7 @@ def fit_laplace(
         compile_kwargs=compile_kwargs,
     )
 
-    return sample_laplace_posterior(
+    idata = sample_laplace_posterior(
         mu=mu,
         H_inv=H_inv,
         model=model,
@@ -588,3 +592,8 @@ def fit_laplace(
         random_seed=random_seed,
         compile_kwargs=compile_kwargs,
     )
+
+    if return_raw:
+        return idata, optimizer_result
+
+    return idata
-- 
2.43.0


From a95203992f62aaaeb084e334de330041e6e7810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 47/57] fix: KarhunenLoeveExpansion ignored the mean function

---
 pymc_extras/gp/latent_approx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/gp/latent_approx.py b/pymc_extras/gp/latent_approx.py
index 346e589..0f0d65d 100644
--- a/pymc_extras/gp/latent_approx.py
+++ b/pymc_extras/gp/latent_approx.py
@@ -139,7 +139,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         super().__init__(mean_func=mean_func, cov_func=cov_func)
 
     def _build_prior(self, name, X, jitter=1e-6, **kwargs):
-        self.mean_func(X)
+        mu = self.mean_func(X)
         Kxx = pm.gp.util.stabilize(self.cov_func(X), jitter)
         vals, vecs = pt.linalg.eigh(Kxx)
         ## NOTE: REMOVED PRECISION CUTOFF
@@ -157,7 +157,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         coefs_raw = pm.Normal(f"_gp_{name}_coefs", mu=0, sigma=1, size=n_eigs)
         # weight = pm.HalfNormal(f"_gp_{name}_sd")
         # coefs = weight * coefs_raw # dont understand this prior, why weight * coeffs_raw?
-        f = basis @ coefs_raw
+        f = mu + basis @ coefs_raw
         return f, U, s, n_eigs
 
     def prior(self, name, X, jitter=1e-6, **kwargs):
@@ -171,7 +171,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
         Kxs = self.cov_func(X, Xnew)
         Kss = self.cov_func(Xnew)
         Kxxpinv = U @ pt.diag(1.0 / s) @ U.T
-        mus = Kxs.T @ Kxxpinv @ f
+        mus = self.mean_func(Xnew) + Kxs.T @ Kxxpinv @ (f - self.mean_func(X))
         K = Kss - Kxs.T @ Kxxpinv @ Kxs
         L = cholesky(stabilize(K, jitter))
         return mus, L
-- 
2.43.0


From 7e119121334fb63f813dc2f1309105d80aab0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 48/57] fix: KarhunenLoeveExpansion kept one eigenvalue too few
 for the variance limit

---
 pymc_extras/gp/latent_approx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymc_extras/gp/latent_approx.py b/pymc_extras/gp/latent_approx.py
index 0f0d65d..8b4279d 100644
--- a/pymc_extras/gp/latent_approx.py
+++ b/pymc_extras/gp/latent_approx.py
@@ -149,7 +149,8 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
             if self.variance_limit == 1:
                 n_eigs = len(vals)
             else:
-                n_eigs = ((vals[::-1].cumsum() / vals.sum()) > self.variance_limit).nonzero()[0][0]
+                explained = vals[::-1].cumsum() / vals.sum()
+                n_eigs = (explained > self.variance_limit).nonzero()[0][0] + 1
         U = vecs[:, -n_eigs:]
         s = vals[-n_eigs:]
         basis = U * pt.sqrt(s)
-- 
2.43.0


From 5b3114cb7608f2c92a4f440ff6a47dd2b0e0cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 49/57] fix: KarhunenLoeveExpansion with variance_limit=1

---
 pymc_extras/gp/latent_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/gp/latent_approx.py b/pymc_extras/gp/latent_approx.py
index 8b4279d..daa1b46 100644
--- a/pymc_extras/gp/latent_approx.py
+++ b/pymc_extras/gp/latent_approx.py
@@ -147,7 +147,7 @@ class KarhunenLoeveExpansion(pm.gp.Latent):
             n_eigs = self.n_eigs
         else:
             if self.variance_limit == 1:
-                n_eigs = len(vals)
+                n_eigs = vals.shape[0]
             else:
                 explained = vals[::-1].cumsum() / vals.sum()
                 n_eigs = (explained > self.variance_limit).nonzero()[0][0] + 1
-- 
2.43.0


From 4829a1eb807092368d82d0d067f9bff9895dabe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 50/57] fix: ProjectedProcess.conditional dropped the arguments
 for the variable, such as dims

---
 pymc_extras/gp/latent_approx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymc_extras/gp/latent_approx.py b/pymc_extras/gp/latent_approx.py
index daa1b46..b473347 100644
--- a/pymc_extras/gp/latent_approx.py
+++ b/pymc_extras/gp/latent_approx.py
@@ -109,7 +109,7 @@ class ProjectedProcess(pm.gp.Latent):
         self.f = f
         return f
 
-    def _build_conditional(self, name, Xnew, X_inducing, L, Kuuiu, jitter, **kwargs):
+    def _build_conditional(self, name, Xnew, X_inducing, L, Kuuiu, jitter):
         Ksu = self.cov_func(Xnew, X_inducing)
         mu = self.mean_func(Xnew) + Ksu @ Kuuiu
         tmp = solve_lower(L, pt.transpose(Ksu))
@@ -120,9 +120,9 @@ class ProjectedProcess(pm.gp.Latent):
 
     def conditional(self, name, Xnew, jitter=1e-6, **kwargs):
         mu, chol = self._build_conditional(
-            name, Xnew, self.X_inducing, self.L, self.Kuuiu, jitter, **kwargs
+            name, Xnew, self.X_inducing, self.L, self.Kuuiu, jitter
         )
-        return pm.MvNormal(name, mu=mu, chol=chol)
+        return pm.MvNormal(name, mu=mu, chol=chol, **kwargs)
 
 
 class KarhunenLoeveExpansion(pm.gp.Latent):
-- 
2.43.0


From 5c3e96d9ff93a76d185d164a292ea682d2e63991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 51/57] fix: discrete_histogram with min_count counted rare
 values as other ones

---
 pymc_extras/distributions/histogram_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pymc_extras/distributions/histogram_utils.py b/pymc_extras/distributions/histogram_utils.py
index 70b5c43..3e88fe6 100644
--- a/pymc_extras/distributions/histogram_utils.py
+++ b/pymc_extras/distributions/histogram_utils.py
@@ -80,14 +80,14 @@ def discrete_histogram(data: ArrayLike, min_count=None) -> dict[str, ArrayLike]:
     if dask and isinstance(data, dask.dataframe.Series | dask.dataframe.DataFrame):
         data = data.to_dask_array(lengths=True)
     mid, count_uniq = np.unique(data, return_counts=True)
-    if min_count is not None:
-        mid = mid[count_uniq >= min_count]
-        count_uniq = count_uniq[count_uniq >= min_count]
+    # every value has its own bin, so that rare values are dropped and not counted as another one
     bins = np.concatenate([mid, [mid.max() + 1]])
     if dask:
-        mid, bins = dask.compute(mid, bins)
+        mid, bins, count_uniq = dask.compute(mid, bins, count_uniq)
     count, _ = xhistogram.core.histogram(data, bins=[bins], axis=0)
     count = count.transpose(count.ndim - 1, *range(count.ndim - 1))
+    if min_count is not None:
+        mid, count = mid[count_uniq >= min_count], count[count_uniq >= min_count]
     mid = mid.reshape(mid.shape + (1,) * (count.ndim - 1))
     return dict(mid=mid, count=count)
 
-- 
2.43.0


From 5ddf05009016c80b30a43c4ad1bbb29ec93d1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:33 +0000
Subject: [PATCH 52/57] fix: SMC gave variables with an axis of length one to
 the model in another shape

---
 pymc_extras/inference/smc/sampling.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/inference/smc/sampling.py b/pymc_extras/inference/smc/sampling.py
index 7173bc4..ae37307 100644
--- a/pymc_extras/inference/smc/sampling.py
+++ b/pymc_extras/inference/smc/sampling.py
@@ -206,8 +206,9 @@ def arviz_from_particles(model, particles):
     -------
     """
     n_particles = jax.tree_util.tree_flatten(particles)[0][0].shape[0]
+    var_map = var_map_from_model(model, model.initial_point())
     by_varname = {
-        k.name: v.squeeze()[np.newaxis, :].astype(k.dtype)
+        k.name: v.reshape((1, n_particles, *var_map[k.name][0])).astype(k.dtype)
         for k, v in zip(model.value_vars, particles)
     }
     varnames = [v.name for v in model.value_vars]
@@ -394,9 +395,11 @@ def get_jaxified_particles_fn(model, graph_outputs):
     that is applyable to Blackjax particles format.
     """
     logp_fn = get_jaxified_graph(inputs=model.value_vars, outputs=[graph_outputs])
+    var_map = var_map_from_model(model, model.initial_point())
+    shapes = [var_map[v.name][0] for v in model.value_vars]
 
     def logp_fn_wrap(particles):
-        return logp_fn(*[p.squeeze() for p in particles])[0]
+        return logp_fn(*[p.reshape(shape) for p, shape in zip(particles, shapes)])[0]
 
     return logp_fn_wrap
 
-- 
2.43.0


From 0557c19ab457f4222be62404a99c3baea30501b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 53/57] fix: sample_smc_blackjax of a model given as an
 argument outside a model context

---
 pymc_extras/inference/smc/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/inference/smc/sampling.py b/pymc_extras/inference/smc/sampling.py
index ae37307..ed0979c 100644
--- a/pymc_extras/inference/smc/sampling.py
+++ b/pymc_extras/inference/smc/sampling.py
@@ -218,7 +218,7 @@ def arviz_from_particles(model, particles):
     for particle_index in range(0, n_particles):
         strace.record(point={k: np.asarray(by_varname[k][0][particle_index]) for k in varnames})
         multitrace = MultiTrace((strace,))
-    return to_inference_data(multitrace, log_likelihood=False)
+    return to_inference_data(multitrace, model=model, log_likelihood=False)
 
 
 class SMCDiagnostics(NamedTuple):
-- 
2.43.0


From 24786537a83cb41c134ed4d4235b0cf329c8be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:31 +0000
Subject: [PATCH 54/57] fix: a function decorated with as_model lost its coords
 after the first call

---
 pymc_extras/model/model_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model/model_api.py b/pymc_extras/model/model_api.py
index aeec8be..1e29ca9 100644
--- a/pymc_extras/model/model_api.py
+++ b/pymc_extras/model/model_api.py
@@ -46,8 +46,8 @@ def as_model(*model_args, **model_kwargs):
     def decorator(f):
         @wraps(f)
         def make_model(*args, **kwargs):
-            coords = model_kwargs.pop("coords", {}) | kwargs.pop("coords", {})
-            with Model(*model_args, coords=coords, **model_kwargs) as m:
+            coords = model_kwargs.get("coords", {}) | kwargs.pop("coords", {})
+            with Model(*model_args, **(model_kwargs | {"coords": coords})) as m:
                 f(*args, **kwargs)
             return m
 
-- 
2.43.0


From 3d8ee3a2b27e8980bbb0e3dd40a9b4c6116c9a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:36 +0000
Subject: [PATCH 55/57] fix: LinearModel could not be given data with a single
 row

---
 pymc_extras/linearmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/linearmodel.py b/pymc_extras/linearmodel.py
index b1f78b2..bcd932f 100644
--- a/pymc_extras/linearmodel.py
+++ b/pymc_extras/linearmodel.py
@@ -96,9 +96,9 @@ class LinearModel(ModelBuilder):
 
     def _data_setter(self, X: pd.DataFrame, y: pd.DataFrame | pd.Series | None = None):
         with self.model:
-            pm.set_data({"x": X.squeeze()})
+            pm.set_data({"x": np.atleast_1d(X.squeeze())})
             if y is not None:
-                pm.set_data({"y_data": y.squeeze()})
+                pm.set_data({"y_data": np.atleast_1d(y.squeeze())})
 
     def _generate_and_preprocess_model_data(
         self, X: pd.DataFrame | pd.Series, y: pd.Series
-- 
2.43.0


From 86ec87b60af03ec464432e7f97e680cdf06e00c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:36 +0000
Subject: [PATCH 56/57] fix: ModelBuilder.fit paired predictors and targets by
 index in the saved data

---
 pymc_extras/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 6e712e5..8fd2fd4 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -514,7 +514,7 @@ class ModelBuilder:
         self.idata = self.sample_model(**sampler_config)
 
         X_df = pd.DataFrame(X, columns=X.columns)
-        combined_data = pd.concat([X_df, y], axis=1)
+        combined_data = pd.concat([X_df, y.set_axis(X_df.index)], axis=1)
         assert all(combined_data.columns), "All columns must have non-empty names"
         with warnings.catch_warnings():
             warnings.filterwarnings(
-- 
2.43.0


From 0d5a19d4796bbfecca54d3fcea1dddf0ae1012c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:30 +0000
Subject: [PATCH 57/57] fix: predictions after predictions at other inputs were
 those of the training data

---
 pymc_extras/model_builder.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pymc_extras/model_builder.py b/pymc_extras/model_builder.py
index 8fd2fd4..6352911 100644
--- a/pymc_extras/model_builder.py
+++ b/pymc_extras/model_builder.py
@@ -616,7 +616,7 @@ class ModelBuilder:
             self.set_idata_attrs(prior_pred)
             if extend_idata:
                 if self.idata is not None:
-                    self.idata.extend(prior_pred, join="right")
+                    self._extend_idata(prior_pred)
                 else:
                     self.idata = prior_pred
 
@@ -648,7 +648,7 @@ class ModelBuilder:
         with self.model:  # sample with new input data
             post_pred = pm.sample_posterior_predictive(self.idata, **kwargs)
             if extend_idata:
-                self.idata.extend(post_pred, join="right")
+                self._extend_idata(post_pred)
 
         posterior_predictive_samples = az.extract(
             post_pred, "posterior_predictive", combined=combined
@@ -656,6 +656,20 @@ class ModelBuilder:
 
         return posterior_predictive_samples
 
+    def _extend_idata(self, samples: az.InferenceData) -> None:
+        """
+        Add predictive samples to the inference data.
+
+        The data groups are left out when there is a posterior: there these record the data it was sampled with,
+        without which PyMC cannot tell that the deterministics in the posterior belong to other inputs.
+        """
+        kept = {
+            name: samples[name]
+            for name in samples.groups()
+            if "posterior" not in self.idata or name not in ("constant_data", "observed_data")
+        }
+        self.idata.extend(az.InferenceData(**kept), join="right")
+
     def get_params(self, deep=True):
         """
         Get all the model parameters needed to instantiate a copy of the model, not including training data.
-- 
2.43.0

