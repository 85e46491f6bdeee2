From b0007fd0599a5131791855eada706db3bd1ff842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:22 +0000
Subject: [PATCH 01/62] fix: group shrinkage of null columns and per-matrix
 thresholds

soft_thresholding_vector returned NaN for null vectors with a null threshold;
blockwise_soft_thresholding_symmetric returned NaN for null columns and
broadcast per-matrix thresholds over the wrong axis.
---
 regain/prox.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index 9e1e132..e59b6cb 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -60,7 +60,10 @@ def soft_thresholding_off_diagonal(a, lamda):
 
 def soft_thresholding_vector(a, lamda):
     """Soft-thresholding for vectors."""
-    return np.maximum(1 - lamda / np.linalg.norm(a, axis=-1, keepdims=True), 0) * a
+    norms = np.linalg.norm(a, axis=-1, keepdims=True)
+    # null vectors stay null
+    norms = np.where(norms == 0, 1, norms)
+    return np.maximum(1 - lamda / norms, 0) * a
 
 
 def blockwise_soft_thresholding(a, lamda):
@@ -71,11 +74,10 @@ def blockwise_soft_thresholding(a, lamda):
 
 def blockwise_soft_thresholding_symmetric(a, lamda):
     """Proximal operator for l2 norm, for symmetric matrices (last 2 axes)."""
-    col_norms = np.linalg.norm(a, axis=-2)
-    out = np.matmul(
-        a, create_from_diagonal((1 - lamda / col_norms) * (col_norms > lamda))
-    )
-    return out
+    col_norms = np.linalg.norm(a, axis=-2, keepdims=True)
+    # null columns stay null
+    col_norms = np.where(col_norms == 0, 1, col_norms)
+    return a * (1 - lamda / col_norms) * (col_norms > lamda)
 
 
 def prox_linf_1d(a, lamda):
-- 
2.43.0


From bdfb46205e504d0997a6394b4ad6eeb52b2b6592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:36 +0000
Subject: [PATCH 02/62] fix: exact proximal operator of the l-inf norm

The l-inf prox minimised a non-smooth function with BFGS, which often stops far
from the minimiser, and did not accept one threshold for each matrix.
---
 regain/prox.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/regain/prox.py b/regain/prox.py
index e59b6cb..dfca457 100644
--- a/regain/prox.py
+++ b/regain/prox.py
@@ -85,7 +85,8 @@ def prox_linf_1d(a, lamda):
 
     min ||x||_inf + (1/2t)||x-w||^2
 
-    Since there is no closed-form, we can minimize it with scipy.
+    The solution truncates the absolute values of the vector at a level given
+    by the projection on the l1 ball (Moreau's identity).
 
     Matlab reference
     ------
@@ -110,19 +111,19 @@ def prox_linf_1d(a, lamda):
         end
     end
     """
-    from scipy.optimize import minimize
-
-    def f(x):
-        return lamda * np.linalg.norm(x, np.inf) + 0.5 * squared_norm(a - x)
-
-    return minimize(f, a).x
+    abs_a = np.abs(a)
+    levels = (np.cumsum(np.sort(abs_a)[::-1]) - lamda) / np.arange(1, a.size + 1)
+    return np.sign(a) * np.minimum(abs_a, np.maximum(np.max(levels), 0))
 
 
 def prox_linf(a, lamda):
     """Proximal operator for l-inf norm."""
     x = np.zeros_like(a)
+    lamda = np.ravel(lamda) * np.ones(a.shape[0])  # possibly one for each matrix
     for t in range(a.shape[0]):
-        x[t] = np.array([prox_linf_1d(a[t, :, j], lamda) for j in range(a.shape[1])]).T
+        x[t] = np.array(
+            [prox_linf_1d(a[t, :, j], lamda[t]) for j in range(a.shape[2])]
+        ).T
     return x
 
 
-- 
2.43.0


From c045797140e0542d943ea3a089dd7cfd24864733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:41 +0000
Subject: [PATCH 03/62] fix: l2 and linf penalties match their proximal
 operators

The proximal operators are those of the column-wise norms (sum of the norms of
the columns), while the objective used the Frobenius and the matrix inf-norm.
---
 regain/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/validation.py b/regain/validation.py
index 743836e..fbecba3 100644
--- a/regain/validation.py
+++ b/regain/validation.py
@@ -37,7 +37,7 @@ import scipy.sparse as sp
 from sklearn.utils.extmath import squared_norm
 from sklearn.utils.validation import check_array
 
-from regain.norm import l1_norm, node_penalty
+from regain.norm import l1_norm, node_penalty, vector_p_norm
 from regain.prox import blockwise_soft_thresholding, prox_laplacian, prox_linf, prox_node_penalty, soft_thresholding
 
 
@@ -51,10 +51,10 @@ def check_norm_prox(function):
         norm = l1_norm
     elif function == "l2":
         prox = blockwise_soft_thresholding
-        norm = np.linalg.norm
+        norm = partial(vector_p_norm, p=2)
     elif function == "linf":
         prox = prox_linf
-        norm = partial(np.linalg.norm, ord=np.inf)
+        norm = partial(vector_p_norm, p=np.inf)
     elif function == "node":
         prox = prox_node_penalty
         norm = node_penalty
-- 
2.43.0


From 595721d52b9e928ff4c3c88dfbc655ebee286b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:57 +0000
Subject: [PATCH 04/62] fix: sign of the over-relaxation in graphical_lasso

The relaxed iterate is over_relax * K + (1 - over_relax) * Z (Boyd et al. 2011,
section 3.4.3); with the wrong sign any over_relax != 1 diverged from the solution.
---
 regain/covariance/graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index bbabca1..2c99786 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -159,7 +159,7 @@ def graphical_lasso(
         K = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         # z-update with relaxation
-        K_hat = over_relax * K - (1 - over_relax) * Z
+        K_hat = over_relax * K + (1 - over_relax) * Z
         Z = soft_thresholding_off_diagonal(K_hat + U, lamda=alpha / rho)
 
         # update residuals
-- 
2.43.0


From f78459cbb1a665ba875e92de94b87bdff85d9d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:01 +0000
Subject: [PATCH 05/62] fix: initial precision given as an array

Comparing the array with a string is element-wise, so that the documented ndarray
initialisation raised; also do not return the caller's own array.
---
 regain/covariance/graphical_lasso_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index 2c99786..cc38bc7 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -58,7 +58,9 @@ def objective(emp_cov, x, z, alpha):
 
 def init_precision(emp_cov, mode="empirical"):
     """Initialize the precision matrix given the empirical covariance."""
-    if mode == "empirical":
+    if isinstance(mode, np.ndarray):
+        K = mode.copy()
+    elif mode == "empirical":
         covariance_ = emp_cov.copy()
         covariance_ *= 0.95
         n_features = emp_cov.shape[-1]
@@ -70,8 +72,6 @@ def init_precision(emp_cov, mode="empirical"):
             for i, (c, e) in enumerate(zip(covariance_, emp_cov)):
                 c.flat[:: n_features + 1] = e.flat[:: n_features + 1]
                 K[i] = linalg.pinvh(c)
-    elif isinstance(mode, np.ndarray):
-        K = mode
     else:
         K = np.zeros_like(emp_cov)
 
-- 
2.43.0


From d2edeb3be6aa062b5c3fb3a10c08b621854e7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:05 +0000
Subject: [PATCH 06/62] fix: do not penalise the diagonal in the time-varying
 and latent solvers

The documented problems (and the objective functions) penalise only off-diagonal
entries, while the update of the sparse matrices thresholded the diagonal too.
---
 regain/covariance/infimal_convolution_.py                | 4 ++--
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 4 ++--
 regain/covariance/kernel_time_graphical_lasso_.py        | 4 ++--
 regain/covariance/latent_graphical_lasso_.py             | 4 ++--
 regain/covariance/latent_time_graphical_lasso_.py        | 4 ++--
 regain/covariance/latent_time_matrix_decomposition.py    | 4 ++--
 regain/covariance/time_graphical_lasso_.py               | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 63df391..0a51578 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -38,7 +38,7 @@ from six.moves import range
 from sklearn.utils.extmath import squared_norm
 
 from regain.norm import l1_od_norm
-from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_laplacian, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -122,7 +122,7 @@ def infimal_convolution(
         R = prox_laplacian(S + rho * A, lamda=rho / 2.0)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index c15f569..5f83b47 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -47,7 +47,7 @@ from regain.covariance.kernel_time_graphical_lasso_ import (
     objective as obj_ktgl,
     precision_similarity,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -198,7 +198,7 @@ def kernel_latent_time_graphical_lasso(
             A[m:] += Z_M[m][1] - Y_M[m][1]
 
         A /= n_times
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * n_times))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * n_times))
 
         # update W_0
         A = Z_0 - R - X_0
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 9635e3e..7498483 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -48,7 +48,7 @@ from regain.covariance.time_graphical_lasso_ import (
     loss,
 )
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -190,7 +190,7 @@ def kernel_time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # update residuals
         U_0 += K - Z_0
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index e33d0ae..a2178c2 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -40,7 +40,7 @@ from regain.covariance.graphical_lasso_ import (
     init_precision,
     objective as obj_gl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 
@@ -132,7 +132,7 @@ def latent_graphical_lasso(
         R = prox_logdet(emp_cov - rho * A, lamda=1.0 / rho)
 
         A = L + R + U
-        K = soft_thresholding(A, lamda=alpha / rho)
+        K = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         A = K - R - U
         A += A.T
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index a8a6658..e454333 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -39,7 +39,7 @@ from regain.covariance.time_graphical_lasso_ import (
     init_precision,
     objective as obj_tgl,
 )
-from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding
+from regain.prox import prox_logdet, prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_norm_prox
@@ -184,7 +184,7 @@ def latent_time_graphical_lasso(
         A[:-1] += Z_1 - X_1
         A[1:] += Z_2 - X_2
         A /= divisor[:, None, None]
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * divisor[:, None, None]))
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index c668df6..ff2dfa5 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -38,7 +38,7 @@ from sklearn.utils.extmath import squared_norm
 
 from regain.covariance.latent_time_graphical_lasso_ import LatentTimeGraphicalLasso
 from regain.norm import l1_od_norm
-from regain.prox import prox_trace_indicator, soft_thresholding
+from regain.prox import prox_trace_indicator, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence
 from regain.validation import check_input, check_norm_prox
@@ -151,7 +151,7 @@ def latent_time_matrix_decomposition(
         A /= divisor[:, None, None]
         # soft_thresholding_ = partial(soft_thresholding, lamda=alpha / rho)
         # Z_0 = np.array(map(soft_thresholding_, A))
-        Z_0 = soft_thresholding(A, lamda=alpha / (rho * divisor[:, None, None]))
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / (rho * divisor[:, None, None]))
 
         # update Z_1, Z_2
         A_1 = Z_0[:-1] + X_1
diff --git a/regain/covariance/time_graphical_lasso_.py b/regain/covariance/time_graphical_lasso_.py
index f5c3356..23010b1 100644
--- a/regain/covariance/time_graphical_lasso_.py
+++ b/regain/covariance/time_graphical_lasso_.py
@@ -45,7 +45,7 @@ from sklearn.utils.validation import check_X_y
 from regain.covariance.graphical_lasso_ import GraphicalLasso, init_precision
 from regain.math import batch_logdet
 from regain.norm import l1_od_norm
-from regain.prox import prox_logdet, soft_thresholding
+from regain.prox import prox_logdet, soft_thresholding_off_diagonal
 from regain.update_rules import update_rho
 from regain.utils import Convergence, error_norm_time
 from regain.validation import check_norm_prox
@@ -201,7 +201,7 @@ def time_graphical_lasso(
         A = K + U_0
         A += A.transpose(0, 2, 1)
         A /= 2.0
-        Z_0 = soft_thresholding(A, lamda=alpha / rho)
+        Z_0 = soft_thresholding_off_diagonal(A, lamda=alpha / rho)
 
         # other Zs
         A_1 = K[:-1] + U_1
-- 
2.43.0


From e15e03a58ba31348efa90d44a78ad87b30e55688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:10 +0000
Subject: [PATCH 07/62] fix: report the number of iterations run

n_iter is documented as the number of iterations; most solvers returned the index
of the last iteration instead.
---
 regain/covariance/graphical_lasso_.py                    | 2 +-
 regain/covariance/infimal_convolution_.py                | 2 +-
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 2 +-
 regain/covariance/latent_graphical_lasso_.py             | 2 +-
 regain/covariance/latent_time_graphical_lasso_.py        | 2 +-
 regain/covariance/latent_time_matrix_decomposition.py    | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regain/covariance/graphical_lasso_.py b/regain/covariance/graphical_lasso_.py
index cc38bc7..7b9ca8b 100644
--- a/regain/covariance/graphical_lasso_.py
+++ b/regain/covariance/graphical_lasso_.py
@@ -199,7 +199,7 @@ def graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/infimal_convolution_.py b/regain/covariance/infimal_convolution_.py
index 0a51578..55bb7d2 100644
--- a/regain/covariance/infimal_convolution_.py
+++ b/regain/covariance/infimal_convolution_.py
@@ -168,5 +168,5 @@ def infimal_convolution(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 5f83b47..b5d07ea 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -388,7 +388,7 @@ def kernel_latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_graphical_lasso_.py b/regain/covariance/latent_graphical_lasso_.py
index a2178c2..09f3baa 100644
--- a/regain/covariance/latent_graphical_lasso_.py
+++ b/regain/covariance/latent_graphical_lasso_.py
@@ -178,7 +178,7 @@ def latent_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_graphical_lasso_.py b/regain/covariance/latent_time_graphical_lasso_.py
index e454333..27a6a8e 100644
--- a/regain/covariance/latent_time_graphical_lasso_.py
+++ b/regain/covariance/latent_time_graphical_lasso_.py
@@ -344,7 +344,7 @@ def latent_time_graphical_lasso(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
diff --git a/regain/covariance/latent_time_matrix_decomposition.py b/regain/covariance/latent_time_matrix_decomposition.py
index ff2dfa5..1e4b69f 100644
--- a/regain/covariance/latent_time_matrix_decomposition.py
+++ b/regain/covariance/latent_time_matrix_decomposition.py
@@ -313,7 +313,7 @@ def latent_time_matrix_decomposition(
     if return_history:
         return_list.append(checks)
     if return_n_iter:
-        return_list.append(iteration_)
+        return_list.append(iteration_ + 1)
     return return_list
 
 
-- 
2.43.0


From aadedf4977abf958567711c9dfd9cb6d1d0485d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:14 +0000
Subject: [PATCH 08/62] fix: arguments of the time-varying objectives were
 exchanged

The likelihood is evaluated at K and the l1 penalty at its sparse copy Z_0, as in
the other solvers; the likelihood of the sparse copy may not even be defined.
---
 regain/covariance/kernel_time_graphical_lasso_.py | 2 +-
 regain/covariance/time_graphical_lasso_.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 7498483..381c6d4 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -240,7 +240,7 @@ def kernel_time_graphical_lasso(
         )
 
         obj = (
-            objective(n_samples, emp_cov, Z_0, K, Z_M, alpha, kernel, psi)
+            objective(n_samples, emp_cov, K, Z_0, Z_M, alpha, kernel, psi)
             if compute_objective
             else np.nan
         )
diff --git a/regain/covariance/time_graphical_lasso_.py b/regain/covariance/time_graphical_lasso_.py
index 23010b1..c9908b5 100644
--- a/regain/covariance/time_graphical_lasso_.py
+++ b/regain/covariance/time_graphical_lasso_.py
@@ -239,7 +239,7 @@ def time_graphical_lasso(
         )
 
         obj = (
-            objective(n_samples, emp_cov, Z_0, K, Z_1, Z_2, alpha, beta, psi)
+            objective(n_samples, emp_cov, K, Z_0, Z_1, Z_2, alpha, beta, psi)
             if compute_objective
             else np.nan
         )
-- 
2.43.0


From 7a922e05ebab5d8fd156d74fe5d6594699f6361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:58 +0000
Subject: [PATCH 09/62] fix: accept array kernels in the kernel estimators

---
 .../kernel_latent_time_graphical_lasso_.py           | 12 ++++++++++--
 regain/covariance/kernel_time_graphical_lasso_.py    |  6 +++++-
 regain/generalized_linear_model/glm_time_ising.py    |  6 +++++-
 regain/generalized_linear_model/glm_time_poisson.py  |  6 +++++-
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index b5d07ea..fd57949 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -533,7 +533,11 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                 )
 
         else:
-            kernel_phi = self.kernel_phi or np.identity(self.classes_.size)
+            kernel_phi = (
+                np.identity(self.classes_.size)
+                if self.kernel_phi is None
+                else self.kernel_phi
+            )
             if kernel_phi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_phi size does not match classes of samples, "
@@ -553,7 +557,11 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
                     self.classes_[:, None]
                 )
         else:
-            kernel_psi = self.kernel_psi or np.identity(self.classes_.size)
+            kernel_psi = (
+                np.identity(self.classes_.size)
+                if self.kernel_psi is None
+                else self.kernel_psi
+            )
             if kernel_psi.shape[0] != self.classes_.size:
                 raise ValueError(
                     "kernel_psi size does not match classes of samples, "
diff --git a/regain/covariance/kernel_time_graphical_lasso_.py b/regain/covariance/kernel_time_graphical_lasso_.py
index 381c6d4..a9623a0 100644
--- a/regain/covariance/kernel_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_time_graphical_lasso_.py
@@ -544,7 +544,11 @@ class KernelTimeGraphicalLasso(TimeGraphicalLasso):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = (
+                    np.identity(self.classes_.size)
+                    if self.kernel is None
+                    else self.kernel
+                )
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index e9c3e97..e5f3937 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -502,7 +502,11 @@ class TemporalIsingModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = (
+                    np.identity(self.classes_.size)
+                    if self.kernel is None
+                    else self.kernel
+                )
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index b7fefea..0589173 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -497,7 +497,11 @@ class TemporalPoissonModel(BaseEstimator):
                         self.classes_[:, None]
                     )
             else:
-                kernel = self.kernel or np.identity(self.classes_.size)
+                kernel = (
+                    np.identity(self.classes_.size)
+                    if self.kernel is None
+                    else self.kernel
+                )
                 if kernel.shape[0] != self.classes_.size:
                     raise ValueError(
                         "Kernel size does not match classes of samples, "
-- 
2.43.0


From b40743cea3c5020a6112262b09460820ceeec080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:14 +0000
Subject: [PATCH 10/62] fix: pass phi to the kernel latent time-varying solver

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index fd57949..735d4fa 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -581,6 +581,7 @@ class KernelLatentTimeGraphicalLasso(KernelTimeGraphicalLasso):
             tol=self.tol,
             rtol=self.rtol,
             psi=self.psi,
+            phi=self.phi,
             max_iter=self.max_iter,
             verbose=self.verbose,
             return_n_iter=True,
@@ -798,6 +799,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     tol=self.tol,
                     rtol=self.rtol,
                     psi=self.psi,
+                    phi=self.phi,
                     max_iter=self.max_iter,
                     verbose=self.verbose,
                     return_n_iter=True,
@@ -881,6 +883,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 tol=self.tol,
                 rtol=self.rtol,
                 psi=self.psi,
+                phi=self.phi,
                 max_iter=self.max_iter,
                 verbose=self.verbose,
                 return_n_iter=True,
-- 
2.43.0


From afc6c21d53ac528fcbc7bcf9b85e17d2c2219ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:30 +0000
Subject: [PATCH 11/62] fix: use the latent kernel built by
 SimilarityLatentTimeGraphicalLasso

---
 regain/covariance/kernel_latent_time_graphical_lasso_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/covariance/kernel_latent_time_graphical_lasso_.py b/regain/covariance/kernel_latent_time_graphical_lasso_.py
index 735d4fa..6d64107 100644
--- a/regain/covariance/kernel_latent_time_graphical_lasso_.py
+++ b/regain/covariance/kernel_latent_time_graphical_lasso_.py
@@ -750,6 +750,8 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                 kernel_phi = np.eye(n_times)
                 np.fill_diagonal(kernel_phi[:, 1:], self.eta)
                 np.fill_diagonal(kernel_phi[1:], self.eta)
+            else:
+                kernel_phi = self.kernel_phi
 
             # discover best kernel parameter via EM
             # initialise precision matrices, as warm start
@@ -793,7 +795,7 @@ class SimilarityLatentTimeGraphicalLasso(KernelLatentTimeGraphicalLasso):
                     alpha=self.alpha,
                     tau=self.tau,
                     rho=self.rho,
-                    kernel_phi=self.kernel_phi,
+                    kernel_phi=kernel_phi,
                     kernel_psi=kernel_psi,
                     n_samples=n_samples,
                     tol=self.tol,
-- 
2.43.0


From 61c7f328dbe3e3f6f9f8bdf24bd07bd2d3e76953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 12/62] fix: spectral error norm without numpy.linalg.svdvals

---
 regain/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/utils.py b/regain/utils.py
index 20c82b6..bcbb757 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -373,7 +373,9 @@ def error_norm(
     if norm == "frobenius":
         squared_norm = np.sum(error**2)
     elif norm == "spectral":
-        squared_norm = np.amax(np.linalg.svdvals(np.dot(error.T, error)))
+        squared_norm = np.amax(
+            np.linalg.svd(np.dot(error.T, error), compute_uv=False)
+        )
     else:
         raise NotImplementedError("Only spectral and frobenius norms are implemented")
     # optionally scale the error norm
-- 
2.43.0


From 96ef2d0c3312b9b0e54d7ebf4255d66103a0b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 13/62] fix: structure_error without true edges and without the
 diagonal

---
 regain/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index bcbb757..92a9059 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -491,12 +491,13 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
     TP = np.count_nonzero((res == 3).astype(float))
 
     precision = TP / (TP + FP) if TP + FP > 0 else 0
-    recall = TP / (TP + FN)
-    miss_rate = FN / (TP + FN) or 1 - recall
+    recall = TP / (TP + FN) if TP + FN > 0 else 0
+    miss_rate = FN / (TP + FN) if TP + FN > 0 else 1 - recall
     f1 = 2 * precision * recall / (precision + recall) if precision + recall > 0 else 0
 
-    accuracy = (TP + TN) / true.size
-    prevalence = (TP + FN) / true.size
+    n_compared = TP + TN + FP + FN
+    accuracy = (TP + TN) / n_compared
+    prevalence = (TP + FN) / n_compared
 
     fall_out = FP / (FP + TN) if (FP + TN) > 0 else 1
     specificity = TN / (FP + TN) if (FP + TN) > 0 else 1.0 - fall_out
-- 
2.43.0


From 748061ed0fd5f28d2ee2fe3e0f4e730534dbe57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 14/62] fix: structure_error counts negative entries as edges
 in all its scores

---
 regain/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/regain/utils.py b/regain/utils.py
index 92a9059..00d575c 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -464,11 +464,13 @@ def structure_error(true, pred, thresholding=False, eps=1e-2, no_diagonal=False)
         y_true = squareform(true, checks=None)
         y_pred = squareform(pred, checks=None)
 
-    average_precision = average_precision_score(y_true > 0, y_pred)
-    mcc = matthews_corrcoef(y_true > 0, y_pred > 0)
+    average_precision = average_precision_score(y_true != 0, np.abs(y_pred))
 
     if thresholding:
         pred[np.abs(pred) < eps] = 0
+        y_pred[np.abs(y_pred) < eps] = 0
+    mcc = matthews_corrcoef(y_true != 0, y_pred != 0)
+
     tn_to_remove = 0
     if no_diagonal:
         if true.ndim > 2:
-- 
2.43.0


From f1662917f8b0a7cbc010fb04fb0768602cae0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:01 +0000
Subject: [PATCH 15/62] fix: mean_structure_error raised KeyError

---
 regain/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regain/utils.py b/regain/utils.py
index 00d575c..970069e 100644
--- a/regain/utils.py
+++ b/regain/utils.py
@@ -581,6 +581,7 @@ def mean_structure_error(true, preds):
         dor=[],
         balanced_accuracy=[],
         average_precision=[],
+        mcc=[],
     )
     for p in preds:
         res = structure_error(true, p, no_diagonal=True)
-- 
2.43.0


From 86ef4cd4de04a3c9a07a723e414d12e252a6caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:31 +0000
Subject: [PATCH 16/62] fix: missing graphical lasso used the sum of the
 completed samples as their mean

---
 regain/covariance/missing_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 8596170..1e110ac 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -76,7 +76,7 @@ def compute_cs(means, K, X):
 def compute_mean(X, cs):
     aux = np.nan_to_num(np.copy(X))
     aux += cs
-    return np.sum(aux, axis=0)
+    return np.mean(aux, axis=0)
 
 
 def missing_graphical_lasso(
-- 
2.43.0


From b2faa47885265d25acce327f259cf2495ae072d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:31 +0000
Subject: [PATCH 17/62] fix: missing graphical lasso history stored the
 likelihood function instead of its value

---
 regain/covariance/missing_graphical_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/covariance/missing_graphical_lasso_.py b/regain/covariance/missing_graphical_lasso_.py
index 1e110ac..b813aec 100644
--- a/regain/covariance/missing_graphical_lasso_.py
+++ b/regain/covariance/missing_graphical_lasso_.py
@@ -175,7 +175,7 @@ def missing_graphical_lasso(
         )
         loglik = logl(emp_cov, K)
         diff = old_logl - loglik
-        checks.append(dict(iteration=iter_, log_likelihood=logl, difference=diff))
+        checks.append(dict(iteration=iter_, log_likelihood=loglik, difference=diff))
         if verbose:
             print(
                 "Iter %d: log-likelihood %.4f, difference: %.4f" % (iter_, loglik, diff)
-- 
2.43.0


From e6bcc1c00f2a6df4a7f4fcf6bce1168e3d5518af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:59 +0000
Subject: [PATCH 18/62] fix: forward-backward solver could not search lambda
 (unknown argument vareps)

---
 regain/forward_backward/time_graphical_lasso_.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regain/forward_backward/time_graphical_lasso_.py b/regain/forward_backward/time_graphical_lasso_.py
index e79df21..a472f17 100644
--- a/regain/forward_backward/time_graphical_lasso_.py
+++ b/regain/forward_backward/time_graphical_lasso_.py
@@ -318,7 +318,6 @@ def tgl_forward_backward(
                 p=time_norm,
                 grad=grad,
                 prox=y,
-                vareps=vareps,
             )
             n_linesearch += n_ls
 
-- 
2.43.0


From 3832947adee44660d8db080b643e643f2e9d0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:22 +0000
Subject: [PATCH 19/62] fix: lambda search with criterion c called the
 objective with a wrong positional argument

---
 regain/forward_backward/forward_backward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/forward_backward/forward_backward.py b/regain/forward_backward/forward_backward.py
index 09d54a3..a49f369 100644
--- a/regain/forward_backward/forward_backward.py
+++ b/regain/forward_backward/forward_backward.py
@@ -131,7 +131,7 @@ def choose_lamda(
         tolerance = _scalar_product(y_minus_x, grad)
         tolerance += delta / gamma * _scalar_product(y_minus_x, y_minus_x)
     elif criterion == "c":
-        objective_x = objective_f(x)
+        objective_x = objective_f(precision=x)
         gx = function_g(x)
         gy = function_g(prox)
         tolerance = (1 - delta) * (gy - gx + _scalar_product(y_minus_x, grad))
@@ -154,7 +154,7 @@ def choose_lamda(
             if loss_diff <= lamda * tolerance and positive_definite(x1):
                 break
         elif criterion == "c":
-            obj_diff = objective_f(x1) - objective_x
+            obj_diff = objective_f(precision=x1) - objective_x
             # if positive_definite(x1) and obj_diff <= lamda * tolerance:
             cond = True
             # COND IS lamda > 0 if min_eigen_y >= 0 else lamda < min_eigen_x / (min_eigen_x - min_eigen_y)
-- 
2.43.0


From 0bd11fb909a0c0f3e26cf41638df5540df50a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:46 +0000
Subject: [PATCH 20/62] fix: gradient of the Ising loss used only the first
 sample

---
 regain/generalized_linear_model/glm_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index efab1cc..a10121d 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -76,7 +76,7 @@ def _gradient_ising(X, theta, n, A=None, rho=1, T=0):
             EXT = np.exp(XT)
             E_XT = np.exp(-XT)
             sum_ += (1 / n) * X[i, selector] * ((EXT - E_XT) / (EXT + E_XT) - X[i, r])
-            return sum_
+        return sum_
 
     for ix in range(theta.shape[0]):
         selector = [i for i in range(d) if i != ix]
-- 
2.43.0


From 678a3b934276371386bad8225be3e51738dd01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:46 +0000
Subject: [PATCH 21/62] fix: infinite objective of asymmetric parameters
 without numpy.float

---
 regain/generalized_linear_model/glm_ising.py   | 2 +-
 regain/generalized_linear_model/glm_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index a10121d..acd28fc 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -47,7 +47,7 @@ def loss(X, theta):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return np.inf
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         for i in range(n):
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 2b577de..b704dc4 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -54,7 +54,7 @@ def objective(X, theta, alpha):
     n, d = X.shape
     objective = 0
     if not np.all(theta == theta.T):
-        return np.float("inf")
+        return np.inf
     for r in range(d):
         selector = [i for i in range(d) if i != r]
         objective += objective_single_variable(X, theta[r, selector], n, r, selector, 0)
-- 
2.43.0


From 8492ce75e90fa9d773eae06c4174a5a563fa2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:46 +0000
Subject: [PATCH 22/62] fix: union of neighbourhoods weighted the two estimates
 of an edge differently

---
 regain/generalized_linear_model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/base.py b/regain/generalized_linear_model/base.py
index 6236d50..4d1df22 100644
--- a/regain/generalized_linear_model/base.py
+++ b/regain/generalized_linear_model/base.py
@@ -22,7 +22,7 @@ def build_adjacency_matrix(neighbours, how="union"):
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
             out[i, where] = arr
-            out = (out + out.T) / 2
+        out = (out + out.T) / 2
     elif how.lower() == "intersection":
         for i, arr in enumerate(neighbours):
             where = [j for j in range(len(neighbours)) if j != i]
-- 
2.43.0


From ca35115c984caff5f6d11b4636d0e68cd37d0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:46 +0000
Subject: [PATCH 23/62] fix: neighbourhood estimators ignored step size,
 tolerance and iteration limit

---
 regain/generalized_linear_model/glm_gaussian.py | 10 +++++++++-
 regain/generalized_linear_model/glm_poisson.py  |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_gaussian.py b/regain/generalized_linear_model/glm_gaussian.py
index e476243..9d198b8 100644
--- a/regain/generalized_linear_model/glm_gaussian.py
+++ b/regain/generalized_linear_model/glm_gaussian.py
@@ -193,7 +193,15 @@ class Gaussian_GLM_GM(GLM_GM):
         thetas_pred = []
         historys = []
         for ix in range(X.shape[1]):
-            res = fit_each_variable(X, ix, self.alpha)
+            res = fit_each_variable(
+                X,
+                ix,
+                self.alpha,
+                gamma=gamma,
+                tol=self.tol,
+                max_iter=self.max_iter,
+                verbose=self.verbose,
+            )
             thetas_pred.append(res[0])
             historys.append(res[1:])
         self.precision_ = build_adjacency_matrix(thetas_pred, how=self.reconstruction)
diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index b704dc4..c36d9f1 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -267,7 +267,13 @@ class PoissonGraphicalModel(GLM_GM, BaseEstimator):
             for ix in range(X.shape[1]):
                 verbose = max(0, self.verbose - 1)
                 res = fit_each_variable(
-                    X, ix, self.alpha, tol=self.tol, verbose=verbose
+                    X,
+                    ix,
+                    self.alpha,
+                    gamma=self.gamma,
+                    tol=self.tol,
+                    max_iter=self.max_iter,
+                    verbose=verbose,
                 )
                 thetas_pred.append(res[0])
                 historys.append(res[1:])
-- 
2.43.0


From 298ff95cb34e6fe1bc03db2d257ab90857d40ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:04 +0000
Subject: [PATCH 24/62] fix: Poisson line search restarted from the rejected
 point

---
 regain/generalized_linear_model/glm_poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index c36d9f1..80fd428 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -105,7 +105,7 @@ def fit_each_variable(
         theta_old = thetas[-1]
         grad = gradient(X, theta, ix, selector, n, A, T, rho)
         while True:
-            theta_new = theta - gamma * grad
+            theta_new = theta_old - gamma * grad
             theta = soft_thresholding(theta_new, alpha * gamma)
             loss_new = loss_single_variable(X, theta, n, ix, selector)
             loss_old = loss_single_variable(X, theta_old, n, ix, selector)
-- 
2.43.0


From a0fa7ad8df1f82c11d7b4b5be762b0ddc622412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:04 +0000
Subject: [PATCH 25/62] fix: consensus term of the Poisson subproblem (scale,
 line search)

---
 regain/generalized_linear_model/glm_poisson.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/regain/generalized_linear_model/glm_poisson.py b/regain/generalized_linear_model/glm_poisson.py
index 80fd428..d9b2bac 100644
--- a/regain/generalized_linear_model/glm_poisson.py
+++ b/regain/generalized_linear_model/glm_poisson.py
@@ -96,9 +96,15 @@ def fit_each_variable(
         EXK = X[:, selector].T.dot(np.exp(X[:, selector].dot(theta)))
         to_add = 0
         if A is not None:
-            to_add = (rho * T) * (theta - A[r, selector]) / n
+            to_add = (rho * T) * (theta - A[r, selector])
         return -(1 / n) * (XTX - EXK) + to_add
 
+    def smooth_loss(theta):
+        value = loss_single_variable(X, theta, n, ix, selector)
+        if A is not None:
+            value += (rho * T / 2) * np.sum((theta - A[ix, selector]) ** 2)
+        return value
+
     thetas = [theta]
     checks = []
     for iter_ in range(max_iter):
@@ -107,8 +113,8 @@ def fit_each_variable(
         while True:
             theta_new = theta_old - gamma * grad
             theta = soft_thresholding(theta_new, alpha * gamma)
-            loss_new = loss_single_variable(X, theta, n, ix, selector)
-            loss_old = loss_single_variable(X, theta_old, n, ix, selector)
+            loss_new = smooth_loss(theta)
+            loss_old = smooth_loss(theta_old)
             # Line search
             diff_theta2 = np.linalg.norm(theta_old - theta) ** 2
             grad_diff = grad.dot(theta_old - theta)
@@ -118,7 +124,7 @@ def fit_each_variable(
                 gamma = update_gamma * gamma
                 theta = theta_old - gamma * grad
                 theta = soft_thresholding(theta, alpha * gamma)
-                loss_new = loss_single_variable(X, theta, n, ix, selector)
+                loss_new = smooth_loss(theta)
                 diff = loss_old - grad_diff + (diff_theta2 / (2 * gamma))
             else:
                 break
-- 
2.43.0


From a7f36d53f0498afbd3f65a1a2595f65fc1e2bc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:04 +0000
Subject: [PATCH 26/62] fix: Ising line search restarted from the rejected
 point

---
 regain/generalized_linear_model/glm_ising.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/regain/generalized_linear_model/glm_ising.py b/regain/generalized_linear_model/glm_ising.py
index acd28fc..bc60157 100644
--- a/regain/generalized_linear_model/glm_ising.py
+++ b/regain/generalized_linear_model/glm_ising.py
@@ -123,11 +123,10 @@ def _fit(
             theta = soft_thresholding_off_diagonal(theta, alpha * gamma)
         else:
             while True:
-                grad = _gradient_ising(X, theta, n, A, rho, T)
-                theta_new = theta - gamma * grad
+                grad = _gradient_ising(X, theta_old, n, A, rho, T)
+                theta_new = theta_old - gamma * grad
                 theta = (theta_new + theta_new.T) / 2
                 theta = soft_thresholding_off_diagonal(theta, alpha * gamma)
-                print(theta)
                 loss_new = loss(X, theta)
                 loss_old = loss(X, theta_old)
                 # Line search
-- 
2.43.0


From 2e6390891a2a9cb72dc408ba8b8f295c86fa3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 27/62] fix: objective of the time-varying GLMs subtracted the
 loss

---
 regain/generalized_linear_model/glm_time_ising.py   | 2 +-
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index e5f3937..fa8f7a5 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -52,7 +52,7 @@ def loss_ising(X, precision, n_samples=None):
         batch_dim = X.shape[0]
         n_samples = np.ones(batch_dim)
 
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, precision, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 0589173..3f27e5a 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -50,7 +50,7 @@ def loss_poisson(X, K, n_samples=None):
     """Loss function for time-varying poisson model."""
     if n_samples is None:
         n_samples = np.ones(X.shape[0])
-    return sum(-ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
+    return sum(ni * loss(x, k) for x, k, ni in zip(X, K, n_samples))
 
 
 def objective(X, K, Z_M, alpha, kernel, psi):
-- 
2.43.0


From f1320f3c94cb223a6c658d6025cc38fbdcce4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 28/62] fix: consensus copies of the time-varying GLMs are one
 fewer than time points

---
 regain/generalized_linear_model/glm_time_ising.py   | 4 ++--
 regain/generalized_linear_model/glm_time_poisson.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/regain/generalized_linear_model/glm_time_ising.py b/regain/generalized_linear_model/glm_time_ising.py
index fa8f7a5..22fd96d 100644
--- a/regain/generalized_linear_model/glm_time_ising.py
+++ b/regain/generalized_linear_model/glm_time_ising.py
@@ -165,7 +165,7 @@ def _fit_time_ising_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_times
+        A /= max(n_times - 1, 1)
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
@@ -182,7 +182,7 @@ def _fit_time_ising_model(
                 compute_objective=True,
                 warm_start=None,
                 rho=rho,
-                T=n_times,
+                T=n_times - 1,
                 return_history=False,
                 return_n_iter=False,
             )[0]
diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index 3f27e5a..be64429 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -160,7 +160,7 @@ def _fit_time_poisson_model(
             A[:-m] += Z_M[m][0] - U_M[m][0]
             A[m:] += Z_M[m][1] - U_M[m][1]
 
-        A /= n_times
+        A /= max(n_times - 1, 1)
         A += A.transpose(0, 2, 1)
         A /= 2.0
         # K_new = np.zeros_like(K)
@@ -176,7 +176,7 @@ def _fit_time_poisson_model(
                     tol=tol,
                     verbose=inner_verbose,
                     A=A[t, :, :],
-                    T=n_times,
+                    T=n_times - 1,
                     rho=rho,
                 )
                 thetas_pred.append(res[0])
-- 
2.43.0


From 19c2ed5463430be1897865408f432283259c2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 29/62] fix: time-varying Poisson solver ignored its step size

---
 regain/generalized_linear_model/glm_time_poisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index be64429..e6f096d 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -173,7 +173,9 @@ def _fit_time_poisson_model(
                     X[t, :, :],
                     v,
                     alpha,
+                    gamma=gamma,
                     tol=tol,
+                    max_iter=max_iter,
                     verbose=inner_verbose,
                     A=A[t, :, :],
                     T=n_times - 1,
-- 
2.43.0


From f55c4bf9c6d95034c2372b1b2243a8fcb1e646bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:22 +0000
Subject: [PATCH 30/62] fix: TemporalPoissonModel accepted negative data

---
 regain/generalized_linear_model/glm_time_poisson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/generalized_linear_model/glm_time_poisson.py b/regain/generalized_linear_model/glm_time_poisson.py
index e6f096d..49f6b24 100644
--- a/regain/generalized_linear_model/glm_time_poisson.py
+++ b/regain/generalized_linear_model/glm_time_poisson.py
@@ -421,7 +421,7 @@ class TemporalPoissonModel(BaseEstimator):
         self.classes_, n_samples = np.unique(y, return_counts=True)
         X = np.around(X)  # to ensure discreteness
         self.data = X.copy()
-        if np.any(self.data) < 0:
+        if np.any(self.data < 0):
             raise ValueError(
                 "Using the poisson distribution your data has " "to be positive"
             )
-- 
2.43.0


From 218327fc0e6c6a47aef7222a4e59019fa8d2ac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:58 +0000
Subject: [PATCH 31/62] fix: lasso and group lasso return the estimate, or the
 estimate and the history

---
 regain/linear_model/group_lasso_.py | 2 +-
 regain/linear_model/lasso_.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index 7e32de5..bf75c17 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -135,7 +135,7 @@ def group_lasso(
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, hist if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, groups, x, z):
diff --git a/regain/linear_model/lasso_.py b/regain/linear_model/lasso_.py
index 2dde28e..6a393bc 100644
--- a/regain/linear_model/lasso_.py
+++ b/regain/linear_model/lasso_.py
@@ -117,7 +117,7 @@ def lasso(A, b, lamda=1.0, rho=1.0, alpha=1.0, max_iter=1000, tol=1e-4, rtol=1e-
         if history[1] < history[3] and history[2] < history[4]:
             break
 
-    return z, history if return_history else z
+    return (z, hist) if return_history else z
 
 
 def objective(A, b, alpha, x, z):
-- 
2.43.0


From 12a07671a8e047f648b102a112ca043770e32a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:58 +0000
Subject: [PATCH 32/62] fix: dual residual of the group lasso was always zero

---
 regain/linear_model/group_lasso_.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index bf75c17..ff9e010 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -116,6 +116,7 @@ def group_lasso(
         # % z-update with relaxation
         zold = z
         x_hat = alpha * x + (1 - alpha) * zold
+        z = zold.copy()
         for group in groups:
             z[group] = soft_thresholding(x_hat[group] + u[group], lamda / rho)
 
-- 
2.43.0


From 838089ec597cf06d08d2548b0254bf939b5cc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:58 +0000
Subject: [PATCH 33/62] fix: group lasso thresholded single entries instead of
 groups

---
 regain/linear_model/group_lasso_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index ff9e010..eb0ed42 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -36,7 +36,7 @@ import numpy as np
 from six.moves import range
 
 from regain.linear_model.lasso_ import lu_factor
-from regain.prox import soft_thresholding
+from regain.prox import soft_thresholding_vector
 from regain.utils import flatten
 
 
@@ -118,7 +118,7 @@ def group_lasso(
         x_hat = alpha * x + (1 - alpha) * zold
         z = zold.copy()
         for group in groups:
-            z[group] = soft_thresholding(x_hat[group] + u[group], lamda / rho)
+            z[group] = soft_thresholding_vector(x_hat[group] + u[group], lamda / rho)
 
         # % u-update
         u += x_hat - z
-- 
2.43.0


From 31d07d93713c0974d06ef6202448061340135e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:58 +0000
Subject: [PATCH 34/62] fix: local update of the overlapping group lasso

---
 regain/linear_model/group_lasso_overlap_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index 12ddcd8..ead7061 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -42,7 +42,7 @@ from sklearn.utils import check_array, check_X_y, deprecated
 from sklearn.utils.extmath import safe_sparse_dot
 from sklearn.utils.validation import check_is_fitted
 
-from regain.prox import soft_thresholding
+from regain.prox import soft_thresholding, soft_thresholding_vector
 from regain.utils import flatten
 from regain.wrapper.paspal.glopridu import glopridu_algorithm
 
@@ -144,7 +144,7 @@ def group_lasso_overlap(A, b, lamda=1.0, groups=None, rho=1.0, max_iter=100, tol
     for k in range(max_iter):
         # x update
         for i, g in enumerate(groups):
-            x[i] = soft_thresholding(x[i] - y[i] / rho, lamda / rho)
+            x[i] = soft_thresholding_vector(z[g] - y[i] / rho, lamda / rho)
 
         # z update
         zold = z
-- 
2.43.0


From 19b283b7143cea3b0f68cbf714593bd9497a81aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:58 +0000
Subject: [PATCH 35/62] fix: objective of the overlapping group lasso with
 groups of different sizes

---
 regain/linear_model/group_lasso_overlap_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/linear_model/group_lasso_overlap_.py b/regain/linear_model/group_lasso_overlap_.py
index ead7061..7b215ee 100644
--- a/regain/linear_model/group_lasso_overlap_.py
+++ b/regain/linear_model/group_lasso_overlap_.py
@@ -561,4 +561,4 @@ def _overlapping_group_lasso(A, b, lamda=1.0, groups=None, rho=1.0, alpha=1.0, m
 
 def objective(A, b, alpha, x, z):
     """Group lasso with overlap objective function."""
-    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * np.linalg.norm(x)
+    return 0.5 * np.sum((A.dot(z) - b) ** 2) + alpha * sum(np.linalg.norm(xi) for xi in x)
-- 
2.43.0


From 8b4d11ce56fc86c82b1a9c6fc0b918e5014247cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:14 +0000
Subject: [PATCH 36/62] fix: glopridu failed with more than one block, or with
 given weights or start

---
 regain/wrapper/paspal/glopridu.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regain/wrapper/paspal/glopridu.py b/regain/wrapper/paspal/glopridu.py
index 8f27ff0..8089541 100644
--- a/regain/wrapper/paspal/glopridu.py
+++ b/regain/wrapper/paspal/glopridu.py
@@ -32,7 +32,7 @@ def glo_prox(w0, tau, blocks, weights, lamda0, tol, max_iter, verbose=0, beta=0.
     weights = (weights * tau) ** 2
 
     # if lamda is not initialized, then initialize it to 0
-    if not lamda0:
+    if lamda0 is None:
         lamda0 = np.zeros(B)
 
     lamda_tot = np.zeros(B)
@@ -176,11 +176,11 @@ def glopridu_algorithm(
     # end
 
     # if sigma is not specified in input, set  it to as a/n
-    if not sigma0:
+    if sigma0 is None:
         sigma0 = np.linalg.norm(X, 2) ** 2 / n  # step size for smooth_par=0
 
     # if weights are not specified in input, set them to 1
-    if not weights:
+    if weights is None:
         weights = np.ones(len(blocks))
         # weights = np.ones(d)
 
@@ -194,7 +194,7 @@ def glopridu_algorithm(
     XT = X.T / (n * sigma)
 
     # initialization
-    if not beta0:
+    if beta0 is None:
         beta0 = np.zeros(d)
 
     # initialization for iterate n_iter-1
-- 
2.43.0


From 5ebb4dab442b4a230fdf466340d5e9fa0256e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:14 +0000
Subject: [PATCH 37/62] fix: glopridu compared norms of blocks with squared
 thresholds

---
 regain/wrapper/paspal/glopridu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/wrapper/paspal/glopridu.py b/regain/wrapper/paspal/glopridu.py
index 8089541..2ca7450 100644
--- a/regain/wrapper/paspal/glopridu.py
+++ b/regain/wrapper/paspal/glopridu.py
@@ -43,7 +43,7 @@ def glo_prox(w0, tau, blocks, weights, lamda0, tol, max_iter, verbose=0, beta=0.
     # for g in range(B):
     #     to_be_projected[g] = np.linalg.norm(w0[blocks[g]], 2) >= weights[g]
     norm_blocks = np.array([np.linalg.norm(w0[block], 2) for block in blocks])
-    to_be_projected = norm_blocks >= weights
+    to_be_projected = norm_blocks ** 2 >= weights
 
     weights = weights[to_be_projected]
     blocks = blocks[to_be_projected]
-- 
2.43.0


From 0f198cf69aa0a90f8dc315f94f22c6be2065df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:29 +0000
Subject: [PATCH 38/62] fix: glopridu failed with blocks of different sizes

---
 regain/wrapper/paspal/glopridu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/wrapper/paspal/glopridu.py b/regain/wrapper/paspal/glopridu.py
index 2ca7450..f2c27a6 100644
--- a/regain/wrapper/paspal/glopridu.py
+++ b/regain/wrapper/paspal/glopridu.py
@@ -46,7 +46,7 @@ def glo_prox(w0, tau, blocks, weights, lamda0, tol, max_iter, verbose=0, beta=0.
     to_be_projected = norm_blocks ** 2 >= weights
 
     weights = weights[to_be_projected]
-    blocks = blocks[to_be_projected]
+    blocks = [block for block, keep in zip(blocks, to_be_projected) if keep]
     lamda = lamda0[to_be_projected]
 
     B = len(blocks)
@@ -167,7 +167,7 @@ def glopridu_algorithm(
 ):
     """Add Doc."""
     n, d = X.shape
-    blocks = np.array(blocks)
+    blocks = [np.array(block) for block in blocks]
 
     # if only the number of blocks is given, build blocks of equal
     # cardinality with sequential features
-- 
2.43.0


From ba9fe42a9da1c15cb0e8c62c743eb9d4775d1d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:46 +0000
Subject: [PATCH 39/62] fix: kernel of graph_k_means was NaN for graphs equal
 to every representative

---
 regain/clustering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/clustering.py b/regain/clustering.py
index 107847b..6ff417f 100644
--- a/regain/clustering.py
+++ b/regain/clustering.py
@@ -66,7 +66,9 @@ def graph_k_means(graphs, k, max_iter=10):
     labels_prev = [-1] * len(graphs)
     for iter_ in range(max_iter):
         distances = compute_distances(graphs, repres)
-        normalized_distances = distances / np.max(distances, axis=1)[:, np.newaxis]
+        max_distances = np.max(distances, axis=1)[:, np.newaxis]
+        # graphs equal to every representative are at distance zero from them
+        normalized_distances = distances / np.where(max_distances == 0, 1, max_distances)
         similarities = 1 - normalized_distances
         kernel = similarities.dot(similarities.T)
         labels = np.argmin(distances, axis=1)
-- 
2.43.0


From 45ee1b3d539ae7199b9cfee6b896e0e6d6c93174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:46 +0000
Subject: [PATCH 40/62] fix: stability selection used numpy.int

---
 regain/model_selection/stability_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 096dcf0..72c3fa0 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -568,7 +568,7 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         results["params"] = candidate_params
 
         # NOTE test_sample counts (weights) remain the same for all candidates
-        test_sample_counts = np.array(test_sample_counts[:n_splits], dtype=np.int)
+        test_sample_counts = np.array(test_sample_counts[:n_splits], dtype=int)
 
         if self.iid != "deprecated":
             warnings.warn(
-- 
2.43.0


From c0bc29dd3d37c8b07db74f3a5f7a6789e9b633ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:46 +0000
Subject: [PATCH 41/62] fix: monotonised instability of a parameter excluded
 its own instability

---
 regain/model_selection/stability_optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regain/model_selection/stability_optimization.py b/regain/model_selection/stability_optimization.py
index 72c3fa0..bc6eb8b 100644
--- a/regain/model_selection/stability_optimization.py
+++ b/regain/model_selection/stability_optimization.py
@@ -598,8 +598,8 @@ class GraphicalModelStabilitySelection(GridSearchCV):
         # monotonize instabilities - require ordered parameters,
         # from high sparsity to low
 
-        monotonized_instabilities = [array_means[0]] + [
-            np.max(array_means[:i]) for i in range(1, array_means.size)
+        monotonized_instabilities = [
+            np.max(array_means[: i + 1]) for i in range(array_means.size)
         ]
         monotonized_instabilities = np.array(monotonized_instabilities)
         self.monotonized_instabilities = np.copy(monotonized_instabilities)
@@ -611,8 +611,8 @@ class GraphicalModelStabilitySelection(GridSearchCV):
             self.graphlets_instabilities = np.copy(graphlets_stability)
 
             upper_bounds = np.array([upper_bound(e_split) for e_split in estimators])
-            upper_bounds = [upper_bounds[0]] + [
-                np.max(upper_bounds[:i]) for i in range(1, upper_bounds.size)
+            upper_bounds = [
+                np.max(upper_bounds[: i + 1]) for i in range(upper_bounds.size)
             ]
             self.upper_bounds = np.array(upper_bounds)
             lb = np.where(np.array(monotonized_instabilities) <= 0.05)[0]
-- 
2.43.0


From 8e391a615a33db165bb82827066f9bd5c67a9a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:47 +0000
Subject: [PATCH 42/62] fix: make_sin_cos returned only the last observed
 precision

---
 regain/datasets/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 1fad232..5a7a66d 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -534,6 +534,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
     clip[upper_idx[::-1]] = clip[upper_idx] = clip1
 
     thetas = np.array([np.eye(n_dim_obs) for i in range(T)])
+    thetas_obs = []
 
     x = np.linspace(0, 2 * np.pi, T)
     for i in range(T):
@@ -551,7 +552,7 @@ def make_sin_cos(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
         assert is_pos_def(thetas[i])
         theta_observed = thetas[i] - L
         assert is_pos_def(theta_observed)
-        thetas_obs = [theta_observed]
+        thetas_obs.append(theta_observed)
 
     return thetas, thetas_obs, np.array([L] * T)
 
-- 
2.43.0


From 5a4d1d60f2c9bb86c728a60291aed898fbab43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:47 +0000
Subject: [PATCH 43/62] fix: make_fixed_sparsity perturbed the absent edges

---
 regain/datasets/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index 5a7a66d..ca96a38 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -453,7 +453,7 @@ def make_fixed_sparsity(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
 
     theta = np.abs(theta)
     theta_observed = theta - L
-    nonzeros = np.nonzero(theta - np.diag(theta))
+    nonzeros = np.nonzero(theta - np.diag(np.diag(theta)))
 
     thetas = [theta]
     thetas_obs = [theta_observed]
@@ -470,7 +470,7 @@ def make_fixed_sparsity(n_dim_obs=100, n_dim_lat=10, T=10, **kwargs):
         theta.flat[:: n_dim_obs + 1] = (
             np.sum(np.abs(theta), axis=1) + np.sum(np.abs(L), axis=1) + 0.1
         )
-        nonzeros = np.nonzero(theta - np.diag(theta))
+        nonzeros = np.nonzero(theta - np.diag(np.diag(theta)))
 
         theta_observed = theta - L
         assert is_pos_def(theta_observed)
-- 
2.43.0


From f0480acccad581910c60957f8675309923a6f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:47 +0000
Subject: [PATCH 44/62] fix: make_sin ignored normalize

---
 regain/datasets/gaussian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index ca96a38..ac9c4db 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -506,10 +506,11 @@ def make_sin(
         ]
     )
 
-    if normalize:
-        map(normalize_matrix, Y)  # in place
     # assert positive_definite(Y)
     ensure_posdef(Y)
+    if normalize:
+        for theta in Y:
+            normalize_matrix(theta)  # in place
 
     return Y, Y, np.zeros_like(Y)
 
-- 
2.43.0


From 515922fa87621cebe76f85988f3bf07e9d2e7ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:47 +0000
Subject: [PATCH 45/62] fix: make_sparse_low_rank generated asymmetric latent
 parts

---
 regain/datasets/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/gaussian.py b/regain/datasets/gaussian.py
index ac9c4db..43f6511 100644
--- a/regain/datasets/gaussian.py
+++ b/regain/datasets/gaussian.py
@@ -601,6 +601,7 @@ def make_sparse_low_rank(n_dim_obs=3, n_dim_lat=2, T=10, epsilon=1e-3, **kwargs)
 
     K = make_sparse_spd_matrix(n_dim_obs)
     L = make_low_rank_matrix(n_dim_obs, n_dim_obs, effective_rank=n_dim_lat)
+    L = L.dot(L.T)  # symmetric and positive semi-definite
 
     Ks = [K]
     Ls = [L]
@@ -608,7 +609,8 @@ def make_sparse_low_rank(n_dim_obs=3, n_dim_lat=2, T=10, epsilon=1e-3, **kwargs)
 
     for i in range(1, T):
         K = K + make_sparse_spd_matrix(n_dim_obs)
-        L = L + make_low_rank_matrix(n_dim_obs, n_dim_obs, effective_rank=n_dim_lat)
+        L_update = make_low_rank_matrix(n_dim_obs, n_dim_obs, effective_rank=n_dim_lat)
+        L = L + L_update.dot(L_update.T)
 
         # assert is_pos_def(K - L)
         # assert is_pos_semidef(L)
-- 
2.43.0


From c8cb21cb603cb8036ca85b7f43d4df38911a6c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:49 +0000
Subject: [PATCH 46/62] fix: l1 update of Ising graphs applied rejected pairs
 (self loops)

---
 regain/datasets/ising.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index c2c9740..006de4c 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -44,9 +44,9 @@ def update_ising_l1(theta_init, no, n_dim_obs, responses=[-1, 1]):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, no)
         cols = np.random.randint(0, n_dim_obs, no)
-        for r, c in zip(rows, cols):
-            theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
-            theta[c, r] = theta[r, c]
+    for r, c in zip(rows, cols):
+        theta[r, c] = np.random.choice(responses) if theta[r, c] == 0 else np.random.choice([theta[r, c], 0])
+        theta[c, r] = theta[r, c]
     assert np.all(theta == theta.T)
     return theta
 
-- 
2.43.0


From 82038844103377af22ee9da21c5a3433cac9a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:49 +0000
Subject: [PATCH 47/62] fix: l1 update of Poisson graphs applied rejected pairs

---
 regain/datasets/poisson.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/datasets/poisson.py b/regain/datasets/poisson.py
index be405e7..9f867ae 100644
--- a/regain/datasets/poisson.py
+++ b/regain/datasets/poisson.py
@@ -41,9 +41,9 @@ def update_l1(G, how_many, n_dim_obs):
     while np.any(rows == cols):
         rows = np.random.randint(0, n_dim_obs, how_many)
         cols = np.random.randint(0, n_dim_obs, how_many)
-        for r, c in zip(rows, cols):
-            G[r, c] = np.random.choice([0, G[r, c]])
-            G[c, r] = G[r, c]
+    for r, c in zip(rows, cols):
+        G[r, c] = np.random.choice([0, G[r, c]])
+        G[c, r] = G[r, c]
     assert np.all(G == G.T)
     return G
 
-- 
2.43.0


From f4ac976e895384a5ae8efbc3eee0c88d96d238fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:49 +0000
Subject: [PATCH 48/62] fix: Ising energy counted each pair twice

---
 regain/datasets/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 006de4c..8a691fc 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -138,7 +138,7 @@ def hamiltonian(theta, state, thresholds):
     n = theta.shape[0]
     for i in range(n):
         res -= thresholds[i] * state[i]
-        res += np.sum([-theta[i, j] * state[i] * state[j] for j in range(n) if j != i])
+        res += np.sum([-theta[i, j] * state[i] * state[j] for j in range(i + 1, n)])
 
     return res
 
-- 
2.43.0


From c709b953a3665f325894875049921c94187baddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:49 +0000
Subject: [PATCH 49/62] fix: direct Ising sampling assumed ten variables and
 drew without replacement

---
 regain/datasets/ising.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index 8a691fc..b74a71a 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -152,10 +152,10 @@ def direct_sampling(theta, thresholds, n=1000, beta=1, responses=[0, 1]):
 
     np.fill_diagonal(theta, 0)
 
-    states = [list(seq) for seq in itertools.product(responses, repeat=10)]
+    states = [list(seq) for seq in itertools.product(responses, repeat=theta.shape[0])]
     probabilities = np.exp(-beta * np.array([hamiltonian(theta, s, thresholds) for s in states]))
     probabilities /= np.sum(probabilities)
-    ixs = np.random.choice(np.arange(0, len(states)), n, replace=False, p=probabilities)
+    ixs = np.random.choice(np.arange(0, len(states)), n, replace=True, p=probabilities)
     return [states[i] for i in ixs]
 
 
-- 
2.43.0


From 149b05fbe384c5808c194ec61b1a066b343e6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:49 +0000
Subject: [PATCH 50/62] fix: a single Ising sample was returned as a vector

---
 regain/datasets/ising.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regain/datasets/ising.py b/regain/datasets/ising.py
index b74a71a..97b1ad8 100644
--- a/regain/datasets/ising.py
+++ b/regain/datasets/ising.py
@@ -335,7 +335,9 @@ def ising_sampler(
 
     # Metropolis Hastings
     elif method.upper() == "MH":
-        res = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[0, :])
+        res = np.atleast_2d(
+            ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[0, :])
+        )
         for s in range(1, n):
             state = ising_metropolis_hastings(theta, thresholds, beta, max_iter, responses, constraints[s, :])
             res = np.vstack((res, state))
-- 
2.43.0


From 6ae2542b1fe64f6f808da2fba503bd82447d20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:49 +0000
Subject: [PATCH 51/62] fix: classes of multi-class networks ignored the drawn
 edges and got self loops

---
 regain/datasets/multi_class.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/regain/datasets/multi_class.py b/regain/datasets/multi_class.py
index 7e95977..b772a71 100644
--- a/regain/datasets/multi_class.py
+++ b/regain/datasets/multi_class.py
@@ -146,8 +146,8 @@ def generate_multiple_class_dataset(
         graph = nx.random_graphs.erdos_renyi_graph(n=n_dim_obs, p=probability, seed=random_state)
 
     binaries = [nx.adjacency_matrix(graph).todense()]
-    zeros = np.where(binaries[0] == 0)
-    nonzero = np.where(binaries[0] != 0)
+    zeros = np.where(np.triu(binaries[0] == 0, k=1))
+    nonzero = np.where(np.triu(binaries[0] != 0, k=1))
     to_add = int(0.1 * zeros[0].shape[0])
     to_remove = int(0.1 * nonzero[0].shape[0])
     for i in range(n_classes - 1):
@@ -156,12 +156,12 @@ def generate_multiple_class_dataset(
         _to_remove = np.random.choice(np.arange(nonzero[0].shape[0]), to_remove, replace=False)
         for ta in _to_add:
             a = np.random.choice([0, 1], p=[0.2, 0.8])
-            K_new[zeros[0][i], zeros[1][i]] = a
-            K_new[zeros[1][i], zeros[0][i]] = a
+            K_new[zeros[0][ta], zeros[1][ta]] = a
+            K_new[zeros[1][ta], zeros[0][ta]] = a
         for ta in _to_remove:
             a = np.random.choice([0, 1], p=[0.8, 0.2])
-            K_new[nonzero[0][i], nonzero[1][i]] = a
-            K_new[nonzero[1][i], nonzero[0][i]] = a
+            K_new[nonzero[0][ta], nonzero[1][ta]] = a
+            K_new[nonzero[1][ta], nonzero[0][ta]] = a
         binaries.append(K_new)
 
     res = {}
-- 
2.43.0


From cfb979ce497e8373dfec298548fae1badf97057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:36 +0000
Subject: [PATCH 52/62] fix: posterior of the normal-inverse-Wishart had a
 matrix as its mean

---
 regain/bayesian/wishart_distribution_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 523c2bc..4c4607e 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -226,7 +226,7 @@ class NormalInverseWishartDistribution(InverseWishartDistribution):
         # psi_n_v1 = self.psi + S_mu + k_0 * n / k_n * mm.T.dot(mm)
         S_n = self.S + S + k_0 * m_0.T.dot(m_0) - k_n * m_n.T.dot(m_n)
 
-        return NormalInverseWishartDistribution(m_n, k_n, nu_n, S_n)
+        return NormalInverseWishartDistribution(m_n.ravel(), k_n, nu_n, S_n)
 
     def predictive(self):
         """Posterior predictive. See pag 135."""
-- 
2.43.0


From d465272ee5de722d0faeccfc1498ac103a1fa515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:36 +0000
Subject: [PATCH 53/62] fix: sampling a Wishart distribution raised TypeError

---
 regain/bayesian/wishart_distribution_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_distribution_.py b/regain/bayesian/wishart_distribution_.py
index 4c4607e..989798f 100755
--- a/regain/bayesian/wishart_distribution_.py
+++ b/regain/bayesian/wishart_distribution_.py
@@ -79,7 +79,7 @@ class WishartDistribution(BaseEstimator):
     def sample(self, n_samples=1):
         # return distributions.rwishart(self.nu, self.psi)
         # return distributions.rwishart(self.nu, self.inv_psi)
-        return stats.wishart(df=self.nu, scale=self.S, size=n_samples)
+        return stats.wishart.rvs(df=self.nu, scale=self.S, size=n_samples)
 
 
 class InverseWishartDistribution(WishartDistribution):
-- 
2.43.0


From 35999428ddb08c4dcd16822a9381d0a393a34b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:36 +0000
Subject: [PATCH 54/62] fix: temporal Gaussian log likelihood was multiplied by
 the number of samples

---
 regain/bayesian/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/stats.py b/regain/bayesian/stats.py
index 2250061..8efa0f9 100644
--- a/regain/bayesian/stats.py
+++ b/regain/bayesian/stats.py
@@ -80,7 +80,7 @@ def t_mvn_logpdf(X, Cov):
         Tensor of covariance matrices over time.
     """
     logp = sum(
-        x.shape[0] * multivariate_normal.logpdf(x, cov=Sigma, allow_singular=True).sum() for x, Sigma in zip(X, Cov.T)
+        multivariate_normal.logpdf(x, cov=Sigma, allow_singular=True).sum() for x, Sigma in zip(X, Cov.T)
     )
     if not isinstance(logp, float):
         logp = sum(logp)
-- 
2.43.0


From be0eaa360e654e0d1aa40849d7f27fcfc098773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:36 +0000
Subject: [PATCH 55/62] fix: all sampled factors of the Wishart process were
 the last one

---
 regain/bayesian/wishart_process_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 7713dde..5b04312 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -156,7 +156,7 @@ def fit(
         loglikes[i] = current_state.log_likelihood
         lps[i] = theta
         if learn_ell:
-            Ls.append(L__)
+            Ls.append(L__.copy())
     return_list = [samples_u, loglikes, lps]
     if learn_ell:
         return_list.append(Ls)
-- 
2.43.0


From c61b0eadda96c283e02a93a849df36bc03f3269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:36 +0000
Subject: [PATCH 56/62] fix: score of the Wishart process failed with classes
 of different sizes

---
 regain/bayesian/wishart_process_.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regain/bayesian/wishart_process_.py b/regain/bayesian/wishart_process_.py
index 5b04312..f2e7e67 100644
--- a/regain/bayesian/wishart_process_.py
+++ b/regain/bayesian/wishart_process_.py
@@ -387,8 +387,8 @@ class WishartProcess(TimeGraphicalLasso):
             estimator=self,
         )
 
-        X_center = np.array(
-            [X[y == cl] - self.location_[i] for i, cl in enumerate(self.classes_)]
-        )
+        X_center = [
+            X[y == cl] - self.location_[i] for i, cl in enumerate(self.classes_)
+        ]
         logp = t_mvn_logpdf(X_center, self.D_map)
         return logp
-- 
2.43.0


From 2923288d978c9ac5b0ba4478e3c6f870a6f1557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:43 +0000
Subject: [PATCH 57/62] fix: covariance selection failed at points that are not
 positive definite

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index e6bd164..9fe7964 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -147,7 +147,7 @@ def covsel(x, p, nonZero, C):
         g += np.tril(g, -1).T  # add contribution from lower to upper triangle
         g = g[nonZero]
     else:
-        g = 0
+        g = np.zeros_like(x)
     return f, g
 
 
-- 
2.43.0


From 7477dfc126c651ff9db1160afaf2cb81627bcde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:43 +0000
Subject: [PATCH 58/62] fix: Laplace scores of G-Wishart graphs failed on the
 prior (no data)

---
 regain/bayesian/gwishart_inference.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 9fe7964..e75965a 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -182,8 +182,10 @@ def GWishartFit(X, G, GWprior, mode="covsel"):
     dn = n_samples + d0
 
     # X'*X - but I dont assume X to be centered
-    emp_cov = empirical_covariance(X)
-    S = n_samples * emp_cov
+    if n_samples > 0:
+        S = n_samples * empirical_covariance(X)
+    else:
+        S = np.zeros((n_dim, n_dim))
     C = (S + S0) / (dn - 2)
 
     if mode == "covsel":
@@ -222,7 +224,7 @@ def compute_score(X, G, P, S, GWprior=None, score_method="bic"):
     logdetP = np.sum(np.log(s))
 
     # % compute loglik
-    loglik = n_samples * log_likelihood(S / n_samples, P)
+    loglik = n_samples * log_likelihood(S / n_samples, P) if n_samples > 0 else 0
 
     num_edges = np.triu(G, 1).sum()
     dof = num_edges + n_dim
-- 
2.43.0


From e3afd58878228e2864215fcd4efc5e4100410784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:43 +0000
Subject: [PATCH 59/62] fix: Laplace normalising constant of G-Wishart had the
 wrong sign of the trace term

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index e75965a..43a53d9 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -233,7 +233,7 @@ def compute_score(X, G, P, S, GWprior=None, score_method="bic"):
 
     # % the posterior Sn parameter
     # Sn = (dn - 2) * invP
-    logh = (dn - 2) / 2.0 * (n_dim + logdetP)
+    logh = (dn - 2) / 2.0 * (logdetP - n_dim)
 
     # find full param set V
     Vi, Vj = np.nonzero(np.triu(G))
-- 
2.43.0


From 021ebdb276a5f48e919a3baf069f8afae3e6a3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:43 +0000
Subject: [PATCH 60/62] fix: default G-Wishart prior used the covariance of
 samples instead of variables

---
 regain/bayesian/gwishart_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/gwishart_inference.py b/regain/bayesian/gwishart_inference.py
index 43a53d9..2cb3d89 100755
--- a/regain/bayesian/gwishart_inference.py
+++ b/regain/bayesian/gwishart_inference.py
@@ -327,7 +327,7 @@ def GWishartScore(X, G, d0=3, S0=None, score_method="bic", mode="covsel"):
     # %Initialize GW prior structure
     n_samples, n_dim = X.shape
     if S0 is None:
-        S0 = (d0 - 2) * np.diag(np.diag(np.cov(X, bias=True)))
+        S0 = (d0 - 2) * np.diag(np.diag(np.cov(X, rowvar=False, bias=True)))
 
     GWprior = Bunch(d0=d0, S0=S0, lognormconst=0, lognormconstDiag=0)
 
-- 
2.43.0


From e3d9bcb3185796d316f0fedf60e9bb6c30d4fca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:32 +0000
Subject: [PATCH 61/62] fix: lognormal log density was -inf where the density
 underflows

---
 regain/bayesian/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/bayesian/stats.py b/regain/bayesian/stats.py
index 8efa0f9..6ab7ae4 100644
--- a/regain/bayesian/stats.py
+++ b/regain/bayesian/stats.py
@@ -52,7 +52,7 @@ def lognormal_logpdf(x, mu, sigma):
     Equivalent to
     stats.lognorm.logpdf(x, loc=0, s=sigma, scale=np.exp(mu))
     """
-    return np.log(lognormal_pdf(x, mu, sigma))
+    return -0.5 * ((np.log(x) - mu) / sigma) ** 2 - np.log(x * sigma * np.sqrt(2 * np.pi))
 
 
 def lognstat(mean, variance):
-- 
2.43.0


From ab1f4a83b2b4b1ef38c2bf8d638454f9216d2deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 62/62] fix: group lasso rejected partitions whose groups are
 not contiguous

Any partition of the features is valid, whatever the order of the indices;
a repeated feature was accepted when there is one feature only.
---
 regain/linear_model/group_lasso_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regain/linear_model/group_lasso_.py b/regain/linear_model/group_lasso_.py
index eb0ed42..ffeb6bb 100644
--- a/regain/linear_model/group_lasso_.py
+++ b/regain/linear_model/group_lasso_.py
@@ -87,7 +87,7 @@ def group_lasso(
     n_samples, n_features = A.shape
 
     # check valid partition
-    if not np.allclose(flatten(groups), np.arange(n_features)):
+    if not np.array_equal(np.sort(flatten(groups)), np.arange(n_features)):
         raise ValueError(
             "Invalid partition in groups. " "Groups must be non-overlapping and each variables " "must be selected"
         )
-- 
2.43.0

