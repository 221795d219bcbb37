From cce9d2efe106c964bdc673828f3f52a19c3b27e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 01/47] fix: RotationMatrixToQuaternion with the Eigen
 coefficient order

For rotations with a negative trace the matrix index was derived from the
positions of the quaternion coefficients, which is only right for the Ceres
order: with EigenQuaternionOrder it read outside of the matrix and wrote the
coefficients to the wrong places.
---
 include/ceres/rotation.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 7062ec3..fff014e 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -470,23 +470,26 @@ void RotationMatrixToQuaternion(
     quaternion[Order::kY] = (R(0, 2) - R(2, 0)) * t;
     quaternion[Order::kZ] = (R(1, 0) - R(0, 1)) * t;
   } else {
-    int i = Order::kW;
+    // Positions of the imaginary coefficients i, j and k within the quaternion.
+    constexpr int kImaginary[3] = {Order::kX, Order::kY, Order::kZ};
+
+    int i = 0;
     if (R(1, 1) > R(0, 0)) {
-      i = Order::kX;
+      i = 1;
     }
 
     if (R(2, 2) > R(i, i)) {
-      i = Order::kY;
+      i = 2;
     }
 
     const int j = (i + 1) % 3;
     const int k = (j + 1) % 3;
     T t = sqrt(R(i, i) - R(j, j) - R(k, k) + T(1.0));
-    quaternion[i + 1] = T(0.5) * t;
+    quaternion[kImaginary[i]] = T(0.5) * t;
     t = T(0.5) / t;
     quaternion[Order::kW] = (R(k, j) - R(j, k)) * t;
-    quaternion[j + 1] = (R(j, i) + R(i, j)) * t;
-    quaternion[k + 1] = (R(k, i) + R(i, k)) * t;
+    quaternion[kImaginary[j]] = (R(j, i) + R(i, j)) * t;
+    quaternion[kImaginary[k]] = (R(k, i) + R(i, k)) * t;
   }
 }
 
-- 
2.43.0


From 64364d3e2c28c5fd5245ec78294d665670775a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 02/47] fix: AngleAxisRotatePoint with a subnormal angle

1 / theta overflows to infinity for subnormal theta, which turned the rotated
point into NaNs. Divide by theta like AngleAxisToRotationMatrix does.
---
 include/ceres/rotation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index fff014e..fef8bea 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -887,11 +887,11 @@ inline void AngleAxisRotatePoint(const T angle_axis[3],
     //
     const T costheta = cos(theta);
     const T sintheta = sin(theta);
-    const T theta_inverse = T(1.0) / theta;
 
-    const T w[3] = {angle_axis[0] * theta_inverse,
-                    angle_axis[1] * theta_inverse,
-                    angle_axis[2] * theta_inverse};
+    // The reciprocal of a subnormal theta overflows, so divide directly.
+    const T w[3] = {angle_axis[0] / theta,
+                    angle_axis[1] / theta,
+                    angle_axis[2] / theta};
 
     // Explicitly inlined evaluation of the cross product for
     // performance reasons.
-- 
2.43.0


From ef753c64554d9c3ea11ae1eb751928f709330c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 03/47] fix: RotationMatrixToEulerAngles close to gimbal lock

Near gimbal lock the first and the last angle were computed independently from
entries that consist of rounding errors, so the returned angles could represent
an entirely different rotation. Compute the last angle from the matrix and the
first angle instead.
---
 include/ceres/rotation.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index fef8bea..5b7a062 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -630,18 +630,26 @@ template <typename EulerSystem, typename T, int row_stride, int col_stride>
 void RotationMatrixToEulerAngles(
     const MatrixAdapter<const T, row_stride, col_stride>& R, T* euler) {
   using std::atan2;
+  using std::cos;
   using std::fpclassify;
   using std::hypot;
+  using std::sin;
 
   const auto [i, j, k] = EulerSystem::kAxes;
 
+  // Close to gimbal lock the entries that determine the first and the last
+  // angle on their own are dominated by rounding errors. The last angle is
+  // therefore determined from the rotation that remains after undoing the first
+  // one, such that the three angles always represent R.
   T ea[3];
   if constexpr (EulerSystem::kIsProperEuler) {
     const T sy = hypot(R(i, j), R(i, k));
     if (fpclassify(sy) != FP_ZERO) {
       ea[0] = atan2(R(i, j), R(i, k));
       ea[1] = atan2(sy, R(i, i));
-      ea[2] = atan2(R(j, i), -R(k, i));
+      const T ci = cos(ea[0]);
+      const T si = sin(ea[0]);
+      ea[2] = atan2(ci * R(k, j) - si * R(k, k), ci * R(j, j) - si * R(j, k));
     } else {
       ea[0] = atan2(-R(j, k), R(j, j));
       ea[1] = atan2(sy, R(i, i));
@@ -652,7 +660,9 @@ void RotationMatrixToEulerAngles(
     if (fpclassify(cy) != FP_ZERO) {
       ea[0] = atan2(R(k, j), R(k, k));
       ea[1] = atan2(-R(k, i), cy);
-      ea[2] = atan2(R(j, i), R(i, i));
+      const T ci = cos(ea[0]);
+      const T si = sin(ea[0]);
+      ea[2] = atan2(si * R(i, k) - ci * R(i, j), ci * R(j, j) - si * R(j, k));
     } else {
       ea[0] = atan2(-R(j, k), R(j, j));
       ea[1] = atan2(-R(k, i), cy);
-- 
2.43.0


From 8f1dd5589636291921758c8d48fc31a7ae09c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 04/47] fix: numeric_limits<Jet>::min_exponent10 is that of the
 scalar type

It was max_exponent10 of the scalar type, a positive number.
---
 include/ceres/jet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ceres/jet.h b/include/ceres/jet.h
index 3672011..f53c922 100644
--- a/include/ceres/jet.h
+++ b/include/ceres/jet.h
@@ -1373,7 +1373,7 @@ struct numeric_limits<ceres::Jet<T, N>> {
   static constexpr int max_digits10 = std::numeric_limits<T>::max_digits10;
   static constexpr int radix = std::numeric_limits<T>::radix;
   static constexpr int min_exponent = std::numeric_limits<T>::min_exponent;
-  static constexpr int min_exponent10 = std::numeric_limits<T>::max_exponent10;
+  static constexpr int min_exponent10 = std::numeric_limits<T>::min_exponent10;
   static constexpr int max_exponent = std::numeric_limits<T>::max_exponent;
   static constexpr int max_exponent10 = std::numeric_limits<T>::max_exponent10;
   static constexpr bool traps = std::numeric_limits<T>::traps;
-- 
2.43.0


From fe40d9adf8f1ff3b689de94a37da3593b3fbdaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 05/47] fix: cyl_bessel_j of a Jet for orders between zero and
 one

The derivative was formed with the order v - 1, for which std::cyl_bessel_j
throws a domain error when v < 1.
---
 include/ceres/jet.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ceres/jet.h b/include/ceres/jet.h
index f53c922..fa37ffa 100644
--- a/include/ceres/jet.h
+++ b/include/ceres/jet.h
@@ -966,6 +966,15 @@ inline Jet<T, N> cyl_bessel_j(double v, const Jet<T, N>& f) {
     return Jet<T, N>(cyl_bessel_j(0, f.a), -cyl_bessel_j(1, f.a) * f.v);
   }
 
+  // cyl_bessel_j is only defined for non-negative orders, so the formula below
+  // cannot be used for orders less than one. See formula
+  // http://dlmf.nist.gov/10.6#E2
+  // j_n(a + h) ~= j_n(a) + ( (n / a) j_n(a) - j_{n+1}(a) ) h
+  if (v < 1) {
+    const T tmp = cyl_bessel_j(v, f.a);
+    return Jet<T, N>(tmp, (v / f.a * tmp - cyl_bessel_j(v + 1, f.a)) * f.v);
+  }
+
   return Jet<T, N>(
       cyl_bessel_j(v, f.a),
       T(0.5) * (cyl_bessel_j(v - 1, f.a) - cyl_bessel_j(v + 1, f.a)) * f.v);
-- 
2.43.0


From 163b540a46472f397ad3e5844e1bb8e02150330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 06/47] fix: NumericDiffCostFunction reports a failure at a
 perturbed point

---
 include/ceres/numeric_diff_cost_function.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ceres/numeric_diff_cost_function.h b/include/ceres/numeric_diff_cost_function.h
index 5889b70..e4aad2c 100644
--- a/include/ceres/numeric_diff_cost_function.h
+++ b/include/ceres/numeric_diff_cost_function.h
@@ -267,17 +267,15 @@ class NumericDiffCostFunction final
                   parameters_reference_copy[block]);
     }
 
-    internal::EvaluateJacobianForParameterBlocks<kMethod,
-                                                 kNumResiduals,
-                                                 ParameterDims>(
+    return internal::EvaluateJacobianForParameterBlocks<kMethod,
+                                                        kNumResiduals,
+                                                        ParameterDims>(
         functor_.get(),
         residuals,
         options_,
         this->num_residuals(),
         parameters_reference_copy.data(),
         jacobians);
-
-    return true;
   }
 
   const CostFunctor& functor() const { return *functor_; }
-- 
2.43.0


From 2c54bf7d3dffff92e8fbe10d877c248ce780dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 07/47] fix: cubic interpolation at points whose cell index
 does not fit an int

---
 include/ceres/cubic_interpolation.h | 37 +++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/ceres/cubic_interpolation.h b/include/ceres/cubic_interpolation.h
index e3797d1..6948cec 100644
--- a/include/ceres/cubic_interpolation.h
+++ b/include/ceres/cubic_interpolation.h
@@ -93,6 +93,21 @@ void CubicHermiteSpline(const Eigen::Matrix<double, kDataDimension, 1>& p0,
   }
 }
 
+// Returns the index n of the grid cell [n, n + 1) that contains x, and the
+// offset of x in that cell. Points so far away that the indices around them do
+// not fit into an int are moved to the closest cell where they do; there the
+// (infinite) grid is constant. NaN has NaN as its offset.
+inline int CubicInterpolationCell(const double x, double* offset) {
+  constexpr int kMaxCell = 1 << 30;
+  const double cell = std::floor(x);
+  if (cell > -kMaxCell && cell < kMaxCell) {
+    *offset = x - cell;
+    return static_cast<int>(cell);
+  }
+  *offset = std::isnan(x) ? x : 0.0;
+  return x > 0 ? kMaxCell : -kMaxCell;
+}
+
 // Given as input an infinite one dimensional grid, which provides the
 // following interface.
 //
@@ -135,13 +150,14 @@ class CubicInterpolator {
   }
 
   void Evaluate(double x, double* f, double* dfdx) const {
-    const int n = std::floor(x);
+    double dx;
+    const int n = CubicInterpolationCell(x, &dx);
     Eigen::Matrix<double, Grid::DATA_DIMENSION, 1> p0, p1, p2, p3;
     grid_.GetValue(n - 1, p0.data());
     grid_.GetValue(n, p1.data());
     grid_.GetValue(n + 1, p2.data());
     grid_.GetValue(n + 2, p3.data());
-    CubicHermiteSpline<Grid::DATA_DIMENSION>(p0, p1, p2, p3, x - n, f, dfdx);
+    CubicHermiteSpline<Grid::DATA_DIMENSION>(p0, p1, p2, p3, dx, f, dfdx);
   }
 
   // The following two Evaluate overloads are needed for interfacing
@@ -283,8 +299,9 @@ class BiCubicInterpolator {
     // The point (r,c) being evaluated is assumed to lie in the square
     // defined by p11, p12, p22 and p21.
 
-    const int row = std::floor(r);
-    const int col = std::floor(c);
+    double dr, dc;
+    const int row = CubicInterpolationCell(r, &dr);
+    const int col = CubicInterpolationCell(c, &dc);
 
     Eigen::Matrix<double, Grid::DATA_DIMENSION, 1> p0, p1, p2, p3;
 
@@ -298,36 +315,36 @@ class BiCubicInterpolator {
     grid_.GetValue(row - 1, col + 1, p2.data());
     grid_.GetValue(row - 1, col + 2, p3.data());
     CubicHermiteSpline<Grid::DATA_DIMENSION>(
-        p0, p1, p2, p3, c - col, f0.data(), df0dc.data());
+        p0, p1, p2, p3, dc, f0.data(), df0dc.data());
 
     grid_.GetValue(row, col - 1, p0.data());
     grid_.GetValue(row, col, p1.data());
     grid_.GetValue(row, col + 1, p2.data());
     grid_.GetValue(row, col + 2, p3.data());
     CubicHermiteSpline<Grid::DATA_DIMENSION>(
-        p0, p1, p2, p3, c - col, f1.data(), df1dc.data());
+        p0, p1, p2, p3, dc, f1.data(), df1dc.data());
 
     grid_.GetValue(row + 1, col - 1, p0.data());
     grid_.GetValue(row + 1, col, p1.data());
     grid_.GetValue(row + 1, col + 1, p2.data());
     grid_.GetValue(row + 1, col + 2, p3.data());
     CubicHermiteSpline<Grid::DATA_DIMENSION>(
-        p0, p1, p2, p3, c - col, f2.data(), df2dc.data());
+        p0, p1, p2, p3, dc, f2.data(), df2dc.data());
 
     grid_.GetValue(row + 2, col - 1, p0.data());
     grid_.GetValue(row + 2, col, p1.data());
     grid_.GetValue(row + 2, col + 1, p2.data());
     grid_.GetValue(row + 2, col + 2, p3.data());
     CubicHermiteSpline<Grid::DATA_DIMENSION>(
-        p0, p1, p2, p3, c - col, f3.data(), df3dc.data());
+        p0, p1, p2, p3, dc, f3.data(), df3dc.data());
 
     // Interpolate vertically the interpolated value from each row and
     // compute the derivative along the columns.
-    CubicHermiteSpline<Grid::DATA_DIMENSION>(f0, f1, f2, f3, r - row, f, dfdr);
+    CubicHermiteSpline<Grid::DATA_DIMENSION>(f0, f1, f2, f3, dr, f, dfdr);
     if (dfdc != nullptr) {
       // Interpolate vertically the derivative along the columns.
       CubicHermiteSpline<Grid::DATA_DIMENSION>(
-          df0dc, df1dc, df2dc, df3dc, r - row, dfdc, nullptr);
+          df0dc, df1dc, df2dc, df3dc, dr, dfdc, nullptr);
     }
   }
 
-- 
2.43.0


From 977502aaf2fa716b086f639650cb049068f76e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 08/47] fix: TinySolver reports and tests the gradient of the
 unscaled problem

---
 include/ceres/tiny_solver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 093bc36..26c977b 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -235,7 +235,9 @@ class TinySolver {
     jacobian_ = jacobian_ * jacobi_scaling_.asDiagonal();
     jtj_ = jacobian_.transpose() * jacobian_;
     g_ = jacobian_.transpose() * residuals_;
-    summary.gradient_max_norm = g_.array().abs().maxCoeff();
+    // g_ is the gradient with respect to the scaled parameters.
+    summary.gradient_max_norm =
+        (g_.array() / jacobi_scaling_.array()).abs().maxCoeff();
     cost_ = residuals_.squaredNorm() / 2;
     return true;
   }
-- 
2.43.0


From 5988b74ec35bfed3137f653097e4f4637decf1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 09/47] fix: TinySolver's function tolerance is relative to the
 cost, as documented

---
 include/ceres/tiny_solver.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 26c977b..1193e55 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -299,6 +299,9 @@ class TinySolver {
       function(&x_new_[0], &f_x_new_[0], nullptr);
 
       const Scalar cost_change = (2 * cost_ - f_x_new_.squaredNorm());
+      // Like cost_change, the tolerance is relative to twice the cost.
+      const bool cost_change_too_small =
+          std::abs(cost_change) < options.function_tolerance * (2 * cost_);
       // TODO(sameeragarwal): Better more numerically stable evaluation.
       const Scalar model_cost_change = lm_step_.dot(2 * g_ - jtj_ * lm_step_);
 
@@ -313,7 +316,7 @@ class TinySolver {
 
         // TODO(sameeragarwal): Deal with failure.
         Update(function, x);
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (cost_change_too_small) {
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
         }
@@ -337,7 +340,7 @@ class TinySolver {
         // or the local linear model was not good (rho < 0).
 
         // Additionally if the cost change is too small, then terminate.
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (cost_change_too_small) {
           // Terminate
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
-- 
2.43.0


From f6a1d8f2751e4e43bb8e3e2b233b460dec28af25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 10/47] fix: final_cost ignores the cost of rejected steps

---
 internal/ceres/solver_utils.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/solver_utils.h b/internal/ceres/solver_utils.h
index 60bca91..e9e87aa 100644
--- a/internal/ceres/solver_utils.h
+++ b/internal/ceres/solver_utils.h
@@ -53,9 +53,16 @@ void SetSummaryFinalCost(SummaryType* summary) {
   summary->final_cost = summary->initial_cost;
   // We need the loop here, instead of just looking at the last
   // iteration because the minimizer maybe making non-monotonic steps.
+  //
+  // The cost of an unsuccessful step is the cost of a point that was
+  // rejected, which can be lower than the cost of the solution, e.g. when the
+  // decrease in cost was a lot less than what the trust region model promised.
   for (int i = 0; i < summary->iterations.size(); ++i) {
     const IterationSummary& iteration_summary = summary->iterations[i];
-    summary->final_cost = std::min(iteration_summary.cost, summary->final_cost);
+    if (iteration_summary.step_is_successful) {
+      summary->final_cost =
+          std::min(iteration_summary.cost, summary->final_cost);
+    }
   }
 }
 
-- 
2.43.0


From 76e3ed8eeb1ab2efaad595ae6f8586b2f8fb0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 11/47] fix: SCHUR_POWER_SERIES_EXPANSION has no meaning for
 CGNR without e-blocks

---
 internal/ceres/preconditioner.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/preconditioner.cc b/internal/ceres/preconditioner.cc
index 7c51976..ed3cd8b 100644
--- a/internal/ceres/preconditioner.cc
+++ b/internal/ceres/preconditioner.cc
@@ -39,6 +39,7 @@ Preconditioner::~Preconditioner() = default;
 PreconditionerType Preconditioner::PreconditionerForZeroEBlocks(
     PreconditionerType preconditioner_type) {
   if (preconditioner_type == SCHUR_JACOBI ||
+      preconditioner_type == SCHUR_POWER_SERIES_EXPANSION ||
       preconditioner_type == CLUSTER_JACOBI ||
       preconditioner_type == CLUSTER_TRIDIAGONAL) {
     return JACOBI;
-- 
2.43.0


From 1b7ec2704b23ca0796fc295017e19460103c2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 12/47] fix: conjugate gradients treats a zero residual as
 convergence

---
 internal/ceres/conjugate_gradients_solver.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index ba70a13..9ab3f43 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -144,7 +144,8 @@ LinearSolver::Summary ConjugateGradientsSolver(
   Axpby(1.0, rhs, -1.0, tmp, r, options.context, options.num_threads);
 
   double norm_r = Norm(r, options.context, options.num_threads);
-  if (options.min_num_iterations == 0 && norm_r <= tol_r) {
+  if (norm_r == 0.0 ||
+      (options.min_num_iterations == 0 && norm_r <= tol_r)) {
     summary.termination_type = LinearSolverTerminationType::SUCCESS;
     summary.message =
         absl::StrFormat("Convergence. |r| = %e <= %e.", norm_r, tol_r);
@@ -284,10 +285,12 @@ LinearSolver::Summary ConjugateGradientsSolver(
     }
     Q0 = Q1;
 
-    // Residual based termination.
+    // Residual based termination. If the residual is zero, then the solution is
+    // exact and there is no direction left to make any progress in.
     norm_r = Norm(r, options.context, options.num_threads);
-    if (norm_r <= tol_r &&
-        summary.num_iterations >= options.min_num_iterations) {
+    if (norm_r == 0.0 ||
+        (norm_r <= tol_r &&
+         summary.num_iterations >= options.min_num_iterations)) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
       summary.message =
           absl::StrFormat("Iteration: %d Convergence. |r| = %e <= %e.",
-- 
2.43.0


From edb9467a207cb2f3a5cc8030ac6e22f410c4371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 13/47] fix: dense iterative refinement only uses the populated
 triangle of the matrix

---
 internal/ceres/iterative_refiner.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/iterative_refiner.cc b/internal/ceres/iterative_refiner.cc
index 54d48f3..2d8ddae 100644
--- a/internal/ceres/iterative_refiner.cc
+++ b/internal/ceres/iterative_refiner.cc
@@ -91,7 +91,10 @@ void DenseIterativeRefiner::Refine(const int num_cols,
   VectorRef solution(solution_ptr, num_cols);
   std::string ignored_message;
   for (int i = 0; i < max_num_iterations_; ++i) {
-    residual_ = rhs - lhs * solution;
+    // Just like DenseCholesky, only use the triangular part of lhs which is
+    // lower triangular in column major order; the rest may not be populated.
+    residual_ = rhs;
+    residual_.noalias() -= lhs.selfadjointView<Eigen::Upper>() * solution;
     // solution += lhs^-1 residual
     cholesky->Solve(residual_.data(), correction_.data(), &ignored_message);
     solution += correction_;
-- 
2.43.0


From 5556c813c05eebeac1e9c8eb4f9776010dbc3973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 14/47] fix: IterationSummary::step_norm of the first steps of
 a trust region solve

---
 internal/ceres/trust_region_minimizer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index c2c10f8..d352d6d 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -110,6 +110,9 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
     ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
+    // Norm of the step in the ambient space.
+    iteration_summary_.step_norm = (x_ - candidate_x_).norm();
+
     if (atleast_one_successful_step && ParameterToleranceReached()) {
       return;
     }
@@ -726,8 +729,6 @@ bool TrustRegionMinimizer::MinTrustRegionRadiusReached() {
 bool TrustRegionMinimizer::ParameterToleranceReached() {
   const double x_norm = x_.norm();
 
-  // Compute the norm of the step in the ambient space.
-  iteration_summary_.step_norm = (x_ - candidate_x_).norm();
   const double step_size_tolerance =
       options_.parameter_tolerance * (x_norm + options_.parameter_tolerance);
 
-- 
2.43.0


From d000aca0b7bafd468582fc2e4984aa617b35e9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 15/47] fix: the dogleg strategy keeps its radius below
 max_trust_region_radius

---
 internal/ceres/dogleg_strategy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/dogleg_strategy.cc b/internal/ceres/dogleg_strategy.cc
index ef45a0b..4ff30ea 100644
--- a/internal/ceres/dogleg_strategy.cc
+++ b/internal/ceres/dogleg_strategy.cc
@@ -623,7 +623,8 @@ void DoglegStrategy::StepAccepted(double step_quality) {
   }
 
   if (step_quality > increase_threshold_) {
-    radius_ = std::max(radius_, 3.0 * dogleg_step_norm_);
+    radius_ =
+        std::min(max_radius_, std::max(radius_, 3.0 * dogleg_step_norm_));
   }
 
   // Reduce the regularization multiplier, in the hope that whatever
-- 
2.43.0


From 2bbe886f86f518ce2a18bcf52dc67d2a93d135d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 16/47] fix: the line search minimizer runs the callbacks for
 its last iteration

---
 internal/ceres/line_search_minimizer.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index 1f0b05b..622e3b2 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -211,11 +211,11 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
   LineSearch::Summary line_search_summary;
   int num_line_search_direction_restarts = 0;
 
-  while (true) {
-    if (!RunCallbacks(options, iteration_summary, summary)) {
-      break;
-    }
+  if (!RunCallbacks(options, iteration_summary, summary)) {
+    return;
+  }
 
+  while (true) {
     iteration_start_time = absl::Now();
     if (iteration_summary.iteration >= options.max_num_iterations) {
       summary->message = "Maximum number of iterations reached.";
@@ -431,6 +431,11 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
         absl::ToDoubleSeconds(line_search_summary.total_time);
     ++summary->num_successful_steps;
 
+    // The callbacks also see the iteration at which the minimizer converges.
+    if (!RunCallbacks(options, iteration_summary, summary)) {
+      break;
+    }
+
     const double step_size_tolerance =
         options.parameter_tolerance * (x_norm + options.parameter_tolerance);
     if (iteration_summary.step_norm <= step_size_tolerance) {
-- 
2.43.0


From a437a3fe385220ff3621c8cd04cb9ce42a31fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 17/47] fix: Problem::Evaluate does not index empty output
 vectors

---
 internal/ceres/problem_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/problem_impl.cc b/internal/ceres/problem_impl.cc
index ef5851b..27ffb5c 100644
--- a/internal/ceres/problem_impl.cc
+++ b/internal/ceres/problem_impl.cc
@@ -723,8 +723,8 @@ bool ProblemImpl::Evaluate(const Problem::EvaluateOptions& evaluate_options,
       evaluator->Evaluate(evaluator_evaluate_options,
                           parameters.data(),
                           &tmp_cost,
-                          residuals != nullptr ? &(*residuals)[0] : nullptr,
-                          gradient != nullptr ? &(*gradient)[0] : nullptr,
+                          residuals != nullptr ? residuals->data() : nullptr,
+                          gradient != nullptr ? gradient->data() : nullptr,
                           tmp_jacobian.get());
 
   // Make the parameter blocks that were temporarily marked constant,
-- 
2.43.0


From c662377de7e1807abd9ee8f62dc39fa42dc326ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 18/47] fix: do not announce an already evaluated point to the
 evaluation callback when the Wolfe line search returns an earlier one

---
 internal/ceres/line_search_minimizer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index 622e3b2..017de1f 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -355,8 +355,11 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
       current_state.cost = optimal_point.value;
       current_state.gradient = optimal_point.vector_gradient;
     } else {
+      // ArmijoLineSearch returns the last point it evaluated, WolfeLineSearch
+      // may return an earlier one, e.g. the initial position.
       Evaluator::EvaluateOptions evaluate_options;
-      evaluate_options.new_evaluation_point = false;
+      evaluate_options.new_evaluation_point =
+          options.line_search_type != ARMIJO;
       if (!evaluator->Evaluate(evaluate_options,
                                optimal_point.vector_x.data(),
                                &(current_state.cost),
-- 
2.43.0


From c69ececa34c06c59848ed6ac6e2e5e3fbc6c219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 19/47] fix: report a failed Jacobian evaluation in
 Covariance::Compute instead of factorizing garbage

---
 internal/ceres/covariance_impl.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index b2449f9..8ae48b9 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -547,7 +547,12 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingSuiteSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Covariance computation failed. "
+               << "The Jacobian could not be evaluated.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   // Construct a compressed column form of the Jacobian.
@@ -714,7 +719,12 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Covariance computation failed. "
+               << "The Jacobian could not be evaluated.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   Matrix dense_jacobian(jacobian.num_rows, jacobian.num_cols);
@@ -810,7 +820,12 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingEigenSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Covariance computation failed. "
+               << "The Jacobian could not be evaluated.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   using EigenSparseMatrix = Eigen::SparseMatrix<double, Eigen::ColMajor>;
-- 
2.43.0


From fbd61329eb2035a455f52daaf64fa22b5f88c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 20/47] fix: treat non-finite costs and gradients of a
 FirstOrderFunction as failed evaluations

---
 internal/ceres/gradient_problem_evaluator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/gradient_problem_evaluator.h b/internal/ceres/gradient_problem_evaluator.h
index d272f04..c45d3cd 100644
--- a/internal/ceres/gradient_problem_evaluator.h
+++ b/internal/ceres/gradient_problem_evaluator.h
@@ -36,6 +36,7 @@
 #include <string>
 
 #include "absl/log/check.h"
+#include "ceres/array_utils.h"
 #include "ceres/evaluator.h"
 #include "ceres/execution_summary.h"
 #include "ceres/gradient_problem.h"
@@ -70,7 +71,12 @@ class CERES_NO_EXPORT GradientProblemEvaluator final : public Evaluator {
     ScopedExecutionTimer call_type_timer(
         gradient == nullptr ? "Evaluator::Residual" : "Evaluator::Jacobian",
         &execution_summary_);
-    return problem_.Evaluate(state, cost, gradient);
+    // As for non-linear least squares problems, an evaluation that produces
+    // non-finite values is a failed one.
+    return problem_.Evaluate(state, cost, gradient) &&
+           IsArrayValid(1, cost) &&
+           (gradient == nullptr ||
+            IsArrayValid(problem_.NumTangentParameters(), gradient));
   }
 
   bool Plus(const double* state,
-- 
2.43.0


From fd7349575ed7882a09fc56ca07f17cf18872ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 21/47] fix: do not declare convergence by the parameter
 tolerance when the candidate point could not be computed

---
 internal/ceres/trust_region_minimizer.cc | 19 +++++++++++++------
 internal/ceres/trust_region_minimizer.h  |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index d352d6d..50a2dac 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -107,13 +107,17 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
       DoLineSearch(x_, gradient_, x_cost_, &delta_);
     }
 
-    ComputeCandidatePointAndEvaluateCost();
+    const bool candidate_point_is_valid = ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
-    // Norm of the step in the ambient space.
-    iteration_summary_.step_norm = (x_ - candidate_x_).norm();
+    // Norm of the step in the ambient space. If the candidate point could not
+    // be computed, there is no step, and its size says nothing about
+    // convergence.
+    iteration_summary_.step_norm =
+        candidate_point_is_valid ? (x_ - candidate_x_).norm() : 0.0;
 
-    if (atleast_one_successful_step && ParameterToleranceReached()) {
+    if (atleast_one_successful_step && candidate_point_is_valid &&
+        ParameterToleranceReached()) {
       return;
     }
 
@@ -779,14 +783,16 @@ bool TrustRegionMinimizer::FunctionToleranceReached() {
 // a candidate point, and if for some reason we are unable to evaluate it, we
 // consider it to be a point with very high cost. This allows the user to deal
 // with edge cases/constraints as part of the Manifold and CostFunction objects.
-void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
+//
+// Returns false if the candidate point could not be computed.
+bool TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
   if (!evaluator_->Plus(x_.data(), delta_.data(), candidate_x_.data())) {
     if (is_not_silent_) {
       LOG(WARNING) << "x_plus_delta = Plus(x, delta) failed. "
                    << "Treating it as a step with infinite cost";
     }
     candidate_cost_ = std::numeric_limits<double>::max();
-    return;
+    return false;
   }
 
   if (!evaluator_->Evaluate(
@@ -797,6 +803,7 @@ void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
     }
     candidate_cost_ = std::numeric_limits<double>::max();
   }
+  return true;
 }
 
 bool TrustRegionMinimizer::IsStepSuccessful() {
diff --git a/internal/ceres/trust_region_minimizer.h b/internal/ceres/trust_region_minimizer.h
index 91f9deb..b754926 100644
--- a/internal/ceres/trust_region_minimizer.h
+++ b/internal/ceres/trust_region_minimizer.h
@@ -65,7 +65,7 @@ class CERES_NO_EXPORT TrustRegionMinimizer final : public Minimizer {
   bool ComputeTrustRegionStep();
 
   bool EvaluateGradientAndJacobian(bool new_evaluation_point);
-  void ComputeCandidatePointAndEvaluateCost();
+  bool ComputeCandidatePointAndEvaluateCost();
 
   void DoLineSearch(const Vector& x,
                     const Vector& gradient,
-- 
2.43.0


From 2bd02bb3d2f286e841be25a859d5935a44899bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 22/47] fix: EvaluateResidualBlock returns false instead of
 aborting when a manifold cannot compute its PlusJacobian

---
 internal/ceres/problem_impl.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/problem_impl.cc b/internal/ceres/problem_impl.cc
index 27ffb5c..2cf1d28 100644
--- a/internal/ceres/problem_impl.cc
+++ b/internal/ceres/problem_impl.cc
@@ -768,10 +768,9 @@ bool ProblemImpl::EvaluateResidualBlock(ResidualBlock* residual_block,
                    << ". But the parameter block is marked constant.";
         return false;
       }
-    } else {
-      CHECK(parameter_block->SetState(parameter_block->user_state()))
-          << "Congratulations, you found a Ceres bug! Please report this error "
-          << "to the developers.";
+    } else if (!parameter_block->SetState(parameter_block->user_state())) {
+      // The user's manifold could not be evaluated at this point.
+      return false;
     }
   }
 
-- 
2.43.0


From 646e219e4342b1e94f68f0835769477e9cb598d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 23/47] fix: a parameter block with an invalid state does not
 leave the others referring to freed memory

---
 internal/ceres/program.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/internal/ceres/program.cc b/internal/ceres/program.cc
index 826fdab..88a2bf2 100644
--- a/internal/ceres/program.cc
+++ b/internal/ceres/program.cc
@@ -79,13 +79,17 @@ EvaluationCallback* Program::mutable_evaluation_callback() {
 }
 
 bool Program::StateVectorToParameterBlocks(const double* state) {
+  // Update every parameter block, even when the state of one of them is found
+  // to be invalid. Otherwise the remaining ones would go on referring to their
+  // previous state, which may not exist anymore.
+  bool status = true;
   for (auto* parameter_block : parameter_blocks_) {
-    if (!parameter_block->IsConstant() && !parameter_block->SetState(state)) {
-      return false;
+    if (!parameter_block->IsConstant()) {
+      status &= parameter_block->SetState(state);
     }
     state += parameter_block->Size();
   }
-  return true;
+  return status;
 }
 
 void Program::ParameterBlocksToStateVector(double* state) const {
@@ -102,13 +106,13 @@ void Program::CopyParameterBlockStateToUserState() {
 }
 
 bool Program::SetParameterBlockStatePtrsToUserStatePtrs() {
+  bool status = true;
   for (auto* parameter_block : parameter_blocks_) {
-    if (!parameter_block->IsConstant() &&
-        !parameter_block->SetState(parameter_block->user_state())) {
-      return false;
+    if (!parameter_block->IsConstant()) {
+      status &= parameter_block->SetState(parameter_block->user_state());
     }
   }
-  return true;
+  return status;
 }
 
 bool Program::Plus(const double* state,
-- 
2.43.0


From 434a9a020b82ecf7d4255a2af08319c60fc69edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 24/47] fix: reject min_lm_diagonal = 0 in
 Solver::Options::IsValid

Both trust region strategies CHECK that the lower bound of the diagonal is
positive, so a zero accepted by IsValid aborted the process in Solve.
---
 internal/ceres/solver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 97c1d87..6eff8d8 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -411,8 +411,8 @@ bool TrustRegionOptionsAreValid(const Solver::Options& options,
   OPTION_LE_OPTION(min_trust_region_radius, initial_trust_region_radius);
   OPTION_LE_OPTION(initial_trust_region_radius, max_trust_region_radius);
   OPTION_GE(min_relative_decrease, 0.0);
-  OPTION_GE(min_lm_diagonal, 0.0);
-  OPTION_GE(max_lm_diagonal, 0.0);
+  OPTION_GT(min_lm_diagonal, 0.0);
+  OPTION_GT(max_lm_diagonal, 0.0);
   OPTION_LE_OPTION(min_lm_diagonal, max_lm_diagonal);
   OPTION_GE(max_num_consecutive_invalid_steps, 0);
   OPTION_GT(eta, 0.0);
-- 
2.43.0


From 94a777047d21ec936f14d20dcd3f29b55c884900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 25/47] fix: do not use CUDA memory or matrices when
 CUDA_SPARSE is given to a solver which does not need it

DENSE_SCHUR, ITERATIVE_SCHUR, ... accept sparse_linear_algebra_library_type =
CUDA_SPARSE in a build without CUDA, as they do not use the sparse library,
and then aborted when the Jacobian was allocated.
---
 internal/ceres/block_jacobian_writer.cc | 5 ++++-
 internal/ceres/evaluator.cc             | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/block_jacobian_writer.cc b/internal/ceres/block_jacobian_writer.cc
index 34cdc1b..dc5efb6 100644
--- a/internal/ceres/block_jacobian_writer.cc
+++ b/internal/ceres/block_jacobian_writer.cc
@@ -43,6 +43,7 @@
 #include "ceres/parameter_block.h"
 #include "ceres/program.h"
 #include "ceres/residual_block.h"
+#include "ceres/types.h"
 
 namespace ceres::internal {
 
@@ -259,7 +260,9 @@ std::unique_ptr<SparseMatrix> BlockJacobianWriter::CreateJacobian() const {
   }
 
   return std::make_unique<BlockSparseMatrix>(
-      bs, options_.sparse_linear_algebra_library_type == CUDA_SPARSE);
+      bs,
+      options_.sparse_linear_algebra_library_type == CUDA_SPARSE &&
+          IsSparseLinearAlgebraLibraryTypeAvailable(CUDA_SPARSE));
 }
 
 }  // namespace ceres::internal
diff --git a/internal/ceres/evaluator.cc b/internal/ceres/evaluator.cc
index 516d701..5562348 100644
--- a/internal/ceres/evaluator.cc
+++ b/internal/ceres/evaluator.cc
@@ -45,6 +45,7 @@
 #include "ceres/internal/export.h"
 #include "ceres/program_evaluator.h"
 #include "ceres/scratch_evaluate_preparer.h"
+#include "ceres/types.h"
 
 namespace ceres::internal {
 
@@ -69,7 +70,8 @@ std::unique_ptr<Evaluator> Evaluator::Create(const Evaluator::Options& options,
           options, program);
     }
     case CGNR: {
-      if (options.sparse_linear_algebra_library_type == CUDA_SPARSE) {
+      if (options.sparse_linear_algebra_library_type == CUDA_SPARSE &&
+          IsSparseLinearAlgebraLibraryTypeAvailable(CUDA_SPARSE)) {
         return std::make_unique<ProgramEvaluator<ScratchEvaluatePreparer,
                                                  CompressedRowJacobianWriter>>(
             options, program);
-- 
2.43.0


From 8347bd2374031351fcc503cddda92e9ba5f76104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 26/47] fix: the Jacobians of LineManifold for directions which
 are not unit vectors

Plus moves the origin point by H [delta_o, 0], which does not depend on the
norm of the direction, but its Jacobian was scaled by that norm.
---
 include/ceres/line_manifold.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ceres/line_manifold.h b/include/ceres/line_manifold.h
index 64b61ba..a5da664 100644
--- a/include/ceres/line_manifold.h
+++ b/include/ceres/line_manifold.h
@@ -225,15 +225,17 @@ bool LineManifold<AmbientSpaceDimension>::PlusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<AmbientSpaceDimension, TangentSpaceDimension>(
               size_, size_ - 1);
-  auto jacobian_o = jacobian.template bottomRightCorner<AmbientSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<AmbientSpaceDimension,
                                                         TangentSpaceDimension>(
       size_, size_ - 1);
   internal::ComputeSphereManifoldPlusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  // The update of the direction scales with the norm of the direction, the
+  // update of the origin point does not.
+  jacobian_o = jacobian_d / d.norm();
   return true;
 }
 
@@ -279,15 +281,15 @@ bool LineManifold<AmbientSpaceDimension>::MinusJacobian(
   // Clear the Jacobian as only half of the matrix is not zero.
   jacobian.setZero();
 
-  auto jacobian_d =
+  auto jacobian_o =
       jacobian
           .template topLeftCorner<TangentSpaceDimension, AmbientSpaceDimension>(
               size_ - 1, size_);
-  auto jacobian_o = jacobian.template bottomRightCorner<TangentSpaceDimension,
+  auto jacobian_d = jacobian.template bottomRightCorner<TangentSpaceDimension,
                                                         AmbientSpaceDimension>(
       size_ - 1, size_);
   internal::ComputeSphereManifoldMinusJacobian(d, &jacobian_d);
-  jacobian_o = jacobian_d;
+  jacobian_o = jacobian_d * d.norm();
 
   return true;
 }
-- 
2.43.0


From 5c69945eb22344642a0cfc0862b12b80e0fae322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 27/47] fix: Householder vectors of vectors with a small norm

A vector whose leading entries are below 1.5e-8 in magnitude was taken to
point along the last axis whatever its last entry, so SphereManifold and
LineManifold moved points of small spheres to the pole.  The leading entries
are now compared to the last one, and no longer kept in the vector of the
reflection along the last axis.
---
 include/ceres/internal/householder_vector.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ceres/internal/householder_vector.h b/include/ceres/internal/householder_vector.h
index 3398d00..662e492 100644
--- a/include/ceres/internal/householder_vector.h
+++ b/include/ceres/internal/householder_vector.h
@@ -60,7 +60,11 @@ void ComputeHouseholderVector(const XVectorType& x,
   *beta = Scalar(0.0);
   const Scalar& x_pivot = x(x.rows() - 1);
 
-  if (sigma <= Scalar(std::numeric_limits<double>::epsilon())) {
+  // The test is relative, so that the result depends only on the direction of
+  // x and not on its norm.
+  if (sigma <= Scalar(std::numeric_limits<double>::epsilon()) * x_pivot *
+                   x_pivot) {
+    v->head(v->rows() - 1).setZero();
     if (x_pivot < Scalar(0.0)) {
       *beta = Scalar(2.0);
     }
-- 
2.43.0


From 07026e6b68f6d6f67f133537722d3c96d5a01936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 28/47] fix: iterative refinement after an in-place dense
 Cholesky factorization

---
 internal/ceres/dense_cholesky.cc | 7 +++----
 internal/ceres/dense_cholesky.h  | 3 +--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/ceres/dense_cholesky.cc b/internal/ceres/dense_cholesky.cc
index 631cfbb..e0100b2 100644
--- a/internal/ceres/dense_cholesky.cc
+++ b/internal/ceres/dense_cholesky.cc
@@ -329,22 +329,21 @@ RefinedDenseCholesky::~RefinedDenseCholesky() = default;
 
 LinearSolverTerminationType RefinedDenseCholesky::Factorize(
     const int num_cols, double* lhs, std::string* message) {
-  lhs_ = lhs;
-  num_cols_ = num_cols;
+  // The factorization may overwrite lhs, but the refinement needs the matrix.
+  lhs_ = ConstMatrixRef(lhs, num_cols, num_cols);
   return dense_cholesky_->Factorize(num_cols, lhs, message);
 }
 
 LinearSolverTerminationType RefinedDenseCholesky::Solve(const double* rhs,
                                                         double* solution,
                                                         std::string* message) {
-  CHECK(lhs_ != nullptr);
   auto termination_type = dense_cholesky_->Solve(rhs, solution, message);
   if (termination_type != LinearSolverTerminationType::SUCCESS) {
     return termination_type;
   }
 
   iterative_refiner_->Refine(
-      num_cols_, lhs_, rhs, dense_cholesky_.get(), solution);
+      lhs_.rows(), lhs_.data(), rhs, dense_cholesky_.get(), solution);
   return LinearSolverTerminationType::SUCCESS;
 }
 
diff --git a/internal/ceres/dense_cholesky.h b/internal/ceres/dense_cholesky.h
index 4f55c58..d97d97c 100644
--- a/internal/ceres/dense_cholesky.h
+++ b/internal/ceres/dense_cholesky.h
@@ -188,8 +188,7 @@ class CERES_NO_EXPORT RefinedDenseCholesky final : public DenseCholesky {
  private:
   std::unique_ptr<DenseCholesky> dense_cholesky_;
   std::unique_ptr<DenseIterativeRefiner> iterative_refiner_;
-  double* lhs_ = nullptr;
-  int num_cols_;
+  Matrix lhs_;
 };
 
 #ifndef CERES_NO_CUDA
-- 
2.43.0


From 46824d24f427443afc8b262f9c649f2bd5ae657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 29/47] fix: do not modify the orderings given in
 Solver::Options

---
 internal/ceres/trust_region_preprocessor.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 9d7a37d..894fe02 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -181,6 +181,12 @@ bool SetupLinearSolver(PreprocessedProblem* pp) {
     // If the first elimination group is empty, then we cannot use the
     // user's requested linear solver (and a preconditioner as the
     // case may be) so we must use a different one.
+    //
+    // The ordering is modified below and when the program is reordered, so
+    // work on a copy and leave the object owned by the user alone.
+    options.linear_solver_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.linear_solver_ordering);
     ParameterBlockOrdering* ordering = options.linear_solver_ordering.get();
     const int min_group_id = ordering->MinNonZeroGroup();
     ordering->Remove(pp->removed_parameter_blocks);
@@ -311,7 +317,10 @@ bool SetupInnerIterationMinimizer(PreprocessedProblem* pp) {
 
   if (options.inner_iteration_ordering != nullptr) {
     // If the user supplied an ordering, then remove the set of
-    // inactive parameter blocks from it
+    // inactive parameter blocks from (a copy of) it.
+    options.inner_iteration_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.inner_iteration_ordering);
     options.inner_iteration_ordering->Remove(pp->removed_parameter_blocks);
     if (options.inner_iteration_ordering->NumElements() == 0) {
       LOG(WARNING) << "No remaining elements in the inner iteration ordering.";
-- 
2.43.0


From 6b1da3ea076365558c9067d3ac6a8ea771b4bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 30/47] fix: reject inner iteration orderings with pointers
 which are not parameter blocks

---
 internal/ceres/coordinate_descent_minimizer.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/coordinate_descent_minimizer.cc b/internal/ceres/coordinate_descent_minimizer.cc
index 556d3aa..0683451 100644
--- a/internal/ceres/coordinate_descent_minimizer.cc
+++ b/internal/ceres/coordinate_descent_minimizer.cc
@@ -67,7 +67,7 @@ bool CoordinateDescentMinimizer::Init(
     const Program& program,
     const ProblemImpl::ParameterMap& parameter_map,
     const ParameterBlockOrdering& ordering,
-    std::string* /*error*/) {
+    std::string* error) {
   parameter_blocks_.clear();
   independent_set_offsets_.clear();
   independent_set_offsets_.push_back(0);
@@ -83,7 +83,14 @@ bool CoordinateDescentMinimizer::Init(
   for (const auto& g_t_e : group_to_elements) {
     const auto& elements = g_t_e.second;
     for (double* parameter_block : elements) {
-      parameter_blocks_.push_back(parameter_map.find(parameter_block)->second);
+      const auto it = parameter_map.find(parameter_block);
+      if (it == parameter_map.end()) {
+        *error =
+            "User specified an inner iteration ordering which contains a "
+            "pointer which is not associated with a parameter block.";
+        return false;
+      }
+      parameter_blocks_.push_back(it->second);
       parameter_block_index[parameter_blocks_.back()] =
           parameter_blocks_.size() - 1;
     }
-- 
2.43.0


From 56f745f2a8d841b351529fe25b3ace39f42707cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 31/47] fix: detect singular covariance when the Jacobian is
 zero or has more columns than rows

DENSE_SVD computed NaNs (and reported success) for a zero Jacobian. For a
Jacobian with fewer rows than columns, the zero eigenvalues of J'J were not
accounted for: null_space_rank = 0 quietly gave a pseudo-inverse, and a larger
null_space_rank dropped non-zero eigenvalues.
---
 internal/ceres/covariance_impl.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 8ae48b9..8a2af5f 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -757,8 +757,12 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
       sqrt(options_.min_reciprocal_condition_number);
 
   const bool automatic_truncation = (options_.null_space_rank < 0);
-  const int max_rank = std::min(num_singular_values,
-                                num_singular_values - options_.null_space_rank);
+  // If the Jacobian has fewer rows than columns, then J'J has (num_cols -
+  // num_singular_values) zero eigenvalues, for which there is no entry in
+  // singular_values. They are the smallest eigenvalues of J'J.
+  const int max_rank = automatic_truncation
+                           ? num_singular_values
+                           : jacobian.num_cols - options_.null_space_rank;
 
   // Compute the squared inverse of the singular values. Truncate the
   // computation based on min_singular_value_ratio and
@@ -766,8 +770,12 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   // the resulting covariance matrix is a Moore-Penrose inverse
   // instead of a regular inverse.
   for (int i = 0; i < max_rank; ++i) {
-    const double singular_value_ratio = singular_values[i] / max_singular_value;
-    if (singular_value_ratio < min_singular_value_ratio) {
+    const double singular_value =
+        (i < num_singular_values) ? singular_values[i] : 0.0;
+    const double singular_value_ratio =
+        (singular_value > 0.0) ? singular_value / max_singular_value : 0.0;
+    if (singular_value == 0.0 ||
+        singular_value_ratio < min_singular_value_ratio) {
       // Since the singular values are in decreasing order, if
       // automatic truncation is enabled, then from this point on
       // all values will fail the ratio test and there is nothing to
@@ -788,7 +796,7 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
     }
 
     inverse_squared_singular_values[i] =
-        1.0 / (singular_values[i] * singular_values[i]);
+        1.0 / (singular_value * singular_value);
   }
 
   Matrix dense_covariance = svd.matrixV() *
-- 
2.43.0


From 52b90b9d9555c821892cb49c7e0b910d79508ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 32/47] fix: covariance of parameter blocks with a
 zero-dimensional tangent space

Such a block has no row in the covariance matrix, so looking up one of its
blocks read past the end of the column indices (or found the row of another
block). It does not vary, handle it like a constant block.
---
 internal/ceres/covariance_impl.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 8a2af5f..09f7f93 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -185,7 +185,7 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   // vector to determine where the set of columns corresponding to the
   // covariance block begin.
   int offset = 0;
-  while (cols_begin[offset] != col_begin && offset < row_size) {
+  while (offset < row_size && cols_begin[offset] != col_begin) {
     ++offset;
   }
 
@@ -386,7 +386,9 @@ bool CovarianceImpl::ComputeCovarianceSparsity(
   active_parameter_blocks.clear();
   for (auto* parameter_block : all_parameter_blocks) {
     ParameterBlock* block = FindOrDie(parameter_map, parameter_block);
-    if (!block->IsConstant() && (parameter_blocks_in_use.count(block) > 0)) {
+    // Blocks with a zero-dimensional tangent space cannot vary.
+    if (!block->IsConstant() && block->TangentSize() > 0 &&
+        (parameter_blocks_in_use.count(block) > 0)) {
       active_parameter_blocks.push_back(parameter_block);
     } else {
       constant_parameter_blocks_.insert(parameter_block);
-- 
2.43.0


From 1492345763635e7f6054ada09f28f7f5ee9772f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 33/47] fix: GetCovarianceMatrix with an empty list of
 parameter blocks

It dereferenced std::max_element of an empty range.
---
 internal/ceres/covariance_impl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 09f7f93..0ca0ab6 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -287,6 +287,10 @@ bool CovarianceImpl::GetCovarianceMatrixInTangentOrAmbientSpace(
       << "Covariance::GetCovarianceMatrix called when Covariance::Compute "
       << "returned false.";
 
+  if (parameters.empty()) {
+    return true;
+  }
+
   const ProblemImpl::ParameterMap& parameter_map = problem_->parameter_map();
   // For OpenMP compatibility we need to define these vectors in advance
   const int num_parameters = parameters.size();
-- 
2.43.0


From bbc363039156d2c158c1d6185efa1cc5214b1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 34/47] fix: covariance of Jacobians with more columns than
 rows with Eigen's sparse QR

Eigen::SparseQR occasionally misjudges the rank of such matrices, after using
uninitialized Householder coefficients; the covariance was then NaN, with
success being reported.
---
 internal/ceres/covariance_impl.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 0ca0ab6..110cb55 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -842,6 +842,15 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingEigenSparseQR() {
   }
   event_logger.AddEvent("Evaluate");
 
+  if (jacobian.num_rows < jacobian.num_cols) {
+    // Do not rely on Eigen::SparseQR to notice; its factorization of matrices
+    // with more columns than rows reads uninitialized memory.
+    LOG(ERROR) << "Jacobian matrix is rank deficient. "
+               << "Number of columns: " << jacobian.num_cols
+               << " number of rows: " << jacobian.num_rows;
+    return false;
+  }
+
   using EigenSparseMatrix = Eigen::SparseMatrix<double, Eigen::ColMajor>;
 
   // Convert the matrix to column major order as required by SparseQR.
-- 
2.43.0


From 4089aa48c021862e004d812b6a788274531f0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 35/47] fix: compute dense covariances with JacobiSVD, as
 documented

Eigen::BDCSVD returns inaccurate decompositions, or NaNs, while reporting
success, for some matrices with repeated singular values, which are common in
structured Jacobians. The covariance was then wrong without any indication.
---
 internal/ceres/covariance_impl.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 110cb55..51f2cfa 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -743,12 +743,14 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   }
   event_logger.AddEvent("ConvertToDenseMatrix");
 
+  // Eigen::BDCSVD is not an option, it returns wrong decompositions (or NaNs)
+  // for matrices with repeated singular values.
 #if EIGEN_VERSION_AT_LEAST(5, 0, 0)
-  Eigen::BDCSVD<Matrix, Eigen::ComputeThinU | Eigen::ComputeThinV> svd(
+  Eigen::JacobiSVD<Matrix, Eigen::ComputeThinU | Eigen::ComputeThinV> svd(
       dense_jacobian);
 #else   // !EIGEN_VERSION_AT_LEAST(5, 0, 0)
-  Eigen::BDCSVD<Matrix> svd(dense_jacobian,
-                            Eigen::ComputeThinU | Eigen::ComputeThinV);
+  Eigen::JacobiSVD<Matrix> svd(dense_jacobian,
+                               Eigen::ComputeThinU | Eigen::ComputeThinV);
 #endif  // EIGEN_VERSION_AT_LEAST(5, 0, 0)
 
   event_logger.AddEvent("SingularValueDecomposition");
-- 
2.43.0


From d1ee8817c91edc149cf3e2a39ef829550a1fe0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:32 +0000
Subject: [PATCH 36/47] fix: appending rows without nonzeros to a full
 compressed row matrix

---
 internal/ceres/compressed_row_sparse_matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/compressed_row_sparse_matrix.cc b/internal/ceres/compressed_row_sparse_matrix.cc
index b474cca..e5bb1b7 100644
--- a/internal/ceres/compressed_row_sparse_matrix.cc
+++ b/internal/ceres/compressed_row_sparse_matrix.cc
@@ -500,7 +500,7 @@ void CompressedRowSparseMatrix::AppendRows(const CompressedRowSparseMatrix& m) {
   }
 
   // Copy the contents of m into this matrix.
-  DCHECK_LT(num_nonzeros(), cols_.size());
+  DCHECK_LE(num_nonzeros(), cols_.size());
   if (m.num_nonzeros() > 0) {
     std::copy(m.cols(), m.cols() + m.num_nonzeros(), &cols_[num_nonzeros()]);
     std::copy(
-- 
2.43.0


From acd9d136ac8818d3279cb2920f7f229452af22ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 37/47] fix: the roots of a quadratic with a double root at
 zero

---
 internal/ceres/polynomial.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ceres/polynomial.cc b/internal/ceres/polynomial.cc
index a0596c6..542acd3 100644
--- a/internal/ceres/polynomial.cc
+++ b/internal/ceres/polynomial.cc
@@ -161,6 +161,10 @@ void FindQuadraticPolynomialRoots(const Vector& polynomial,
     if (real != nullptr) {
       // Stable quadratic roots according to BKP Horn.
       // http://people.csail.mit.edu/bkph/articles/Quadratics.pdf
+      if (b == 0 && D == 0) {
+        // A double root at zero, for which the formulas below give 0/0.
+        return;
+      }
       if (b >= 0) {
         (*real)(0) = (-b - sqrt_D) / (2.0 * a);
         (*real)(1) = (2.0 * c) / (-b - sqrt_D);
-- 
2.43.0


From dc4a389aa0f36b63082c307ce54021e242076141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 38/47] fix: conjugate gradients stops at a residual of
 rounding errors

Further iterations, which min_num_iterations may ask for, divided rounding
errors by rounding errors and could move the solution arbitrarily far.
---
 internal/ceres/conjugate_gradients_solver.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index 9ab3f43..94900c7 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -36,6 +36,7 @@
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <utility>
 
 #include "absl/strings/str_format.h"
@@ -137,6 +138,10 @@ LinearSolver::Summary ConjugateGradientsSolver(
 
   const double tol_r = options.r_tolerance * norm_rhs;
 
+  // A residual this small is made up of rounding errors. Any further iterations,
+  // even if they are required by min_num_iterations, would amplify them.
+  const double min_norm_r = std::numeric_limits<double>::epsilon() * norm_rhs;
+
   SetZero(tmp, options.context, options.num_threads);
   lhs.RightMultiplyAndAccumulate(solution, tmp);
 
@@ -144,7 +149,7 @@ LinearSolver::Summary ConjugateGradientsSolver(
   Axpby(1.0, rhs, -1.0, tmp, r, options.context, options.num_threads);
 
   double norm_r = Norm(r, options.context, options.num_threads);
-  if (norm_r == 0.0 ||
+  if (norm_r <= min_norm_r ||
       (options.min_num_iterations == 0 && norm_r <= tol_r)) {
     summary.termination_type = LinearSolverTerminationType::SUCCESS;
     summary.message =
@@ -285,10 +290,10 @@ LinearSolver::Summary ConjugateGradientsSolver(
     }
     Q0 = Q1;
 
-    // Residual based termination. If the residual is zero, then the solution is
-    // exact and there is no direction left to make any progress in.
+    // Residual based termination. If the residual is negligible, then the
+    // solution is exact and there is no direction left to make any progress in.
     norm_r = Norm(r, options.context, options.num_threads);
-    if (norm_r == 0.0 ||
+    if (norm_r <= min_norm_r ||
         (norm_r <= tol_r &&
          summary.num_iterations >= options.min_num_iterations)) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
-- 
2.43.0


From c32dcd7ce4f4d69d7ac54b2f0e0b3b579c86161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:26 +0000
Subject: [PATCH 39/47] fix: subspace dogleg returned unprojected candidates,
 which can be far outside of the trust region

---
 internal/ceres/dogleg_strategy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/dogleg_strategy.cc b/internal/ceres/dogleg_strategy.cc
index 4ff30ea..01baa54 100644
--- a/internal/ceres/dogleg_strategy.cc
+++ b/internal/ceres/dogleg_strategy.cc
@@ -502,11 +502,12 @@ bool DoglegStrategy::FindMinimumOnTrustRegionBoundary(Vector2d* minimum) const {
     // in the minimum, it is safe to consider all of them after projecting
     // them onto the trust region boundary.
     if (x_i.norm() > 0) {
-      const double f_i = EvaluateSubspaceModel((radius_ / x_i.norm()) * x_i);
+      const Vector2d projected_x_i = (radius_ / x_i.norm()) * x_i;
+      const double f_i = EvaluateSubspaceModel(projected_x_i);
       valid_root_found = true;
       if (f_i < minimum_value) {
         minimum_value = f_i;
-        *minimum = x_i;
+        *minimum = projected_x_i;
       }
     }
   }
-- 
2.43.0


From 3794332b64a06d71af17da98586fc8befd4182ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:26 +0000
Subject: [PATCH 40/47] fix: EigenSparseCholesky did not report indefinite
 matrices, so the CLUSTER_TRIDIAGONAL preconditioner was indefinite

---
 internal/ceres/eigensparse.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ceres/eigensparse.cc b/internal/ceres/eigensparse.cc
index 1bc16b6..05727a3 100644
--- a/internal/ceres/eigensparse.cc
+++ b/internal/ceres/eigensparse.cc
@@ -87,6 +87,14 @@ class EigenSparseCholeskyTemplate final : public SparseCholesky {
       *message = "Eigen failure. Unable to find numeric factorization.";
       return LinearSolverTerminationType::FAILURE;
     }
+
+    // SimplicialLDLT also factorizes indefinite matrices. Like all other
+    // implementations, report them as failures; e.g., the CLUSTER_TRIDIAGONAL
+    // preconditioner relies on it.
+    if (!(solver_.vectorD().array() > 0).all()) {
+      *message = "Eigen failure. The matrix is not positive definite.";
+      return LinearSolverTerminationType::FAILURE;
+    }
     return LinearSolverTerminationType::SUCCESS;
   }
 
-- 
2.43.0


From ff5b0cf4bbe2b57824b38e7facd421f24dc55dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:55 +0000
Subject: [PATCH 41/47] fix: restart nonlinear conjugate gradients on
 directions that are not clearly descent directions

The test that decides whether to restart with steepest descent compared the
directional derivative with an absolute tolerance. A NaN direction (0/0 in the
Hestenes-Stiefel formula when the gradient did not change) passed it, and so did
directions that are orthogonal to the gradient up to rounding, along which the
line search takes a zero step that is reported as convergence.
---
 internal/ceres/line_search_direction.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_direction.cc b/internal/ceres/line_search_direction.cc
index b4e8a33..e918522 100644
--- a/internal/ceres/line_search_direction.cc
+++ b/internal/ceres/line_search_direction.cc
@@ -30,6 +30,7 @@
 
 #include "ceres/line_search_direction.h"
 
+#include <cmath>
 #include <memory>
 
 #include "absl/log/check.h"
@@ -84,7 +85,17 @@ class CERES_NO_EXPORT NonlinearConjugateGradient final
     *search_direction = -current.gradient + beta * previous.search_direction;
     const double directional_derivative =
         current.gradient.dot(*search_direction);
-    if (directional_derivative > -function_tolerance_) {
+    // A step along a direction which is almost orthogonal to the gradient
+    // decreases the function by about the square of the cosine of their angle
+    // times what a step along the gradient does. The test is relative to the
+    // terms of the search direction, which may cancel, and written such that a
+    // direction which is not finite, e.g. because the gradient did not change
+    // and HESTENES_STIEFEL divides by zero, restarts.
+    const double gradient_norm = current.gradient.norm();
+    if (!(directional_derivative <=
+          -std::sqrt(function_tolerance_) * gradient_norm *
+              (gradient_norm +
+               std::abs(beta) * previous.search_direction.norm()))) {
       LOG(WARNING) << "Restarting non-linear conjugate gradients: "
                    << directional_derivative;
       *search_direction = -current.gradient;
-- 
2.43.0


From 4b48326c5a631d24d4fc638d1afca9306124b12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 42/47] fix: removing a vertex with a self edge from a graph
 invalidated an iterator in use

RemoveVertex erased the vertex from the adjacency set it was iterating over.
Graphs made by CreateSchurComplementGraph have self edges.
---
 internal/ceres/graph.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/graph.h b/internal/ceres/graph.h
index f683d37..fe26e1c 100644
--- a/internal/ceres/graph.h
+++ b/internal/ceres/graph.h
@@ -63,7 +63,10 @@ class CERES_NO_EXPORT Graph {
     vertices_.erase(vertex);
     const absl::flat_hash_set<Vertex>& sinks = edges_[vertex];
     for (const Vertex& s : sinks) {
-      edges_[s].erase(vertex);
+      // Erasing a self edge would modify the set that is being iterated over.
+      if (s != vertex) {
+        edges_[s].erase(vertex);
+      }
     }
 
     edges_.erase(vertex);
@@ -131,7 +134,10 @@ class WeightedGraph {
       } else {
         edge_weights_.erase(std::make_pair(s, vertex));
       }
-      edges_[s].erase(vertex);
+      // Erasing a self edge would modify the set that is being iterated over.
+      if (s != vertex) {
+        edges_[s].erase(vertex);
+      }
     }
 
     edges_.erase(vertex);
-- 
2.43.0


From 2fa83a9a8e522475c9899026761ec824b3306ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 43/47] fix: vertices of invalid weight aborted the canonical
 views clustering

FindValidViews compared with NaN, so no vertex was ever left out, and once only
such vertices remained a CHECK failed.
---
 internal/ceres/canonical_views_clustering.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/canonical_views_clustering.cc b/internal/ceres/canonical_views_clustering.cc
index a41e5f8..8edd8a0 100644
--- a/internal/ceres/canonical_views_clustering.cc
+++ b/internal/ceres/canonical_views_clustering.cc
@@ -31,6 +31,8 @@
 
 #include "ceres/canonical_views_clustering.h"
 
+#include <cmath>
+#include <limits>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -141,7 +143,9 @@ void CanonicalViewsClustering::ComputeClustering(
 void CanonicalViewsClustering::FindValidViews(IntSet* valid_views) const {
   const IntSet& views = graph_->vertices();
   for (const auto& view : views) {
-    if (graph_->VertexWeight(view) != WeightedGraph<int>::InvalidWeight()) {
+    // WeightedGraph<int>::InvalidWeight() is NaN, which compares unequal to
+    // everything including itself.
+    if (!std::isnan(graph_->VertexWeight(view))) {
       valid_views->insert(view);
     }
   }
-- 
2.43.0


From 76b9a70cc020fc896432f80235df0fb4fa5143a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 44/47] fix: a linear_solver_ordering without active parameter
 blocks aborted the solver

MinNonZeroGroup was called on orderings that are empty, or become empty when the
inactive parameter blocks are removed from them.
---
 internal/ceres/trust_region_preprocessor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 894fe02..0566537 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -188,9 +188,14 @@ bool SetupLinearSolver(PreprocessedProblem* pp) {
         std::make_shared<ParameterBlockOrdering>(
             *options.linear_solver_ordering);
     ParameterBlockOrdering* ordering = options.linear_solver_ordering.get();
-    const int min_group_id = ordering->MinNonZeroGroup();
+    // An ordering which is, or becomes empty does not cover the active parameter
+    // blocks. It has no first elimination group; ReorderProgram rejects it if
+    // the linear solver needs an ordering.
+    const int min_group_id =
+        ordering->NumGroups() > 0 ? ordering->MinNonZeroGroup() : -1;
     ordering->Remove(pp->removed_parameter_blocks);
     if (IsSchurType(options.linear_solver_type) &&
+        ordering->NumGroups() > 0 &&
         min_group_id != ordering->MinNonZeroGroup()) {
       AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(&options);
     }
-- 
2.43.0


From 386f4e666488ab15af2a1f8dace8fb408b7015d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 45/47] fix: Schur type solvers accepted one-group orderings of
 the wrong parameter blocks

Only the number of elements was compared with the program. The blocks which were
missing from the ordering were added to it, and the group sizes derived from it
counted the pointers that are not in the problem, which failed a CHECK later or
used the wrong number of eliminated blocks.
---
 internal/ceres/reorder_program.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ceres/reorder_program.cc b/internal/ceres/reorder_program.cc
index e02af43..709076b 100644
--- a/internal/ceres/reorder_program.cc
+++ b/internal/ceres/reorder_program.cc
@@ -490,6 +490,18 @@ bool ReorderProgramForSchurTypeLinearSolver(
     // parameter block ordering as it sees fit. For Schur type solvers,
     // this means that the user wishes for Ceres to identify the
     // e_blocks, which we do by computing a maximal independent set.
+    for (const auto* parameter_block : program->parameter_blocks()) {
+      if (!parameter_block_ordering->IsMember(
+              const_cast<double*>(parameter_block->user_state()))) {
+        *error = absl::StrFormat(
+            "The parameter block ordering contains a pointer to a double that "
+            "is not a parameter block in the problem, and no ordering was "
+            "specified for parameter block: %d",
+            parameter_block->index());
+        return false;
+      }
+    }
+
     std::vector<ParameterBlock*> schur_ordering;
     const int size_of_first_elimination_group =
         ComputeStableSchurOrdering(*program, &schur_ordering);
-- 
2.43.0


From 68b93c5cb4ec1130e2c7cfd12c58c3580d9a30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 46/47] fix: visibility clustering depended on the iteration
 order of hash tables

absl's hash tables iterate in an order that varies from table to table, and the
canonical views clustering broke ties and summed in that order, so that one
problem solved twice by one thread with a CLUSTER_JACOBI or CLUSTER_TRIDIAGONAL
preconditioner gave different results.
---
 internal/ceres/canonical_views_clustering.cc  | 24 +++++++++++++++----
 .../ceres/visibility_based_preconditioner.cc  | 12 +++++-----
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/internal/ceres/canonical_views_clustering.cc b/internal/ceres/canonical_views_clustering.cc
index 8edd8a0..d49fff4 100644
--- a/internal/ceres/canonical_views_clustering.cc
+++ b/internal/ceres/canonical_views_clustering.cc
@@ -31,10 +31,12 @@
 
 #include "ceres/canonical_views_clustering.h"
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <vector>
 
+#include "absl/container/btree_set.h"
 #include "absl/container/flat_hash_map.h"
 #include "absl/container/flat_hash_set.h"
 #include "absl/log/check.h"
@@ -64,7 +66,7 @@ class CERES_NO_EXPORT CanonicalViewsClustering {
                          IntMap* membership);
 
  private:
-  void FindValidViews(IntSet* valid_views) const;
+  void FindValidViews(absl::btree_set<int>* valid_views) const;
   double ComputeClusteringQualityDifference(
       int candidate, const std::vector<int>& centers) const;
   void UpdateCanonicalViewAssignments(const int canonical_view);
@@ -73,6 +75,11 @@ class CERES_NO_EXPORT CanonicalViewsClustering {
 
   CanonicalViewsClusteringOptions options_;
   const WeightedGraph<int>* graph_;
+  // The neighbors of each view in increasing order. The iteration order of the
+  // sets of the graph varies from run to run, and both the rounding of the sums
+  // over the neighbors of a view and the choice among equally good views must
+  // not depend on it.
+  absl::flat_hash_map<int, std::vector<int>> sorted_neighbors_;
   // Maps a view to its representative canonical view (its cluster
   // center).
   IntMap view_to_canonical_view_;
@@ -105,7 +112,14 @@ void CanonicalViewsClustering::ComputeClustering(
   membership->clear();
   graph_ = &graph;
 
-  IntSet valid_views;
+  for (const int view : graph_->vertices()) {
+    const IntSet& neighbors = graph_->Neighbors(view);
+    std::vector<int>& sorted_neighbors = sorted_neighbors_[view];
+    sorted_neighbors.assign(neighbors.begin(), neighbors.end());
+    std::sort(sorted_neighbors.begin(), sorted_neighbors.end());
+  }
+
+  absl::btree_set<int> valid_views;
   FindValidViews(&valid_views);
   while (!valid_views.empty()) {
     // Find the next best canonical view.
@@ -140,7 +154,8 @@ void CanonicalViewsClustering::ComputeClustering(
 
 // Return the set of vertices of the graph which have valid vertex
 // weights.
-void CanonicalViewsClustering::FindValidViews(IntSet* valid_views) const {
+void CanonicalViewsClustering::FindValidViews(
+    absl::btree_set<int>* valid_views) const {
   const IntSet& views = graph_->vertices();
   for (const auto& view : views) {
     // WeightedGraph<int>::InvalidWeight() is NaN, which compares unequal to
@@ -162,8 +177,7 @@ double CanonicalViewsClustering::ComputeClusteringQualityDifference(
   // Compute how much the quality score changes if the candidate view
   // was added to the list of canonical views and its nearest
   // neighbors became members of its cluster.
-  const IntSet& neighbors = graph_->Neighbors(candidate);
-  for (const auto& neighbor : neighbors) {
+  for (const int neighbor : FindOrDie(sorted_neighbors_, candidate)) {
     const double old_similarity =
         FindWithDefault(view_to_canonical_view_similarity_, neighbor, 0.0);
     const double new_similarity = graph_->EdgeWeight(neighbor, candidate);
diff --git a/internal/ceres/visibility_based_preconditioner.cc b/internal/ceres/visibility_based_preconditioner.cc
index f245da9..eb5348d 100644
--- a/internal/ceres/visibility_based_preconditioner.cc
+++ b/internal/ceres/visibility_based_preconditioner.cc
@@ -545,12 +545,12 @@ void VisibilityBasedPreconditioner::FlattenMembershipMap(
   membership_vector->resize(num_blocks_, -1);
 
   absl::flat_hash_map<int, int> cluster_id_to_index;
-  // Iterate over the cluster membership map and update the
-  // cluster_membership_ vector assigning arbitrary cluster ids to
-  // the few cameras that have not been clustered.
-  for (const auto& m : membership_map) {
-    const int camera_id = m.first;
-    int cluster_id = m.second;
+  // Iterate over the cameras and update the cluster_membership_
+  // vector assigning arbitrary cluster ids to the few cameras that
+  // have not been clustered. The iteration order of the membership
+  // map varies from run to run, the numbering of the clusters must not.
+  for (int camera_id = 0; camera_id < num_blocks_; ++camera_id) {
+    int cluster_id = FindOrDie(membership_map, camera_id);
 
     // If the view was not clustered, randomly assign it to one of the
     // clusters. This preserves the mathematical correctness of the
-- 
2.43.0


From 5b9d661e2381bc94d5cc13c95b0fff0350743c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:26 +0000
Subject: [PATCH 47/47] fix: CG stopped when the initial solution was worse
 than zero

The test based on the quadratic model assumed Q <= 0, which holds only if
the iterations start at zero. With a worse start (for example from the power
series initialization of ITERATIVE_SCHUR) zeta was negative after the first
iteration, and the solver reported convergence with a useless solution.
---
 internal/ceres/conjugate_gradients_solver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index 94900c7..285ab91 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -276,7 +276,9 @@ LinearSolver::Summary ConjugateGradientsSolver(
     //   Journal of Computational and Applied Mathematics,
     //   124(1-2), 45-59, 2000.
     //
-    const double zeta = summary.num_iterations * (Q1 - Q0) / Q1;
+    // The test is relative to the magnitude of Q1, which is positive when the
+    // initial solution is worse than zero. This is not a reason to stop.
+    const double zeta = summary.num_iterations * (Q0 - Q1) / std::abs(Q1);
     if (zeta < options.q_tolerance &&
         summary.num_iterations >= options.min_num_iterations) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
-- 
2.43.0

