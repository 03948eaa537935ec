From 0983b85e424b0945ef7acc5840f33c12a30e2b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 1/8] fix: check QP stopping criterion when stop_check_iter is
 1

`iter % 1 == 1` never holds, so with stop_check_iter = 1 the solver never
checked convergence, infeasibility or max_time.
---
 include/smooth/feedback/qp_solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4f98562..35e43c8 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -462,7 +462,7 @@ public:
         ldlt_.ldlt.solveInPlace(p_);
       }
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // termination checking requires difference, store old scaled values
         dx_us_ = sol_.primal, dy_us_ = sol_.dual;
       }
@@ -476,7 +476,7 @@ public:
                 - rho_.cwiseProduct(z_next_);
       std::swap(z_, z_next_);
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // unscale solution
         x_us_  = sx_.cwiseProduct(sol_.primal);
         y_us_  = sy_.cwiseProduct(sol_.dual) / c_;
-- 
2.43.0


From 7db23864eb3a879937a8f63741c76d9a5b75c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 2/8] fix: redo symbolic factorization when a QPSolver is
 re-analyzed

A sparse solver that had solved one problem kept the old symbolic
factorization after analyze() for a problem with a different pattern.
---
 include/smooth/feedback/qp_solver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 35e43c8..cc39956 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -326,6 +326,9 @@ public:
     Aty_.resize(n);
     Ax_.resize(m);
 
+    // symbolic factorization must be redone for new structure
+    ldlt_.first = true;
+
     // preallocate nonzeros in H
     H_.setZero();
     H_.resize(k, k);
-- 
2.43.0


From e63845c0812fba544b8ac7a02621e9d030939ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 3/8] fix: require strict QP infeasibility certificates

A certificate of primal infeasibility has strictly negative support value
and a certificate of dual infeasibility strictly decreases the cost. The
old tests also accepted zero (even dx = 0), so that solvable problems
were reported as infeasible.
---
 include/smooth/feedback/qp_solver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index cc39956..63d5291 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -619,7 +619,9 @@ protected:
       }
     }
 
-    if (std::max<Scalar>(norm(Aty_), u_dyp_plus_l_dyn) < prm_.eps_primal_inf * Edy_norm) {
+    if (
+      norm(Aty_) < prm_.eps_primal_inf * Edy_norm  //
+      && u_dyp_plus_l_dyn < -prm_.eps_primal_inf * Edy_norm) {
       return QPSolutionStatus::PrimalInfeasible;
     }
 
@@ -630,7 +632,7 @@ protected:
     Px_.noalias()        = pbm.P * dx_us_;
 
     bool dual_infeasible =
-      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
+      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) < -prm_.eps_dual_inf * dx_norm);
     for (auto i = 0u; i != m && dual_infeasible; ++i) {
       if (pbm.u(i) == inf) {
         dual_infeasible &= (Ax_(i) >= -prm_.eps_dual_inf * dx_norm);
-- 
2.43.0


From 355f68fc30a33a74ddd04294ea6e25f93737c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 4/8] fix: scale QPs without constraints

maxCoeff() must not be called on an empty vector, lpNorm() may.
---
 include/smooth/feedback/qp_solver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 63d5291..ae6be5c 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -731,7 +731,10 @@ protected:
       sx_.applyOnTheLeft(sx_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
       sy_.applyOnTheLeft(sy_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
     } while (iter++ < 10
-             && std::max((sx_inc_.array() - 1).abs().maxCoeff(), (sy_inc_.array() - 1).abs().maxCoeff()) > 0.1);
+             && std::max(
+                  (sx_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>(),
+                  (sy_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>())
+                  > 0.1);
   }
 
 private:
-- 
2.43.0


From 8a898ac4412feb925a937c2f28efdfd4eb1da211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 5/8] fix: allow warmstarting a QPSolver from its own solution

With warmstart = solver.sol() the primal variable was scaled before it
was used to initialize the constraint variable.
---
 include/smooth/feedback/qp_solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index ae6be5c..3445e04 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -438,9 +438,10 @@ public:
     // initialize solver variables
     if (warmstart.has_value()) {
       // warmstart variables must be scaled
+      // z_ first: warmstart may refer to sol_
+      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
       sol_.primal  = sx_.cwiseInverse().cwiseProduct(warmstart.value().get().primal);
       sol_.dual    = c_ * sy_.cwiseInverse().cwiseProduct(warmstart.value().get().dual);
-      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
     } else {
       sol_.primal.setZero();
       sol_.dual.setZero();
-- 
2.43.0


From d4b5a1e1d46daad7e687735f5a8e0e6fe247e129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 6/8] fix: only use upper triangular part of P in QPSolver

The documented contract is that only the upper triangular part of P is
used, but scaling, stopping criteria and objective used all of P: a QP
with upper triangular P never converged and got the wrong objective.
---
 include/smooth/feedback/qp_solver.hpp | 33 ++++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 3445e04..e24555a 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -496,9 +496,9 @@ public:
           // clang-format off
           cout << setw(7) << right << iter << ":"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << objective(pbm, x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (pbm.P.template selfadjointView<Eigen::Upper>() * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -528,9 +528,9 @@ public:
           // clang-format off
           cout << setw(8) << right << "polish:"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << objective(pbm, x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (pbm.P.template selfadjointView<Eigen::Upper>() * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -548,7 +548,7 @@ public:
     sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
     sol_.primal    = sx_.cwiseProduct(sol_.primal);
     sol_.dual      = sy_.cwiseProduct(sol_.dual) / c_;
-    sol_.objective = sol_.primal.dot(0.5 * pbm.P * sol_.primal + pbm.q);
+    sol_.objective = objective(pbm, sol_.primal);
     sol_.iter      = iter;
 
     if (prm_.verbose) {
@@ -572,6 +572,15 @@ public:
   }
 
 protected:
+  /**
+   * @brief Evaluate objective (only uses upper triangular part of P).
+   */
+  static Scalar objective(const Pbm & pbm, const Rn & x)
+  {
+    const Rn Px = pbm.P.template selfadjointView<Eigen::Upper>() * x;
+    return x.dot(Scalar(0.5) * Px + pbm.q);
+  }
+
   /**
    * @brief Check stopping criteria for solver.
    */
@@ -590,7 +599,7 @@ protected:
     Ax_ -= z_us_;
     if (norm(Ax_) <= prm_.eps_abs + prm_.eps_rel * std::max<Scalar>(Ax_norm, norm(z_us_))) {
       // primal succeeded, check dual
-      Px_.noalias()           = pbm.P * x_us_;
+      Px_.noalias()           = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
       Aty_.noalias()          = pbm.A.transpose() * y_us_;
       const Scalar dual_scale = std::max<Scalar>({norm(Px_), norm(pbm.q), norm(Aty_)});
       Px_ += pbm.q + Aty_;
@@ -630,7 +639,7 @@ protected:
 
     Ax_.noalias()        = pbm.A * dx_us_;  // note new value A * dx
     const Scalar dx_norm = norm(dx_us_);
-    Px_.noalias()        = pbm.P * dx_us_;
+    Px_.noalias()        = pbm.P.template selfadjointView<Eigen::Upper>() * dx_us_;
 
     bool dual_infeasible =
       (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) < -prm_.eps_dual_inf * dx_norm);
@@ -686,7 +695,9 @@ protected:
     // find "norm" of cost function
     for (auto i = 0u; i < pbm.P.outerSize(); ++i) {
       for (Eigen::InnerIterator it(pbm.P, i); it; ++it) {
+        if (it.row() > it.col()) { continue; }  // only upper triangular part is used
         sx_inc_(it.col()) = std::max(sx_inc_(it.col()), std::fabs(it.value()));
+        sx_inc_(it.row()) = std::max(sx_inc_(it.row()), std::fabs(it.value()));
       }
     }
 
@@ -707,10 +718,10 @@ protected:
       for (auto k = 0u; k < pbm.P.outerSize(); ++k) {
         for (Eigen::InnerIterator it(pbm.P, k); it; ++it) {
           // upper left block of H
-          sx_inc_(it.col()) = std::max({
-            sx_inc_(it.col()),
-            std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value()),
-          });
+          if (it.row() > it.col()) { continue; }  // only upper triangular part is used
+          const Scalar Pij  = std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value());
+          sx_inc_(it.col()) = std::max(sx_inc_(it.col()), Pij);
+          sx_inc_(it.row()) = std::max(sx_inc_(it.row()), Pij);
         }
       }
       for (auto k = 0u; k < pbm.A.outerSize(); ++k) {
-- 
2.43.0


From 25fedc347b927d38506b673351094a411d3259c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 7/8] fix: report PolishFailed and never return a polished
 solution that is not optimal

The PolishFailed code was always overwritten, and the polished solution
was returned as Optimal without checking that it satisfies the optimality
conditions (e.g. P = 0, q = 1e-4, A = 1, l = -1, u = 1 gave x = -500).
---
 include/smooth/feedback/qp_solver.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index e24555a..7105d98 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -517,13 +517,23 @@ public:
 
     // polish solution if optimal
     if (ret_code.has_value() && ret_code.value() == QPSolutionStatus::Optimal && prm_.polish) {
-      if (detail::polish_qp(pbm, sol_, prm_, c_, sx_, sy_)) {
-        if (prm_.verbose) {
-          // unscale solution
-          x_us_ = sx_.cwiseProduct(sol_.primal);
-          y_us_ = sy_.cwiseProduct(sol_.dual) / c_;
-          z_us_ = sy_.cwiseInverse().cwiseProduct(z_);
+      // keep unpolished solution in case polishing fails
+      const Rn primal = sol_.primal;
+      const Rm dual   = sol_.dual;
+
+      bool polished = detail::polish_qp(pbm, sol_, prm_, c_, sx_, sy_);
+
+      // polished solution must still be optimal
+      if (polished) {
+        x_us_ = sx_.cwiseProduct(sol_.primal);
+        y_us_ = sy_.cwiseProduct(sol_.dual) / c_;
+        z_us_ = (pbm.A * x_us_ + y_us_).cwiseMax(pbm.l).cwiseMin(pbm.u);
 
+        polished = x_us_.allFinite() && y_us_.allFinite() && check_stopping(pbm) == QPSolutionStatus::Optimal;
+      }
+
+      if (polished) {
+        if (prm_.verbose) {
           using std::cout, std::setw, std::right, std::chrono::microseconds;
           // clang-format off
           cout << setw(8) << right << "polish:"
@@ -538,7 +548,9 @@ public:
 
       } else {
         if (prm_.verbose) { std::cout << "Polish failed" << '\n'; }
-        sol_.code = QPSolutionStatus::PolishFailed;
+        sol_.primal = primal;
+        sol_.dual   = dual;
+        ret_code    = QPSolutionStatus::PolishFailed;
       }
     }
 
-- 
2.43.0


From e0757ba4f500a49355eb063533271d526a45270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 8/8] fix: set_zero on compressed blocks that do not start at
 the first coefficient

coeffs() of a compressed block starts at the first coefficient of the
parent matrix, so set_zero(m.middleCols(2, 1)) cleared the wrong entries.
---
 include/smooth/feedback/utils/sparse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/utils/sparse.hpp b/include/smooth/feedback/utils/sparse.hpp
index 11718e2..b96a2e5 100644
--- a/include/smooth/feedback/utils/sparse.hpp
+++ b/include/smooth/feedback/utils/sparse.hpp
@@ -7,6 +7,7 @@
  * @brief Sparse matrix utilities.
  */
 
+#include <algorithm>
 #include <numeric>
 #include <optional>
 
@@ -140,7 +141,9 @@ template<typename SparseMat>
 inline void set_zero(SparseMat && mat)
 {
   if (mat.isCompressed()) {
-    mat.coeffs().setZero();
+    // first coefficient of mat may not be first in memory if mat is a block of a larger matrix
+    const auto offset = mat.outerIndexPtr() ? mat.outerIndexPtr()[0] : 0;
+    std::fill_n(mat.valuePtr() + offset, mat.nonZeros(), 0);
   } else {
     for (auto i = 0; i < mat.outerSize(); ++i) {
       for (typename std::decay_t<decltype(mat)>::InnerIterator it(mat, i); it; ++it) { it.valueRef() = 0; }
-- 
2.43.0

