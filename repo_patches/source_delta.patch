From b27bf38a006c40777f232d13d8e2c57479fa6642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 01/28] fix: function_ref assignment from another function_ref,
 const callables, and converted results

Assigning a non-const function_ref lvalue selected the callable overload, so
the function_ref referred to the other function_ref instead of its callable
(and to itself upon self-assignment, giving infinite recursion when called).
Const callables and callables with a convertible result didn't compile.
---
 include/sleipnir/util/function_ref.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/sleipnir/util/function_ref.hpp b/include/sleipnir/util/function_ref.hpp
index 55cd08a..4e4a1f8 100644
--- a/include/sleipnir/util/function_ref.hpp
+++ b/include/sleipnir/util/function_ref.hpp
@@ -37,9 +37,9 @@ class function_ref<R(Args...)> {
       : obj_(const_cast<void*>(
             reinterpret_cast<const void*>(std::addressof(f)))) {
     callback_ = [](void* obj, Args... args) -> R {
-      return std::invoke(
+      return static_cast<R>(std::invoke(
           *reinterpret_cast<typename std::add_pointer<F>::type>(obj),
-          std::forward<Args>(args)...);
+          std::forward<Args>(args)...));
     };
   }
 
@@ -55,13 +55,14 @@ class function_ref<R(Args...)> {
   /// @param f Callable to which to refer.
   /// @return `*this`
   template <typename F>
-    requires std::is_invocable_r_v<R, F&&, Args...>
+    requires(!std::is_same_v<std::decay_t<F>, function_ref> &&
+             std::is_invocable_r_v<R, F &&, Args...>)
   constexpr function_ref<R(Args...)>& operator=(F&& f) noexcept {
-    obj_ = reinterpret_cast<void*>(std::addressof(f));
-    callback_ = [](void* obj, Args... args) {
-      return std::invoke(
+    obj_ = const_cast<void*>(reinterpret_cast<const void*>(std::addressof(f)));
+    callback_ = [](void* obj, Args... args) -> R {
+      return static_cast<R>(std::invoke(
           *reinterpret_cast<typename std::add_pointer<F>::type>(obj),
-          std::forward<Args>(args)...);
+          std::forward<Args>(args)...));
     };
 
     return *this;
-- 
2.43.0


From 2431b164000e1ce75b2fe3249fa9149e6a20a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 02/28] fix: IntrusiveSharedPtr copy assignment from a pointer
 owned by the old object

The old object was released before the right-hand side was read, which was a
use-after-free for, e.g., p = p->next.
---
 .../sleipnir/util/intrusive_shared_ptr.hpp    | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index b4f0c32..40e1d84 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -86,16 +86,18 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Releasing the old object can destroy rhs (e.g., if rhs is a member of the
+    // old object), so it must happen last
+    T* old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
@@ -112,16 +114,18 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    if (m_ptr != nullptr) {
-      dec_ref_count(m_ptr);
-    }
-
-    m_ptr = rhs.m_ptr;
+    // Releasing the old object can destroy rhs (e.g., if rhs is a member of the
+    // old object), so it must happen last
+    T* old_ptr = std::exchange(m_ptr, rhs.m_ptr);
 
     if (m_ptr != nullptr) {
       inc_ref_count(m_ptr);
     }
 
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
+
     return *this;
   }
 
-- 
2.43.0


From bf583660dc8f77201a35e0c8727d3ad21733d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 03/28] fix: IntrusiveSharedPtr move assignment from a pointer
 owned by the old object

Swapping the pointers made the old object own itself for, e.g.,
p = std::move(p->next), so it was never released. The converting overload
didn't compile since it swapped pointers of different types.
---
 include/sleipnir/util/intrusive_shared_ptr.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/util/intrusive_shared_ptr.hpp b/include/sleipnir/util/intrusive_shared_ptr.hpp
index 40e1d84..148f28a 100644
--- a/include/sleipnir/util/intrusive_shared_ptr.hpp
+++ b/include/sleipnir/util/intrusive_shared_ptr.hpp
@@ -154,7 +154,11 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    std::swap(m_ptr, rhs.m_ptr);
+    T* old_ptr = std::exchange(m_ptr, std::exchange(rhs.m_ptr, nullptr));
+
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
 
     return *this;
   }
@@ -171,7 +175,11 @@ class IntrusiveSharedPtr {
       return *this;
     }
 
-    std::swap(m_ptr, rhs.m_ptr);
+    T* old_ptr = std::exchange(m_ptr, std::exchange(rhs.m_ptr, nullptr));
+
+    if (old_ptr != nullptr) {
+      dec_ref_count(old_ptr);
+    }
 
     return *this;
   }
-- 
2.43.0


From d06a002dbb1dbe631332b3161eb29528c6981e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 04/28] fix: Filter keeps claiming its last rejection was due
 to the filter

---
 include/sleipnir/optimization/solver/util/filter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 5ecc11d..a8b81f7 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -114,6 +114,7 @@ class Filter {
     // Reject steps with nonfinite cost or constraint violation above maximum
     if (!isfinite(trial_entry.cost) ||
         trial_entry.constraint_violation > max_constraint_violation) {
+      m_last_rejection_due_to_filter = false;
       return false;
     }
 
-- 
2.43.0


From 62f695ff7cb34e95d78bd5dbb3272a41836a5fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 05/28] fix: get_bounds() on linear constraints that involve no
 decision variable

---
 .../sleipnir/optimization/solver/util/bounds.hpp  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 85e46fb..01d3f85 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -105,9 +105,9 @@ Bounds<Scalar> get_bounds(
     const Eigen::SparseVector<Scalar>& row_A_i =
         A_i.innerVector(constraint_index);
     const auto non_zeros = row_A_i.nonZeros();
-    slp_assert(non_zeros != 0);
-    if (non_zeros > 1) {
-      // Constraint is in more than one variable and therefore not a bound.
+    if (non_zeros != 1) {
+      // Constraint is in no decision variable or in more than one, and is
+      // therefore not a bound.
       continue;
     }
 
@@ -123,6 +123,11 @@ Bounds<Scalar> get_bounds(
     const auto constraint_coefficient =
         row_iter
             .value();  // The nonzero value of the j-th constraint's gradient.
+    if (constraint_coefficient == Scalar(0)) {
+      // The decision variable's contributions cancel out, so the constraint
+      // doesn't bound it.
+      continue;
+    }
     const auto decision_variable_index = row_iter.index();
     const auto decision_variable_value =
         decision_variables[decision_variable_index].value();
@@ -137,10 +142,6 @@ Bounds<Scalar> get_bounds(
       constraint_constant = inequality_constraints[constraint_index].value();
     }
 
-    // Shouldn't happen since the constraint is supposed to be linear and not a
-    // constant.
-    slp_assert(constraint_coefficient != Scalar(0));
-
     using std::isfinite;
 
     // We should always get a finite value when evaluating the constraint at
-- 
2.43.0


From b017a533e3f49c1dcb61c361c744a46a053339ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:25 +0000
Subject: [PATCH 06/28] fix: subscripting a non-const VariableBlock<const Mat>
 with a row and column

---
 include/sleipnir/autodiff/variable_block.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 9edeb0e..e43af30 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -221,9 +221,9 @@ class VariableBlock : public SleipnirBase {
   /// @param row The scalar subblock's row.
   /// @param col The scalar subblock's column.
   /// @return A scalar subblock at the given row and column.
-  Variable<Scalar>& operator[](int row, int col)
-    requires(!std::is_const_v<Mat>)
-  {
+  std::conditional_t<std::is_const_v<Mat>, const Variable<Scalar>&,
+                     Variable<Scalar>&>
+  operator[](int row, int col) {
     slp_assert(row >= 0 && row < rows());
     slp_assert(col >= 0 && col < cols());
     return (*m_mat)[m_row_slice.start + row * m_row_slice.step,
-- 
2.43.0


From 5ccf043c10872111e7ed42353e2ecb71b9529c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 07/28] fix: compound matrix multiplication by a matrix that
 aliases the left-hand side

---
 include/sleipnir/autodiff/variable_block.hpp  | 12 ++----------
 include/sleipnir/autodiff/variable_matrix.hpp | 12 ++----------
 2 files changed, 4 insertions(+), 20 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index e43af30..10c9b80 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -436,16 +436,8 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      Mat lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
+    // The product is formed before it's assigned because rhs may alias this
+    *this = *this * rhs;
 
     return *this;
   }
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6562a6a..ac82a29 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -643,16 +643,8 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      VariableMatrix lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
+    // The product is formed before it's assigned because rhs may alias this
+    *this = *this * rhs;
 
     return *this;
   }
-- 
2.43.0


From a2d91fd8cb2ecdf7d339b1c85b39a3c890d3533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 08/28] fix: compound scalar multiplication and division by an
 element of the left-hand side

---
 include/sleipnir/autodiff/variable_block.hpp  | 4 ++--
 include/sleipnir/autodiff/variable_matrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 10c9b80..11e47a5 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -446,7 +446,7 @@ class VariableBlock : public SleipnirBase {
   ///
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
-  VariableBlock<Mat>& operator*=(const ScalarLike auto& rhs) {
+  VariableBlock<Mat>& operator*=(ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] *= rhs;
@@ -460,7 +460,7 @@ class VariableBlock : public SleipnirBase {
   ///
   /// @param rhs Variable to divide.
   /// @return Result of division.
-  VariableBlock<Mat>& operator/=(const ScalarLike auto& rhs) {
+  VariableBlock<Mat>& operator/=(ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] /= rhs;
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index ac82a29..8095e26 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -653,7 +653,7 @@ class VariableMatrix : public SleipnirBase {
   ///
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
-  VariableMatrix& operator*=(const ScalarLike auto& rhs) {
+  VariableMatrix& operator*=(ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] *= rhs;
@@ -724,7 +724,7 @@ class VariableMatrix : public SleipnirBase {
   ///
   /// @param rhs Variable to divide.
   /// @return Result of division.
-  VariableMatrix& operator/=(const ScalarLike auto& rhs) {
+  VariableMatrix& operator/=(ScalarLike auto rhs) {
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] /= rhs;
-- 
2.43.0


From b75e117d46a07f2adcec6d56cd7ccbe4b5498a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 09/28] fix: solve() with a 1x1 matrix and a right-hand side of
 several columns

---
 include/sleipnir/autodiff/variable_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 8095e26..6008cc8 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1512,7 +1512,7 @@ VariableMatrix<Scalar> solve(const VariableMatrix<Scalar>& A,
 
   if (A.rows() == 1 && A.cols() == 1) {
     // Compute optimal inverse instead of using Eigen's general solver
-    return B[0, 0] / A[0, 0];
+    return B / A[0, 0];
   } else if (A.rows() == 2 && A.cols() == 2) {
     // Compute optimal inverse instead of using Eigen's general solver
     //
-- 
2.43.0


From e721dfc73e5cb4ef6f01dab0f31d8f12ad80e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 10/28] fix: inequality local infeasibility test flags nearly
 feasible points

The inequality test called a point infeasible from a violation norm of 1e-6
on, so iterates that were about to converge to a feasible optimum could end
the solve with LOCALLY_INFEASIBLE. Use the threshold of the equality test.
---
 .../sleipnir/optimization/solver/util/is_locally_infeasible.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
index 4b5b2cc..8ca75de 100644
--- a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
+++ b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
@@ -51,7 +51,7 @@ bool is_inequality_locally_infeasible(
   if (A_i.rows() > 0) {
     Eigen::Vector<Scalar, Eigen::Dynamic> c_i_plus = c_i.cwiseMin(Scalar(0));
     if ((A_i.transpose() * c_i_plus).norm() < Scalar(1e-6) &&
-        c_i_plus.norm() > Scalar(1e-6)) {
+        c_i_plus.norm() > Scalar(1e-2)) {
       return true;
     }
   }
-- 
2.43.0


From 11be289ad7e4329aa129e29b10a3567454a70c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 11/28] fix: solvers exit with SUCCESS when the error becomes
 NaN
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A step can reach a point where the cost and constraints are finite but a
derivative isn't (e.g., sqrt(x²) at zero). The error is then NaN, which ended
the solver loop as if the problem had been solved to the desired tolerance.
---
 include/sleipnir/optimization/solver/interior_point.hpp | 3 ++-
 include/sleipnir/optimization/solver/newton.hpp         | 3 ++-
 include/sleipnir/optimization/solver/sqp.hpp            | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 408cbaa..77216b5 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -379,7 +379,8 @@ ExitStatus interior_point(
     }
   }};
 
-  while (E_0 > Scalar(options.tolerance)) {
+  // A NaN error isn't below the tolerance
+  while (!(E_0 <= Scalar(options.tolerance))) {
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 76304f0..d58701f 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -158,7 +158,8 @@ ExitStatus newton(
     }
   }};
 
-  while (E_0 > Scalar(options.tolerance)) {
+  // A NaN error isn't below the tolerance
+  while (!(E_0 <= Scalar(options.tolerance))) {
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f3c3cfb..331b1bc 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -256,7 +256,8 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     }
   }};
 
-  while (E_0 > Scalar(options.tolerance)) {
+  // A NaN error isn't below the tolerance
+  while (!(E_0 <= Scalar(options.tolerance))) {
     ScopedProfiler inner_iter_profiler{inner_iter_prof};
     ScopedProfiler feasibility_check_profiler{feasibility_check_prof};
 
-- 
2.43.0


From 94362e17782e06b8f63424f6e0c4d3c310df159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 12/28] fix: multistart() can prefer an unsuccessful solve over
 a successful one

An unsuccessful solve with a lower cost compared less than a successful one,
depending on the order of the results.
---
 include/sleipnir/optimization/multistart.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/multistart.hpp b/include/sleipnir/optimization/multistart.hpp
index 9527994..415cd27 100644
--- a/include/sleipnir/optimization/multistart.hpp
+++ b/include/sleipnir/optimization/multistart.hpp
@@ -64,8 +64,10 @@ MultistartResult<Scalar, DecisionVariables> multistart(
 
   return *std::ranges::min_element(results, [](const auto& a, const auto& b) {
     // Prioritize successful solve
-    if (a.status == ExitStatus::SUCCESS && b.status != ExitStatus::SUCCESS) {
-      return true;
+    bool a_success = a.status == ExitStatus::SUCCESS;
+    bool b_success = b.status == ExitStatus::SUCCESS;
+    if (a_success != b_success) {
+      return a_success;
     }
 
     // Otherwise prioritize solution with lower cost
-- 
2.43.0


From 6bcf1b985f8a08d63b5b25c037d1f60c461ef87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 13/28] fix: solve() reports SUCCESS when a constant constraint
 is violated

The no-op solver for constant problems didn't look at the constraints.
---
 include/sleipnir/optimization/problem.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/sleipnir/optimization/problem.hpp b/include/sleipnir/optimization/problem.hpp
index ccff8b9..4d44a21 100644
--- a/include/sleipnir/optimization/problem.hpp
+++ b/include/sleipnir/optimization/problem.hpp
@@ -309,6 +309,21 @@ class Problem {
         slp::println("\nInvoking no-op solver\n");
       }
 #endif
+
+      // No choice of decision variables can satisfy a violated constant
+      // constraint
+      for (auto& c_e : m_equality_constraints) {
+        using std::abs;
+        if (!(abs(c_e.value()) <= Scalar(options.tolerance))) {
+          return ExitStatus::GLOBALLY_INFEASIBLE;
+        }
+      }
+      for (auto& c_i : m_inequality_constraints) {
+        if (!(c_i.value() >= Scalar(-options.tolerance))) {
+          return ExitStatus::GLOBALLY_INFEASIBLE;
+        }
+      }
+
       return ExitStatus::SUCCESS;
     }
 
-- 
2.43.0


From a46bd96280561b9668b14a01ce0fe3830b4f8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 14/28] fix: stop requested by a callback during feasibility
 restoration is ignored

---
 .../sleipnir/optimization/solver/interior_point.hpp | 13 ++++++++++++-
 include/sleipnir/optimization/solver/sqp.hpp        | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 77216b5..83d60a4 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -733,8 +733,13 @@ ExitStatus interior_point(
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          bool stop = callback(info);
+          user_requested_stop |= stop;
+          return stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -762,6 +767,12 @@ ExitStatus interior_point(
 #endif
                                           x, s, y, z, μ, iterations);
 
+      // A stop requested by the user ends the whole solve, not just feasibility
+      // restoration
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index 331b1bc..7c78ae7 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -516,8 +516,13 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          bool stop = callback(info);
+          user_requested_stop |= stop;
+          return stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -537,6 +542,12 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       auto status = feasibility_restoration<Scalar>(matrices, callbacks,
                                                     options, x, y, iterations);
 
+      // A stop requested by the user ends the whole solve, not just feasibility
+      // restoration
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
-- 
2.43.0


From 960e39d447e378b796e07932b8fdcbd6964b70bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:11 +0000
Subject: [PATCH 15/28] fix: feasibility restoration drops the constraint part
 of the Lagrangian Hessian

---
 .../optimization/solver/util/feasibility_restoration.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 2261215..198c3e6 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -228,7 +228,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x)
         auto H_c = matrices.H_c(x, y);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
@@ -483,7 +483,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x) − ∇ₓₓ²zᵀcᵢ(x)
         auto H_c = matrices.H_c(x, y, z);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
-- 
2.43.0


From 199cbdf9fa2e67c5af43e02f67575fa18b5981a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:54 +0000
Subject: [PATCH 16/28] fix: expressions of different scalar types share pool
 blocks of one size

---
 include/sleipnir/util/pool.hpp | 51 ++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index 32c4495..0b0d5f5 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -48,24 +48,25 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   [[nodiscard]]
   void* allocate(size_t bytes, [[maybe_unused]] size_t alignment =
                                    alignof(std::max_align_t)) {
-    if (m_free_list.empty()) {
-      add_chunk(bytes);
+    auto& blocks = free_list(bytes);
+    if (blocks.empty()) {
+      add_chunk(bytes, blocks);
     }
 
-    auto ptr = m_free_list.back();
-    m_free_list.pop_back();
+    auto ptr = blocks.back();
+    blocks.pop_back();
     return ptr;
   }
 
   /// Gives a block of memory back to the pool.
   ///
   /// @param p A pointer to the block of memory.
-  /// @param bytes Number of bytes in the block (unused).
+  /// @param bytes Number of bytes in the block.
   /// @param alignment Alignment of the block (unused).
   void deallocate(
-      void* p, [[maybe_unused]] size_t bytes,
+      void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
-    m_free_list.emplace_back(p);
+    free_list(bytes).emplace_back(p);
   }
 
   /// Returns true if this pool resource has the same backing storage as
@@ -82,22 +83,48 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   ///
   /// @return The number of blocks from this pool resource that are in use.
   size_t blocks_in_use() const noexcept {
-    return m_buffer.size() * blocks_per_chunk - m_free_list.size();
+    size_t blocks = m_buffer.size() * blocks_per_chunk;
+    for (const auto& list : m_free_lists) {
+      blocks -= list.blocks.size();
+    }
+    return blocks;
   }
 
  private:
+  /// List of free blocks of a given size.
+  struct FreeList {
+    /// Number of bytes in each block.
+    size_t bytes_per_block;
+    /// Pointers to the free blocks.
+    gch::small_vector<void*> blocks;
+  };
+
   gch::small_vector<std::unique_ptr<std::byte[]>> m_buffer;
-  gch::small_vector<void*> m_free_list;
+  gch::small_vector<FreeList> m_free_lists;
   size_t blocks_per_chunk;
 
+  /// Returns the free list for blocks of the given size.
+  ///
+  /// @param bytes_per_block Number of bytes in the block.
+  gch::small_vector<void*>& free_list(size_t bytes_per_block) {
+    for (auto& list : m_free_lists) {
+      if (list.bytes_per_block == bytes_per_block) {
+        return list.blocks;
+      }
+    }
+    m_free_lists.emplace_back(FreeList{bytes_per_block, {}});
+    return m_free_lists.back().blocks;
+  }
+
   /// Adds a memory chunk to the pool, partitions it into blocks with the given
-  /// number of bytes, and appends pointers to them to the free list.
+  /// number of bytes, and appends pointers to them to the given free list.
   ///
   /// @param bytes_per_block Number of bytes in the block.
-  void add_chunk(size_t bytes_per_block) {
+  /// @param blocks The free list.
+  void add_chunk(size_t bytes_per_block, gch::small_vector<void*>& blocks) {
     m_buffer.emplace_back(new std::byte[bytes_per_block * blocks_per_chunk]);
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
-      m_free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
+      blocks.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
   }
 };
-- 
2.43.0


From 086e01160f780becec4887f0238ee39413d05889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:54 +0000
Subject: [PATCH 17/28] fix: multiplier estimate is uninitialized memory when
 the constraint Jacobian is singular

---
 .../util/lagrange_multiplier_estimate.hpp      | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
index b15962c..198dcf5 100644
--- a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
+++ b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
@@ -39,9 +39,15 @@ Eigen::Vector<Scalar, Eigen::Dynamic> lagrange_multiplier_estimate(
   //   ∇f − Aₑᵀy = 0
   //   Aₑᵀy = ∇f
   //   y = (AₑAₑᵀ)⁻¹Aₑ∇f
-  return Eigen::SimplicialLDLT<Eigen::SparseMatrix<Scalar>>{A_e *
-                                                            A_e.transpose()}
-      .solve(A_e * g);
+  Eigen::SimplicialLDLT<Eigen::SparseMatrix<Scalar>> y_estimator{
+      A_e * A_e.transpose()};
+
+  // If AₑAₑᵀ is singular, there's no unique estimate
+  if (y_estimator.info() != Eigen::Success) {
+    return Eigen::Vector<Scalar, Eigen::Dynamic>::Zero(A_e.rows());
+  }
+
+  return y_estimator.solve(A_e * g);
 }
 
 /// Estimates Lagrange multipliers for interior-point method.
@@ -105,6 +111,12 @@ LagrangeMultiplierEstimate<Scalar> lagrange_multiplier_estimate(
   DenseVector rhs = A_hat * rhs_temp;
 
   Eigen::SimplicialLDLT<SparseMatrix> yz_estimator{lhs};
+
+  // If ÂÂᵀ is singular, there's no unique estimate
+  if (yz_estimator.info() != Eigen::Success) {
+    return {DenseVector::Zero(A_e.rows()), μ * s.cwiseInverse()};
+  }
+
   DenseVector sol = yz_estimator.solve(rhs);
   DenseVector y = sol.segment(0, A_e.rows());
   DenseVector z = sol.segment(A_e.rows(), s.rows());
-- 
2.43.0


From 428ef8d3330b112d2b5de73e563f1dc1484ab13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 18/28] fix: feasible IPM accepts steps that make feasible
 inequality constraints infeasible

---
 .../optimization/solver/interior_point.hpp    | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 83d60a4..97912a4 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -509,15 +509,18 @@ ExitStatus interior_point(
     const Scalar D_ϕ =
         g.transpose() * step.p_x - μ * s.cwiseInverse().dot(step.p_s);
 
+    // If the inequality constraints are all feasible, prevent them from becoming
+    // infeasible again.
+    //
+    // See equation (19.30) in [1].
+    const bool keep_feasible =
+        options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all();
+
     // Loop until a step is accepted
     while (1) {
       trial_x = x + α * step.p_x;
       trial_c_i = matrices.c_i(trial_x);
-      if (options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all()) {
-        // If the inequality constraints are all feasible, prevent them from
-        // becoming infeasible again.
-        //
-        // See equation (19.30) in [1].
+      if (keep_feasible) {
         trial_s = trial_c_i;
       } else {
         trial_s = s + α * step.p_s;
@@ -632,6 +635,9 @@ ExitStatus interior_point(
           trial_f = matrices.f(trial_x);
           trial_c_e = matrices.c_e(trial_x);
           trial_c_i = matrices.c_i(trial_x);
+          if (keep_feasible) {
+            trial_s = trial_c_i;
+          }
 
           // Check whether filter accepts trial iterate
           FilterEntry trial_entry{trial_f, trial_s, trial_c_e, trial_c_i, μ};
@@ -701,13 +707,17 @@ ExitStatus interior_point(
         trial_f = matrices.f(trial_x);
         trial_c_e = matrices.c_e(trial_x);
         trial_c_i = matrices.c_i(trial_x);
+        if (keep_feasible) {
+          trial_s = trial_c_i;
+        }
 
         Scalar next_kkt_error = kkt_error<Scalar, KKTErrorType::ONE_NORM>(
             matrices.g(trial_x), matrices.A_e(trial_x), trial_c_e,
             matrices.A_i(trial_x), trial_c_i, trial_s, trial_y, trial_z, μ);
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+        if (next_kkt_error <= Scalar(0.999) * current_kkt_error &&
+            trial_s.cwiseGreater(Scalar(0)).all()) {
           // Accept step
           break;
         }
-- 
2.43.0


From fe1e8d7ff958b7623b947dfea32f9de50c720460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 19/28] fix: single-shooting OCPs can't start from a nonzero
 initial state

---
 include/sleipnir/optimization/ocp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/ocp.hpp b/include/sleipnir/optimization/ocp.hpp
index 5e20b9b..96258eb 100644
--- a/include/sleipnir/optimization/ocp.hpp
+++ b/include/sleipnir/optimization/ocp.hpp
@@ -150,8 +150,10 @@ class OCP : public Problem<Scalar> {
       constrain_direct_collocation();
     } else if (transcription_method == TranscriptionMethod::SINGLE_SHOOTING) {
       // In single-shooting the states aren't decision variables, but instead
-      // depend on the input and previous states
+      // depend on the input and previous states. The exception is the initial
+      // state, which depends on nothing else.
       m_X = VariableMatrix<Scalar>{num_states, m_num_steps + 1};
+      m_X.col(0) = this->decision_variable(num_states);
       constrain_single_shooting();
     }
   }
-- 
2.43.0


From eda637cbc1b3e4ed9d566beb250be95f9943aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:27 +0000
Subject: [PATCH 20/28] fix: single-shooting OCPs can't be constrained to a
 nonzero initial state

The initial state isn't a decision variable in single-shooting, so the
constraint could only be satisfied by zero. Set the state's value when it gets
constrained. This replaces fe1e8d7, which made it a decision variable; that
changed the problem's scaling and the accuracy of existing problems' solutions.
---
 include/sleipnir/optimization/ocp.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/optimization/ocp.hpp b/include/sleipnir/optimization/ocp.hpp
index 96258eb..4168e13 100644
--- a/include/sleipnir/optimization/ocp.hpp
+++ b/include/sleipnir/optimization/ocp.hpp
@@ -116,7 +116,8 @@ class OCP : public Problem<Scalar> {
           TranscriptionMethod::DIRECT_TRANSCRIPTION)
       : m_num_steps{num_steps},
         m_dynamics{std::move(dynamics)},
-        m_dynamics_type{dynamics_type} {
+        m_dynamics_type{dynamics_type},
+        m_transcription_method{transcription_method} {
     // u is num_steps + 1 so that the final constraint function evaluation works
     m_U = this->decision_variable(num_inputs, m_num_steps + 1);
 
@@ -150,10 +151,8 @@ class OCP : public Problem<Scalar> {
       constrain_direct_collocation();
     } else if (transcription_method == TranscriptionMethod::SINGLE_SHOOTING) {
       // In single-shooting the states aren't decision variables, but instead
-      // depend on the input and previous states. The exception is the initial
-      // state, which depends on nothing else.
+      // depend on the input and previous states
       m_X = VariableMatrix<Scalar>{num_states, m_num_steps + 1};
-      m_X.col(0) = this->decision_variable(num_states);
       constrain_single_shooting();
     }
   }
@@ -164,6 +163,19 @@ class OCP : public Problem<Scalar> {
   template <typename T>
     requires ScalarLike<T> || MatrixLike<T>
   void constrain_initial_state(const T& initial_state) {
+    // In single-shooting, the initial state isn't a decision variable the solver
+    // can satisfy the constraint with, so it's set here instead
+    if (m_transcription_method == TranscriptionMethod::SINGLE_SHOOTING) {
+      for (int row = 0; row < m_X.rows(); ++row) {
+        if constexpr (ScalarLike<T>) {
+          m_X[row, 0].set_value(Variable<Scalar>(initial_state).value());
+        } else {
+          m_X[row, 0].set_value(
+              VariableMatrix<Scalar>(initial_state)[row].value());
+        }
+      }
+    }
+
     this->subject_to(this->initial_state() == initial_state);
   }
 
@@ -297,6 +309,7 @@ class OCP : public Problem<Scalar> {
       const VariableMatrix<Scalar>& u, const Variable<Scalar>& dt)>
       m_dynamics;
   DynamicsType m_dynamics_type;
+  TranscriptionMethod m_transcription_method;
 
   VariableMatrix<Scalar> m_X;
   VariableMatrix<Scalar> m_U;
-- 
2.43.0


From 06eda7349d7f88a4086a322582f51700284151e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 21/28] fix: indexing a VariableMatrix with a negative row and
 a column slice in Python

---
 python/cpp/autodiff/bind_variable_matrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/cpp/autodiff/bind_variable_matrix.cpp b/python/cpp/autodiff/bind_variable_matrix.cpp
index a272c36..31cf860 100644
--- a/python/cpp/autodiff/bind_variable_matrix.cpp
+++ b/python/cpp/autodiff/bind_variable_matrix.cpp
@@ -208,6 +208,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           row_slice_length = t.get<3>();
         } else {
           int start = nb::cast<int>(row_elem);
+          if (start < 0) {
+            start += self.rows();
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
-- 
2.43.0


From f860c008a1bef00b6d5a087e35fe0194bce23080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 22/28] fix: blocks can't be multiplied by matrices or blocks
 in Python

---
 python/cpp/autodiff/bind_variable_block.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/cpp/autodiff/bind_variable_block.cpp b/python/cpp/autodiff/bind_variable_block.cpp
index 0cdebc0..1f693b0 100644
--- a/python/cpp/autodiff/bind_variable_block.cpp
+++ b/python/cpp/autodiff/bind_variable_block.cpp
@@ -223,6 +223,20 @@ void bind_variable_block(
           nb::overload_cast<int>(&VariableBlock<VariableMatrix<double>>::col),
           "col"_a, DOC(slp, VariableBlock, col));
 
+  // Matrix-matrix multiplication
+  for_each_type<const VariableMatrix<double>&,
+                const VariableBlock<VariableMatrix<double>>&>(
+      [&]<typename R> {
+        for (const char* name : {"__mul__", "__matmul__"}) {
+          cls.def(
+              name,
+              [](const VariableBlock<VariableMatrix<double>>& lhs, R rhs) {
+                return lhs * rhs;
+              },
+              nb::is_operator(), "rhs"_a);
+        }
+      });
+
   // https://numpy.org/doc/stable/user/basics.dispatch.html
   cls.def(
       "__array_ufunc__",
-- 
2.43.0


From 19fb5dbeb16aa99dd45f032f0f4f0a43d930d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 23/28] fix: rows and columns of temporary matrices dangle in
 Python

---
 python/cpp/autodiff/bind_variable_block.cpp  | 4 ++--
 python/cpp/autodiff/bind_variable_matrix.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/cpp/autodiff/bind_variable_block.cpp b/python/cpp/autodiff/bind_variable_block.cpp
index 1f693b0..44c044d 100644
--- a/python/cpp/autodiff/bind_variable_block.cpp
+++ b/python/cpp/autodiff/bind_variable_block.cpp
@@ -218,10 +218,10 @@ void bind_variable_block(
       "slices"_a);
   cls.def("row",
           nb::overload_cast<int>(&VariableBlock<VariableMatrix<double>>::row),
-          "row"_a, DOC(slp, VariableBlock, row));
+          nb::keep_alive<0, 1>(), "row"_a, DOC(slp, VariableBlock, row));
   cls.def("col",
           nb::overload_cast<int>(&VariableBlock<VariableMatrix<double>>::col),
-          "col"_a, DOC(slp, VariableBlock, col));
+          nb::keep_alive<0, 1>(), "col"_a, DOC(slp, VariableBlock, col));
 
   // Matrix-matrix multiplication
   for_each_type<const VariableMatrix<double>&,
diff --git a/python/cpp/autodiff/bind_variable_matrix.cpp b/python/cpp/autodiff/bind_variable_matrix.cpp
index 31cf860..565be97 100644
--- a/python/cpp/autodiff/bind_variable_matrix.cpp
+++ b/python/cpp/autodiff/bind_variable_matrix.cpp
@@ -235,10 +235,10 @@ void bind_variable_matrix(nb::module_& autodiff,
       },
       nb::keep_alive<0, 1>(), "slices"_a,
       DOC(slp, VariableMatrix, operator, array));
-  cls.def("row", nb::overload_cast<int>(&VariableMatrix<double>::row), "row"_a,
-          DOC(slp, VariableMatrix, row));
-  cls.def("col", nb::overload_cast<int>(&VariableMatrix<double>::col), "col"_a,
-          DOC(slp, VariableMatrix, col));
+  cls.def("row", nb::overload_cast<int>(&VariableMatrix<double>::row),
+          nb::keep_alive<0, 1>(), "row"_a, DOC(slp, VariableMatrix, row));
+  cls.def("col", nb::overload_cast<int>(&VariableMatrix<double>::col),
+          nb::keep_alive<0, 1>(), "col"_a, DOC(slp, VariableMatrix, col));
 
   // Matrix-matrix multiplication
   cls.def(
-- 
2.43.0


From cdafb59fb6a9bc267923c611faaf28566e858f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 24/28] fix: diagnostics don't list equality constraints
 violated from above

---
 include/sleipnir/util/print_diagnostics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/util/print_diagnostics.hpp b/include/sleipnir/util/print_diagnostics.hpp
index 86276da..ece6023 100644
--- a/include/sleipnir/util/print_diagnostics.hpp
+++ b/include/sleipnir/util/print_diagnostics.hpp
@@ -95,7 +95,7 @@ void print_too_few_dofs_error(
   slp::println("The problem has too few degrees of freedom.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
@@ -118,7 +118,7 @@ void print_c_e_local_infeasibility_error(
       "constraints.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
-- 
2.43.0


From 7c1034d59b345eae18ffa3a255b9eeef699d4150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 25/28] fix: post-decrement of VariableBlock's const iterator
 doesn't compile

---
 include/sleipnir/autodiff/variable_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 11e47a5..9dffb28 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -699,7 +699,7 @@ class VariableBlock : public SleipnirBase {
     }
 
     constexpr const_iterator operator--(int) noexcept {
-      iterator retval = *this;
+      const_iterator retval = *this;
       --(*this);
       return retval;
     }
-- 
2.43.0


From c05579aace3485645c42dd93219b96d056768766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 26/28] fix: Keep slacks of equal bounds positive with bound
 projection

---
 include/sleipnir/optimization/solver/interior_point.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 97912a4..850c462 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -286,8 +286,10 @@ ExitStatus interior_point(
   }
 
 #ifdef SLEIPNIR_ENABLE_BOUND_PROJECTION
-  // We set sʲ = cᵢʲ(x) for each bound inequality constraint index j
-  s = bound_constraint_mask.select(c_i, s);
+  // We set sʲ = cᵢʲ(x) for each bound inequality constraint index j. The slack
+  // variables must remain positive, and cᵢʲ(x) isn't if the bounds of a variable
+  // are equal.
+  s = (bound_constraint_mask && c_i.array() > Scalar(0)).select(c_i, s);
 #endif
 
   // Barrier parameter minimum
-- 
2.43.0


From 975cdf6771f5b431edbb10cb29136850461c3099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 27/28] fix: Python bindings: refuse out-of-range indices
 combined with slices

An integer index next to a slice (or in an assignment) was taken as is, so for
a block it reached elements of the matrix outside of the block:
A[0:2, 0:2][2, 0] = x wrote to A[2, 0].
---
 python/cpp/autodiff/bind_variable_block.cpp  | 12 ++++++++++++
 python/cpp/autodiff/bind_variable_matrix.cpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/python/cpp/autodiff/bind_variable_block.cpp b/python/cpp/autodiff/bind_variable_block.cpp
index 44c044d..fd86e4b 100644
--- a/python/cpp/autodiff/bind_variable_block.cpp
+++ b/python/cpp/autodiff/bind_variable_block.cpp
@@ -91,6 +91,9 @@ void bind_variable_block(
           if (start < 0) {
             start += self.rows();
           }
+          if (start < 0 || start >= self.rows()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
@@ -106,6 +109,9 @@ void bind_variable_block(
           if (start < 0) {
             start += self.cols();
           }
+          if (start < 0 || start >= self.cols()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           col_slice = Slice{start, start + 1};
           col_slice_length = 1;
         }
@@ -192,6 +198,9 @@ void bind_variable_block(
           if (start < 0) {
             start += self.rows();
           }
+          if (start < 0 || start >= self.rows()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
@@ -207,6 +216,9 @@ void bind_variable_block(
           if (start < 0) {
             start += self.cols();
           }
+          if (start < 0 || start >= self.cols()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           col_slice = Slice{start, start + 1};
           col_slice_length = 1;
         }
diff --git a/python/cpp/autodiff/bind_variable_matrix.cpp b/python/cpp/autodiff/bind_variable_matrix.cpp
index 565be97..6f220b4 100644
--- a/python/cpp/autodiff/bind_variable_matrix.cpp
+++ b/python/cpp/autodiff/bind_variable_matrix.cpp
@@ -112,6 +112,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           if (start < 0) {
             start += self.rows();
           }
+          if (start < 0 || start >= self.rows()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
@@ -127,6 +130,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           if (start < 0) {
             start += self.cols();
           }
+          if (start < 0 || start >= self.cols()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           col_slice = Slice{start, start + 1};
           col_slice_length = 1;
         }
@@ -211,6 +217,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           if (start < 0) {
             start += self.rows();
           }
+          if (start < 0 || start >= self.rows()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
@@ -226,6 +235,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           if (start < 0) {
             start += self.cols();
           }
+          if (start < 0 || start >= self.cols()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           col_slice = Slice{start, start + 1};
           col_slice_length = 1;
         }
-- 
2.43.0


From d7bf4de2cb00c87a877f097c6b30c754359ac983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 28/28] fix: an empty block matrix has no columns

block() of an empty list returned a matrix with -1 columns.
---
 include/sleipnir/autodiff/variable_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6008cc8..462da2d 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1424,7 +1424,7 @@ VariableMatrix<Scalar> block(
     }
   }
 
-  VariableMatrix<Scalar> result{detail::empty, rows, cols};
+  VariableMatrix<Scalar> result{detail::empty, rows, std::max(cols, 0)};
 
   int row_offset = 0;
   for (const auto& row : list) {
@@ -1481,7 +1481,7 @@ VariableMatrix<Scalar> block(
     }
   }
 
-  VariableMatrix<Scalar> result{detail::empty, rows, cols};
+  VariableMatrix<Scalar> result{detail::empty, rows, std::max(cols, 0)};
 
   int row_offset = 0;
   for (const auto& row : list) {
-- 
2.43.0

