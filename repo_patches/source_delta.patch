From b99f7b400391bf1935570d4d4a8f9e9e22afa59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 01/48] fix: join started workers when ThreadPool construction
 fails

If creating a worker thread throws in ThreadPool(int), the half constructed
vector of joinable std::threads is destroyed without being joined, which calls
std::terminate. Delegate to the default constructor so the destructor runs.
---
 internal/ceres/thread_pool.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/thread_pool.cc b/internal/ceres/thread_pool.cc
index 1ce9ac8..18887fe 100644
--- a/internal/ceres/thread_pool.cc
+++ b/internal/ceres/thread_pool.cc
@@ -55,7 +55,10 @@ int ThreadPool::MaxNumThreadsAvailable() {
 
 ThreadPool::ThreadPool() = default;
 
-ThreadPool::ThreadPool(int num_threads) { Resize(num_threads); }
+// Delegating to the default constructor makes the object complete before the
+// first worker is started, so that the destructor joins the workers that did
+// start if the creation of another one throws.
+ThreadPool::ThreadPool(int num_threads) : ThreadPool() { Resize(num_threads); }
 
 ThreadPool::~ThreadPool() {
   std::lock_guard<std::mutex> lock(thread_pool_mutex_);
-- 
2.43.0


From a3446f95340e52efa11c0b5324dde67d14c0daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 02/48] fix: refine dense Cholesky solutions against the
 matrix, not its factor

The dense factorizations work in place and their callers only fill one
triangle of the matrix, so iterative refinement computed its residual
with a corrupted matrix for DENSE_NORMAL_CHOLESKY and DENSE_SCHUR.
---
 internal/ceres/dense_cholesky.cc | 9 +++++----
 internal/ceres/dense_cholesky.h  | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/ceres/dense_cholesky.cc b/internal/ceres/dense_cholesky.cc
index 631cfbb..7511f16 100644
--- a/internal/ceres/dense_cholesky.cc
+++ b/internal/ceres/dense_cholesky.cc
@@ -329,22 +329,23 @@ RefinedDenseCholesky::~RefinedDenseCholesky() = default;
 
 LinearSolverTerminationType RefinedDenseCholesky::Factorize(
     const int num_cols, double* lhs, std::string* message) {
-  lhs_ = lhs;
-  num_cols_ = num_cols;
+  // Only the upper triangle of the (row major) input is guaranteed to be
+  // initialized, and dense_cholesky_ is free to overwrite it with its factor.
+  lhs_ = ConstMatrixRef(lhs, num_cols, num_cols)
+             .selfadjointView<Eigen::Upper>();
   return dense_cholesky_->Factorize(num_cols, lhs, message);
 }
 
 LinearSolverTerminationType RefinedDenseCholesky::Solve(const double* rhs,
                                                         double* solution,
                                                         std::string* message) {
-  CHECK(lhs_ != nullptr);
   auto termination_type = dense_cholesky_->Solve(rhs, solution, message);
   if (termination_type != LinearSolverTerminationType::SUCCESS) {
     return termination_type;
   }
 
   iterative_refiner_->Refine(
-      num_cols_, lhs_, rhs, dense_cholesky_.get(), solution);
+      lhs_.cols(), lhs_.data(), rhs, dense_cholesky_.get(), solution);
   return LinearSolverTerminationType::SUCCESS;
 }
 
diff --git a/internal/ceres/dense_cholesky.h b/internal/ceres/dense_cholesky.h
index 4f55c58..d890655 100644
--- a/internal/ceres/dense_cholesky.h
+++ b/internal/ceres/dense_cholesky.h
@@ -42,6 +42,7 @@
 #include "Eigen/Dense"
 #include "ceres/context_impl.h"
 #include "ceres/cuda_buffer.h"
+#include "ceres/internal/eigen.h"
 #include "ceres/linear_solver.h"
 
 #ifndef CERES_NO_CUDA
@@ -188,8 +189,9 @@ class CERES_NO_EXPORT RefinedDenseCholesky final : public DenseCholesky {
  private:
   std::unique_ptr<DenseCholesky> dense_cholesky_;
   std::unique_ptr<DenseIterativeRefiner> iterative_refiner_;
-  double* lhs_ = nullptr;
-  int num_cols_;
+  // Full symmetric copy of the matrix being factorized. The factorization may
+  // happen in place and only one triangle of the input is required to be valid.
+  Matrix lhs_;
 };
 
 #ifndef CERES_NO_CUDA
-- 
2.43.0


From c5a00a23da648999f09a3f3e7f29224605fbe4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 03/48] fix: point every parameter block at the new state when
 PlusJacobian fails

Returning at the first failing manifold left the remaining blocks with
pointers into a state vector that is freed right afterwards, or copied a
rejected candidate for them into the user's parameters.
---
 internal/ceres/program.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/program.cc b/internal/ceres/program.cc
index 826fdab..af8d7ab 100644
--- a/internal/ceres/program.cc
+++ b/internal/ceres/program.cc
@@ -79,13 +79,17 @@ EvaluationCallback* Program::mutable_evaluation_callback() {
 }
 
 bool Program::StateVectorToParameterBlocks(const double* state) {
+  // Every block must be pointed at the new state, even if the PlusJacobian of
+  // one of them cannot be computed. Otherwise the blocks that follow it are left
+  // with a different state than the ones before it.
+  bool success = true;
   for (auto* parameter_block : parameter_blocks_) {
     if (!parameter_block->IsConstant() && !parameter_block->SetState(state)) {
-      return false;
+      success = false;
     }
     state += parameter_block->Size();
   }
-  return true;
+  return success;
 }
 
 void Program::ParameterBlocksToStateVector(double* state) const {
@@ -102,13 +106,16 @@ void Program::CopyParameterBlockStateToUserState() {
 }
 
 bool Program::SetParameterBlockStatePtrsToUserStatePtrs() {
+  // Do not stop at the first failure, the remaining blocks would keep pointing
+  // at a state vector which the caller is about to free.
+  bool success = true;
   for (auto* parameter_block : parameter_blocks_) {
     if (!parameter_block->IsConstant() &&
         !parameter_block->SetState(parameter_block->user_state())) {
-      return false;
+      success = false;
     }
   }
-  return true;
+  return success;
 }
 
 bool Program::Plus(const double* state,
-- 
2.43.0


From 0598ff71ed434dbaa1b28c6c3103487e09c1beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 04/48] fix: do not report the cost of a rejected step as the
 final cost

The trust region minimizer can reject a step which lowers the cost, when
the decrease is smaller than min_relative_decrease predicts. The solution
returned does not include that step, but SetSummaryFinalCost took the
minimum over all iterations.
---
 internal/ceres/solver_utils.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/solver_utils.h b/internal/ceres/solver_utils.h
index 60bca91..419b59c 100644
--- a/internal/ceres/solver_utils.h
+++ b/internal/ceres/solver_utils.h
@@ -53,9 +53,15 @@ void SetSummaryFinalCost(SummaryType* summary) {
   summary->final_cost = summary->initial_cost;
   // We need the loop here, instead of just looking at the last
   // iteration because the minimizer maybe making non-monotonic steps.
+  //
+  // The cost of an unsuccessful iteration is that of a point which was
+  // rejected, so it can be lower than the cost at the solution returned.
   for (int i = 0; i < summary->iterations.size(); ++i) {
     const IterationSummary& iteration_summary = summary->iterations[i];
-    summary->final_cost = std::min(iteration_summary.cost, summary->final_cost);
+    if (iteration_summary.step_is_successful) {
+      summary->final_cost =
+          std::min(iteration_summary.cost, summary->final_cost);
+    }
   }
 }
 
-- 
2.43.0


From 5ea8a79d1377ae293959f7b7e81ccf0c2ca429a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 05/48] fix: tell the evaluation callback when a Wolfe search
 falls back to an earlier point

---
 internal/ceres/line_search_minimizer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index 1f0b05b..d058855 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -356,7 +356,9 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
       current_state.gradient = optimal_point.vector_gradient;
     } else {
       Evaluator::EvaluateOptions evaluate_options;
-      evaluate_options.new_evaluation_point = false;
+      // Armijo line search selects the point it evaluated last. Wolfe line
+      // search may fall back to an earlier point.
+      evaluate_options.new_evaluation_point = options.line_search_type != ARMIJO;
       if (!evaluator->Evaluate(evaluate_options,
                                optimal_point.vector_x.data(),
                                &(current_state.cost),
-- 
2.43.0


From 95a856ab1e09565b7ea791468012f8e552aa9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 06/48] fix: fall back to JACOBI from
 SCHUR_POWER_SERIES_EXPANSION without e-blocks

---
 internal/ceres/preconditioner.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/preconditioner.cc b/internal/ceres/preconditioner.cc
index 7c51976..ed3cd8b 100644
--- a/internal/ceres/preconditioner.cc
+++ b/internal/ceres/preconditioner.cc
@@ -39,6 +39,7 @@ Preconditioner::~Preconditioner() = default;
 PreconditionerType Preconditioner::PreconditionerForZeroEBlocks(
     PreconditionerType preconditioner_type) {
   if (preconditioner_type == SCHUR_JACOBI ||
+      preconditioner_type == SCHUR_POWER_SERIES_EXPANSION ||
       preconditioner_type == CLUSTER_JACOBI ||
       preconditioner_type == CLUSTER_TRIDIAGONAL) {
     return JACOBI;
-- 
2.43.0


From 0b30a62e864c3e65e5922aa55961d7c99356664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 07/48] fix: report a trust region dump that cannot be written
 instead of aborting

---
 .../ceres/linear_least_squares_problems.cc    | 61 +++++++++++++------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/internal/ceres/linear_least_squares_problems.cc b/internal/ceres/linear_least_squares_problems.cc
index 6eedc29..c02341d 100644
--- a/internal/ceres/linear_least_squares_problems.cc
+++ b/internal/ceres/linear_least_squares_problems.cc
@@ -41,7 +41,6 @@
 #include "ceres/block_sparse_matrix.h"
 #include "ceres/block_structure.h"
 #include "ceres/casts.h"
-#include "ceres/file.h"
 #include "ceres/triplet_sparse_matrix.h"
 #include "ceres/types.h"
 
@@ -951,17 +950,35 @@ bool DumpLinearLeastSquaresProblemToConsole(const SparseMatrix* A,
   return true;
 }
 
-void WriteArrayToFileOrDie(const std::string& filename,
-                           const double* x,
-                           const int size) {
-  CHECK(x != nullptr);
-  VLOG(2) << "Writing array to: " << filename;
+// Calls writer with a stream for filename. Returns false if the file could not
+// be opened or if not all of it could be written.
+template <typename Writer>
+bool WriteToFile(const std::string& filename, const Writer& writer) {
   FILE* fptr = fopen(filename.c_str(), "w");
-  CHECK(fptr != nullptr);
-  for (int i = 0; i < size; ++i) {
-    absl::FPrintF(fptr, "%17f\n", x[i]);
+  if (fptr == nullptr) {
+    LOG(ERROR) << "Couldn't open file for writing: " << filename;
+    return false;
   }
-  fclose(fptr);
+  writer(fptr);
+  const bool write_failed = ferror(fptr) != 0;
+  const bool close_failed = fclose(fptr) != 0;
+  if (write_failed || close_failed) {
+    LOG(ERROR) << "Couldn't write all of file: " << filename;
+    return false;
+  }
+  return true;
+}
+
+bool WriteArrayToFile(const std::string& filename,
+                      const double* x,
+                      const int size) {
+  CHECK(x != nullptr);
+  VLOG(2) << "Writing array to: " << filename;
+  return WriteToFile(filename, [x, size](FILE* fptr) {
+    for (int i = 0; i < size; ++i) {
+      absl::FPrintF(fptr, "%17f\n", x[i]);
+    }
+  });
 }
 
 bool DumpLinearLeastSquaresProblemToTextFile(const std::string& filename_base,
@@ -981,10 +998,9 @@ bool DumpLinearLeastSquaresProblemToTextFile(const std::string& filename_base,
 
   {
     std::string filename = filename_base + "_A.txt";
-    FILE* fptr = fopen(filename.c_str(), "w");
-    CHECK(fptr != nullptr);
-    A->ToTextFile(fptr);
-    fclose(fptr);
+    if (!WriteToFile(filename, [A](FILE* fptr) { A->ToTextFile(fptr); })) {
+      return false;
+    }
     absl::StrAppendFormat(
         &matlab_script, "tmp = load('%s', '-ascii');\n", filename);
     absl::StrAppendFormat(
@@ -996,28 +1012,35 @@ bool DumpLinearLeastSquaresProblemToTextFile(const std::string& filename_base,
 
   if (D != nullptr) {
     std::string filename = filename_base + "_D.txt";
-    WriteArrayToFileOrDie(filename, D, A->num_cols());
+    if (!WriteArrayToFile(filename, D, A->num_cols())) {
+      return false;
+    }
     absl::StrAppendFormat(
         &matlab_script, "lsqp.D = load('%s', '-ascii');\n", filename);
   }
 
   if (b != nullptr) {
     std::string filename = filename_base + "_b.txt";
-    WriteArrayToFileOrDie(filename, b, A->num_rows());
+    if (!WriteArrayToFile(filename, b, A->num_rows())) {
+      return false;
+    }
     absl::StrAppendFormat(
         &matlab_script, "lsqp.b = load('%s', '-ascii');\n", filename);
   }
 
   if (x != nullptr) {
     std::string filename = filename_base + "_x.txt";
-    WriteArrayToFileOrDie(filename, x, A->num_cols());
+    if (!WriteArrayToFile(filename, x, A->num_cols())) {
+      return false;
+    }
     absl::StrAppendFormat(
         &matlab_script, "lsqp.x = load('%s', '-ascii');\n", filename);
   }
 
   std::string matlab_filename = filename_base + ".m";
-  WriteStringToFileOrDie(matlab_script, matlab_filename);
-  return true;
+  return WriteToFile(matlab_filename, [&matlab_script](FILE* fptr) {
+    absl::FPrintF(fptr, "%s", matlab_script);
+  });
 }
 }  // namespace
 
-- 
2.43.0


From dfc15d992a4adf77b753b3322a2083807f79b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 08/48] fix: die in WriteStringToFileOrDie when the data cannot
 be written

---
 internal/ceres/file.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/file.cc b/internal/ceres/file.cc
index 81b3160..7106c4a 100644
--- a/internal/ceres/file.cc
+++ b/internal/ceres/file.cc
@@ -45,8 +45,12 @@ void WriteStringToFileOrDie(const std::string& data,
   if (!file_descriptor) {
     LOG(FATAL) << "Couldn't write to file: " << filename;
   }
-  fwrite(data.c_str(), 1, data.size(), file_descriptor);
-  fclose(file_descriptor);
+  const size_t num_written =
+      fwrite(data.c_str(), 1, data.size(), file_descriptor);
+  const bool closed = fclose(file_descriptor) == 0;
+  if (num_written != data.size() || !closed) {
+    LOG(FATAL) << "Couldn't write all of file: " << filename;
+  }
 }
 
 void ReadFileToStringOrDie(const std::string& filename, std::string* data) {
-- 
2.43.0


From 057076365d4e1a0245b6649766d7399a552203b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 09/48] fix: leave the problem intact when Problem::Evaluate
 cannot start threads

---
 internal/ceres/problem_impl.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/problem_impl.cc b/internal/ceres/problem_impl.cc
index ef5851b..debd22d 100644
--- a/internal/ceres/problem_impl.cc
+++ b/internal/ceres/problem_impl.cc
@@ -593,6 +593,11 @@ bool ProblemImpl::Evaluate(const Problem::EvaluateOptions& evaluate_options,
     return true;
   }
 
+  // The main thread also does work so we only need to launch num_threads - 1.
+  // Starting threads can fail, so do it before the blocks of the problem are
+  // temporarily modified below.
+  context_impl_->EnsureMinimumThreads(evaluate_options.num_threads - 1);
+
   // If the user supplied residual blocks, then use them, otherwise
   // take the residual blocks from the underlying program.
   Program program;
@@ -675,9 +680,6 @@ bool ProblemImpl::Evaluate(const Problem::EvaluateOptions& evaluate_options,
   // being used.
   evaluator_options.linear_solver_type = SPARSE_NORMAL_CHOLESKY;
   evaluator_options.num_threads = evaluate_options.num_threads;
-
-  // The main thread also does work so we only need to launch num_threads - 1.
-  context_impl_->EnsureMinimumThreads(evaluator_options.num_threads - 1);
   evaluator_options.context = context_impl_;
   evaluator_options.evaluation_callback =
       program_->mutable_evaluation_callback();
-- 
2.43.0


From ce0dcaec5db5ee298e7f0bb0d2297e868ccc653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 10/48] fix: return false from EvaluateResidualBlock when
 PlusJacobian fails

---
 internal/ceres/problem_impl.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/problem_impl.cc b/internal/ceres/problem_impl.cc
index debd22d..23509ac 100644
--- a/internal/ceres/problem_impl.cc
+++ b/internal/ceres/problem_impl.cc
@@ -770,10 +770,9 @@ bool ProblemImpl::EvaluateResidualBlock(ResidualBlock* residual_block,
                    << ". But the parameter block is marked constant.";
         return false;
       }
-    } else {
-      CHECK(parameter_block->SetState(parameter_block->user_state()))
-          << "Congratulations, you found a Ceres bug! Please report this error "
-          << "to the developers.";
+    } else if (!parameter_block->SetState(parameter_block->user_state())) {
+      // The user's Manifold::PlusJacobian failed.
+      return false;
     }
   }
 
-- 
2.43.0


From 2f5409a513e43f440543e1e0b373328826cf66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 11/48] fix: do not test parameter tolerance against a
 candidate that could not be computed

If Manifold::Plus failed for a trial step right after an accepted one,
candidate_x_ still held the accepted point, so the step norm was zero and the
solve reported convergence by parameter tolerance.
---
 internal/ceres/trust_region_minimizer.cc | 13 +++++++++----
 internal/ceres/trust_region_minimizer.h  |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index c2c10f8..1c5364b 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -107,10 +107,11 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
       DoLineSearch(x_, gradient_, x_cost_, &delta_);
     }
 
-    ComputeCandidatePointAndEvaluateCost();
+    const bool candidate_is_valid = ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
-    if (atleast_one_successful_step && ParameterToleranceReached()) {
+    if (candidate_is_valid && atleast_one_successful_step &&
+        ParameterToleranceReached()) {
       return;
     }
 
@@ -778,14 +779,17 @@ bool TrustRegionMinimizer::FunctionToleranceReached() {
 // a candidate point, and if for some reason we are unable to evaluate it, we
 // consider it to be a point with very high cost. This allows the user to deal
 // with edge cases/constraints as part of the Manifold and CostFunction objects.
-void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
+//
+// Returns false if the candidate point could not be computed, in which case
+// candidate_x_ is meaningless and must not be used.
+bool TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
   if (!evaluator_->Plus(x_.data(), delta_.data(), candidate_x_.data())) {
     if (is_not_silent_) {
       LOG(WARNING) << "x_plus_delta = Plus(x, delta) failed. "
                    << "Treating it as a step with infinite cost";
     }
     candidate_cost_ = std::numeric_limits<double>::max();
-    return;
+    return false;
   }
 
   if (!evaluator_->Evaluate(
@@ -796,6 +800,7 @@ void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
     }
     candidate_cost_ = std::numeric_limits<double>::max();
   }
+  return true;
 }
 
 bool TrustRegionMinimizer::IsStepSuccessful() {
diff --git a/internal/ceres/trust_region_minimizer.h b/internal/ceres/trust_region_minimizer.h
index 91f9deb..b754926 100644
--- a/internal/ceres/trust_region_minimizer.h
+++ b/internal/ceres/trust_region_minimizer.h
@@ -65,7 +65,7 @@ class CERES_NO_EXPORT TrustRegionMinimizer final : public Minimizer {
   bool ComputeTrustRegionStep();
 
   bool EvaluateGradientAndJacobian(bool new_evaluation_point);
-  void ComputeCandidatePointAndEvaluateCost();
+  bool ComputeCandidatePointAndEvaluateCost();
 
   void DoLineSearch(const Vector& x,
                     const Vector& gradient,
-- 
2.43.0


From b06c580881fb9390afc7bc4e10b9850d46e38a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 12/48] fix: Covariance::Compute reports a Jacobian that could
 not be evaluated

The result of Problem::Evaluate was ignored. After a failed evaluation the
Jacobian is empty, so SPARSE_QR returned true with uninitialised values and
DENSE_SVD accessed the singular values of an empty matrix.
---
 internal/ceres/covariance_impl.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index b2449f9..474c082 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -547,7 +547,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingSuiteSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   // Construct a compressed column form of the Jacobian.
@@ -714,7 +718,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   Matrix dense_jacobian(jacobian.num_rows, jacobian.num_cols);
@@ -810,7 +818,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingEigenSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   using EigenSparseMatrix = Eigen::SparseMatrix<double, Eigen::ColMajor>;
-- 
2.43.0


From 778bf603149cb798f8fbf91afede8a512b274787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 13/48] fix: Covariance::Compute detects Jacobians with more
 columns than rows

The eigenvalues of J'J that do not correspond to a singular value of J were
ignored by DENSE_SVD: with null_space_rank = 0 a pseudo inverse was returned for
a rank deficient Jacobian, and otherwise too many eigenvalues were dropped. A
vanishing Jacobian gave infinities. SPARSE_QR passed such a Jacobian to
Eigen::SparseQR, which then writes out of bounds.
---
 internal/ceres/covariance_impl.cc | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 474c082..ef8990f 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -755,8 +755,19 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
       sqrt(options_.min_reciprocal_condition_number);
 
   const bool automatic_truncation = (options_.null_space_rank < 0);
-  const int max_rank = std::min(num_singular_values,
-                                num_singular_values - options_.null_space_rank);
+  // J'J has as many eigenvalues as J has columns, those that do not correspond
+  // to a singular value of J are zero. They are part of the null space.
+  const int max_rank =
+      automatic_truncation
+          ? num_singular_values
+          : static_cast<int>(jacobian.num_cols) - options_.null_space_rank;
+  if (max_rank > num_singular_values) {
+    LOG(ERROR) << "Jacobian matrix is rank deficient. "
+               << "Number of columns: " << jacobian.num_cols
+               << " number of rows: " << jacobian.num_rows
+               << " null_space_rank: " << options_.null_space_rank;
+    return false;
+  }
 
   // Compute the squared inverse of the singular values. Truncate the
   // computation based on min_singular_value_ratio and
@@ -764,7 +775,9 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   // the resulting covariance matrix is a Moore-Penrose inverse
   // instead of a regular inverse.
   for (int i = 0; i < max_rank; ++i) {
-    const double singular_value_ratio = singular_values[i] / max_singular_value;
+    const double singular_value_ratio =
+        max_singular_value > 0.0 ? singular_values[i] / max_singular_value
+                                 : 0.0;
     if (singular_value_ratio < min_singular_value_ratio) {
       // Since the singular values are in decreasing order, if
       // automatic truncation is enabled, then from this point on
@@ -825,6 +838,14 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingEigenSparseQR() {
   }
   event_logger.AddEvent("Evaluate");
 
+  // Eigen::SparseQR requires at least as many rows as columns.
+  if (jacobian.num_rows < jacobian.num_cols) {
+    LOG(ERROR) << "Jacobian matrix is rank deficient. "
+               << "Number of columns: " << jacobian.num_cols
+               << " number of rows: " << jacobian.num_rows;
+    return false;
+  }
+
   using EigenSparseMatrix = Eigen::SparseMatrix<double, Eigen::ColMajor>;
 
   // Convert the matrix to column major order as required by SparseQR.
-- 
2.43.0


From 93d1f6cb0c9102c9b41150e980a97d6829655ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 14/48] fix: asking for a covariance block that was not
 computed returns false

It crashed if all the blocks computed involve constant parameter blocks, and
read past the end of the column indices otherwise.
---
 internal/ceres/covariance_impl.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index ef8990f..954516f 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -164,6 +164,13 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
     return true;
   }
 
+  if (covariance_matrix_ == nullptr) {
+    // Only blocks that are identically zero were computed.
+    LOG(ERROR) << "Unable to find covariance block for "
+               << original_parameter_block1 << " " << original_parameter_block2;
+    return false;
+  }
+
   const double* parameter_block1 = original_parameter_block1;
   const double* parameter_block2 = original_parameter_block2;
   const bool transpose = parameter_block1 > parameter_block2;
@@ -185,7 +192,7 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   // vector to determine where the set of columns corresponding to the
   // covariance block begin.
   int offset = 0;
-  while (cols_begin[offset] != col_begin && offset < row_size) {
+  while (offset < row_size && cols_begin[offset] != col_begin) {
     ++offset;
   }
 
-- 
2.43.0


From 6520d3017a576dddf1dca91b2eda9b932c53f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 15/48] fix: a covariance that could not be lifted is reported

GetCovarianceBlock and GetCovarianceMatrix ignored failures of
Manifold::PlusJacobian and returned uninitialised values.
---
 internal/ceres/covariance_impl.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 954516f..63ad258 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -253,7 +253,11 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   if (manifold1 == nullptr) {
     block1_jacobian.setIdentity();
   } else {
-    manifold1->PlusJacobian(parameter_block1, block1_jacobian.data());
+    if (!manifold1->PlusJacobian(parameter_block1, block1_jacobian.data())) {
+      LOG(ERROR) << "Manifold::PlusJacobian computation failed for parameter "
+                 << "block " << parameter_block1;
+      return false;
+    }
   }
 
   Matrix block2_jacobian(block2_size, block2_tangent_size);
@@ -264,7 +268,11 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
     if (manifold2 == nullptr) {
       block2_jacobian.setIdentity();
     } else {
-      manifold2->PlusJacobian(parameter_block2, block2_jacobian.data());
+      if (!manifold2->PlusJacobian(parameter_block2, block2_jacobian.data())) {
+        LOG(ERROR) << "Manifold::PlusJacobian computation failed for parameter "
+                   << "block " << parameter_block2;
+        return false;
+      }
     }
   }
 
-- 
2.43.0


From fa3b79f5a980e14724d5a92dd1a9280f7d1cca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 16/48] fix: data race on the result of GetCovarianceMatrix

The threads that assemble the matrix wrote a plain bool.
---
 internal/ceres/covariance_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 63ad258..4ed1805 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -31,6 +31,7 @@
 #include "ceres/covariance_impl.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cstdlib>
 #include <memory>
 #include <numeric>
@@ -332,7 +333,8 @@ bool CovarianceImpl::GetCovarianceMatrixInTangentOrAmbientSpace(
   auto workspace = std::make_unique<double[]>(
       num_threads * max_covariance_block_size * max_covariance_block_size);
 
-  bool success = true;
+  // Written by any of the threads.
+  std::atomic<bool> success(true);
 
   // Technically the following code is a double nested loop where
   // i = 1:n, j = i:n.
-- 
2.43.0


From 255e739049a510bed2cc7a41ea8129b4e7b56ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 17/48] fix: use JacobiSVD for DENSE_SVD covariances, as
 documented

Eigen's BDCSVD returns a wrong decomposition for some well conditioned
Jacobians with repeated singular values (Eigen 3.4), and with it a wrong
covariance.
---
 internal/ceres/covariance_impl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 4ed1805..12e544b 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -753,11 +753,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   event_logger.AddEvent("ConvertToDenseMatrix");
 
 #if EIGEN_VERSION_AT_LEAST(5, 0, 0)
-  Eigen::BDCSVD<Matrix, Eigen::ComputeThinU | Eigen::ComputeThinV> svd(
+  Eigen::JacobiSVD<Matrix, Eigen::ComputeThinU | Eigen::ComputeThinV> svd(
       dense_jacobian);
 #else   // !EIGEN_VERSION_AT_LEAST(5, 0, 0)
-  Eigen::BDCSVD<Matrix> svd(dense_jacobian,
-                            Eigen::ComputeThinU | Eigen::ComputeThinV);
+  Eigen::JacobiSVD<Matrix> svd(dense_jacobian,
+                               Eigen::ComputeThinU | Eigen::ComputeThinV);
 #endif  // EIGEN_VERSION_AT_LEAST(5, 0, 0)
 
   event_logger.AddEvent("SingularValueDecomposition");
-- 
2.43.0


From e929f6bb8678832002eb82b6fd949d0fb502d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 18/48] fix: a function value or gradient that is not finite
 fails its evaluation

GradientProblemSolver took an infinite or NaN cost at the starting point for
a valid one and reported a usable solution, and used gradients which were not
finite to compute search directions.
---
 internal/ceres/gradient_problem_evaluator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/gradient_problem_evaluator.h b/internal/ceres/gradient_problem_evaluator.h
index d272f04..dc53478 100644
--- a/internal/ceres/gradient_problem_evaluator.h
+++ b/internal/ceres/gradient_problem_evaluator.h
@@ -31,6 +31,7 @@
 #ifndef CERES_INTERNAL_GRADIENT_PROBLEM_EVALUATOR_H_
 #define CERES_INTERNAL_GRADIENT_PROBLEM_EVALUATOR_H_
 
+#include <cmath>
 #include <map>
 #include <memory>
 #include <string>
@@ -40,6 +41,7 @@
 #include "ceres/execution_summary.h"
 #include "ceres/gradient_problem.h"
 #include "ceres/internal/disable_warnings.h"
+#include "ceres/internal/eigen.h"
 #include "ceres/internal/export.h"
 #include "ceres/sparse_matrix.h"
 
@@ -70,7 +72,11 @@ class CERES_NO_EXPORT GradientProblemEvaluator final : public Evaluator {
     ScopedExecutionTimer call_type_timer(
         gradient == nullptr ? "Evaluator::Residual" : "Evaluator::Jacobian",
         &execution_summary_);
-    return problem_.Evaluate(state, cost, gradient);
+    // As in the evaluation of residual blocks, values that are not finite are
+    // a failure to evaluate.
+    return problem_.Evaluate(state, cost, gradient) && std::isfinite(*cost) &&
+           (gradient == nullptr ||
+            ConstVectorRef(gradient, NumEffectiveParameters()).allFinite());
   }
 
   bool Plus(const double* state,
-- 
2.43.0


From 0f196657e16cf69936b9d17bce865ef91a43e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 19/48] fix: a Wolfe search in which no step could be evaluated
 fails

When the function could not be evaluated at any of the steps tried, running
out of iterations selected the zero step, which the minimizer took for
convergence by the parameter tolerance. Of the steps that could be evaluated
the last one is the best; it was given up for the zero step if the steps
tested after it could not be evaluated.
---
 internal/ceres/line_search.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 039975d..1bd6374 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -616,10 +616,14 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
       // Ensure that bracket_low is always set to the step size amongst all
       // those tested which minimizes f() and satisfies the Armijo condition
       // when we terminate due to the 'artificial' max_num_iterations condition.
-      *bracket_low =
-          current.value_is_valid && current.value < bracket_low->value
-              ? current
-              : *bracket_low;
+      // Each valid sample which gets here satisfies the Armijo condition and
+      // improves on the previous valid sample, so this is the last valid one.
+      *bracket_low = current.value_is_valid ? current : previous;
+      if (bracket_low->x == initial_position.x) {
+        // f() could not be evaluated at any of the step sizes tested. Not
+        // moving is not a step, and must not be mistaken for convergence.
+        return false;
+      }
       break;
     }
     // Either: f(current) is invalid; or, f(current) is valid, but does not
-- 
2.43.0


From f26e81b30558709cf8fff013ed4cc040f30207e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 20/48] fix: ReadFileToStringOrDie dies when the size of the
 file is unknown

A failing fseek read the file as empty and a failing ftell threw
std::length_error.
---
 internal/ceres/file.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/file.cc b/internal/ceres/file.cc
index 7106c4a..16afece 100644
--- a/internal/ceres/file.cc
+++ b/internal/ceres/file.cc
@@ -61,12 +61,16 @@ void ReadFileToStringOrDie(const std::string& filename, std::string* data) {
   }
 
   // Resize the input buffer appropriately.
-  fseek(file_descriptor, 0L, SEEK_END);
-  int64_t num_bytes = ftell(file_descriptor);
+  int64_t num_bytes = -1;
+  if (fseek(file_descriptor, 0L, SEEK_END) == 0) {
+    num_bytes = ftell(file_descriptor);
+  }
+  if (num_bytes < 0 || fseek(file_descriptor, 0L, SEEK_SET) != 0) {
+    LOG(FATAL) << "Couldn't determine the size of: " << filename;
+  }
   data->resize(num_bytes);
 
   // Read the data.
-  fseek(file_descriptor, 0L, SEEK_SET);
   int64_t num_read =
       fread(&((*data)[0]), sizeof((*data)[0]), num_bytes, file_descriptor);
   if (num_read != num_bytes) {
-- 
2.43.0


From a5c52cb38ca7b8ca8a7bed5bb7d527ed91c8514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 21/48] fix: check_gradients keeps the user's evaluation
 callback

---
 internal/ceres/gradient_checking_cost_function.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ceres/gradient_checking_cost_function.cc b/internal/ceres/gradient_checking_cost_function.cc
index 3d206cc..99279bc 100644
--- a/internal/ceres/gradient_checking_cost_function.cc
+++ b/internal/ceres/gradient_checking_cost_function.cc
@@ -186,6 +186,9 @@ std::unique_ptr<ProblemImpl> CreateGradientCheckingProblemImpl(
       DO_NOT_TAKE_OWNERSHIP;
   gradient_checking_problem_options.manifold_ownership = DO_NOT_TAKE_OWNERSHIP;
   gradient_checking_problem_options.context = problem_impl->context();
+  // The original cost functions may depend on the user's evaluation callback.
+  gradient_checking_problem_options.evaluation_callback =
+      problem_impl->mutable_program()->mutable_evaluation_callback();
 
   NumericDiffOptions numeric_diff_options;
   numeric_diff_options.relative_step_size = relative_step_size;
-- 
2.43.0


From 34ba42590e2dadd258501672abf5ef69e5e425a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 22/48] fix: GradientChecker fails when a manifold's
 PlusJacobian fails

---
 internal/ceres/gradient_checker.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/gradient_checker.cc b/internal/ceres/gradient_checker.cc
index dffbba2..195c78c 100644
--- a/internal/ceres/gradient_checker.cc
+++ b/internal/ceres/gradient_checker.cc
@@ -106,7 +106,10 @@ bool EvaluateCostFunction(const CostFunction* function,
       int tangent_size = manifolds.at(i)->TangentSize();
       CHECK_EQ(jacobians->at(i).cols(), ambient_size);
       Matrix ambient_J_tangent(ambient_size, tangent_size);
-      manifolds.at(i)->PlusJacobian(parameters[i], ambient_J_tangent.data());
+      if (!manifolds.at(i)->PlusJacobian(parameters[i],
+                                         ambient_J_tangent.data())) {
+        return false;
+      }
       local_jacobians->at(i).noalias() = jacobians->at(i) * ambient_J_tangent;
     }
   }
-- 
2.43.0


From 16fda675ffbb01185bafcbdd95673f72732cac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 23/48] fix: check_gradients keeps the blocks of the subset
 preconditioner

---
 internal/ceres/solver.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 97c1d87..913468e 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -775,6 +775,16 @@ void Solver::Solve(const Solver::Options& options,
         options.gradient_check_numeric_derivative_relative_step_size,
         options.gradient_check_relative_precision,
         &gradient_checking_callback);
+    // The residual blocks of the subset preconditioner are identified by their
+    // ids in the user's problem.
+    modified_options.residual_blocks_for_subset_preconditioner.clear();
+    for (int i = 0; i < program->NumResidualBlocks(); ++i) {
+      if (options.residual_blocks_for_subset_preconditioner.count(
+              program->residual_blocks()[i]) != 0) {
+        modified_options.residual_blocks_for_subset_preconditioner.insert(
+            gradient_checking_problem->program().residual_blocks()[i]);
+      }
+    }
     problem_impl = gradient_checking_problem.get();
     program = problem_impl->mutable_program();
   }
-- 
2.43.0


From 0626a3a79c392577555a209ed63804615d6ea7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 24/48] fix: a solve that ends with a gradient error leaves the
 parameters as they were

---
 internal/ceres/solver.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 913468e..91eb2ea 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -643,7 +643,10 @@ void PostSolveSummarize(const internal::PreprocessedProblem& pp,
   }
 }
 
-void Minimize(internal::PreprocessedProblem* pp, Solver::Summary* summary) {
+void Minimize(
+    internal::PreprocessedProblem* pp,
+    const internal::GradientCheckingIterationCallback& gradient_callback,
+    Solver::Summary* summary) {
   using internal::Minimizer;
   using internal::Program;
 
@@ -666,6 +669,14 @@ void Minimize(internal::PreprocessedProblem* pp, Solver::Summary* summary) {
   minimizer->Minimize(
       pp->minimizer_options, pp->reduced_parameters.data(), summary);
 
+  // If the gradient checker reported an error, we want to report FAILURE
+  // instead of USER_FAILURE and provide the error log. The minimizer may have
+  // stopped for another reason before its callback was asked.
+  if (gradient_callback.gradient_error_detected()) {
+    summary->termination_type = FAILURE;
+    summary->message = gradient_callback.error_log();
+  }
+
   program->StateVectorToParameterBlocks(
       summary->IsSolutionUsable() ? pp->reduced_parameters.data()
                                   : original_reduced_parameters.data());
@@ -834,7 +845,7 @@ void Solver::Solve(const Solver::Options& options,
 
   if (status) {
     const absl::Time minimizer_start_time = absl::Now();
-    Minimize(&pp, summary);
+    Minimize(&pp, gradient_checking_callback, summary);
     summary->minimizer_time_in_seconds =
         absl::ToDoubleSeconds(absl::Now() - minimizer_start_time);
   } else {
@@ -853,13 +864,6 @@ void Solver::Solve(const Solver::Options& options,
   summary->postprocessor_time_in_seconds =
       absl::ToDoubleSeconds(absl::Now() - postprocessor_start_time);
 
-  // If the gradient checker reported an error, we want to report FAILURE
-  // instead of USER_FAILURE and provide the error log.
-  if (gradient_checking_callback.gradient_error_detected()) {
-    summary->termination_type = FAILURE;
-    summary->message = gradient_checking_callback.error_log();
-  }
-
   summary->total_time_in_seconds =
       absl::ToDoubleSeconds(absl::Now() - start_time);
 }
-- 
2.43.0


From 0fa1ab04a67620de8ea02b8dd69ad817cdcab4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 25/48] fix: NumericDiffCostFunction fails when a perturbed
 evaluation fails

---
 include/ceres/numeric_diff_cost_function.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ceres/numeric_diff_cost_function.h b/include/ceres/numeric_diff_cost_function.h
index 5889b70..e4aad2c 100644
--- a/include/ceres/numeric_diff_cost_function.h
+++ b/include/ceres/numeric_diff_cost_function.h
@@ -267,17 +267,15 @@ class NumericDiffCostFunction final
                   parameters_reference_copy[block]);
     }
 
-    internal::EvaluateJacobianForParameterBlocks<kMethod,
-                                                 kNumResiduals,
-                                                 ParameterDims>(
+    return internal::EvaluateJacobianForParameterBlocks<kMethod,
+                                                        kNumResiduals,
+                                                        ParameterDims>(
         functor_.get(),
         residuals,
         options_,
         this->num_residuals(),
         parameters_reference_copy.data(),
         jacobians);
-
-    return true;
   }
 
   const CostFunctor& functor() const { return *functor_; }
-- 
2.43.0


From e00dfeb0032daa293c1d278317b0a91fdae3692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 26/48] fix: report the step norm of every valid trust region
 step

IterationSummary::step_norm was only computed as part of the parameter
tolerance test, which is skipped until the first successful step, and was
reported as 0 until then.
---
 internal/ceres/trust_region_minimizer.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index 1c5364b..1f902b0 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -110,9 +110,12 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
     const bool candidate_is_valid = ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
-    if (candidate_is_valid && atleast_one_successful_step &&
-        ParameterToleranceReached()) {
-      return;
+    if (candidate_is_valid) {
+      // Compute the norm of the step in the ambient space.
+      iteration_summary_.step_norm = (x_ - candidate_x_).norm();
+      if (atleast_one_successful_step && ParameterToleranceReached()) {
+        return;
+      }
     }
 
     if (FunctionToleranceReached()) {
@@ -727,8 +730,6 @@ bool TrustRegionMinimizer::MinTrustRegionRadiusReached() {
 bool TrustRegionMinimizer::ParameterToleranceReached() {
   const double x_norm = x_.norm();
 
-  // Compute the norm of the step in the ambient space.
-  iteration_summary_.step_norm = (x_ - candidate_x_).norm();
   const double step_size_tolerance =
       options_.parameter_tolerance * (x_norm + options_.parameter_tolerance);
 
-- 
2.43.0


From 55fac3c0b8ba6cc51060c92520f9af5607b058f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 27/48] fix: BISECTION halves the bracket of a Wolfe zoom, not
 its upper end

When the lower end of the bracket is not zero, halving the step size leaves
the bracket, is clamped to its lower end, and the zoom ends at a point that
violates the curvature condition.
---
 internal/ceres/line_search.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 1bd6374..ccc5449 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -217,8 +217,10 @@ double LineSearch::InterpolatingPolynomialMinimizingStepSize(
   if (!current.value_is_valid ||
       (interpolation_type == BISECTION && max_step_size <= current.x)) {
     // Either: sample is invalid; or we are using BISECTION and contracting
-    // the step size.
-    return std::min(std::max(current.x * 0.5, min_step_size), max_step_size);
+    // the step size. The step sizes of interest are those between the lower
+    // bound (zero, unless a bracket is known) and current.
+    return std::min(std::max((lowerbound.x + current.x) * 0.5, min_step_size),
+                    max_step_size);
   } else if (interpolation_type == BISECTION) {
     CHECK_GT(max_step_size, current.x);
     // We are expanding the search (during a Wolfe bracketing phase) using
-- 
2.43.0


From 8b2d2776c8e39810d764994d4d0186f7347ede6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 28/48] fix: the step counts of a summary start at zero

---
 internal/ceres/solver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 91eb2ea..5f79734 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -556,6 +556,9 @@ void PreSolveSummarize(const Solver::Options& options,
   summary->dense_linear_algebra_library_type  = options.dense_linear_algebra_library_type;
   summary->dogleg_type                        = options.dogleg_type;
   summary->inner_iteration_time_in_seconds    = 0.0;
+  summary->num_successful_steps               = 0;
+  summary->num_unsuccessful_steps             = 0;
+  summary->num_inner_iteration_steps          = 0;
   summary->num_line_search_steps              = 0;
   summary->line_search_cost_evaluation_time_in_seconds = 0.0;
   summary->line_search_gradient_evaluation_time_in_seconds = 0.0;
-- 
2.43.0


From 97c855a28b93a0795e0e0bb473eefab89b650d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 29/48] fix: iteration 0 of a line search solve is valid and
 successful, as documented

---
 internal/ceres/line_search_minimizer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/line_search_minimizer.cc b/internal/ceres/line_search_minimizer.cc
index d058855..2d52e2f 100644
--- a/internal/ceres/line_search_minimizer.cc
+++ b/internal/ceres/line_search_minimizer.cc
@@ -107,8 +107,8 @@ void LineSearchMinimizer::Minimize(const Minimizer::Options& options,
 
   IterationSummary iteration_summary;
   iteration_summary.iteration = 0;
-  iteration_summary.step_is_valid = false;
-  iteration_summary.step_is_successful = false;
+  iteration_summary.step_is_valid = true;
+  iteration_summary.step_is_successful = true;
   iteration_summary.cost_change = 0.0;
   iteration_summary.gradient_max_norm = 0.0;
   iteration_summary.gradient_norm = 0.0;
-- 
2.43.0


From 0bb30c2c6ea442e3db6577c232d42e56212a307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 30/48] fix: report eta for every trust region iteration

---
 internal/ceres/trust_region_minimizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index 1f902b0..c9379d6 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -93,6 +93,7 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
     iteration_summary_ = IterationSummary();
     iteration_summary_.iteration =
         solver_summary->iterations.back().iteration + 1;
+    iteration_summary_.eta = options_.eta;
 
     RETURN_IF_ERROR_AND_LOG(ComputeTrustRegionStep());
     if (!iteration_summary_.step_is_valid) {
@@ -499,7 +500,6 @@ bool TrustRegionMinimizer::HandleInvalidStep() {
       solver_summary_->iterations.back().gradient_norm;
   iteration_summary_.step_norm = 0.0;
   iteration_summary_.relative_decrease = 0.0;
-  iteration_summary_.eta = options_.eta;
   return true;
 }
 
-- 
2.43.0


From 0d7aa5d774ab17e52ed8ac2a623962fa689f08ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 31/48] fix: inner_iteration_time counts inner iterations whose
 result fails to evaluate

---
 internal/ceres/trust_region_minimizer.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index c9379d6..f771a47 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -524,11 +524,15 @@ void TrustRegionMinimizer::DoInnerIterationsIfNeeded() {
   options_.inner_iteration_minimizer->Minimize(
       options_, inner_iteration_x_.data(), &inner_iteration_summary);
   double inner_iteration_cost;
-  if (!evaluator_->Evaluate(inner_iteration_x_.data(),
-                            &inner_iteration_cost,
-                            nullptr,
-                            nullptr,
-                            nullptr)) {
+  const bool inner_iteration_is_valid =
+      evaluator_->Evaluate(inner_iteration_x_.data(),
+                           &inner_iteration_cost,
+                           nullptr,
+                           nullptr,
+                           nullptr);
+  solver_summary_->inner_iteration_time_in_seconds +=
+      absl::ToDoubleSeconds(absl::Now() - inner_iteration_start_time);
+  if (!inner_iteration_is_valid) {
     if (is_not_silent_) {
       VLOG(2) << "Inner iteration failed.";
     }
@@ -585,9 +589,6 @@ void TrustRegionMinimizer::DoInnerIterationsIfNeeded() {
             << inner_iteration_relative_progress;
   }
   candidate_cost_ = inner_iteration_cost;
-
-  solver_summary_->inner_iteration_time_in_seconds +=
-      absl::ToDoubleSeconds(absl::Now() - inner_iteration_start_time);
 }
 
 // Perform a projected line search to improve the objective function
-- 
2.43.0


From 98fcb7dfb08769ac1960daa217f0a25389688519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 32/48] fix: Solve leaves the caller's parameter block
 orderings alone

---
 internal/ceres/trust_region_preprocessor.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 9d7a37d..a334f52 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -381,6 +381,17 @@ bool TrustRegionPreprocessor::Preprocess(const Solver::Options& options,
   EventLogger event_logger("TrustRegionPreprocessor::Preprocess");
   CHECK(pp != nullptr);
   pp->options = options;
+  // The orderings are going to be modified, and the user's options share them.
+  if (options.linear_solver_ordering != nullptr) {
+    pp->options.linear_solver_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.linear_solver_ordering);
+  }
+  if (options.inner_iteration_ordering != nullptr) {
+    pp->options.inner_iteration_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.inner_iteration_ordering);
+  }
   ChangeNumThreadsIfNeeded(&pp->options);
 
   pp->problem = problem;
-- 
2.43.0


From f50f686e44c189153627932ea15437a89c979f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 33/48] fix: DENSE_QR in place of DENSE_SCHUR does not report
 mixed precision solves

---
 internal/ceres/trust_region_preprocessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index a334f52..0e8b2a4 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -87,6 +87,10 @@ void AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(
       options->preconditioner_type;
   options->linear_solver_type =
       LinearSolver::LinearSolverForZeroEBlocks(linear_solver_type_given);
+  if (options->linear_solver_type == DENSE_QR) {
+    // DENSE_QR does not support mixed precision solves.
+    options->use_mixed_precision_solves = false;
+  }
 
   std::string message;
   if (linear_solver_type_given == ITERATIVE_SCHUR) {
-- 
2.43.0


From eebaf98200a4bd1339a31d86b9588a7a4b319063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 34/48] fix: options with min_lm_diagonal = 0 are refused
 instead of aborting the solve

---
 internal/ceres/solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 5f79734..bd00b5d 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -411,7 +411,7 @@ bool TrustRegionOptionsAreValid(const Solver::Options& options,
   OPTION_LE_OPTION(min_trust_region_radius, initial_trust_region_radius);
   OPTION_LE_OPTION(initial_trust_region_radius, max_trust_region_radius);
   OPTION_GE(min_relative_decrease, 0.0);
-  OPTION_GE(min_lm_diagonal, 0.0);
+  OPTION_GT(min_lm_diagonal, 0.0);
   OPTION_GE(max_lm_diagonal, 0.0);
   OPTION_LE_OPTION(min_lm_diagonal, max_lm_diagonal);
   OPTION_GE(max_num_consecutive_invalid_steps, 0);
-- 
2.43.0


From b7a45f2aea40ccace2375c274e703ba41976a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 35/48] fix: check_gradients refuses a problem whose initial
 values are not finite

---
 internal/ceres/solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index bd00b5d..47cf79b 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -783,6 +783,11 @@ void Solver::Solve(const Solver::Options& options,
   internal::GradientCheckingIterationCallback gradient_checking_callback;
   Solver::Options modified_options = options;
   if (options.check_gradients) {
+    // The manifolds of the copy are evaluated while it is created.
+    if (!program->ParameterBlocksAreFinite(&summary->message)) {
+      LOG(ERROR) << "Terminating: " << summary->message;
+      return;
+    }
     modified_options.callbacks.push_back(&gradient_checking_callback);
     gradient_checking_problem = CreateGradientCheckingProblemImpl(
         problem_impl,
-- 
2.43.0


From 8db5cf0d64de65a573f239969b06edb3dea70d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 36/48] fix: a one group ordering with a foreign pointer is
 refused for Schur type solvers

---
 internal/ceres/reorder_program.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/ceres/reorder_program.cc b/internal/ceres/reorder_program.cc
index e02af43..fd0da64 100644
--- a/internal/ceres/reorder_program.cc
+++ b/internal/ceres/reorder_program.cc
@@ -490,6 +490,16 @@ bool ReorderProgramForSchurTypeLinearSolver(
     // parameter block ordering as it sees fit. For Schur type solvers,
     // this means that the user wishes for Ceres to identify the
     // e_blocks, which we do by computing a maximal independent set.
+    for (auto* parameter_block : program->parameter_blocks()) {
+      if (!parameter_block_ordering->IsMember(
+              parameter_block->mutable_user_state())) {
+        *error =
+            "The parameter block ordering contains a pointer to a double "
+            "that is not a parameter block in the problem.";
+        return false;
+      }
+    }
+
     std::vector<ParameterBlock*> schur_ordering;
     const int size_of_first_elimination_group =
         ComputeStableSchurOrdering(*program, &schur_ordering);
-- 
2.43.0


From 6f4ed21b0b57d403995f08ec3d75b0f9c6417256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 37/48] fix: an inner iteration ordering with a foreign pointer
 is refused

---
 internal/ceres/coordinate_descent_minimizer.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/coordinate_descent_minimizer.cc b/internal/ceres/coordinate_descent_minimizer.cc
index 556d3aa..1f4b3bd 100644
--- a/internal/ceres/coordinate_descent_minimizer.cc
+++ b/internal/ceres/coordinate_descent_minimizer.cc
@@ -67,7 +67,7 @@ bool CoordinateDescentMinimizer::Init(
     const Program& program,
     const ProblemImpl::ParameterMap& parameter_map,
     const ParameterBlockOrdering& ordering,
-    std::string* /*error*/) {
+    std::string* error) {
   parameter_blocks_.clear();
   independent_set_offsets_.clear();
   independent_set_offsets_.push_back(0);
@@ -83,7 +83,14 @@ bool CoordinateDescentMinimizer::Init(
   for (const auto& g_t_e : group_to_elements) {
     const auto& elements = g_t_e.second;
     for (double* parameter_block : elements) {
-      parameter_blocks_.push_back(parameter_map.find(parameter_block)->second);
+      const auto it = parameter_map.find(parameter_block);
+      if (it == parameter_map.end()) {
+        *error =
+            "The inner iteration ordering contains a pointer to a double that "
+            "is not a parameter block in the problem.";
+        return false;
+      }
+      parameter_blocks_.push_back(it->second);
       parameter_block_index[parameter_blocks_.back()] =
           parameter_blocks_.size() - 1;
     }
-- 
2.43.0


From f2073e4a6fa4823a9d0886c09ed571ae899d3e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 38/48] fix: a linear solver ordering without any remaining
 block does not abort

---
 internal/ceres/trust_region_preprocessor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 0e8b2a4..b16c95c 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -186,9 +186,10 @@ bool SetupLinearSolver(PreprocessedProblem* pp) {
     // user's requested linear solver (and a preconditioner as the
     // case may be) so we must use a different one.
     ParameterBlockOrdering* ordering = options.linear_solver_ordering.get();
-    const int min_group_id = ordering->MinNonZeroGroup();
+    const int min_group_id =
+        ordering->NumGroups() > 0 ? ordering->MinNonZeroGroup() : -1;
     ordering->Remove(pp->removed_parameter_blocks);
-    if (IsSchurType(options.linear_solver_type) &&
+    if (IsSchurType(options.linear_solver_type) && ordering->NumGroups() > 0 &&
         min_group_id != ordering->MinNonZeroGroup()) {
       AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(&options);
     }
-- 
2.43.0


From d00e5deef2621874462a78fa587f91036c95eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 39/48] fix: solvers which do not use the sparse library accept
 CUDA_SPARSE without CUDA

---
 internal/ceres/block_jacobian_writer.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/block_jacobian_writer.cc b/internal/ceres/block_jacobian_writer.cc
index 34cdc1b..a6e4879 100644
--- a/internal/ceres/block_jacobian_writer.cc
+++ b/internal/ceres/block_jacobian_writer.cc
@@ -38,6 +38,7 @@
 #include "absl/log/log.h"
 #include "ceres/block_evaluate_preparer.h"
 #include "ceres/block_sparse_matrix.h"
+#include "ceres/internal/config.h"
 #include "ceres/internal/eigen.h"
 #include "ceres/internal/export.h"
 #include "ceres/parameter_block.h"
@@ -258,8 +259,15 @@ std::unique_ptr<SparseMatrix> BlockJacobianWriter::CreateJacobian() const {
     std::sort(row->cells.begin(), row->cells.end(), CellLessThan);
   }
 
-  return std::make_unique<BlockSparseMatrix>(
-      bs, options_.sparse_linear_algebra_library_type == CUDA_SPARSE);
+#ifndef CERES_NO_CUDA
+  const bool use_page_locked_memory =
+      options_.sparse_linear_algebra_library_type == CUDA_SPARSE;
+#else
+  // Linear solvers which do not use the sparse linear algebra library accept
+  // any.
+  const bool use_page_locked_memory = false;
+#endif
+  return std::make_unique<BlockSparseMatrix>(bs, use_page_locked_memory);
 }
 
 }  // namespace ceres::internal
-- 
2.43.0


From 66b1c1e04b1e231b4ad25a2f4004557024795f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 40/48] fix: TinySolver handles functions that cannot be
 evaluated

---
 include/ceres/tiny_solver.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 093bc36..207b0c7 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -177,6 +177,10 @@ class TinySolver {
     HIT_MAX_ITERATIONS,
     // (new_cost - old_cost) < function_tolerance * old_cost
     COST_CHANGE_TOO_SMALL,
+    // The function could not be evaluated at the initial point, or its jacobian
+    // could not be evaluated at a point where its residuals could. The
+    // parameters are the best ones for which both could be evaluated.
+    EVALUATION_FAILED,
 
     // TODO(sameeragarwal): Deal with numerical failures.
   };
@@ -247,8 +251,10 @@ class TinySolver {
     summary = Summary();
     summary.iterations = 0;
 
-    // TODO(sameeragarwal): Deal with failure here.
-    Update(function, x);
+    if (!Update(function, x)) {
+      summary.status = EVALUATION_FAILED;
+      return summary;
+    }
     summary.initial_cost = cost_;
     summary.final_cost = cost_;
 
@@ -292,9 +298,9 @@ class TinySolver {
       }
       x_new_ = x + dx_;
 
-      // TODO(keir): Add proper handling of errors from user eval of cost
-      // functions.
-      function(&x_new_[0], &f_x_new_[0], nullptr);
+      // A step to a point at which the function cannot be evaluated is
+      // rejected.
+      const bool x_new_is_valid = function(&x_new_[0], &f_x_new_[0], nullptr);
 
       const Scalar cost_change = (2 * cost_ - f_x_new_.squaredNorm());
       // TODO(sameeragarwal): Better more numerically stable evaluation.
@@ -304,13 +310,15 @@ class TinySolver {
       // in error that would be obtained if the problem was linear. See [1]
       // for details.
       Scalar rho(cost_change / model_cost_change);
-      if (rho > 0) {
+      if (x_new_is_valid && rho > 0) {
         // Accept the Levenberg-Marquardt step because the linear
         // model fits well.
+        if (!Update(function, x_new_)) {
+          summary.status = EVALUATION_FAILED;
+          break;
+        }
         x = x_new_;
 
-        // TODO(sameeragarwal): Deal with failure.
-        Update(function, x);
         if (std::abs(cost_change) < options.function_tolerance) {
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
@@ -335,7 +343,8 @@ class TinySolver {
         // or the local linear model was not good (rho < 0).
 
         // Additionally if the cost change is too small, then terminate.
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (x_new_is_valid &&
+            std::abs(cost_change) < options.function_tolerance) {
           // Terminate
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
-- 
2.43.0


From 6f0fc9cd66ce27c627ee41051e2c0785684045e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 41/48] fix: TinySolver's gradient_max_norm is the norm of J'f
 as documented

---
 include/ceres/tiny_solver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 207b0c7..fd0cb2e 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -239,7 +239,9 @@ class TinySolver {
     jacobian_ = jacobian_ * jacobi_scaling_.asDiagonal();
     jtj_ = jacobian_.transpose() * jacobian_;
     g_ = jacobian_.transpose() * residuals_;
-    summary.gradient_max_norm = g_.array().abs().maxCoeff();
+    // g_ is the gradient with respect to the scaled parameters.
+    summary.gradient_max_norm =
+        (g_.array() / jacobi_scaling_.array()).abs().maxCoeff();
     cost_ = residuals_.squaredNorm() / 2;
     return true;
   }
-- 
2.43.0


From 45726be067fc1dd3cb4660a2567ab01ac2d0ffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 42/48] fix: TinySolver's function_tolerance is relative to the
 cost as documented

---
 include/ceres/tiny_solver.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index fd0cb2e..a3b4940 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -175,7 +175,7 @@ class TinySolver {
     COST_TOO_SMALL,
     // num_iterations >= max_num_iterations
     HIT_MAX_ITERATIONS,
-    // (new_cost - old_cost) < function_tolerance * old_cost
+    // |new_cost - old_cost| < function_tolerance * old_cost
     COST_CHANGE_TOO_SMALL,
     // The function could not be evaluated at the initial point, or its jacobian
     // could not be evaluated at a point where its residuals could. The
@@ -194,7 +194,7 @@ class TinySolver {
     //  ||dx|| <= parameter_tolerance * (||x|| + parameter_tolerance)
     Scalar parameter_tolerance = 1e-8;
 
-    // (new_cost - old_cost) < function_tolerance * old_cost
+    // |new_cost - old_cost| < function_tolerance * old_cost
     Scalar function_tolerance = 1e-6;
 
     // cost_threshold > ||f(x)||^2 / 2
@@ -312,6 +312,9 @@ class TinySolver {
       // in error that would be obtained if the problem was linear. See [1]
       // for details.
       Scalar rho(cost_change / model_cost_change);
+
+      const bool cost_change_is_too_small =
+          std::abs(cost_change) < options.function_tolerance * 2 * cost_;
       if (x_new_is_valid && rho > 0) {
         // Accept the Levenberg-Marquardt step because the linear
         // model fits well.
@@ -321,7 +324,7 @@ class TinySolver {
         }
         x = x_new_;
 
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (cost_change_is_too_small) {
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
         }
@@ -345,8 +348,7 @@ class TinySolver {
         // or the local linear model was not good (rho < 0).
 
         // Additionally if the cost change is too small, then terminate.
-        if (x_new_is_valid &&
-            std::abs(cost_change) < options.function_tolerance) {
+        if (x_new_is_valid && cost_change_is_too_small) {
           // Terminate
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
-- 
2.43.0


From 0a143df5a07b0fac38f9c8855472f96dba94f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 43/48] fix: refuse a residual block whose cost or loss
 derivatives are not finite

Finite residuals can have a squared norm that overflows or that a loss
function maps to NaN. The corrector then aborted on rho[1] > 0, and a block
of constant parameters made a solve converge to an infinite cost.
---
 internal/ceres/residual_block.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/residual_block.cc b/internal/ceres/residual_block.cc
index 311d0a4..7b837a7 100644
--- a/internal/ceres/residual_block.cc
+++ b/internal/ceres/residual_block.cc
@@ -32,6 +32,7 @@
 #include "ceres/residual_block.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstddef>
 #include <vector>
 
@@ -158,14 +159,19 @@ bool ResidualBlock::Evaluate(const bool apply_loss_function,
     }
   }
 
+  // Finite residuals can have a norm or a loss that is not.
   if (loss_function_ == nullptr || !apply_loss_function) {
     *cost = 0.5 * squared_norm;
-    return true;
+    return std::isfinite(*cost);
   }
 
   double rho[3];
   loss_function_->Evaluate(squared_norm, rho);
   *cost = 0.5 * rho[0];
+  if (!std::isfinite(rho[0]) || !std::isfinite(rho[1]) ||
+      (squared_norm > 0.0 && std::isnan(rho[2]))) {
+    return false;
+  }
 
   // No jacobians and not outputting residuals? All done. Doing an early exit
   // here avoids constructing the "Corrector" object below in a common case.
-- 
2.43.0


From a4f8a5cd5c2ef8fb28ccfb0f2e73d3de07bab581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 44/48] fix: do not report an overflowing covariance as
 computed

With entries of the Jacobian close to the smallest doubles the inverse of J'J
overflows, and Compute returned true with a covariance full of NaNs.
---
 internal/ceres/covariance_impl.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 12e544b..3891b36 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -48,6 +48,7 @@
 #include "absl/container/flat_hash_set.h"
 #include "absl/log/check.h"
 #include "absl/log/log.h"
+#include "ceres/array_utils.h"
 #include "ceres/compressed_col_sparse_matrix_utils.h"
 #include "ceres/compressed_row_sparse_matrix.h"
 #include "ceres/covariance.h"
@@ -112,6 +113,13 @@ bool CovarianceImpl::Compute(const CovarianceBlocks& covariance_blocks,
   covariance_matrix_ = nullptr;
   is_valid_ = (ComputeCovarianceSparsity(covariance_blocks, problem) &&
                ComputeCovarianceValues());
+  // The inverse of a matrix with very small or very large entries can overflow.
+  if (is_valid_ && covariance_matrix_ != nullptr &&
+      !IsArrayValid(covariance_matrix_->num_nonzeros(),
+                    covariance_matrix_->values())) {
+    LOG(ERROR) << "The covariance matrix is not finite.";
+    is_valid_ = false;
+  }
   is_computed_ = true;
   return is_valid_;
 }
-- 
2.43.0


From a7eeda13676c853315a9d5456a7136977dcbf0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 45/48] fix: line search does not evaluate the function at
 points that are not finite

A step along a very long direction can overflow. The function was evaluated
at coordinates that are infinite or NaN.
---
 internal/ceres/line_search.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index ccc5449..47bc705 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -113,7 +113,8 @@ void LineSearchFunction::Evaluate(const double x,
   output->vector_x.resize(position_.rows(), 1);
   if (!evaluator_->Plus(position_.data(),
                         scaled_direction_.data(),
-                        output->vector_x.data())) {
+                        output->vector_x.data()) ||
+      !output->vector_x.allFinite()) {
     return;
   }
   output->vector_x_is_valid = true;
-- 
2.43.0


From b1038e06622e98137cf6b8e750f8030b65bcc5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 46/48] fix: line search treats a point without a finite
 gradient as not evaluated

Its value was kept as valid, so the Wolfe search could choose it as an end of
the bracket and then abort on a CHECK in the zoom phase.
---
 internal/ceres/line_search.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 47bc705..b7fde2f 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -138,6 +138,8 @@ void LineSearchFunction::Evaluate(const double x,
 
   output->gradient = direction_.dot(output->vector_gradient);
   if (!std::isfinite(output->gradient)) {
+    // A point without a gradient is no end of a bracket and no next iterate.
+    output->value_is_valid = false;
     return;
   }
 
-- 
2.43.0


From a23a57871f9e52a98c9d6009914c8063cc005913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:36 +0000
Subject: [PATCH 47/48] fix: recover the eliminated variables when the explicit
 Schur complement's conjugate gradients run out of iterations

SchurComplementSolver back substituted only after SUCCESS, so that with
ITERATIVE_SCHUR, use_explicit_schur_complement and a reached
max_linear_solver_iterations the e-block part of the step was zero, while the
step is used by the trust region strategies (and the implicit solver back
substitutes in this case).
---
 internal/ceres/schur_complement_solver.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/schur_complement_solver.cc b/internal/ceres/schur_complement_solver.cc
index 4a2fbba..d5c0fc4 100644
--- a/internal/ceres/schur_complement_solver.cc
+++ b/internal/ceres/schur_complement_solver.cc
@@ -149,7 +149,10 @@ LinearSolver::Summary SchurComplementSolver::SolveImpl(
       SolveReducedLinearSystem(per_solve_options, reduced_solution);
   event_logger.AddEvent("ReducedSolve");
 
-  if (summary.termination_type == LinearSolverTerminationType::SUCCESS) {
+  // An iterative solver that has run out of iterations still returns a usable
+  // solution to the reduced system, from which the rest must be recovered.
+  if (summary.termination_type != LinearSolverTerminationType::FAILURE &&
+      summary.termination_type != LinearSolverTerminationType::FATAL_ERROR) {
     eliminator_->BackSubstitute(
         BlockSparseMatrixData(*A), b, per_solve_options.D, reduced_solution, x);
     event_logger.AddEvent("BackSubstitute");
-- 
2.43.0


From 3690030229a0ca21956f3274474fa13991e7922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:16 +0000
Subject: [PATCH 48/48] fix: a compressed row matrix may be appended rows
 without entries

The check that the first appended entry has a place aborted when there is
none.
---
 internal/ceres/compressed_row_sparse_matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/compressed_row_sparse_matrix.cc b/internal/ceres/compressed_row_sparse_matrix.cc
index b474cca..b0aa49b 100644
--- a/internal/ceres/compressed_row_sparse_matrix.cc
+++ b/internal/ceres/compressed_row_sparse_matrix.cc
@@ -500,8 +500,8 @@ void CompressedRowSparseMatrix::AppendRows(const CompressedRowSparseMatrix& m) {
   }
 
   // Copy the contents of m into this matrix.
-  DCHECK_LT(num_nonzeros(), cols_.size());
   if (m.num_nonzeros() > 0) {
+    DCHECK_LT(num_nonzeros(), cols_.size());
     std::copy(m.cols(), m.cols() + m.num_nonzeros(), &cols_[num_nonzeros()]);
     std::copy(
         m.values(), m.values() + m.num_nonzeros(), &values_[num_nonzeros()]);
-- 
2.43.0

