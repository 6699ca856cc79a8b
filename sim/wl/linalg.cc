// C05: every linear solver, preconditioner and multi-threaded kernel gives the
// solution / product that the matrices define.
#include <functional>
#include <memory>
#include <numeric>

#include "ceres/block_jacobi_preconditioner.h"
#include "ceres/block_random_access_dense_matrix.h"
#include "ceres/block_random_access_sparse_matrix.h"
#include "ceres/block_sparse_matrix.h"
#include "ceres/block_structure.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/context_impl.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/detect_structure.h"
#include "ceres/implicit_schur_complement.h"
#include "ceres/inner_product_computer.h"
#include "ceres/linear_solver.h"
#include "ceres/partitioned_matrix_view.h"
#include "ceres/power_series_expansion_preconditioner.h"
#include "ceres/schur_eliminator.h"
#include "ceres/schur_jacobi_preconditioner.h"
#include "ceres/subset_preconditioner.h"
#include "ceres/triplet_sparse_matrix.h"
#include "ceres/visibility_based_preconditioner.h"
#include "prob.h"

namespace {

using namespace ceres::internal;
using wl::Mat;
using wl::Vec;

struct Sys {
  std::unique_ptr<BlockSparseMatrix> A;
  int num_e = 0, e_cols = 0, f_cols = 0;
  Mat dense;
  Vec b, D;
};

struct Shape {
  std::vector<int> col_sizes;
  int num_e = 0;
  std::vector<int> row_sizes;
  std::vector<std::vector<int>> row_cols;
};

Shape DrawShape() {
  Shape s;
  const bool special = sim::Chance(12);  // the 2,3,6 single f-block structure
  const int ne = sim::Range(1, special ? 8 : 10);
  const int nf = special ? 1 : sim::Range(1, 7);
  const bool fixed = special || sim::Chance(30);
  const int es = special ? 3 : sim::Range(1, 3), fs = special ? 6 : sim::Range(1, 4), rs = special ? 2 : sim::Range(1, 3);
  for (int i = 0; i < ne; ++i) s.col_sizes.push_back(fixed ? es : sim::Range(1, 3));
  for (int i = 0; i < nf; ++i) s.col_sizes.push_back(fixed ? fs : sim::Range(1, 4));
  s.num_e = ne;
  for (int e = 0; e < ne; ++e) {
    const int rows = sim::Range(1, 5);
    for (int r = 0; r < rows; ++r) {
      std::vector<int> c{e};
      if (special) {
        c.push_back(ne);
      } else {
        const int k = sim::Range(0, std::min(nf, 3));
        std::set<int> fsel;
        for (int j = 0; j < k; ++j) fsel.insert(ne + static_cast<int>(sim::Draw(nf)));
        for (int f : fsel) c.push_back(f);
      }
      s.row_sizes.push_back(fixed ? rs : sim::Range(1, 4));
      s.row_cols.push_back(c);
    }
  }
  const int extra = special ? (sim::Chance(50) ? 1 : 0) : sim::Range(0, 5);
  for (int r = 0; r < extra; ++r) {
    std::set<int> fsel{ne + static_cast<int>(sim::Draw(nf))};
    if (sim::Chance(50)) fsel.insert(ne + static_cast<int>(sim::Draw(nf)));
    s.row_sizes.push_back(fixed ? rs : sim::Range(1, 4));
    s.row_cols.push_back(std::vector<int>(fsel.begin(), fsel.end()));
  }
  return s;
}

std::unique_ptr<BlockSparseMatrix> MakeMatrix(const Shape& s) {
  auto* bs = new CompressedRowBlockStructure;
  int pos = 0;
  for (int c : s.col_sizes) {
    bs->cols.push_back(Block(c, pos));
    pos += c;
  }
  // The values of e-cells come first, then those of f-cells, as the block
  // Jacobian writer lays them out.
  int row = 0, value = 0;
  bs->rows.resize(s.row_sizes.size());
  for (size_t r = 0; r < s.row_sizes.size(); ++r) {
    bs->rows[r].block = Block(s.row_sizes[r], row);
    row += s.row_sizes[r];
    for (int c : s.row_cols[r]) bs->rows[r].cells.push_back(Cell(c, -1));
  }
  for (auto& r : bs->rows)
    for (auto& c : r.cells)
      if (c.block_id < s.num_e) {
        c.position = value;
        value += r.block.size * bs->cols[c.block_id].size;
      }
  for (auto& r : bs->rows)
    for (auto& c : r.cells)
      if (c.block_id >= s.num_e) {
        c.position = value;
        value += r.block.size * bs->cols[c.block_id].size;
      }
  int cum = 0;
  for (auto& r : bs->rows) {
    r.nnz = 0;
    for (auto& c : r.cells) r.nnz += r.block.size * bs->cols[c.block_id].size;
    cum += r.nnz;
    r.cumulative_nnz = cum;
  }
  auto A = std::make_unique<BlockSparseMatrix>(bs);
  A->AddTransposeBlockStructure();
  return A;
}

void FillValues(Sys* s, const Shape& sh) {
  double* v = s->A->mutable_values();
  for (int i = 0; i < s->A->num_nonzeros(); ++i) v[i] = sim::Uniform(-1, 1);
  s->dense = Mat::Zero(s->A->num_rows(), s->A->num_cols());
  const auto* bs = s->A->block_structure();
  for (auto& r : bs->rows)
    for (auto& c : r.cells) {
      const auto& cb = bs->cols[c.block_id];
      for (int i = 0; i < r.block.size; ++i)
        for (int j = 0; j < cb.size; ++j) s->dense(r.block.position + i, cb.position + j) = v[c.position + i * cb.size + j];
    }
  s->b = Vec(s->A->num_rows());
  for (int i = 0; i < s->b.size(); ++i) s->b[i] = sim::Uniform(-2, 2);
  s->D = Vec(s->A->num_cols());
  for (int i = 0; i < s->D.size(); ++i) s->D[i] = sim::Uniform(0.3, 2);
}

Sys MakeSystem(const Shape& sh) {
  Sys s;
  s.A = MakeMatrix(sh);
  s.num_e = sh.num_e;
  for (size_t i = 0; i < sh.col_sizes.size(); ++i) (static_cast<int>(i) < sh.num_e ? s.e_cols : s.f_cols) += sh.col_sizes[i];
  FillValues(&s, sh);
  return s;
}

uint64_t ShapeHash(const Shape& s) {
  uint64_t h = 7;
  for (int v : s.col_sizes) h = wl::HashMix(h, v);
  for (auto& r : s.row_cols)
    for (int v : r) h = wl::HashMix(h, v + 100);
  return h;
}

int DrawThreads() {
  static const int t[] = {2, 1, 3, 4, 6, 8};
  return t[sim::Draw(6)];
}

Vec Exact(const Sys& s) {
  Mat H = s.dense.transpose() * s.dense;
  H.diagonal() += s.D.cwiseAbs2();
  return H.ldlt().solve(s.dense.transpose() * s.b);
}

void CheckVec(const double* x, const Vec& ref, double tol, const char* kind, const char* what) {
  const double scale = 1.0 + ref.lpNorm<Eigen::Infinity>();
  for (int i = 0; i < ref.size(); ++i)
    SIM_CHECK(std::isfinite(x[i]) && std::abs(x[i] - ref[i]) <= tol * scale, kind, "%s: entry %d is %.17g, the dense reference gives %.17g", what, i, x[i], ref[i]);
}

// ---------------------------------------------------------------------------
SIM_WORKLOAD(C05, solver, 10) {
  Shape sh;
  std::unique_ptr<Sys> sys;
  {
    sim::Quiet q;
    sh = DrawShape();
    sys = std::make_unique<Sys>(MakeSystem(sh));
  }
  ContextImpl context;
  LinearSolver::Options o;
  o.context = &context;
  o.num_threads = DrawThreads();
  context.EnsureMinimumThreads(o.num_threads - 1);
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.dense_linear_algebra_library_type = ceres::EIGEN;
  o.ordering_type = sim::Chance(50) ? OrderingType::NATURAL : OrderingType::AMD;
  o.min_num_iterations = 0;
  o.max_num_iterations = 500;
  o.residual_reset_period = sim::Range(1, 12);
  double tol = 1e-8;
  char name[160];
  const int kind = static_cast<int>(sim::Draw(10));
  bool schur = false, iterative = false;
  static const ceres::PreconditionerType schur_pre[] = {ceres::JACOBI, ceres::IDENTITY, ceres::SCHUR_JACOBI, ceres::SCHUR_POWER_SERIES_EXPANSION, ceres::CLUSTER_JACOBI, ceres::CLUSTER_TRIDIAGONAL};
  switch (kind) {
    case 0: o.type = ceres::DENSE_QR; break;
    case 1: o.type = ceres::DENSE_NORMAL_CHOLESKY; break;
    case 2: o.type = ceres::SPARSE_NORMAL_CHOLESKY; break;
    case 3:
      o.type = ceres::SPARSE_NORMAL_CHOLESKY;
      o.dynamic_sparsity = true;
      break;
    case 4: {
      o.type = ceres::CGNR;
      iterative = true;
      static const ceres::PreconditionerType p[] = {ceres::JACOBI, ceres::IDENTITY, ceres::SUBSET};
      o.preconditioner_type = p[sim::Draw(3)];
      if (o.preconditioner_type == ceres::SUBSET) o.subset_preconditioner_start_row_block = static_cast<int>(sim::Draw(sh.row_sizes.size()));
      break;
    }
    case 5:
    case 6:
      o.type = kind == 5 ? ceres::DENSE_SCHUR : ceres::SPARSE_SCHUR;
      schur = true;
      break;
    case 7:
    case 8:
      o.type = ceres::ITERATIVE_SCHUR;
      schur = iterative = true;
      o.preconditioner_type = schur_pre[sim::Draw(6)];
      o.visibility_clustering_type = sim::Chance(50) ? ceres::CANONICAL_VIEWS : ceres::SINGLE_LINKAGE;
      o.use_spse_initialization = sim::Chance(25);
      o.max_num_spse_iterations = sim::Range(1, 6);
      break;
    default:
      o.type = ceres::ITERATIVE_SCHUR;
      o.use_explicit_schur_complement = true;
      o.preconditioner_type = ceres::SCHUR_JACOBI;
      schur = iterative = true;
      break;
  }
  if (schur) {
    o.elimination_groups.push_back(sh.num_e);
    o.elimination_groups.push_back(static_cast<int>(sh.col_sizes.size()) - sh.num_e);
  }
  if (!iterative && sim::Chance(20) && kind != 0) {
    o.use_mixed_precision_solves = true;
    o.max_num_refinement_iterations = sim::Range(2, 5);
    tol = 2e-3;
  }
  if (!iterative && !o.use_mixed_precision_solves && sim::Chance(15)) o.max_num_refinement_iterations = sim::Range(1, 3);
  if (iterative) tol = 1e-5;
  snprintf(name, sizeof(name), "linear solver %s%s preconditioner %s, %d threads%s, %d refinements", LinearSolverTypeToString(o.type), o.dynamic_sparsity ? " (dynamic)" : o.use_explicit_schur_complement ? " (explicit)" : "",
           iterative ? PreconditionerTypeToString(o.preconditioner_type) : "-", o.num_threads, o.use_mixed_precision_solves ? ", mixed precision" : "", o.max_num_refinement_iterations);
  sim::State(wl::HashMix(ShapeHash(sh), kind * 100 + o.num_threads));
  sim::Event("%s: %dx%d, %d e-blocks of %zu", name, sys->A->num_rows(), sys->A->num_cols(), sh.num_e, sh.col_sizes.size());
  std::unique_ptr<LinearSolver> solver = LinearSolver::Create(o);
  SIM_CHECK(solver != nullptr, "no-solver", "%s", name);
  const int rounds = sim::Range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    if (round > 0) {
      sim::Quiet q;
      FillValues(sys.get(), sh);
    }
    std::unique_ptr<SparseMatrix> other;
    SparseMatrix* op = sys->A.get();
    {
      sim::Quiet q;
      if (kind <= 1) {
        ceres::Matrix d = sys->dense;
        other = std::make_unique<DenseSparseMatrix>(d);
      } else if (kind == 3) {
        TripletSparseMatrix t(sys->A->num_rows(), sys->A->num_cols(), sys->A->num_nonzeros());
        sys->A->ToTripletSparseMatrix(&t);
        other = CompressedRowSparseMatrix::FromTripletSparseMatrix(t);
      }
      if (other) op = other.get();
    }
    LinearSolver::PerSolveOptions po;
    po.D = sys->D.data();
    po.r_tolerance = 1e-14;
    po.q_tolerance = 0;
    const Vec D0 = sys->D, b0 = sys->b;
    Vec x = Vec::Constant(sys->A->num_cols(), std::numeric_limits<double>::quiet_NaN());
    LinearSolver::Summary sum = solver->Solve(op, sys->b.data(), po, x.data());
    sim::Quiet q;
    SIM_CHECK(sum.termination_type == LinearSolverTerminationType::SUCCESS || (iterative && sum.termination_type == LinearSolverTerminationType::NO_CONVERGENCE) ||
                  (iterative && sum.termination_type == LinearSolverTerminationType::FAILURE),
              "solver-failed", "%s: termination %d on a well-conditioned system: %s", name, (int)sum.termination_type, sum.message.c_str());
    if (sum.termination_type == LinearSolverTerminationType::FAILURE) {
      sim::Probe("linear.iterative_failure");
      continue;
    }
    CheckVec(x.data(), Exact(*sys), tol, "solution", name);
    // The matrix is an input.
    ceres::Matrix d;
    op->ToDenseMatrix(&d);
    SIM_CHECK(d.rows() == sys->dense.rows() && d.cols() == sys->dense.cols() && d == sys->dense, "input-modified", "%s modified the matrix it solved", name);
    SIM_CHECK(sys->D == D0 && sys->b == b0, "input-modified", "%s modified the right-hand side or the diagonal", name);
  }
  if (o.num_threads > 1) sim::NonTrivial();
}

// ---------------------------------------------------------------------------
// Conjugate gradients as defined: the same iterates, iteration counts and
// reasons as a dense reference, for every tolerance and iteration limit.
struct CgRef {
  Vec x;
  int iterations = 0;
  LinearSolverTerminationType type = LinearSolverTerminationType::NO_CONVERGENCE;
  bool tie = false;  // some decision was too close to call
};

CgRef ReferenceCg(const Mat& S, const Vec& rhs, const std::function<Vec(const Vec&)>& M, Vec x, int min_it, int max_it, double r_tol, double q_tol) {
  CgRef c;
  const double nb = rhs.norm();
  c.x = x;
  if (nb == 0) {
    c.x.setZero();
    c.type = LinearSolverTerminationType::SUCCESS;
    return c;
  }
  const double tol = r_tol * nb;
  auto close = [](double a, double b) { return std::abs(a - b) <= 1e-5 * std::max(std::abs(a), std::abs(b)); };
  Vec r = rhs - S * c.x, p = Vec::Zero(rhs.size());
  if (min_it == 0) {
    if (close(r.norm(), tol)) c.tie = true;
    if (r.norm() <= tol) {
      c.type = LinearSolverTerminationType::SUCCESS;
      return c;
    }
  }
  double rho = 1, q0 = -c.x.dot(rhs + r);
  for (c.iterations = 1;; ++c.iterations) {
    // What is left is rounding, of which nothing can be predicted.
    if (r.norm() <= 1e-10 * nb) {
      c.tie = true;
      return c;
    }
    const Vec z = M(r);
    const double last = rho;
    rho = r.dot(z);
    p = c.iterations == 1 ? z : Vec(z + rho / last * p);
    const Vec q = S * p;
    const double pq = p.dot(q);
    if (pq <= 1e-12 * p.norm() * q.norm() || rho <= 0) {
      c.tie = true;
      return c;
    }
    c.x += rho / pq * p;
    r = rhs - S * c.x;
    const double q1 = -c.x.dot(rhs + r), zeta = c.iterations * (q1 - q0) / q1;
    if (c.iterations >= min_it) {
      if (close(zeta, q_tol) || std::abs(zeta - q_tol) < 1e-9) c.tie = true;
      if (zeta < q_tol) {
        c.type = LinearSolverTerminationType::SUCCESS;
        return c;
      }
      if (close(r.norm(), tol)) c.tie = true;
      if (r.norm() <= tol) {
        c.type = LinearSolverTerminationType::SUCCESS;
        return c;
      }
    }
    q0 = q1;
    if (c.iterations >= max_it) return c;
  }
}

Mat BlockDiagonal(const Mat& H, const std::vector<int>& sizes, size_t first) {
  Mat r = Mat::Zero(H.rows(), H.cols());
  int p = 0;
  for (size_t i = first; i < sizes.size(); ++i) {
    r.block(p, p, sizes[i], sizes[i]) = H.block(p, p, sizes[i], sizes[i]);
    p += sizes[i];
  }
  return r;
}

SIM_WORKLOAD(C05, iterative, 6) {
  Shape sh;
  std::unique_ptr<Sys> sys;
  {
    sim::Quiet q;
    sh = DrawShape();
    sys = std::make_unique<Sys>(MakeSystem(sh));
  }
  ContextImpl context;
  LinearSolver::Options o;
  o.context = &context;
  o.num_threads = DrawThreads();
  context.EnsureMinimumThreads(o.num_threads - 1);
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.ordering_type = sim::Chance(50) ? OrderingType::NATURAL : OrderingType::AMD;
  static const int lo[] = {0, 1, 3}, hi[] = {1, 2, 3, 5, 10, 200};
  o.min_num_iterations = lo[sim::Draw(3)];
  o.max_num_iterations = std::max(hi[sim::Draw(6)], o.min_num_iterations);
  o.residual_reset_period = sim::Range(1, 12);
  const bool schur = sim::Chance(60);
  o.type = schur ? ceres::ITERATIVE_SCHUR : ceres::CGNR;
  static const ceres::PreconditionerType cp[] = {ceres::JACOBI, ceres::IDENTITY, ceres::SUBSET};
  static const ceres::PreconditionerType sp[] = {ceres::JACOBI, ceres::IDENTITY, ceres::SCHUR_JACOBI, ceres::SCHUR_POWER_SERIES_EXPANSION};
  o.preconditioner_type = schur ? sp[sim::Draw(4)] : cp[sim::Draw(3)];
  const int start = static_cast<int>(sim::Draw(sh.row_sizes.size()));
  if (o.preconditioner_type == ceres::SUBSET) o.subset_preconditioner_start_row_block = start;
  if (schur) {
    o.elimination_groups = {sh.num_e, static_cast<int>(sh.col_sizes.size()) - sh.num_e};
    if (o.preconditioner_type == ceres::SCHUR_JACOBI && sim::Chance(40)) o.use_explicit_schur_complement = true;
    else o.use_spse_initialization = sim::Chance(25);
    o.max_num_spse_iterations = sim::Range(1, 6);
    o.spse_tolerance = sim::Chance(50) ? 0.1 : 0.5;
  }
  char name[200];
  snprintf(name, sizeof(name), "%s%s preconditioner %s, %d threads, %d to %d iterations%s", LinearSolverTypeToString(o.type), o.use_explicit_schur_complement ? " (explicit)" : "", PreconditionerTypeToString(o.preconditioner_type), o.num_threads, o.min_num_iterations, o.max_num_iterations, o.use_spse_initialization ? ", initialised" : "");
  sim::State(wl::HashMix(ShapeHash(sh), o.preconditioner_type * 100 + o.num_threads));
  sim::Event("%s", name);
  std::unique_ptr<LinearSolver> solver = LinearSolver::Create(o);
  const int rounds = sim::Range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    static const double rt[] = {1e-1, 1e-2, 1e-4, 1e-7, 0.5}, qt[] = {0, 0, 0.1, 1e-3};
    LinearSolver::PerSolveOptions po;
    po.r_tolerance = rt[sim::Draw(5)];
    po.q_tolerance = qt[sim::Draw(4)];
    {
      sim::Quiet q;
      if (round > 0) FillValues(sys.get(), sh);
      if (sim::Chance(4)) sys->b.setZero();
    }
    const Vec D0 = sys->D, b0 = sys->b;
    po.D = sys->D.data();
    Vec x = Vec::Constant(sys->A->num_cols(), std::numeric_limits<double>::quiet_NaN());
    const LinearSolver::Summary sum = solver->Solve(sys->A.get(), sys->b.data(), po, x.data());
    sim::Quiet q;
    SIM_CHECK(sys->D == D0 && sys->b == b0, "input-modified", "%s modified the right-hand side or the diagonal", name);
    const int n = sys->A->num_cols(), ne = sys->e_cols, nf = sys->f_cols;
    Mat H = sys->dense.transpose() * sys->dense;
    H.diagonal() += sys->D.cwiseAbs2();
    Vec g = sys->dense.transpose() * sys->b;
    Mat S, Pi;
    Vec rhs, x0;
    std::function<Vec(const Vec&)> M;
    if (!schur) {
      S = H, rhs = g;
      x0 = Vec::Zero(n);
      Mat P;
      if (o.preconditioner_type == ceres::JACOBI) P = BlockDiagonal(H, sh.col_sizes, 0);
      if (o.preconditioner_type == ceres::SUBSET) {
        const int r0 = sys->A->block_structure()->rows[start].block.position;
        const Mat X = sys->dense.bottomRows(sys->dense.rows() - r0);
        P = X.transpose() * X;
        P.diagonal() += sys->D.cwiseAbs2();
      }
      auto f = std::make_shared<Eigen::LDLT<Eigen::MatrixXd>>(P.size() ? Eigen::MatrixXd(P) : Eigen::MatrixXd::Identity(n, n));
      M = [f](const Vec& v) { return Vec(f->solve(v)); };
    } else {
      const Mat Q = H.topRightCorner(ne, nf), R = H.bottomRightCorner(nf, nf);
      Pi = Mat(H.topLeftCorner(ne, ne)).llt().solve(Mat::Identity(ne, ne));
      S = R - Q.transpose() * Pi * Q;
      rhs = g.tail(nf) - Q.transpose() * Pi * g.head(ne);
      const Mat Z = Mat(BlockDiagonal(R, sh.col_sizes, sh.num_e)).llt().solve(Mat::Identity(nf, nf));
      auto spse = [Z, Q, Pi](const Vec& v, int most, double tol) {
        Vec y = Z * v, t = y;
        const double limit = tol * y.norm();
        bool tie = false;
        for (int i = 1;; ++i) {
          t = Z * (Q.transpose() * (Pi * (Q * t)));
          y += t;
          tie = tie || std::abs(t.norm() - limit) < 1e-7 * limit;
          if (i >= most || t.norm() < limit) break;
        }
        return std::make_pair(y, tie);
      };
      x0 = Vec::Zero(nf);
      bool tie = false;
      if (o.use_spse_initialization) std::tie(x0, tie) = spse(rhs, o.max_num_spse_iterations, o.spse_tolerance);
      if (tie) continue;
      if (o.preconditioner_type == ceres::SCHUR_POWER_SERIES_EXPANSION) {
        const int most = o.max_num_spse_iterations;
        M = [spse, most](const Vec& v) { return spse(v, most, 0).first; };
      } else {
        Mat P = o.preconditioner_type == ceres::JACOBI ? Mat(BlockDiagonal(R, sh.col_sizes, sh.num_e)) : o.preconditioner_type == ceres::SCHUR_JACOBI ? Mat(BlockDiagonal(S, sh.col_sizes, sh.num_e)) : Mat(Mat::Identity(nf, nf));
        auto f = std::make_shared<Eigen::LDLT<Eigen::MatrixXd>>(P);
        M = [f](const Vec& v) { return Vec(f->solve(v)); };
      }
    }
    const CgRef ref = ReferenceCg(S, rhs, M, x0, o.min_num_iterations, o.max_num_iterations, po.r_tolerance, po.q_tolerance);
    // Conjugate gradients amplify rounding: only what survives larger
    // perturbations of the system can be compared.
    Mat S1 = S;
    for (int i = 0; i < S1.rows(); ++i)
      for (int j = 0; j < S1.cols(); ++j) S1(i, j) *= 1 + 1e-12 * (((i * 7 + j * 7 + i * j) % 5) - 2);
    const CgRef near = ReferenceCg(S1, rhs, M, x0, o.min_num_iterations, o.max_num_iterations, po.r_tolerance, po.q_tolerance);
    if (ref.tie || near.tie || near.iterations != ref.iterations || (near.x - ref.x).norm() > 1e-8 * ref.x.norm()) {
      sim::Probe("cg.tie");
      continue;
    }
    SIM_CHECK(sum.termination_type == ref.type && sum.num_iterations == ref.iterations, "cg-iterations", "%s: %d iterations and termination %d (%s), the definition of conjugate gradients takes %d and ends with %d", name, sum.num_iterations, (int)sum.termination_type, sum.message.c_str(), ref.iterations, (int)ref.type);
    Vec full = ref.x;
    if (schur) {
      full.resize(n);
      full.tail(nf) = ref.x;
      full.head(ne) = Pi * (g.head(ne) - H.topRightCorner(ne, nf) * ref.x);
    }
    CheckVec(x.data(), full, 1e-6, "cg-iterate", name);
    sim::Probe(sum.termination_type == LinearSolverTerminationType::SUCCESS ? "cg.converged" : "cg.limit");
  }
  if (o.num_threads > 1) sim::NonTrivial();
}

// ---------------------------------------------------------------------------
// Systems without a unique solution are refused, and leave no trace in the solver.
SIM_WORKLOAD(C05, deficient, 3) {
  Shape sh;
  std::unique_ptr<Sys> sys;
  std::vector<int> dead;  // f-blocks that no residual depends on
  {
    sim::Quiet q;
    sh = DrawShape();
    for (auto& c : sh.row_cols)
      if (static_cast<int>(sh.row_cols.size()) < 1000 && c.empty()) c.push_back(0);
    sys = std::make_unique<Sys>(MakeSystem(sh));
  }
  ContextImpl context;
  LinearSolver::Options o;
  o.context = &context;
  o.num_threads = DrawThreads();
  context.EnsureMinimumThreads(o.num_threads - 1);
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.dense_linear_algebra_library_type = ceres::EIGEN;
  o.ordering_type = sim::Chance(50) ? OrderingType::NATURAL : OrderingType::AMD;
  o.max_num_iterations = 100;
  const int kind = static_cast<int>(sim::Draw(7));
  switch (kind) {
    case 0: o.type = ceres::DENSE_NORMAL_CHOLESKY; break;
    case 1: o.type = ceres::SPARSE_NORMAL_CHOLESKY; break;
    case 2:
      o.type = ceres::SPARSE_NORMAL_CHOLESKY;
      o.dynamic_sparsity = true;
      break;
    case 3: o.type = ceres::DENSE_SCHUR; break;
    case 4: o.type = ceres::SPARSE_SCHUR; break;
    case 5:
      o.type = ceres::CGNR;
      o.preconditioner_type = ceres::SUBSET;
      o.subset_preconditioner_start_row_block = static_cast<int>(sim::Draw(sh.row_sizes.size()));
      break;
    default:
      o.type = ceres::ITERATIVE_SCHUR;
      o.preconditioner_type = sim::Chance(50) ? ceres::CLUSTER_JACOBI : ceres::CLUSTER_TRIDIAGONAL;
      o.visibility_clustering_type = sim::Chance(50) ? ceres::CANONICAL_VIEWS : ceres::SINGLE_LINKAGE;
  }
  const bool schur = kind == 3 || kind == 4 || kind == 6;
  if (schur) o.elimination_groups = {sh.num_e, static_cast<int>(sh.col_sizes.size()) - sh.num_e};
  if (kind < 5 && sim::Chance(25)) {
    o.use_mixed_precision_solves = true;
    o.max_num_refinement_iterations = 3;
  }
  char name[160];
  snprintf(name, sizeof(name), "linear solver %s%s, %d threads%s", LinearSolverTypeToString(o.type), o.dynamic_sparsity ? " (dynamic)" : "", o.num_threads, o.use_mixed_precision_solves ? ", mixed precision" : "");
  sim::State(wl::HashMix(ShapeHash(sh), kind * 100 + o.num_threads));
  std::unique_ptr<LinearSolver> solver = LinearSolver::Create(o);
  const int rounds = sim::Range(2, 5);
  for (int round = 0; round < rounds; ++round) {
    const bool bad = sim::Chance(50);
    Vec D;
    {
      sim::Quiet q;
      FillValues(sys.get(), sh);
      D = sys->D;
      if (bad) {
        // One column no residual depends on, and no regularisation on it.
        const int block = (schur ? sh.num_e : 0) + static_cast<int>(sim::Draw(sh.col_sizes.size() - (schur ? sh.num_e : 0)));
        const auto* bs = sys->A->block_structure();
        const int col = bs->cols[block].position + static_cast<int>(sim::Draw(sh.col_sizes[block]));
        double* v = sys->A->mutable_values();
        for (auto& r : bs->rows)
          for (auto& c : r.cells)
            if (c.block_id == block)
              for (int i = 0; i < r.block.size; ++i) v[c.position + i * sh.col_sizes[block] + col - bs->cols[block].position] = 0;
        sys->dense.col(col).setZero();
        D[col] = 0;
      }
    }
    std::unique_ptr<SparseMatrix> other;
    SparseMatrix* op = sys->A.get();
    {
      sim::Quiet q;
      if (kind == 0) {
        ceres::Matrix d = sys->dense;
        other = std::make_unique<DenseSparseMatrix>(d);
      } else if (kind == 2) {
        TripletSparseMatrix t(sys->A->num_rows(), sys->A->num_cols(), sys->A->num_nonzeros());
        sys->A->ToTripletSparseMatrix(&t);
        other = CompressedRowSparseMatrix::FromTripletSparseMatrix(t);
      }
      if (other) op = other.get();
    }
    LinearSolver::PerSolveOptions po;
    const Vec D0 = D, b0 = sys->b;
    po.D = D.data();
    po.r_tolerance = 1e-12;
    Vec x = Vec::Zero(sys->A->num_cols());
    const LinearSolver::Summary sum = solver->Solve(op, sys->b.data(), po, x.data());
    sim::Quiet q;
    SIM_CHECK(D == D0 && sys->b == b0, "input-modified", "%s modified the right-hand side or the diagonal", name);
    ceres::Matrix d;
    op->ToDenseMatrix(&d);
    SIM_CHECK(d.rows() == sys->dense.rows() && d.cols() == sys->dense.cols() && d == sys->dense, "input-modified", "%s modified the matrix it solved", name);
    if (bad) {
      // CGNR may still solve it, since the system is consistent.
      SIM_CHECK(sum.termination_type == LinearSolverTerminationType::FAILURE || (kind >= 5 && sum.termination_type == LinearSolverTerminationType::NO_CONVERGENCE), "deficient-accepted", "%s: termination %d for a system without a unique solution: %s", name, (int)sum.termination_type, sum.message.c_str());
      SIM_CHECK(!sum.message.empty(), "no-message", "%s fails without a message", name);
      sim::Probe("deficient.refused");
    } else {
      const bool slow = kind >= 5 && sum.termination_type != LinearSolverTerminationType::SUCCESS;
      SIM_CHECK(slow || sum.termination_type == LinearSolverTerminationType::SUCCESS, "solver-failed", "%s: termination %d on a well-conditioned system: %s", name, (int)sum.termination_type, sum.message.c_str());
      if (!slow) CheckVec(x.data(), Exact(*sys), o.use_mixed_precision_solves ? 2e-3 : kind >= 5 ? 1e-5 : 1e-8, "solution", name);
      sim::Probe(round > 0 ? "deficient.recovered" : "deficient.solved");
    }
  }
  sim::NonTrivial();
}

// ---------------------------------------------------------------------------
SIM_WORKLOAD(C05, kernels, 10) {
  Shape sh;
  std::unique_ptr<Sys> sys;
  {
    sim::Quiet q;
    sh = DrawShape();
    sys = std::make_unique<Sys>(MakeSystem(sh));
  }
  ContextImpl context;
  const int threads = DrawThreads();
  context.EnsureMinimumThreads(threads - 1);
  BlockSparseMatrix& A = *sys->A;
  const int m = A.num_rows(), n = A.num_cols(), ne = sys->e_cols, nf = sys->f_cols;
  auto rnd = [](int k) {
    sim::Quiet q;
    Vec v(k);
    for (int i = 0; i < k; ++i) v[i] = sim::Uniform(-2, 2);
    return v;
  };
  LinearSolver::Options o;
  o.context = &context;
  o.num_threads = threads;
  o.elimination_groups = {sh.num_e, static_cast<int>(sh.col_sizes.size()) - sh.num_e};
  o.type = ceres::DENSE_SCHUR;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  const Mat E = sys->dense.leftCols(ne), F = sys->dense.rightCols(nf);
  const int ops = sim::Range(1, 3);
  sim::State(wl::HashMix(ShapeHash(sh), threads));
  const double tol = 1e-9;
  for (int k = 0; k < ops; ++k) {
    const int op = static_cast<int>(sim::Draw(13));
    sim::Event("kernel %d threads %d on %dx%d", op, threads, m, n);
    switch (op) {
      case 0: {
        Vec x = rnd(n), y0 = rnd(m), y = y0;
        A.RightMultiplyAndAccumulate(x.data(), y.data(), &context, threads);
        CheckVec(y.data(), y0 + sys->dense * x, tol, "right-multiply", "y += A x");
        break;
      }
      case 1: {
        Vec x = rnd(m), y0 = rnd(n), y = y0;
        A.LeftMultiplyAndAccumulate(x.data(), y.data(), &context, threads);
        CheckVec(y.data(), y0 + sys->dense.transpose() * x, tol, "left-multiply", "y += A' x");
        break;
      }
      case 2: {
        Vec x = Vec::Constant(n, 7.0);
        A.SquaredColumnNorm(x.data(), &context, threads);
        CheckVec(x.data(), sys->dense.colwise().squaredNorm().transpose(), tol, "column-norm", "squared column norms");
        break;
      }
      case 3: {
        Vec s = rnd(n);
        A.ScaleColumns(s.data(), &context, threads);
        sim::Quiet q;
        ceres::Matrix d;
        A.ToDenseMatrix(&d);
        Mat expect = sys->dense * s.asDiagonal();
        for (int i = 0; i < m; ++i)
          for (int j = 0; j < n; ++j) SIM_CHECK(wl::Close(d(i, j), expect(i, j), 1e-12), "scale-columns", "column scaling: entry (%d,%d) %.17g, expected %.17g", i, j, d(i, j), expect(i, j));
        FillValues(sys.get(), sh);
        return;
      }
      case 4: {
        TripletSparseMatrix t(m, n, A.num_nonzeros());
        std::unique_ptr<CompressedRowSparseMatrix> c;
        {
          sim::Quiet q;
          A.ToTripletSparseMatrix(&t);
          c = CompressedRowSparseMatrix::FromTripletSparseMatrix(t);
        }
        Vec x = rnd(n), y0 = rnd(m), y = y0;
        c->RightMultiplyAndAccumulate(x.data(), y.data(), &context, threads);
        CheckVec(y.data(), y0 + sys->dense * x, tol, "crs-right-multiply", "compressed row y += A x");
        break;
      }
      case 5:
      case 6: {
        std::unique_ptr<PartitionedMatrixViewBase> v = PartitionedMatrixViewBase::Create(o, A);
        Vec xe = rnd(ne), xf = rnd(nf), xm = rnd(m), y0 = rnd(m), e0 = rnd(ne), f0 = rnd(nf);
        Vec y = y0;
        v->RightMultiplyAndAccumulateE(xe.data(), y.data());
        CheckVec(y.data(), y0 + E * xe, tol, "view-right-e", "y += E x");
        y = y0;
        v->RightMultiplyAndAccumulateF(xf.data(), y.data());
        CheckVec(y.data(), y0 + F * xf, tol, "view-right-f", "y += F x");
        y = e0;
        v->LeftMultiplyAndAccumulateE(xm.data(), y.data());
        CheckVec(y.data(), e0 + E.transpose() * xm, tol, "view-left-e", "y += E' x");
        y = f0;
        v->LeftMultiplyAndAccumulateF(xm.data(), y.data());
        CheckVec(y.data(), f0 + F.transpose() * xm, tol, "view-left-f", "y += F' x");
        auto ete = v->CreateBlockDiagonalEtE(), ftf = v->CreateBlockDiagonalFtF();
        v->UpdateBlockDiagonalEtE(ete.get());
        v->UpdateBlockDiagonalFtF(ftf.get());
        sim::Quiet q;
        ceres::Matrix d1, d2;
        ete->ToDenseMatrix(&d1);
        ftf->ToDenseMatrix(&d2);
        auto blockdiag = [&](const Mat& X, int first, int last) {
          Mat g = X.transpose() * X, r = Mat::Zero(g.rows(), g.cols());
          int p = 0;
          for (int i = first; i < last; ++i) {
            r.block(p, p, sh.col_sizes[i], sh.col_sizes[i]) = g.block(p, p, sh.col_sizes[i], sh.col_sizes[i]);
            p += sh.col_sizes[i];
          }
          return r;
        };
        Mat r1 = blockdiag(E, 0, sh.num_e), r2 = blockdiag(F, sh.num_e, static_cast<int>(sh.col_sizes.size()));
        SIM_CHECK(d1.rows() == r1.rows() && (d1 - r1).cwiseAbs().maxCoeff() < 1e-9, "view-block-diagonal", "block diagonal of E'E is wrong");
        SIM_CHECK(d2.rows() == r2.rows() && (d2 - r2).cwiseAbs().maxCoeff() < 1e-9, "view-block-diagonal", "block diagonal of F'F is wrong");
        break;
      }
      case 7: {
        // Schur elimination into a dense or sparse block matrix.
        std::vector<Block> blocks;
        int pos = 0;
        for (size_t i = sh.num_e; i < sh.col_sizes.size(); ++i) {
          blocks.push_back(Block(sh.col_sizes[i], pos));
          pos += sh.col_sizes[i];
        }
        LinearSolver::Options eo = o;
        if (sim::Chance(50)) DetectStructure(*A.block_structure(), sh.num_e, &eo.row_block_size, &eo.e_block_size, &eo.f_block_size);
        auto elim = SchurEliminatorBase::Create(eo);
        elim->Init(sh.num_e, true, A.block_structure());
        BlockRandomAccessDenseMatrix lhs(blocks, &context, threads);
        Vec rhs = Vec::Constant(nf, 3.0);
        const double* D = sim::Chance(80) ? sys->D.data() : nullptr;
        Mat H = sys->dense.transpose() * sys->dense;
        if (D) H.diagonal() += sys->D.cwiseAbs2();
        else {
          // Only if E'E is invertible for every e-block.
          Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Eigen::MatrixXd(H.topLeftCorner(ne, ne)));
          if (es.eigenvalues().minCoeff() < 1e-2) break;
        }
        const int reps = sim::Range(1, 2);
        for (int rep = 0; rep < reps; ++rep) elim->Eliminate(BlockSparseMatrixData(A), sys->b.data(), D, &lhs, rhs.data());
        sim::QuietBegin();
        Vec g = sys->dense.transpose() * sys->b;
        Mat P = H.topLeftCorner(ne, ne), Q = H.topRightCorner(ne, nf), R = H.bottomRightCorner(nf, nf);
        Mat Pi = P.llt().solve(Mat::Identity(ne, ne));
        Mat S = R - Q.transpose() * Pi * Q;
        Vec sr = g.tail(nf) - Q.transpose() * Pi * g.head(ne);
        // The block upper triangle, including whole diagonal blocks.
        for (size_t i = 0; i < blocks.size(); ++i)
          for (size_t j = i; j < blocks.size(); ++j)
            for (int a = 0; a < blocks[i].size; ++a)
              for (int c = 0; c < blocks[j].size; ++c) {
                const int ri = blocks[i].position + a, cj = blocks[j].position + c;
                if (cj < ri) continue;
                SIM_CHECK(wl::Close(lhs.values()[ri * nf + cj], S(ri, cj), 1e-8), "schur-complement", "S(%d,%d) = %.17g, the dense reference gives %.17g (%d threads)", ri, cj, lhs.values()[ri * nf + cj], S(ri, cj), threads);
              }
        CheckVec(rhs.data(), sr, 1e-8, "schur-rhs", "reduced right-hand side");
        Vec z = S.ldlt().solve(sr);
        Vec y(ne + nf);
        y.head(ne).setConstant(std::numeric_limits<double>::quiet_NaN());
        sim::QuietEnd();
        if (D) {
          Vec x = Vec::Zero(ne);  // the caller clears it
          elim->BackSubstitute(BlockSparseMatrixData(A), sys->b.data(), D, z.data(), x.data());
          CheckVec(x.data(), Exact(*sys).head(ne), 1e-7, "back-substitute", "eliminated variables");
        }
        break;
      }
      case 8: {
        ImplicitSchurComplement isc(o);
        const int reps = sim::Range(1, 2);
        for (int rep = 0; rep < reps; ++rep) {
          if (rep) {
            sim::Quiet q;
            FillValues(sys.get(), sh);
          }
          isc.Init(A, sys->D.data(), sys->b.data());
          sim::QuietBegin();
          Mat H = sys->dense.transpose() * sys->dense;
          H.diagonal() += sys->D.cwiseAbs2();
          Mat P = H.topLeftCorner(ne, ne), Q = H.topRightCorner(ne, nf), R = H.bottomRightCorner(nf, nf);
          Mat Pi = P.llt().solve(Mat::Identity(ne, ne));
          Mat S = R - Q.transpose() * Pi * Q;
          Vec g = sys->dense.transpose() * sys->b;
          sim::QuietEnd();
          Vec x = rnd(nf), y = Vec::Zero(nf);
          isc.RightMultiplyAndAccumulate(x.data(), y.data());
          CheckVec(y.data(), S * x, 1e-8, "implicit-schur", "S x");
          CheckVec(isc.rhs().data(), g.tail(nf) - Q.transpose() * Pi * g.head(ne), 1e-8, "implicit-schur-rhs", "reduced right-hand side");
          Vec z = S.ldlt().solve(g.tail(nf) - Q.transpose() * Pi * g.head(ne));
          Vec full = Vec::Constant(n, 1.0);
          isc.BackSubstitute(z.data(), full.data());
          CheckVec(full.data(), Exact(*sys), 1e-7, "implicit-back-substitute", "solution");
        }
        return;
      }
      case 9: {
        const auto st = sim::Chance(50) ? CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR : CompressedRowSparseMatrix::StorageType::LOWER_TRIANGULAR;
        const int nb = static_cast<int>(sh.row_sizes.size());
        const int first = sim::Chance(50) ? 0 : static_cast<int>(sim::Draw(nb));
        auto ip = InnerProductComputer::Create(A, first, nb, st);
        ip->Compute();
        ip->Compute();
        sim::Quiet q;
        ceres::Matrix d;
        ip->result().ToDenseMatrix(&d);
        const int r0 = A.block_structure()->rows[first].block.position;
        Mat X = sys->dense.bottomRows(m - r0);
        Mat G = X.transpose() * X;
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j) {
            const bool in = st == CompressedRowSparseMatrix::StorageType::UPPER_TRIANGULAR ? j >= i : j <= i;
            if (in) SIM_CHECK(wl::Close(d(i, j), G(i, j), 1e-9), "inner-product", "A'A(%d,%d) = %.17g, expected %.17g", i, j, d(i, j), G(i, j));
          }
        break;
      }
      case 10: {
        // Clusters of f-blocks: entries of the Schur complement, or zero.
        Preconditioner::Options po(o);
        po.type = sim::Chance(50) ? ceres::CLUSTER_JACOBI : ceres::CLUSTER_TRIDIAGONAL;
        po.visibility_clustering_type = sim::Chance(50) ? ceres::CANONICAL_VIEWS : ceres::SINGLE_LINKAGE;
        VisibilityBasedPreconditioner p(*A.block_structure(), po);
        const int reps = sim::Range(1, 3);
        for (int rep = 0; rep < reps; ++rep) {
          if (rep) {
            sim::Quiet q;
            FillValues(sys.get(), sh);
          }
          const bool updated = p.Update(A, sys->D.data());
          Mat inverse = Mat::Zero(nf, nf);
          if (updated) {
            for (int j = 0; j < nf; ++j) {
              const Vec unit = Vec::Unit(nf, j);
              Vec y = Vec::Zero(nf);
              p.RightMultiplyAndAccumulate(unit.data(), y.data());
              inverse.col(j) = y;
            }
          }
          sim::Quiet q;
          if (!updated) {
            SIM_CHECK(po.type == ceres::CLUSTER_TRIDIAGONAL, "preconditioner-update", "the cluster Jacobi preconditioner of a positive definite system could not be updated");
            continue;
          }
          Mat H = sys->dense.transpose() * sys->dense;
          H.diagonal() += sys->D.cwiseAbs2();
          Mat P = H.topLeftCorner(ne, ne), Q = H.topRightCorner(ne, nf), R = H.bottomRightCorner(nf, nf);
          const Mat S = R - Q.transpose() * P.llt().solve(Q);
          const Eigen::FullPivLU<Eigen::MatrixXd> lu(inverse);
          if (!lu.isInvertible() || lu.rcond() < 1e-7) {
            SIM_CHECK(po.type == ceres::CLUSTER_TRIDIAGONAL, "preconditioner", "the cluster Jacobi preconditioner is singular");
            continue;
          }
          const Mat M = lu.inverse();
          const double scale = 1 + S.cwiseAbs().maxCoeff() + M.cwiseAbs().maxCoeff();
          const double off = scale * 1e-7 / std::min(1.0, 100 * lu.rcond());
          auto blocks = [&](const Mat& X, int i, int j) {
            int a = 0, b = 0;
            for (int k = 0; k < i; ++k) a += sh.col_sizes[sh.num_e + k];
            for (int k = 0; k < j; ++k) b += sh.col_sizes[sh.num_e + k];
            return Mat(X.block(a, b, sh.col_sizes[sh.num_e + i], sh.col_sizes[sh.num_e + j]));
          };
          const int nb = static_cast<int>(sh.col_sizes.size()) - sh.num_e;
          for (int i = 0; i < nb; ++i)
            for (int j = 0; j < nb; ++j) {
              const Mat m = blocks(M, i, j), t = blocks(S, i, j);
              const bool same = (m - t).cwiseAbs().maxCoeff() <= off, zero = m.cwiseAbs().maxCoeff() <= off, half = po.type == ceres::CLUSTER_TRIDIAGONAL && (m - t / 2).cwiseAbs().maxCoeff() <= off;
              SIM_CHECK(same || (i != j && (zero || half)), "preconditioner", "%s: block (%d,%d) is neither that of the Schur complement%s nor zero: it starts with %.17g, the Schur complement with %.17g", PreconditionerTypeToString(po.type), i, j, po.type == ceres::CLUSTER_TRIDIAGONAL ? " (or half of it)" : "", m(0, 0), t(0, 0));
            }
          sim::Probe("preconditioner.clusters");
        }
        return;
      }
      default: {
        Preconditioner::Options po(o);
        std::unique_ptr<Preconditioner> p;
        const int which = static_cast<int>(sim::Draw(3));
        Mat H = sys->dense.transpose() * sys->dense;
        H.diagonal() += sys->D.cwiseAbs2();
        Mat ref;
        if (which == 0) {
          po.type = ceres::JACOBI;
          p = std::make_unique<BlockSparseJacobiPreconditioner>(po, A);
          ref = Mat::Zero(n, n);
          int c = 0;
          for (int s : sh.col_sizes) {
            ref.block(c, c, s, s) = H.block(c, c, s, s);
            c += s;
          }
        } else if (which == 1) {
          po.type = ceres::SUBSET;
          po.subset_preconditioner_start_row_block = static_cast<int>(sim::Draw(sh.row_sizes.size()));
          p = std::make_unique<SubsetPreconditioner>(po, A);
          const int r0 = A.block_structure()->rows[po.subset_preconditioner_start_row_block].block.position;
          Mat X = sys->dense.bottomRows(m - r0);
          ref = X.transpose() * X;
          ref.diagonal() += sys->D.cwiseAbs2();
        } else {
          po.type = ceres::SCHUR_JACOBI;
          p = std::make_unique<SchurJacobiPreconditioner>(*A.block_structure(), po);
          Mat P = H.topLeftCorner(ne, ne), Q = H.topRightCorner(ne, nf), R = H.bottomRightCorner(nf, nf);
          Mat S = R - Q.transpose() * P.llt().solve(Q);
          ref = Mat::Zero(nf, nf);
          int c = 0;
          for (size_t i = sh.num_e; i < sh.col_sizes.size(); ++i) {
            const int s = sh.col_sizes[i];
            ref.block(c, c, s, s) = S.block(c, c, s, s);
            c += s;
          }
        }
        const int reps = sim::Range(1, 2);
        for (int rep = 0; rep < reps; ++rep) SIM_CHECK(p->Update(A, sys->D.data()), "preconditioner-update", "preconditioner %d could not be updated", which);
        Vec x = rnd(static_cast<int>(ref.rows())), y = Vec::Zero(ref.rows());
        p->RightMultiplyAndAccumulate(x.data(), y.data());
        CheckVec(y.data(), ref.ldlt().solve(x), 1e-7, "preconditioner", which == 0 ? "block Jacobi" : which == 1 ? "subset" : "Schur Jacobi");
        break;
      }
    }
  }
  if (threads > 1) sim::NonTrivial();
}

}  // namespace
