// C04: evaluation of a problem by many threads equals its definition.
#include <memory>
#include <thread>

#include "ceres/context_impl.h"
#include "ceres/crs_matrix.h"
#include "ceres/evaluator.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/parameter_block.h"
#include "ceres/reorder_program.h"
#include "ceres/residual_block.h"
#include "ceres/sparse_matrix.h"
#include "prob.h"

namespace {

using namespace wl;
using ceres::internal::ContextImpl;
using ceres::internal::Evaluator;
using ceres::internal::Program;
using ceres::internal::SparseMatrix;

// Evaluations see exactly the point being evaluated, in memory that stays valid.
struct PointMonitor : Monitor {
  Model* model = nullptr;
  const std::vector<std::vector<double>>* state = nullptr;  // expected
  bool failed_here = false;
  int evals = 0;
  void OnEval(const SimCost& c, double const* const* p, bool) override {
    ++evals;
    const RBlock& rb = model->rbs[c.id];
    for (size_t b = 0; b < rb.pb.size(); ++b) {
      const int n = model->pbs[rb.pb[b]].size;
      SIM_CHECK(sim::HeapOk(p[b], n * sizeof(double)), "bad-parameter-pointer", "cost function %d was given an invalid pointer for its parameter block %zu", c.id, b);
      if (state) SIM_CHECK(SameBits(p[b], (*state)[rb.pb[b]].data(), n), "wrong-point", "cost function %d was not evaluated at the requested point (block %d: %.17g vs %.17g)", c.id, rb.pb[b], p[b][0], (*state)[rb.pb[b]][0]);
    }
  }
  void OnEvalDone(const SimCost&, bool ok) override {
    if (!ok) failed_here = true;
  }
};

void ArmCostFaults(double rate) {
  static const char* sites[] = {"cost.false", "cost.nan", "cost.jac_nan", "cost.partial"};
  const int which = static_cast<int>(sim::Draw(5));
  for (int i = 0; i < 4; ++i)
    if (which == 4 || which == i) sim::ArmFault(sites[i], which == 4 ? rate / 4 : rate);
}

void CompareCRS(const ceres::CRSMatrix& m, const Mat& ref, double tol) {
  SIM_CHECK(m.num_rows == ref.rows() && m.num_cols == ref.cols(), "jacobian-shape", "jacobian is %dx%d, expected %dx%d", m.num_rows, m.num_cols, (int)ref.rows(), (int)ref.cols());
  SIM_CHECK(static_cast<int>(m.rows.size()) == m.num_rows + 1 && m.rows[0] == 0 && m.rows.back() == static_cast<int>(m.cols.size()) && m.cols.size() == m.values.size(), "jacobian-structure", "malformed compressed row jacobian");
  Mat d = Mat::Zero(ref.rows(), ref.cols());
  for (int r = 0; r < m.num_rows; ++r) {
    SIM_CHECK(m.rows[r] <= m.rows[r + 1], "jacobian-structure", "row pointers decrease at row %d", r);
    for (int k = m.rows[r]; k < m.rows[r + 1]; ++k) {
      SIM_CHECK(m.cols[k] >= 0 && m.cols[k] < m.num_cols, "jacobian-structure", "column %d out of range", m.cols[k]);
      SIM_CHECK(k == m.rows[r] || m.cols[k] > m.cols[k - 1], "jacobian-structure", "columns of row %d are not increasing", r);
      d(r, m.cols[k]) += m.values[k];
    }
  }
  for (int r = 0; r < d.rows(); ++r)
    for (int c = 0; c < d.cols(); ++c) SIM_CHECK(Close(d(r, c), ref(r, c), tol), "jacobian-value", "J(%d,%d) = %.17g, the definition gives %.17g", r, c, d(r, c), ref(r, c));
}

template <typename V>
void CompareVec(const V& v, const Vec& ref, const char* what, double tol) {
  SIM_CHECK(static_cast<long>(v.size()) == ref.size(), "output-size", "%s has %d entries, expected %d", what, (int)v.size(), (int)ref.size());
  for (long i = 0; i < ref.size(); ++i) SIM_CHECK(Close(v[i], ref[i], tol), what, "%s[%ld] = %.17g, the definition gives %.17g", what, i, (double)v[i], ref[i]);
}

ModelOptions EvalModel() {
  ModelOptions o;
  o.max_pb = 7;
  o.min_rb = 0;
  o.max_rb = 24;
  o.priors = sim::Chance(30);
  o.bipartite = sim::Chance(30);
  return o;
}

int DrawThreads() {
  static const int t[] = {2, 1, 3, 4, 7, 8, 12};
  return t[sim::Draw(7)];
}

// ---------------------------------------------------------------------------
// The public interface: Problem::Evaluate.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C04, problem, 10) {
  Model m;
  PointMonitor mon;
  EvalCounters cnt;
  {
    sim::Quiet q;
    m.Draw(EvalModel());
  }
  mon.model = &m;
  sim::State(m.shape);
  ceres::Problem::Options po;
  std::unique_ptr<ceres::Context> ctx;
  if (sim::Chance(50)) {
    ctx.reset(ceres::Context::Create());
    po.context = ctx.get();
  }
  ceres::Problem problem(po);
  m.AddTo(&problem, &mon, &cnt);
  const int rounds = sim::Range(1, 5);
  const bool faulty = sim::Chance(40);
  if (faulty) ArmCostFaults(sim::Chance(50) ? 0.02 : 0.2);
  if (faulty && sim::Chance(30)) sim::ArmFault("manifold.jacobian", 0.1);
  bool nontrivial = false;
  for (int round = 0; round < rounds; ++round) {
    // Move the user's parameters, keeping them on their manifolds.
    auto st = m.UserState();
    if (round > 0)
      for (size_t i = 0; i < m.pbs.size(); ++i)
        if (m.pbs[i].kind == kNone || m.pbs[i].kind == kLinear || m.pbs[i].kind == kSubset)
          for (auto& v : st[i]) v += sim::Uniform(-1, 1);
    m.SetUserState(st);
    mon.state = &st;
    ceres::Problem::EvaluateOptions eo;
    eo.num_threads = DrawThreads();
    eo.apply_loss_function = !sim::Chance(25);
    std::vector<int> rlist = m.AllRb(), plist = m.pb_order;
    if (sim::Chance(40)) {
      plist.clear();
      std::vector<int> pool = m.pb_order;
      const int k = sim::Range(1, static_cast<int>(pool.size()));
      for (int i = 0; i < k; ++i) {
        const int j = static_cast<int>(sim::Draw(pool.size()));
        plist.push_back(pool[j]);
        pool.erase(pool.begin() + j);
      }
      for (int i : plist) eo.parameter_blocks.push_back(m.pbs[i].x);
    }
    if (!m.rbs.empty() && sim::Chance(40)) {
      rlist.clear();
      std::vector<int> pool = m.AllRb();
      const int k = sim::Range(1, static_cast<int>(pool.size()));
      for (int i = 0; i < k; ++i) {
        const int j = static_cast<int>(sim::Draw(pool.size()));
        rlist.push_back(pool[j]);
        pool.erase(pool.begin() + j);
      }
      for (int i : rlist) eo.residual_blocks.push_back(m.rbs[i].id);
    }
    double cost = -1;
    std::vector<double> res, grad;
    ceres::CRSMatrix jac;
    const int want = 1 + static_cast<int>(sim::Draw(15));
    mon.failed_here = false;
    const uint64_t mf0 = sim::FaultCount("manifold.jacobian");
    cnt.threads.clear();
    const bool ok = problem.Evaluate(eo, (want & 1) ? &cost : nullptr, (want & 2) ? &res : nullptr, (want & 4) ? &grad : nullptr, (want & 8) ? &jac : nullptr);
    sim::Quiet q;
    if (cnt.threads.size() > 1 || mon.failed_here) nontrivial = true;
    if (cnt.threads.size() > 1) sim::Probe("eval.parallel");
    SIM_CHECK(cnt.active == 0, "evaluation-outlives-call", "Evaluate returned while %d cost function evaluations are running", cnt.active);
    const bool manifold_failed = sim::FaultCount("manifold.jacobian") != mf0;
    sim::Event("evaluate want %d threads %d rbs %zu pbs %zu -> %d failed %d", want, eo.num_threads, rlist.size(), plist.size(), ok, mon.failed_here || manifold_failed);
    if (mon.failed_here || manifold_failed) {
      sim::Probe("eval.failed");
      if (mon.failed_here) SIM_CHECK(!ok, "failure-swallowed", "a cost function failed, but Evaluate returned true");
    } else {
      SIM_CHECK(ok, "spurious-failure", "Evaluate returned false although every cost function succeeded");
    }
    // The user's memory is never written by an evaluation.
    const auto after = m.UserState();
    for (size_t i = 0; i < st.size(); ++i) SIM_CHECK(SameBits(st[i].data(), after[i].data(), (int)st[i].size()), "parameter-modified", "Evaluate modified parameter block %zu", i);
    for (size_t i = 0; i < m.pbs.size(); ++i) SIM_CHECK(problem.IsParameterBlockConstant(m.pbs[i].x) == (m.pbs[i].constant || m.pbs[i].tangent == 0), "constness-modified", "Evaluate changed whether parameter block %zu is constant", i);
    if (!ok) continue;
    // Blocks that are not listed are held constant.
    RefEval ref = m.Reference(st, rlist, plist, eo.apply_loss_function, true);
    if (want & 1) SIM_CHECK(Close(cost, ref.cost, 1e-10), "cost-value", "cost = %.17g, the definition gives %.17g", cost, ref.cost);
    if (want & 2) CompareVec(res, ref.residuals, "residuals", 1e-10);
    if (want & 4) CompareVec(grad, ref.gradient, "gradient", 1e-9);
    if (want & 8) CompareCRS(jac, ref.jacobian, 1e-9);
  }
  if (nontrivial) sim::NonTrivial();
}

// ---------------------------------------------------------------------------
// The evaluators the solvers use, for every Jacobian representation.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C04, evaluator, 10) {
  Model m;
  PointMonitor mon;
  EvalCounters cnt;
  {
    sim::Quiet q;
    m.Draw(EvalModel());
    if (m.rbs.empty()) m.pbs[0].constant = false;
  }
  mon.model = &m;
  sim::State(m.shape ^ 0x55);
  ceres::Problem problem;
  m.AddTo(&problem, &mon, &cnt);
  Program* program = problem.mutable_impl()->mutable_program();
  double fixed_cost = 0;
  std::vector<double*> removed;
  std::string err;
  std::unique_ptr<Program> reduced = program->CreateReducedProgram(&removed, &fixed_cost, &err);
  SIM_CHECK(reduced != nullptr, "reduce-failed", "the problem could not be reduced: %s", err.c_str());
  if (reduced->NumParameterBlocks() == 0) return;
  // Columns: the varying blocks, in the reduced program's order (a permutation
  // of the blocks that occur in residual blocks and are not constant).
  std::vector<int> plist, rlist;
  int num_e = 0;
  if (!m.e_blocks.empty() && sim::Chance(70)) {
    // The arrangement used with Schur complements: e-blocks first, residual
    // blocks grouped by their e-block.
    std::vector<ceres::internal::ParameterBlock*>& v = *reduced->mutable_parameter_blocks();
    std::stable_partition(v.begin(), v.end(), [&](ceres::internal::ParameterBlock* b) {
      for (int e : m.e_blocks)
        if (m.pbs[e].x == b->user_state()) return true;
      return false;
    });
    for (auto* b : v)
      for (int e : m.e_blocks) num_e += m.pbs[e].x == b->user_state();
    reduced->SetParameterOffsetsAndIndex();
    if (num_e > 0) SIM_CHECK(ceres::internal::LexicographicallyOrderResidualBlocks(num_e, reduced.get(), &err), "order-failed", "%s", err.c_str());
    reduced->SetParameterOffsetsAndIndex();
  }
  for (auto* b : reduced->parameter_blocks())
    for (size_t i = 0; i < m.pbs.size(); ++i)
      if (m.pbs[i].x == b->user_state()) plist.push_back(static_cast<int>(i));
  for (auto* r : reduced->residual_blocks())
    for (size_t i = 0; i < m.rbs.size(); ++i)
      if (m.rbs[i].id == r) rlist.push_back(static_cast<int>(i));
  {
    std::set<int> in_p(plist.begin(), plist.end()), in_r(rlist.begin(), rlist.end());
    double fc = 0;
    for (size_t r = 0; r < m.rbs.size(); ++r) {
      bool varying = false;
      for (int i : m.rbs[r].pb) {
        const bool v = !m.pbs[i].constant && m.pbs[i].tangent > 0;
        varying |= v;
        if (v) SIM_CHECK(in_p.count(i), "reduce-lost-parameter", "varying parameter block %d is missing from the reduced problem", i);
      }
      SIM_CHECK(varying == (in_r.count((int)r) > 0), "reduce-residuals", "residual block %zu %s", r, varying ? "is missing from the reduced problem" : "depends on no variable but was kept");
      if (!varying) fc += m.Reference(m.UserState(), {(int)r}, {}, true, false).cost;
    }
    SIM_CHECK(Close(fc, fixed_cost, 1e-10), "fixed-cost", "fixed cost %.17g, the definition gives %.17g", fixed_cost, fc);
  }
  ContextImpl context;
  Evaluator::Options eo;
  eo.num_threads = DrawThreads();
  static const ceres::LinearSolverType types[] = {ceres::DENSE_QR, ceres::DENSE_NORMAL_CHOLESKY, ceres::SPARSE_NORMAL_CHOLESKY, ceres::CGNR, ceres::DENSE_SCHUR, ceres::ITERATIVE_SCHUR, ceres::SPARSE_NORMAL_CHOLESKY};
  const int ti = static_cast<int>(sim::Draw(7));
  eo.linear_solver_type = types[ti];
  eo.dynamic_sparsity = ti == 6;
  eo.num_eliminate_blocks = num_e > 0 && (ti == 4 || ti == 5) ? num_e : 0;
  eo.context = &context;
  context.EnsureMinimumThreads(eo.num_threads - 1);
  std::unique_ptr<Evaluator> ev = Evaluator::Create(eo, reduced.get(), &err);
  SIM_CHECK(ev != nullptr, "no-evaluator", "%s", err.c_str());
  const int n = ev->NumParameters(), ne = ev->NumEffectiveParameters(), nr = ev->NumResiduals();
  std::unique_ptr<SparseMatrix> jac = ev->CreateJacobian();
  const bool faulty = sim::Chance(40);
  if (faulty) ArmCostFaults(sim::Chance(50) ? 0.02 : 0.2);
  const auto user0 = m.UserState();
  bool nontrivial = false;
  const int rounds = sim::Range(1, 5);
  for (int round = 0; round < rounds; ++round) {
    auto st = user0;
    std::vector<double> state(n);
    int o = 0;
    for (int i : plist) {
      if (m.pbs[i].kind == kNone || m.pbs[i].kind == kLinear || m.pbs[i].kind == kSubset || m.pbs[i].kind == kEuclidean)
        for (auto& v : st[i]) v += sim::Uniform(-1, 1);
      for (double v : st[i]) state[o++] = v;
    }
    mon.state = &st;
    mon.failed_here = false;
    cnt.threads.clear();
    Evaluator::EvaluateOptions o2;
    o2.apply_loss_function = !sim::Chance(20);
    double cost = -7;
    std::vector<double> res(nr, 3), grad(ne, 5);
    const int want = static_cast<int>(sim::Draw(8));
    const bool ok = ev->Evaluate(o2, state.data(), &cost, (want & 1) ? res.data() : nullptr, (want & 2) ? grad.data() : nullptr, (want & 4) ? jac.get() : nullptr);
    sim::Quiet q;
    if (cnt.threads.size() > 1 || mon.failed_here) nontrivial = true;
    if (cnt.threads.size() > 1) sim::Probe("eval.parallel");
    SIM_CHECK(cnt.active == 0, "evaluation-outlives-call", "Evaluate returned while %d cost function evaluations are running", cnt.active);
    sim::Event("evaluator type %d dynamic %d threads %d want %d -> %d", ti, eo.dynamic_sparsity, eo.num_threads, want, ok);
    SIM_CHECK(ok == !mon.failed_here, ok ? "failure-swallowed" : "spurious-failure", "evaluator returned %d, cost function failure seen: %d", ok, mon.failed_here);
    const auto after = m.UserState();
    for (size_t i = 0; i < user0.size(); ++i) SIM_CHECK(SameBits(user0[i].data(), after[i].data(), (int)user0[i].size()), "parameter-modified", "evaluation modified user parameter block %zu", i);
    if (!ok) {
      sim::Probe("eval.failed");
      continue;
    }
    RefEval ref = m.Reference(st, rlist, plist, o2.apply_loss_function, true);
    SIM_CHECK(Close(cost, ref.cost, 1e-10), "cost-value", "cost = %.17g, the definition gives %.17g", cost, ref.cost);
    if (want & 1) CompareVec(res, ref.residuals, "residuals", 1e-10);
    if (want & 2) CompareVec(grad, ref.gradient, "gradient", 1e-9);
    if (want & 4) {
      ceres::Matrix d;
      jac->ToDenseMatrix(&d);
      int rows = 0;
      rows = static_cast<int>(d.rows());
      SIM_CHECK(rows == ref.jacobian.rows() && d.cols() >= ref.jacobian.cols(), "jacobian-shape", "jacobian is %dx%d, expected %dx%d", (int)d.rows(), (int)d.cols(), (int)ref.jacobian.rows(), (int)ref.jacobian.cols());
      for (int r = 0; r < ref.jacobian.rows(); ++r)
        for (int c = 0; c < ref.jacobian.cols(); ++c) SIM_CHECK(Close(d(r, c), ref.jacobian(r, c), 1e-9), "jacobian-value", "J(%d,%d) = %.17g, the definition gives %.17g (representation %d, threads %d)", r, c, d(r, c), ref.jacobian(r, c), ti, eo.num_threads);
    }
    // Plus of the evaluator, on the whole state.
    if (sim::Chance(30)) {
      std::vector<double> delta(ne), out(n, 9.0), expect(n);
      for (auto& v : delta) v = sim::Uniform(-0.5, 0.5);
      sim::QuietEnd();
      const bool pk = ev->Plus(state.data(), delta.data(), out.data());
      sim::QuietBegin();
      SIM_CHECK(pk, "plus-failed", "Plus failed");
      int so = 0, dof = 0;
      for (int i : plist) {
        const PBlock& b = m.pbs[i];
        if (b.ref) b.ref->Plus(state.data() + so, delta.data() + dof, expect.data() + so);
        else
          for (int k = 0; k < b.size; ++k) expect[so + k] = state[so + k] + delta[dof + k];
        so += b.size;
        dof += b.tangent;
      }
      for (int i = 0; i < n; ++i) SIM_CHECK(Close(out[i], expect[i], 1e-12), "plus-value", "Plus()[%d] = %.17g, expected %.17g", i, out[i], expect[i]);
    }
  }
  if (nontrivial) sim::NonTrivial();
}

}  // namespace
