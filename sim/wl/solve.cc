#include "solve.h"

#include "ceres/problem_impl.h"
#include "ceres/program.h"

namespace wl {

using ceres::Solver;

namespace {

const char* kSolvers[] = {"DENSE_QR", "DENSE_NORMAL_CHOLESKY", "SPARSE_NORMAL_CHOLESKY", "DENSE_SCHUR", "SPARSE_SCHUR", "ITERATIVE_SCHUR", "CGNR"};

// Groups of mutually independent blocks.
std::shared_ptr<ceres::ParameterBlockOrdering> Coloring(const Model& m) {
  auto o = std::make_shared<ceres::ParameterBlockOrdering>();
  std::vector<int> color(m.pbs.size(), -1);
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    std::set<int> used;
    for (auto& rb : m.rbs) {
      if (std::find(rb.pb.begin(), rb.pb.end(), static_cast<int>(i)) == rb.pb.end()) continue;
      for (int j : rb.pb)
        if (color[j] >= 0) used.insert(color[j]);
    }
    int c = 0;
    while (used.count(c)) ++c;
    color[i] = c;
    o->AddElementToGroup(m.pbs[i].x, c);
  }
  return o;
}

struct UserCb : ceres::IterationCallback {
  int idx = 0;
  SolveMonitor* mon = nullptr;
  const CbPlan* plan = nullptr;
  const Solver::Options* opts = nullptr;
  std::vector<Rec>* recs = nullptr;
  bool* stopped = nullptr;
  int main_thread = 0;
  uint64_t t0 = 0, jumps0 = 0;
  double best = 0;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override {
    sim::Quiet q;
    SIM_CHECK(mon->solving, "callback-outside-solve", "an iteration callback ran outside the solve");
    SIM_CHECK(!mon->MustNotEvaluate(), "callback-after-stop", "callback %d ran for iteration %d after %s", idx, s.iteration, mon->stop_reason);
    SIM_CHECK(sim::Self() == main_thread, "callback-thread", "iteration callback %d ran on thread %d, the solve was called on %d", idx, sim::Self(), main_thread);
    SIM_CHECK(mon->cnt->active == 0, "callback-concurrent", "callback %d ran while %d cost functions are being evaluated", idx, mon->cnt->active);
    // Order: callbacks in the given order, iterations without gaps.
    const int ncb = plan->count;
    const size_t k = recs->size();
    SIM_CHECK(static_cast<int>(k % ncb) == idx && static_cast<int>(k / ncb) == s.iteration, "callback-order", "callback %d iteration %d is call number %zu with %d callbacks", idx, s.iteration, k, ncb);
    recs->push_back(Rec{idx, s});
    const State now = mon->m->UserState();
    if (opts->update_state_every_iteration) {
      // The user sees the best point so far.
      const double c = mon->m->Cost(now);
      double want = s.cost;
      if (opts->minimizer_type == ceres::TRUST_REGION) {
        want = std::numeric_limits<double>::infinity();
        for (auto& r : *recs)
          if (r.s.step_is_successful) want = std::min(want, r.s.cost);
      }
      SIM_CHECK(Close(c, want, 1e-7), "stale-user-state", "iteration %d: the cost at the user's parameters is %.17g, the best point found by then has %.17g", s.iteration, c, want);
      mon->frozen = now;
    } else if (!mon->ecb) {
      for (size_t i = 0; i < now.size(); ++i) SIM_CHECK(SameBits(now[i].data(), mon->start[i].data(), (int)now[i].size()), "early-update", "iteration %d: parameter block %zu was modified before the end of the solve", s.iteration, i);
    }
    if (plan->extra) plan->extra(idx, s);
    if (plan->slow) sim::Advance(sim::Draw(3) * 700000000ull);
    ceres::CallbackReturnType ret = ceres::SOLVER_CONTINUE;
    if (idx == plan->stop_cb && s.iteration == plan->stop_iteration) ret = plan->stop;
    if (ret != ceres::SOLVER_CONTINUE) {
      mon->must_not_evaluate = true;
      mon->stop_reason = "a callback stopped the solve";
      *stopped = true;
    } else if (idx == ncb - 1) {
      if (s.iteration >= opts->max_num_iterations) {
        mon->must_not_evaluate = true;
        mon->stop_reason = "the iteration limit was reached";
      }
      if (sim::FaultCount("clock.jump") == jumps0 && static_cast<double>(sim::NowNs() - t0) * 1e-9 > opts->max_solver_time_in_seconds + 1e-2) {
        mon->must_not_evaluate = true;
        mon->stop_is_time = true;
        mon->stop_jumps = jumps0;
        mon->stop_reason = "the time limit was exceeded";
        sim::Probe("solve.time_limit");
      }
    }
    sim::Event("cb %d it %d cost %.6g ok %d", idx, s.iteration, s.cost, s.step_is_successful);
    return ret;
  }
};

uint64_t ManifoldFaults() { return sim::FaultCount("manifold.plus") + sim::FaultCount("manifold.trial") + sim::FaultCount("manifold.jacobian"); }

}  // namespace

uint64_t SolveCfg::Fingerprint() const {
  uint64_t h = 99;
  h = HashMix(h, o.minimizer_type * 64 + o.linear_solver_type * 4 + o.trust_region_strategy_type);
  h = HashMix(h, o.preconditioner_type * 512 + o.dogleg_type * 256 + o.num_threads * 16 + o.use_nonmonotonic_steps * 8 + o.use_inner_iterations * 4 + o.jacobi_scaling * 2 + o.update_state_every_iteration);
  h = HashMix(h, o.line_search_direction_type * 64 + o.line_search_type * 16 + o.line_search_interpolation_type * 4 + o.nonlinear_conjugate_gradient_type);
  h = HashMix(h, o.use_mixed_precision_solves * 64 + o.dynamic_sparsity * 32 + o.use_explicit_schur_complement * 16 + o.use_spse_initialization * 8 + o.visibility_clustering_type);
  return h;
}

SolveCfg DrawSolve(const Model& m, const Flavor& f) {
  SolveCfg c;
  Solver::Options& o = c.o;
  o.logging_type = sim::Chance(20) ? ceres::PER_MINIMIZER_ITERATION : ceres::SILENT;
  o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  o.dense_linear_algebra_library_type = ceres::EIGEN;
  static const int th[] = {2, 1, 3, 4, 8, 6};
  do o.num_threads = th[sim::Draw(6)];
  while (o.num_threads > f.max_threads);
  o.max_num_iterations = f.tight ? 40 : sim::Chance(10) ? 0 : sim::Range(1, f.max_iterations);
  o.update_state_every_iteration = sim::Chance(25);
  if (f.tight) {
    o.function_tolerance = 1e-15;
    o.gradient_tolerance = 1e-9;
    o.parameter_tolerance = 1e-12;
  } else if (sim::Chance(40)) {
    static const double tol[] = {1e-6, 1e-3, 1e-12, 0};
    o.function_tolerance = tol[sim::Draw(4)];
    o.gradient_tolerance = tol[sim::Draw(4)];
    o.parameter_tolerance = tol[sim::Draw(4)];
  }
  const bool ls = f.line_search && !m.has_bounds && (!f.trust_region || sim::Chance(25));
  o.max_num_line_search_step_size_iterations = 20;
  if (sim::Chance(25)) o.line_search_interpolation_type = static_cast<ceres::LineSearchInterpolationType>(sim::Draw(3));
  if (ls) {
    o.minimizer_type = ceres::LINE_SEARCH;
    o.line_search_direction_type = static_cast<ceres::LineSearchDirectionType>(sim::Draw(4));
    o.line_search_type = sim::Chance(50) ? ceres::ARMIJO : ceres::WOLFE;
    if (o.line_search_direction_type == ceres::BFGS || o.line_search_direction_type == ceres::LBFGS) o.line_search_type = ceres::WOLFE;
    o.nonlinear_conjugate_gradient_type = static_cast<ceres::NonlinearConjugateGradientType>(sim::Draw(3));
    o.max_lbfgs_rank = sim::Range(1, 5);
    o.use_approximate_eigenvalue_bfgs_scaling = sim::Chance(30);
    if (sim::Chance(20)) o.max_num_line_search_step_size_iterations = sim::Range(1, 5);
    char b[128];
    snprintf(b, sizeof(b), "LINE_SEARCH dir %d type %d interp %d threads %d", o.line_search_direction_type, o.line_search_type, o.line_search_interpolation_type, o.num_threads);
    c.text = b;
    return c;
  }
  o.minimizer_type = ceres::TRUST_REGION;
  const int k = static_cast<int>(sim::Draw(f.iterative ? 7 : 5));
  c.linear = k;
  static const ceres::LinearSolverType types[] = {ceres::DENSE_QR, ceres::DENSE_NORMAL_CHOLESKY, ceres::SPARSE_NORMAL_CHOLESKY, ceres::DENSE_SCHUR, ceres::SPARSE_SCHUR, ceres::ITERATIVE_SCHUR, ceres::CGNR};
  o.linear_solver_type = types[k];
  if (o.linear_solver_type == ceres::ITERATIVE_SCHUR) {
    static const ceres::PreconditionerType p[] = {ceres::JACOBI, ceres::SCHUR_JACOBI, ceres::IDENTITY, ceres::SCHUR_POWER_SERIES_EXPANSION, ceres::CLUSTER_JACOBI, ceres::CLUSTER_TRIDIAGONAL};
    o.preconditioner_type = p[sim::Draw(6)];
    if (o.preconditioner_type == ceres::SCHUR_JACOBI && sim::Chance(40)) {
      o.use_explicit_schur_complement = true;
    } else if (sim::Chance(25)) {
      o.use_spse_initialization = true;
      o.max_num_spse_iterations = sim::Range(1, 4);
    }
    o.visibility_clustering_type = sim::Chance(50) ? ceres::CANONICAL_VIEWS : ceres::SINGLE_LINKAGE;
  } else if (o.linear_solver_type == ceres::CGNR) {
    o.preconditioner_type = sim::Chance(40) ? ceres::IDENTITY : ceres::JACOBI;
    if (sim::Chance(35)) {
      for (auto& rb : m.rbs)
        if (sim::Chance(60)) o.residual_blocks_for_subset_preconditioner.insert(rb.id);
      if (!o.residual_blocks_for_subset_preconditioner.empty()) o.preconditioner_type = ceres::SUBSET;
    }
  } else {
    if (o.linear_solver_type == ceres::SPARSE_NORMAL_CHOLESKY) o.dynamic_sparsity = sim::Chance(30);
    if (k >= 1 && sim::Chance(12) && f.mixed) o.use_mixed_precision_solves = true;
    if (k >= 1 && sim::Chance(o.use_mixed_precision_solves ? 80 : 20)) o.max_num_refinement_iterations = sim::Range(1, 3);
    if (sim::Chance(30)) {
      o.trust_region_strategy_type = ceres::DOGLEG;
      o.dogleg_type = sim::Chance(50) ? ceres::SUBSPACE_DOGLEG : ceres::TRADITIONAL_DOGLEG;
    }
  }
  if (f.tight) {
    o.eta = 1e-12;
    o.max_linear_solver_iterations = 600;
  } else {
    if (sim::Chance(30)) o.eta = 1e-3;
    if (sim::Chance(20)) o.max_linear_solver_iterations = sim::Range(1, 8);
  }
  o.use_nonmonotonic_steps = f.nonmonotonic && sim::Chance(20);
  if (o.use_nonmonotonic_steps) o.max_consecutive_nonmonotonic_steps = sim::Range(1, 4);
  o.use_inner_iterations = f.inner && sim::Chance(15);
  o.jacobi_scaling = !sim::Chance(25);
  if (!f.tight && sim::Chance(25)) {
    static const double d[] = {0.1, 0.5, 0.9, 0};
    o.min_relative_decrease = d[sim::Draw(4)];
  }
  static const double rad[] = {1e4, 1.0, 100.0, 0.01};
  o.initial_trust_region_radius = rad[sim::Draw(4)];
  if (sim::Chance(15)) {
    o.min_lm_diagonal = 1e-3;
    o.max_lm_diagonal = 1e3;
  }
  if (!f.tight && sim::Chance(10)) o.max_num_line_search_step_size_iterations = 0;
  char b[256];
  snprintf(b, sizeof(b), "%s precond %d %s threads %d%s%s%s%s%s refine %d radius %g", kSolvers[k], (int)o.preconditioner_type, o.trust_region_strategy_type == ceres::DOGLEG ? (o.dogleg_type == ceres::SUBSPACE_DOGLEG ? "SUBSPACE" : "DOGLEG") : "LM", o.num_threads, o.use_nonmonotonic_steps ? " nonmonotonic" : "", o.use_inner_iterations ? " inner" : "",
           o.jacobi_scaling ? "" : " unscaled", o.use_mixed_precision_solves ? " mixed" : "", o.dynamic_sparsity ? " dynamic" : "", o.max_num_refinement_iterations, o.initial_trust_region_radius);
  c.text = b;
  return c;
}

static void MakeOrderings(const Model& m, Solver::Options* o) {
  const bool schur = o->linear_solver_type == ceres::DENSE_SCHUR || o->linear_solver_type == ceres::SPARSE_SCHUR || o->linear_solver_type == ceres::ITERATIVE_SCHUR;
  if (o->minimizer_type != ceres::TRUST_REGION) return;
  // Deterministic from the model, so that repeated solves agree.
  const bool explicit_order = (m.shape >> 7) & 1;
  if (schur && explicit_order && !m.e_blocks.empty()) {
    auto od = std::make_shared<ceres::ParameterBlockOrdering>();
    for (size_t i = 0; i < m.pbs.size(); ++i) od->AddElementToGroup(m.pbs[i].x, m.e_blocks.count(static_cast<int>(i)) ? 0 : 1);
    o->linear_solver_ordering = od;
  } else if (!schur && ((m.shape >> 8) & 3) == 0) {
    auto od = std::make_shared<ceres::ParameterBlockOrdering>();
    for (size_t i = 0; i < m.pbs.size(); ++i) od->AddElementToGroup(m.pbs[i].x, 0);
    o->linear_solver_ordering = od;
  }
  if (o->use_inner_iterations && ((m.shape >> 10) & 1)) o->inner_iteration_ordering = Coloring(m);
}

void EvalCb::PrepareForEvaluation(bool jac, bool new_point) {
  sim::Quiet q;
  SIM_CHECK(mon->cnt->active == 0, "prepare-concurrent", "PrepareForEvaluation was called while %d cost functions are being evaluated", mon->cnt->active);
  SIM_CHECK(!mon->MustNotEvaluate(), "evaluation-after-stop", "PrepareForEvaluation was called after %s", mon->stop_reason);
  const State now = mon->m->UserState();
  if (!new_point) {
    SIM_CHECK(prepared, "prepare-protocol", "the first call of PrepareForEvaluation says the point is not new");
    for (size_t i = 0; i < now.size(); ++i) SIM_CHECK(SameBits(now[i].data(), at[i].data(), (int)now[i].size()), "prepare-protocol", "PrepareForEvaluation says the point is not new, but parameter block %zu changed", i);
    // Nothing is lost by preparing the same point again without Jacobians.
    with_jac = with_jac || jac;
  } else {
    with_jac = jac;
    ++new_points;
  }
  prepared = true;
  at = now;
  ++calls;
  if (slow) slow(jac);
}

void SolveMonitor::CheckPoint(int i, const double* x) const {
  const PBlock& b = m->pbs[i];
  for (int k = 0; k < b.size; ++k) SIM_CHECK(std::isfinite(x[k]), "non-finite-point", "parameter block %d is evaluated at %g", i, x[k]);
  if (b.constant || b.tangent == 0) {
    SIM_CHECK(SameBits(x, start[i].data(), b.size), "constant-moved", "constant parameter block %d was moved", i);
    return;
  }
  if (check_bounds && b.Bounded())
    for (int k = 0; k < b.size; ++k) SIM_CHECK(x[k] >= b.lo[k] && x[k] <= b.hi[k], "out-of-bounds", "parameter block %d [%d] = %.17g is outside [%.17g, %.17g]", i, k, x[k], b.lo[k], b.hi[k]);
  if (!check_manifold) return;
  const double* s = start[i].data();
  auto norm = [&](const double* v, int o, int n) {
    double q = 0;
    for (int k = 0; k < n; ++k) q += v[o + k] * v[o + k];
    return std::sqrt(q);
  };
  switch (b.kind) {
    case kSubset:
      for (int k : b.fixed) SIM_CHECK(Bits(x[k]) == Bits(s[k]), "fixed-coordinate-moved", "coordinate %d of block %d is fixed by its manifold but moved from %.17g to %.17g", k, i, s[k], x[k]);
      break;
    case kQuaternion:
    case kEigenQuaternion:
    case kSphere:
      SIM_CHECK(std::abs(norm(x, 0, b.size) - norm(s, 0, b.size)) < 1e-9, "off-manifold", "block %d left the unit sphere: norm %.17g", i, norm(x, 0, b.size));
      break;
    case kLine:
      SIM_CHECK(std::abs(norm(x, 2, 2) - norm(s, 2, 2)) < 1e-9, "off-manifold", "the direction of line block %d has norm %.17g", i, norm(x, 2, 2));
      break;
    case kProduct:
      SIM_CHECK(std::abs(norm(x, 0, 2) - norm(s, 0, 2)) < 1e-9, "off-manifold", "the sphere part of block %d has norm %.17g", i, norm(x, 0, 2));
      break;
    case kLinear: {
      Vec z(b.size);
      for (int k = 0; k < b.size; ++k) z[k] = x[k] - s[k];
      const Vec q = b.S.colPivHouseholderQr().solve(z);
      SIM_CHECK((b.S * q - z).norm() <= 1e-8 * (1 + z.norm()), "off-manifold", "block %d left its linear manifold by %g", i, (b.S * q - z).norm());
      break;
    }
    default: break;
  }
}

void SolveMonitor::OnEval(const SimCost& c, double const* const* p, bool want_jac) {
  ++evals;
  jac_evals += want_jac;
  if (want_jac) seen_jac = true;
  const RBlock& rb = m->rbs[c.id];
  for (size_t b = 0; b < rb.pb.size(); ++b) SIM_CHECK(sim::HeapOk(p[b], m->pbs[rb.pb[b]].size * sizeof(double)), "bad-parameter-pointer", "cost function %d was given an invalid pointer for its parameter block %zu", c.id, b);
  if (!solving) return;
  if (cnt->active > 1) parallel = true;
  SIM_CHECK(cnt->active <= num_threads, "too-many-threads", "%d cost functions are being evaluated at once by %d threads", cnt->active, num_threads);
  SIM_CHECK(!MustNotEvaluate(), "evaluation-after-stop", "cost function %d was evaluated after %s", c.id, stop_reason);
  if (checking && !want_jac) return;
  for (size_t b = 0; b < rb.pb.size(); ++b) CheckPoint(rb.pb[b], p[b]);
  if (want_jac)
    for (int i : rb.pb)
      if (m->pbs[i].kind == kLinear && m->pbs[i].manifold) {
        const auto* mf = static_cast<const SimManifold*>(m->pbs[i].manifold);
        mf->fresh = mf->users;
      }
  if (ecb) {
    SIM_CHECK(ecb->prepared, "prepare-protocol", "cost function %d was evaluated before PrepareForEvaluation", c.id);
    SIM_CHECK(!want_jac || ecb->with_jac, "prepare-protocol", "cost function %d is asked for Jacobians, PrepareForEvaluation was told none are needed", c.id);
    for (size_t b = 0; b < rb.pb.size(); ++b) {
      const int i = rb.pb[b];
      SIM_CHECK(SameBits(p[b], ecb->at[i].data(), m->pbs[i].size), "prepare-protocol", "cost function %d is evaluated at a point for which PrepareForEvaluation was not called (block %d)", c.id, i);
      SIM_CHECK(SameBits(p[b], m->pbs[i].x, m->pbs[i].size), "prepare-protocol", "the user's memory of block %d does not hold the point being evaluated", i);
    }
  } else if (check_frozen) {
    for (size_t b = 0; b < rb.pb.size(); ++b) {
      const int i = rb.pb[b];
      SIM_CHECK(SameBits(m->pbs[i].x, frozen[i].data(), m->pbs[i].size), "early-update", "the user's parameter block %d changed while the solve is running", i);
    }
  }
}
void SolveMonitor::OnEvalDone(const SimCost&, bool ok) { failed += !ok; }
bool SolveMonitor::Fail(const SimCost& c, double const* const* p, bool want_jac) {
  if (fail && fail(c, p, want_jac)) return true;
  // A transient failure at a trial point (never at a point already accepted).
  if (solving && !want_jac && seen_jac && sim::Fault("cost.trial")) {
    ++cand_failed;
    return true;
  }
  return false;
}

static std::vector<char> UsedBlocks(const Model& m) {
  std::vector<char> used(m.pbs.size(), 0);
  for (auto& rb : m.rbs)
    if (rb.id)
      for (int i : rb.pb) used[i] = 1;
  return used;
}

double ProjectedGradientNorm(const Model& m, const State& s) {
  const std::vector<char> used = UsedBlocks(m);
  const RefEval e = m.Reference(s, m.AllRb(), m.AllPb(), true, false);
  double worst = 0;
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    const PBlock& b = m.pbs[i];
    const int c = e.pb_col[i];
    if (c < 0 || !used[i]) continue;
    std::vector<double> y(b.size);
    Vec d = -e.gradient.segment(c, b.tangent);
    if (b.kind == kLinear) {
      const Vec z = b.S * d;
      for (int k = 0; k < b.size; ++k) y[k] = s[i][k] + z[k];
    } else if (b.ref) {
      b.ref->Plus(s[i].data(), d.data(), y.data());
    } else {
      for (int k = 0; k < b.size; ++k) y[k] = s[i][k] + d[k];
    }
    for (int k = 0; k < b.size; ++k) {
      if (b.Bounded()) y[k] = std::min(std::max(y[k], b.lo[k]), b.hi[k]);
      worst = std::max(worst, std::abs(y[k] - s[i][k]));
    }
  }
  return worst;
}

void CheckProblemIntact(const Model& m, const ceres::Problem& p) {
  SIM_CHECK(p.NumParameterBlocks() == (int)m.pbs.size() && p.NumResidualBlocks() == (int)m.rbs.size(), "problem-changed", "the problem has %d parameter and %d residual blocks, the user added %zu and %zu", p.NumParameterBlocks(), p.NumResidualBlocks(), m.pbs.size(), m.rbs.size());
  for (size_t i = 0; i < m.pbs.size(); ++i) SIM_CHECK(p.HasParameterBlock(m.pbs[i].x) && p.ParameterBlockSize(m.pbs[i].x) == m.pbs[i].size, "problem-changed", "parameter block %zu is no longer part of the problem", i);
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    const PBlock& b = m.pbs[i];
    SIM_CHECK(p.IsParameterBlockConstant(b.x) == (b.constant || b.tangent == 0), "problem-changed", "whether parameter block %zu is constant changed", i);
    SIM_CHECK(p.GetManifold(b.x) == b.manifold, "problem-changed", "the manifold of parameter block %zu changed", i);
    for (int k = 0; k < b.size; ++k) {
      const double lo = b.lo.empty() ? -std::numeric_limits<double>::max() : b.lo[k], hi = b.hi.empty() ? std::numeric_limits<double>::max() : b.hi[k];
      SIM_CHECK(p.GetParameterLowerBound(b.x, k) == lo && p.GetParameterUpperBound(b.x, k) == hi, "problem-changed", "the bounds of parameter block %zu changed", i);
    }
  }
  std::vector<ceres::ResidualBlockId> ids;
  p.GetResidualBlocks(&ids);
  for (size_t i = 0; i < ids.size(); ++i) SIM_CHECK(ids[i] == m.rbs[i].id, "problem-changed", "the order of the residual blocks changed at %zu", i);
}

Solved RunSolve(Model* m, ceres::Problem* problem, SolveMonitor* mon, const SolveCfg& cfg, const CbPlan& plan) {
  Solved r;
  Solver::Options o = cfg.o;
  std::vector<std::unique_ptr<UserCb>> cbs;
  std::map<int, std::set<double*>> lin, inn;
  uint64_t f0, mf0, j0, t0;
  {
    sim::Quiet q;
    r.start = m->UserState();
    MakeOrderings(*m, &o);
    if (cfg.tweak) cfg.tweak(&o);
    if (o.linear_solver_ordering) lin = o.linear_solver_ordering->group_to_elements();
    if (o.inner_iteration_ordering) inn = o.inner_iteration_ordering->group_to_elements();
    for (int i = 0; i < plan.count; ++i) {
      auto cb = std::make_unique<UserCb>();
      cb->idx = i;
      cb->mon = mon;
      cb->plan = &plan;
      cb->opts = &cfg.o;
      cb->recs = &r.recs;
      cb->stopped = &r.stopped;
      cb->main_thread = sim::Self();
      cb->t0 = sim::NowNs();
      cb->jumps0 = sim::FaultCount("clock.jump");
      o.callbacks.push_back(cb.get());
      cbs.push_back(std::move(cb));
    }
    std::string err;
    SIM_CHECK(o.IsValid(&err), "harness-invalid-options", "the harness drew invalid options: %s", err.c_str());
    mon->start = mon->frozen = r.start;
    // An infeasible start is first projected; fixed coordinates included.
    mon->check_bounds = o.minimizer_type == ceres::TRUST_REGION;
    mon->check_frozen = mon->ecb == nullptr && !(o.update_state_every_iteration && plan.count == 0);
    mon->num_threads = o.num_threads;
    mon->must_not_evaluate = mon->stop_is_time = false;
    mon->seen_jac = false;
    mon->parallel = false;
    if (mon->ecb) mon->ecb->prepared = false;
    mon->solving = true;
    f0 = mon->failed;
    mf0 = ManifoldFaults();
    j0 = sim::FaultCount("clock.jump");
    t0 = sim::NowNs();
    sim::Event("solve %s", cfg.text.c_str());
  }
  try {
    ceres::Solve(o, problem, &r.s);
  } catch (...) {
    mon->solving = false;
    throw;
  }
  sim::Quiet q;
  mon->solving = false;
  const Solver::Summary& s = r.s;
  r.ns = sim::NowNs() - t0;
  r.end = m->UserState();
  r.clean = static_cast<uint64_t>(mon->failed) == f0 && ManifoldFaults() == mf0;
  r.jumped = sim::FaultCount("clock.jump") != j0;
  const bool tr = o.minimizer_type == ceres::TRUST_REGION;
  // The gradient checker's verdict replaces any other.
  const bool gradient_error = mon->checking && s.message.find("Gradient Error detected!") != std::string::npos;
  if (gradient_error) SIM_CHECK(s.termination_type == ceres::FAILURE, "termination", "a wrong Jacobian was reported, the termination type is %s", ceres::TerminationTypeToString(s.termination_type));
  const int n = static_cast<int>(s.iterations.size());
  for (auto& it : s.iterations) sim::Event("  it %d valid %d ok %d cost %.12g change %.6g step %.6g ratio %.6g radius %.6g grad %.6g", it.iteration, it.step_is_valid, it.step_is_successful, it.cost, it.cost_change, it.step_norm, it.relative_decrease, it.trust_region_radius, it.gradient_max_norm);
  sim::Event("solved type %d its %d cost %.9g -> %.9g: %s", s.termination_type, n, s.initial_cost, s.final_cost, s.message.substr(0, 60).c_str());
  if (mon->parallel) sim::Probe("solve.parallel");
  SIM_CHECK(mon->cnt->active == 0, "evaluation-outlives-call", "Solve returned while %d cost functions are being evaluated", mon->cnt->active);
  mon->must_not_evaluate = false;

  // What the parameters are.
  for (size_t i = 0; i < m->pbs.size(); ++i)
    if (m->pbs[i].constant || m->pbs[i].tangent == 0) SIM_CHECK(SameBits(r.end[i].data(), r.start[i].data(), m->pbs[i].size), "constant-moved", "constant parameter block %zu was modified by the solve", i);
  if (!s.IsSolutionUsable()) {
    sim::Probe("solve.unusable");
    for (size_t i = 0; i < m->pbs.size(); ++i) SIM_CHECK(SameBits(r.end[i].data(), r.start[i].data(), m->pbs[i].size), "failed-solve-modified", "the solve ended with %s (%s), but parameter block %zu was modified", ceres::TerminationTypeToString(s.termination_type), s.message.substr(0, 200).c_str(), i);
  } else {
    sim::Probe("solve.usable");
    const std::vector<char> used = UsedBlocks(*m);
    for (size_t i = 0; i < m->pbs.size(); ++i) {
      if (used[i])
        mon->CheckPoint(static_cast<int>(i), r.end[i].data());
      else  // No residual depends on it: it is none of the solver's business, feasible or not.
        SIM_CHECK(SameBits(r.end[i].data(), r.start[i].data(), m->pbs[i].size), "unused-moved", "parameter block %zu is used by no residual block, but was moved", i);
    }
    const double c1 = m->Cost(r.end);
    SIM_CHECK(Close(c1, s.final_cost, 1e-7), "final-cost", "final_cost is %.17g, the cost at the returned parameters is %.17g (%s; %s)", s.final_cost, c1, cfg.text.c_str(), s.message.substr(0, 200).c_str());
    SIM_CHECK(s.final_cost <= s.initial_cost * (1 + 1e-12) + 1e-300, "cost-increased", "final_cost %.17g exceeds initial_cost %.17g (%s)", s.final_cost, s.initial_cost, cfg.text.c_str());
  }
  {
    // The starting point, projected when bounds exclude it.
    State p = r.start;
    for (size_t i = 0; i < m->pbs.size(); ++i) {
      const PBlock& b = m->pbs[i];
      if (tr && b.Bounded() && !b.constant && b.tangent > 0)
        for (int k = 0; k < b.size; ++k) p[i][k] = std::min(std::max(p[i][k], b.lo[k]), b.hi[k]);
    }
    const double c0 = m->Cost(p);
    if (s.initial_cost != -1 || s.IsSolutionUsable()) SIM_CHECK(Close(c0, s.initial_cost, 1e-9), "initial-cost", "initial_cost is %.17g, the cost at the start is %.17g", s.initial_cost, c0);
    if (n > 0) SIM_CHECK(Close(c0, s.iterations[0].cost, 1e-9), "initial-cost", "iteration 0 has cost %.17g, the cost at the start is %.17g", s.iterations[0].cost, c0);
  }

  // Iterations.
  int ok = 0, bad = 0, invalid = 0;
  double best = std::numeric_limits<double>::infinity(), current = 0;
  for (int i = 0; i < n; ++i) {
    const auto& it = s.iterations[i];
    SIM_CHECK(it.iteration == i, "iteration-number", "iteration %d is recorded as number %d", i, it.iteration);
    SIM_CHECK(std::isfinite(it.gradient_max_norm) && std::isfinite(it.step_norm), "iteration-values", "iteration %d reports non-finite norms", i);
    if (it.step_is_successful || (!tr && i == 0)) {
      SIM_CHECK(std::isfinite(it.cost), "iteration-values", "iteration %d is successful with cost %g", i, it.cost);
      if (i > 0) {
        ++ok;
        if (!(tr && o.use_nonmonotonic_steps)) SIM_CHECK(it.cost <= current + 1e-12 * std::abs(current), "accepted-increase", "iteration %d was accepted although the cost rose from %.17g to %.17g (%s)", i, current, it.cost, cfg.text.c_str());
        SIM_CHECK(std::abs(it.cost_change - (current - it.cost)) <= 1e-9 * (1 + std::abs(current)), "cost-change", "iteration %d reports a cost change of %.17g, the costs are %.17g and %.17g", i, it.cost_change, current, it.cost);
      } else if (tr) {
        ++ok;
      }
      current = it.cost;
      best = std::min(best, it.cost);
    } else {
      ++bad;
    }
    invalid = it.step_is_valid || !tr ? 0 : invalid + 1;
    SIM_CHECK(invalid == 0 || invalid < std::max(1, o.max_num_consecutive_invalid_steps), "invalid-steps", "%d consecutive invalid steps were taken, the limit is %d", invalid, o.max_num_consecutive_invalid_steps);
  }
  if (n > 0 && s.num_successful_steps >= 0) {
    SIM_CHECK(s.num_successful_steps == ok, "step-count", "num_successful_steps is %d, %d iterations were successful", s.num_successful_steps, ok);
    SIM_CHECK(s.num_unsuccessful_steps == (tr ? bad : 0), "step-count", "num_unsuccessful_steps is %d, %d iterations were not successful", s.num_unsuccessful_steps, bad);
  }
  if (n > 0) SIM_CHECK(s.iterations.back().iteration <= o.max_num_iterations, "iteration-limit", "%d iterations were made, the limit is %d", s.iterations.back().iteration, o.max_num_iterations);
  if (s.IsSolutionUsable() && n > 0) SIM_CHECK(Close(s.final_cost, best, 1e-12), "final-cost", "final_cost is %.17g, the best accepted iteration has %.17g (%s)", s.final_cost, best, cfg.text.c_str());

  // Callbacks: every callback for every iteration, until one stops the solve.
  {
    const int ncb = plan.count;
    const int calls = static_cast<int>(r.recs.size());
    for (int k = 0; k < calls; ++k) {
      const auto& a = r.recs[k].s;
      SIM_CHECK(a.iteration < n, "callback-order", "a callback ran for iteration %d, which is not in the summary", a.iteration);
      const auto& b = s.iterations[a.iteration];
      SIM_CHECK(Bits(a.cost) == Bits(b.cost) && a.step_is_successful == b.step_is_successful && Bits(a.gradient_max_norm) == Bits(b.gradient_max_norm) && Bits(a.step_norm) == Bits(b.step_norm) && Bits(a.trust_region_radius) == Bits(b.trust_region_radius) && a.linear_solver_iterations == b.linear_solver_iterations,
                "callback-summary", "the callback saw another summary of iteration %d than Solve returned", a.iteration);
    }
    if (ncb > 0 && n > 0) {
      int want;
      if (r.stopped) {
        want = plan.stop_iteration * ncb + plan.stop_cb + 1;
        SIM_CHECK(plan.stop_iteration == n - 1, "callback-stop", "a callback stopped the solve at iteration %d, but %d iterations were made", plan.stop_iteration, n - 1);
      } else {
        want = n * ncb;
      }
      const bool ls_converged = !tr && !r.stopped && (s.termination_type == ceres::CONVERGENCE || gradient_error);
      SIM_CHECK(calls == want || (ls_converged && calls == want - ncb), "callback-missing", "callbacks ran %d times for %d iterations and %d callbacks", calls, n, ncb);
    }
    if (!gradient_error) SIM_CHECK(r.stopped == (s.termination_type == ceres::USER_SUCCESS || s.termination_type == ceres::USER_FAILURE), "termination", "the termination type is %s, callbacks %s", ceres::TerminationTypeToString(s.termination_type), r.stopped ? "stopped the solve" : "did not stop the solve");
    if (r.stopped && !gradient_error) SIM_CHECK((s.termination_type == ceres::USER_SUCCESS) == (plan.stop == ceres::SOLVER_TERMINATE_SUCCESSFULLY), "termination", "a callback returned %d, the termination type is %s", plan.stop, ceres::TerminationTypeToString(s.termination_type));
  }

  // Reasons.
  if (s.termination_type == ceres::NO_CONVERGENCE) {
    const bool its = n > 0 && s.iterations.back().iteration >= o.max_num_iterations;
    const bool time = !r.jumped ? static_cast<double>(r.ns) * 1e-9 >= o.max_solver_time_in_seconds : o.max_solver_time_in_seconds < 1e8;
    SIM_CHECK(its || time, "termination", "NO_CONVERGENCE, but neither the iteration nor the time limit was reached: %s", s.message.c_str());
  }
  if (s.termination_type == ceres::CONVERGENCE) {
    sim::Probe("solve.converged");
    if (s.message.find("Gradient tolerance") != std::string::npos) {
      const double g = ProjectedGradientNorm(*m, r.end);
      // The best point is returned; with nonmonotonic steps it need not be the last.
      if (!(tr && o.use_nonmonotonic_steps) && !mon->wrong_gradients) SIM_CHECK(g <= o.gradient_tolerance * (1 + 1e-6) + 1e-10 * (1 + s.final_cost), "false-convergence", "converged by the gradient tolerance %g, but the gradient norm at the solution is %g (%s)", o.gradient_tolerance, g, cfg.text.c_str());
      sim::Probe("solve.gradient_tolerance");
    }
  }
  if (s.termination_type == ceres::FAILURE) sim::Probe("solve.failure");

  // Times.
  if (!r.jumped && n > 0) {
    const double total = static_cast<double>(r.ns) * 1e-9;
    double last = 0;
    for (auto& it : s.iterations) {
      SIM_CHECK(it.iteration_time_in_seconds >= 0 && it.cumulative_time_in_seconds >= last && it.cumulative_time_in_seconds <= total + 1e-9, "times", "iteration %d: time %g, cumulative %g after %g, the solve took %g", it.iteration, it.iteration_time_in_seconds, it.cumulative_time_in_seconds, last, total);
      last = it.cumulative_time_in_seconds;
    }
    SIM_CHECK(s.preprocessor_time_in_seconds >= 0 && s.minimizer_time_in_seconds >= 0 && s.postprocessor_time_in_seconds >= 0, "times", "negative time in the summary");
    SIM_CHECK(s.preprocessor_time_in_seconds + s.minimizer_time_in_seconds + s.postprocessor_time_in_seconds <= s.total_time_in_seconds + 1e-9 && s.total_time_in_seconds <= total + 1e-9, "times", "the parts of the solve took %g + %g + %g s of a total of %g s, the call took %g s", s.preprocessor_time_in_seconds, s.minimizer_time_in_seconds, s.postprocessor_time_in_seconds, s.total_time_in_seconds, total);
  }
  CheckProblemIntact(*m, *problem);
  // The options are the caller's.
  SIM_CHECK(!o.linear_solver_ordering || o.linear_solver_ordering->group_to_elements() == lin, "options-changed", "the solve changed the caller's linear_solver_ordering");
  SIM_CHECK(!o.inner_iteration_ordering || o.inner_iteration_ordering->group_to_elements() == inn, "options-changed", "the solve changed the caller's inner_iteration_ordering");
  SIM_CHECK(s.num_residual_blocks == (int)m->rbs.size() && s.num_parameter_blocks == (int)m->pbs.size(), "summary-counts", "the summary counts %d residual and %d parameter blocks", s.num_residual_blocks, s.num_parameter_blocks);
  sim::State(HashMix(cfg.Fingerprint() ^ m->shape, s.termination_type));
  return r;
}

ModelOptions EasyModel() {
  ModelOptions o;
  o.max_pb = 5;
  o.min_rb = 1;
  o.max_rb = 7;
  o.losses = false;
  o.nonlinearity = 0.2;
  o.bipartite = sim::Chance(50);
  return o;
}
ModelOptions AnyModel() {
  ModelOptions o;
  o.max_pb = 5;
  o.min_rb = 1;
  o.max_rb = 8;
  o.nonlinearity = sim::Chance(30) ? 2.0 : 0.4;
  o.bipartite = sim::Chance(50);
  o.priors = !sim::Chance(15);
  return o;
}

void ArmEvalFaults(double rate) {
  static const char* sites[] = {"cost.false", "cost.nan", "cost.jac_nan", "cost.partial", "manifold.plus", "manifold.jacobian"};
  const int which = static_cast<int>(sim::Draw(8));
  for (int i = 0; i < 6; ++i)
    if (which >= 6 || which == i) sim::ArmFault(sites[i], which >= 6 ? rate / 4 : rate);
}

// Two solves of the same problem from the same point, which may differ only in
// rounding, took the same steps.
void CompareSolves(const Model& m, const Solved& a, const Solved& b, const SolveCfg& cfg, bool unique) {
  const auto& o = cfg.o;
  const bool tr = o.minimizer_type == ceres::TRUST_REGION;
  const int n = static_cast<int>(std::min(a.s.iterations.size(), b.s.iterations.size()));
  const double scale = std::abs(a.s.initial_cost) + 1e-6;
  const bool cg = tr && (o.linear_solver_type == ceres::CGNR || o.linear_solver_type == ceres::ITERATIVE_SCHUR);
  double tol = cg ? 1e-4 : 1e-9;
  bool same = true, tail = false;
  int i = 0;
  for (; i < n && same && !tail; ++i) {
    const auto& x = a.s.iterations[i];
    const auto& y = b.s.iterations[i];
    if (i > 0 && std::abs(x.cost_change) <= 1e-7 * scale) {
      tail = true;
      break;
    }
    if (tr && i > 0) {
      // Near-ties may go either way.
      static const double th[] = {0.25, 0.75, 0};
      for (double t : th)
        if (std::abs(x.relative_decrease - t) < 1e-5) same = false;
      if (std::abs(x.relative_decrease - o.min_relative_decrease) < 1e-5) same = false;
      if (x.step_is_valid != y.step_is_valid && x.step_norm < 1e-6) same = false;
      // Conjugate gradients report a breakdown when they hit the exact solution.
      if (!y.step_is_valid && cg) same = false;
      if (!same) break;
      SIM_CHECK(x.step_is_valid == y.step_is_valid && x.step_is_successful == y.step_is_successful, "trajectory", "iteration %d: serial reference valid %d successful %d (ratio %.9g), this solve valid %d successful %d (ratio %.9g) [%s]", i, x.step_is_valid, x.step_is_successful, x.relative_decrease,
                y.step_is_valid, y.step_is_successful, y.relative_decrease, cfg.text.c_str());
    }
    if (!tr && i > 0 && x.line_search_iterations != y.line_search_iterations) {
      same = false;
      break;
    }
    const double d = std::abs(x.cost - y.cost);
    SIM_CHECK(d <= tol * std::max(scale, std::abs(x.cost)), "trajectory", "iteration %d has cost %.17g, the serial reference has %.17g [%s]", i, y.cost, x.cost, cfg.text.c_str());
    tol = std::min(tol * (tr ? 4 : 30), cg ? 1e-3 : 1e-4);
    if (!tr && tol >= 1e-4) same = false;
  }
  if (i > 2) sim::NonTrivial();
  sim::Probe(same ? tail ? "trajectory.tail" : "trajectory.full" : "trajectory.tie");
  if (!same) return;
  if (a.s.termination_type != ceres::CONVERGENCE || b.s.termination_type != ceres::CONVERGENCE) return;
  if (!tr) return;
  SIM_CHECK(std::abs(a.s.final_cost - b.s.final_cost) <= 1e-6 * scale, "final-cost-differs", "final cost %.17g, the serial reference found %.17g [%s]", b.s.final_cost, a.s.final_cost, cfg.text.c_str());
  sim::Probe("compared.final");
  if (unique && o.min_lm_diagonal < 1e-4) {
    for (size_t i = 0; i < a.end.size(); ++i)
      for (size_t k = 0; k < a.end[i].size(); ++k) SIM_CHECK(std::abs(a.end[i][k] - b.end[i][k]) <= 1e-3 * (1 + std::abs(a.end[i][k])), "solution-differs", "block %zu [%zu] = %.12g, the serial reference found %.12g [%s]", i, k, b.end[i][k], a.end[i][k], cfg.text.c_str());
  }
}

bool SameSolve(const Model& m, const Solved& a, const Solved& b, std::string* why) {
  char t[256];
  auto say = [&](const char* f, auto... v) {
    snprintf(t, sizeof(t), f, v...);
    *why = t;
    return false;
  };
  if (a.s.termination_type != b.s.termination_type) return say("termination %s and %s", ceres::TerminationTypeToString(a.s.termination_type), ceres::TerminationTypeToString(b.s.termination_type));
  if (a.s.iterations.size() != b.s.iterations.size()) return say("%zu and %zu iterations", a.s.iterations.size(), b.s.iterations.size());
  for (size_t i = 0; i < a.s.iterations.size(); ++i)
    if (Bits(a.s.iterations[i].cost) != Bits(b.s.iterations[i].cost)) return say("iteration %zu has cost %.17g and %.17g", i, a.s.iterations[i].cost, b.s.iterations[i].cost);
  if (Bits(a.s.final_cost) != Bits(b.s.final_cost)) return say("final cost %.17g and %.17g", a.s.final_cost, b.s.final_cost);
  for (size_t i = 0; i < a.end.size(); ++i)
    if (!SameBits(a.end[i].data(), b.end[i].data(), static_cast<int>(a.end[i].size()))) return say("parameter block %zu differs", i);
  return true;
}


}  // namespace wl
