// C21: what the summary of a solve says about the problem, the configuration
// and the time is what happened.
#include <cinttypes>

#include "solve.h"

namespace {

using namespace wl;
using ceres::Solver;

struct Spent {
  uint64_t fixed = 0, residual = 0, jacobian = 0, callbacks = 0, all = 0;
};

bool Varying(const PBlock& b) { return !b.constant && b.tangent > 0; }

struct Counts {
  int pb = 0, par = 0, eff = 0, rb = 0, res = 0;
};

// "Label   12   34" in a report.
bool Line(const std::string& report, const char* label, std::vector<double>* out) {
  const std::string key = std::string("\n") + label;
  size_t at = report.rfind(key);
  if (at == std::string::npos) return false;
  at += key.size();
  const size_t end = report.find('\n', at);
  std::string rest = report.substr(at, end - at);
  for (char& c : rest)
    if (c == '(' || c == ')') c = ' ';
  const char* p = rest.c_str();
  out->clear();
  for (;;) {
    char* q;
    const double v = strtod(p, &q);
    if (q == p) break;
    out->push_back(v);
    p = q;
  }
  return true;
}

#define REPORT(label, ...)                                                                                                   \
  do {                                                                                                                      \
    std::vector<double> got_, want_{__VA_ARGS__};                                                                            \
    const bool found_ = Line(report, label, &got_);                                                                          \
    SIM_CHECK(found_ && got_.size() >= want_.size(), "report", "the full report has no line '%s' with %zu numbers", label, want_.size()); \
    for (size_t i_ = 0; i_ < want_.size(); ++i_)                                                                             \
      SIM_CHECK(std::abs(got_[i_] - want_[i_]) <= 2e-6 * (1 + std::abs(want_[i_])), "report", "the full report says '%s' %.9g, the summary says %.9g", label, got_[i_], want_[i_]); \
  } while (0)

uint64_t ManifoldFaults() { return sim::FaultCount("manifold.plus") + sim::FaultCount("manifold.trial") + sim::FaultCount("manifold.jacobian"); }

void Summary(bool reports) {
  ModelOptions mo = AnyModel();
  mo.bounds = sim::Chance(25);
  mo.priors = !sim::Chance(40);
  World w(mo, sim::Chance(25));
  Flavor f;
  if (w.ecb) f.inner = false;
  SolveCfg cfg = DrawSolve(w.m, f);
  if (!w.ecb && cfg.o.minimizer_type == ceres::TRUST_REGION && sim::Chance(20)) cfg.o.use_inner_iterations = true;
  // Blocks that stop varying after the ordering was made.
  if (sim::Chance(30))
    for (auto& b : w.m.pbs)
      if (sim::Chance(25)) {
        b.constant = true;
        w.problem->SetParameterBlockConstant(b.x);
      }
  int hw = 0;
  if (sim::Chance(25)) {
    hw = sim::Range(1, 4);
    sim::SetHardwareConcurrency(hw);
  }
  sim::SetTick(0);
  Model& m = w.m;
  Spent spent;
  std::vector<long> plain(m.rbs.size(), 0), jac(m.rbs.size(), 0);
  std::vector<char> fixed(m.rbs.size(), 1);
  bool any_fixed = false;
  for (size_t i = 0; i < m.rbs.size(); ++i) {
    for (int b : m.rbs[i].pb)
      if (Varying(m.pbs[b])) fixed[i] = 0;
    any_fixed |= fixed[i];
  }
  const uint64_t slowness = sim::Chance(20) ? 2000000000ull : 3000000ull;
  auto cost_time = [&](int id, long n) { return 1 + HashMix(id * 977 + 13, n) % slowness; };
  w.mon.fail = [&](const SimCost& c, const double* const*, bool want_jac) {
    if (!w.mon.solving) return false;
    const uint64_t t = cost_time(c.id, plain[c.id] + jac[c.id]);
    ++(want_jac ? jac : plain)[c.id];
    (fixed[c.id] ? spent.fixed : want_jac ? spent.jacobian : spent.residual) += t;
    spent.all += t;
    sim::Advance(t);
    return false;
  };
  long prepared[2] = {0, 0};
  if (w.ecb)
    w.ecb->slow = [&](bool want_jac) {
      if (!w.mon.solving) return;
      const bool pre = any_fixed && prepared[0] + prepared[1] == 0;
      const uint64_t t = cost_time(1000, prepared[0] + prepared[1]);
      ++prepared[want_jac];
      (pre ? spent.fixed : want_jac ? spent.jacobian : spent.residual) += t;
      spent.all += t;
      sim::Advance(t);
    };
  CbPlan plan;
  plan.count = sim::Range(0, 2);
  if (sim::Chance(15) && plan.count > 0) {
    plan.stop_cb = sim::Range(0, plan.count - 1);
    plan.stop_iteration = sim::Range(0, 3);
    plan.stop = sim::Chance(50) ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  }
  std::map<int, uint64_t> cb_time;
  struct At {
    long plain = 0, jac = 0;
  };
  std::map<int, At> at;
  int probe = -1;  // a residual block that is part of the reduced problem
  for (size_t i = 0; i < m.rbs.size(); ++i)
    if (!fixed[i]) probe = static_cast<int>(i);
  plan.extra = [&](int cb, const ceres::IterationSummary& s) {
    const uint64_t t = cost_time(2000 + cb, s.iteration);
    cb_time[s.iteration] += t;
    spent.callbacks += t;
    spent.all += t;
    if (probe >= 0) at[s.iteration] = At{plain[probe], jac[probe]};
    sim::Advance(t);
  };
  if (sim::Chance(10)) cfg.o.max_solver_time_in_seconds = sim::Uniform(0.0, 0.02);
  const bool faults = sim::Chance(30);
  if (faults) {
    if (sim::Chance(50)) sim::ArmFault("cost.trial", 0.1);
    else ArmEvalFaults(0.02);
  }
  std::vector<int> lin_given, inn_given;
  const Solver::Options* opt = nullptr;
  Solver::Options seen;
  cfg.tweak = [&](Solver::Options* o) {
    // Any ordering of the caller's.
    if (o->minimizer_type == ceres::TRUST_REGION && !o->linear_solver_ordering && sim::Chance(30)) {
      auto od = std::make_shared<ceres::ParameterBlockOrdering>();
      const bool schur = o->linear_solver_type == ceres::DENSE_SCHUR || o->linear_solver_type == ceres::SPARSE_SCHUR || o->linear_solver_type == ceres::ITERATIVE_SCHUR;
      const int groups = schur ? 1 : sim::Range(1, 3);
      for (auto& b : m.pbs) od->AddElementToGroup(b.x, 5 + static_cast<int>(sim::Draw(groups)));
      if (schur && sim::Chance(50))  // A first group of which nothing is left.
        for (auto& b : m.pbs)
          if (!Varying(b)) od->AddElementToGroup(b.x, 3);
      o->linear_solver_ordering = od;
    }
    seen = *o;
    opt = &seen;
    auto sizes = [](const ceres::ParameterBlockOrdering* p, std::vector<int>* out) {
      if (p)
        for (auto& g : p->group_to_elements()) out->push_back(static_cast<int>(g.second.size()));
    };
    sizes(o->linear_solver_ordering.get(), &lin_given);
    sizes(o->inner_iteration_ordering.get(), &inn_given);
  };
  const Solved r = RunSolve(&m, w.problem.get(), &w.mon, cfg, plan);
  sim::FaultsOff();
  sim::Quiet q;
  const Solver::Summary& s = r.s;
  const Solver::Options& o = seen;
  const bool tr = o.minimizer_type == ceres::TRUST_REGION;
  const char* text = cfg.text.c_str();
  sim::SetTick(1000);

  // Does every part of the problem count?
  Counts given, reduced;
  std::vector<char> used(m.pbs.size(), 0);
  for (size_t i = 0; i < m.rbs.size(); ++i) {
    const int d = m.rbs[i].cost.dim;
    given.rb++;
    given.res += d;
    if (fixed[i]) continue;
    reduced.rb++;
    reduced.res += d;
    for (int b : m.rbs[i].pb) used[b] = 1;
  }
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    const PBlock& b = m.pbs[i];
    given.pb++;
    given.par += b.size;
    given.eff += b.tangent;
    used[i] = used[i] && Varying(b);
    if (!used[i]) continue;
    reduced.pb++;
    reduced.par += b.size;
    reduced.eff += b.tangent;
  }
  SIM_CHECK(s.num_parameter_blocks == given.pb && s.num_parameters == given.par && s.num_effective_parameters == given.eff && s.num_residual_blocks == given.rb && s.num_residuals == given.res, "counts",
            "the summary counts %d/%d/%d parameters and %d/%d residuals (blocks, scalars, effective), the problem has %d/%d/%d and %d/%d", s.num_parameter_blocks, s.num_parameters, s.num_effective_parameters, s.num_residual_blocks, s.num_residuals, given.pb, given.par, given.eff, given.rb, given.res);
  const bool pre_failed = s.num_parameter_blocks_reduced < 0;  // no reduced problem was made
  if (!pre_failed)
    SIM_CHECK(s.num_parameter_blocks_reduced == reduced.pb && s.num_parameters_reduced == reduced.par && s.num_effective_parameters_reduced == reduced.eff && s.num_residual_blocks_reduced == reduced.rb && s.num_residuals_reduced == reduced.res, "counts",
              "the summary counts %d/%d/%d parameters and %d/%d residuals in the reduced problem, which has %d/%d/%d and %d/%d", s.num_parameter_blocks_reduced, s.num_parameters_reduced, s.num_effective_parameters_reduced, s.num_residual_blocks_reduced, s.num_residuals_reduced, reduced.pb, reduced.par,
              reduced.eff, reduced.rb, reduced.res);
  else
    SIM_CHECK(s.termination_type == ceres::FAILURE && faults, "counts", "the summary has no reduced problem: %s", s.message.c_str());
  if (!pre_failed && r.clean) {
    std::vector<int> rbs;
    for (size_t i = 0; i < m.rbs.size(); ++i)
      if (fixed[i]) rbs.push_back(static_cast<int>(i));
    const double c = rbs.empty() ? 0 : m.Reference(r.start, rbs, m.AllPb(), true, false).cost;
    SIM_CHECK(Close(s.fixed_cost, c, 1e-10), "fixed-cost", "fixed_cost is %.17g, the residual blocks without a variable cost %.17g", s.fixed_cost, c);
    if (any_fixed) sim::Probe("report.fixed");
  }

  // The configuration.
  const int hardware = hw ? hw : 1 << 20;
  SIM_CHECK(s.num_threads_given == o.num_threads, "configuration", "%d threads were asked for, the summary says %d", o.num_threads, s.num_threads_given);
  SIM_CHECK(s.num_threads_used == std::min(o.num_threads, hardware) || (!hw && s.num_threads_used <= o.num_threads && s.num_threads_used >= 1), "configuration", "%d threads were used for %d on a machine with %d", s.num_threads_used, o.num_threads, hw);
  SIM_CHECK(w.cnt.max_active <= s.num_threads_used, "configuration", "%d cost functions were evaluated at once, the summary says that %d threads were used", w.cnt.max_active, s.num_threads_used);
  SIM_CHECK(s.minimizer_type == o.minimizer_type && s.linear_solver_type_given == o.linear_solver_type && s.preconditioner_type_given == o.preconditioner_type && s.trust_region_strategy_type == o.trust_region_strategy_type && s.dogleg_type == o.dogleg_type &&
                s.dense_linear_algebra_library_type == o.dense_linear_algebra_library_type && s.sparse_linear_algebra_library_type == o.sparse_linear_algebra_library_type && s.line_search_direction_type == o.line_search_direction_type && s.line_search_type == o.line_search_type &&
                s.line_search_interpolation_type == o.line_search_interpolation_type && s.nonlinear_conjugate_gradient_type == o.nonlinear_conjugate_gradient_type && s.max_lbfgs_rank == o.max_lbfgs_rank && s.visibility_clustering_type == o.visibility_clustering_type &&
                s.inner_iterations_given == o.use_inner_iterations && s.linear_solver_ordering_type == o.linear_solver_ordering_type,
            "configuration", "the summary reports another configuration than was given (%s)", text);
  SIM_CHECK(s.linear_solver_ordering_given == lin_given && s.inner_iteration_ordering_given == inn_given, "configuration", "the summary reports other orderings than were given");
  const bool nothing = reduced.pb == 0;
  if (!pre_failed && !nothing && tr) {
    const auto given_type = o.linear_solver_type;
    const bool schur = given_type == ceres::DENSE_SCHUR || given_type == ceres::SPARSE_SCHUR || given_type == ceres::ITERATIVE_SCHUR;
    // What is left of the caller's groups.
    std::vector<int> left;
    bool first_gone = false;
    if (o.linear_solver_ordering) {
      bool first = true;
      for (auto& g : o.linear_solver_ordering->group_to_elements()) {
        int n = 0;
        for (size_t i = 0; i < m.pbs.size(); ++i) n += used[i] && g.second.count(m.pbs[i].x);
        if (n) left.push_back(n);
        else if (first) first_gone = true;
        first = false;
      }
    } else {
      left.push_back(reduced.pb);
    }
    auto want = given_type;
    auto pre = o.preconditioner_type;
    if (schur && first_gone) {
      sim::Probe("report.no_e_blocks");
      want = given_type == ceres::DENSE_SCHUR ? ceres::DENSE_QR : given_type == ceres::SPARSE_SCHUR ? ceres::SPARSE_NORMAL_CHOLESKY : ceres::CGNR;
      if (given_type == ceres::ITERATIVE_SCHUR && pre != ceres::IDENTITY && pre != ceres::SUBSET) pre = ceres::JACOBI;
    }
    SIM_CHECK(s.linear_solver_type_used == want, "configuration", "the linear solver used is %s instead of %s (%s)", ceres::LinearSolverTypeToString(s.linear_solver_type_used), ceres::LinearSolverTypeToString(want), text);
    if (given_type == ceres::CGNR || given_type == ceres::ITERATIVE_SCHUR) SIM_CHECK(s.preconditioner_type_used == pre, "configuration", "the preconditioner used is %s instead of %s (%s)", ceres::PreconditionerTypeToString(s.preconditioner_type_used), ceres::PreconditionerTypeToString(pre), text);
    std::vector<int> got = s.linear_solver_ordering_used;
    if (schur && !first_gone && left.size() == 1) {
      int sum = 0;
      for (int v : got) sum += v;
      SIM_CHECK(got.size() <= 2 && !got.empty() && got[0] >= 1 && sum == reduced.pb, "configuration", "the elimination groups used have %zu groups with %d blocks, the reduced problem has %d", got.size(), sum, reduced.pb);
    } else {
      SIM_CHECK(got == left, "configuration", "the linear solver ordering used does not consist of what is left of the given one (%s)", text);
    }
    const bool inner = o.use_inner_iterations && reduced.pb > 1 && (!o.inner_iteration_ordering || [&] {
                         for (auto& g : o.inner_iteration_ordering->group_to_elements())
                           for (size_t i = 0; i < m.pbs.size(); ++i)
                             if (used[i] && g.second.count(m.pbs[i].x)) return true;
                         return false;
                       }());
    SIM_CHECK(s.inner_iterations_used == inner, "configuration", "inner iterations were%s used", s.inner_iterations_used ? "" : " not");
    if (inner) {
      int sum = 0;
      for (int v : s.inner_iteration_ordering_used) sum += v;
      SIM_CHECK(sum == reduced.pb, "configuration", "the inner iteration ordering used has %d blocks, the reduced problem has %d", sum, reduced.pb);
    }
    SIM_CHECK(s.mixed_precision_solves_used == (o.use_mixed_precision_solves && s.linear_solver_type_used != ceres::DENSE_QR), "configuration", "mixed_precision_solves_used is %d with %s", s.mixed_precision_solves_used, ceres::LinearSolverTypeToString(s.linear_solver_type_used));
    bool bounded = false;
    for (size_t i = 0; i < m.pbs.size(); ++i) 
      for (int k = 0; k < m.pbs[i].size && m.pbs[i].Bounded(); ++k) bounded |= used[i] && (m.pbs[i].lo[k] > -1e300 || m.pbs[i].hi[k] < 1e300);
    SIM_CHECK(s.is_constrained == bounded, "configuration", "is_constrained is %d (%s: %s)", s.is_constrained, text, s.message.c_str());
  }

  // The steps.
  const int n = static_cast<int>(s.iterations.size());
  const bool inner_on = tr && o.use_inner_iterations;
  if (!pre_failed) {
    if (n > 0) {
      const auto& it = s.iterations[0];
      SIM_CHECK(it.step_is_valid && it.step_is_successful && !it.step_is_nonmonotonic, "iteration-zero", "iteration 0 is valid %d, successful %d, nonmonotonic %d", it.step_is_valid, it.step_is_successful, it.step_is_nonmonotonic);
    }
    for (int i = 0; tr && i < n; ++i) SIM_CHECK(s.iterations[i].eta == o.eta && s.iterations[i].iteration == i, "steps", "iteration %d reports number %d and eta %g instead of %g", i, s.iterations[i].iteration, s.iterations[i].eta, o.eta);
    SIM_CHECK(s.num_successful_steps >= 0 && s.num_unsuccessful_steps >= 0, "steps", "the summary counts %d successful and %d unsuccessful steps", s.num_successful_steps, s.num_unsuccessful_steps);
    SIM_CHECK(s.num_inner_iteration_steps >= 0 && (r.jumped || (s.num_inner_iteration_steps > 0) == (s.inner_iteration_time_in_seconds > 0)) && s.num_inner_iteration_steps <= n, "steps", "the summary counts %d inner iterations which took %g s in %d iterations", s.num_inner_iteration_steps, s.inner_iteration_time_in_seconds, n);
    if (s.num_inner_iteration_steps > 0) sim::Probe("report.inner");
    if (tr && !inner_on && s.num_linear_solves >= 0 && o.trust_region_strategy_type == ceres::LEVENBERG_MARQUARDT) SIM_CHECK(s.num_linear_solves >= n - 1 && s.num_linear_solves <= n, "steps", "%d linear systems were solved in %d iterations", s.num_linear_solves, n);
    if (!tr && r.clean) {
      int steps = 0;
      for (auto& it : s.iterations) steps += it.line_search_iterations;
      SIM_CHECK(s.num_line_search_steps == steps || s.message.find("in line search") != std::string::npos, "steps", "num_line_search_steps is %d, the iterations report %d", s.num_line_search_steps, steps);
      for (int i = 1; i < n && probe >= 0; ++i)
        if (at.count(i) && at.count(i - 1)) {
          const long dp = at[i].plain - at[i - 1].plain, dj = at[i].jac - at[i - 1].jac;
          const auto& it = s.iterations[i];
          SIM_CHECK(dp == it.line_search_function_evaluations - it.line_search_gradient_evaluations && dj >= it.line_search_gradient_evaluations && dj <= it.line_search_gradient_evaluations + 1, "steps",
                    "iteration %d reports %d function and %d gradient evaluations, there were %ld evaluations without and %ld with derivatives (%s)", i, it.line_search_function_evaluations, it.line_search_gradient_evaluations, dp, dj, text);
        }
    }
    if (s.num_residual_evaluations >= 0) {
      if (r.clean && !inner_on)
        for (size_t i = 0; i < m.rbs.size(); ++i)
          if (!fixed[i])
            SIM_CHECK(plain[i] == s.num_residual_evaluations && jac[i] == s.num_jacobian_evaluations, "evaluations", "residual block %zu was evaluated %ld times without and %ld times with Jacobians, the summary says %d and %d (%s)", i, plain[i], jac[i], s.num_residual_evaluations, s.num_jacobian_evaluations, text);
      if (w.ecb && !ManifoldFaults()) {
        // Every evaluation is announced once.
        SIM_CHECK(prepared[0] + prepared[1] - (any_fixed ? 1 : 0) == s.num_residual_evaluations + s.num_jacobian_evaluations && prepared[1] == s.num_jacobian_evaluations, "evaluations", "%ld evaluations were prepared, %ld of them with Jacobians, the summary says %d and %d", prepared[0] + prepared[1], prepared[1],
                  s.num_residual_evaluations, s.num_jacobian_evaluations);
        sim::Probe("report.prepared");
      }
    }
  }

  // The time.
  const bool exact = !r.jumped;
  const double tol = 1e-8 * (1 + r.ns * 1e-9);
  auto sec = [](uint64_t t) { return static_cast<double>(t) * 1e-9; };
#define TIME(what, want)                                                                                                                     \
  SIM_CHECK(std::abs(s.what - (want)) <= tol, "time", #what " is %.9f s, it took %.9f s (%s; %s)", s.what, (want), text, s.message.c_str())
  if (exact) {
  SIM_CHECK(r.ns == spent.all, "harness-time", "%" PRIu64 " ns passed, %" PRIu64 " are accounted for", r.ns, spent.all);
  TIME(total_time_in_seconds, sec(spent.all));
  TIME(preprocessor_time_in_seconds, sec(spent.fixed));
  TIME(postprocessor_time_in_seconds, 0.0);
  if (!pre_failed) TIME(minimizer_time_in_seconds, sec(spent.all - spent.fixed));
  if (s.num_residual_evaluations >= 0 && !inner_on) {
    TIME(residual_evaluation_time_in_seconds, sec(spent.residual));
    TIME(jacobian_evaluation_time_in_seconds, sec(spent.jacobian));
    TIME(inner_iteration_time_in_seconds, 0.0);
  } else if (inner_on && s.num_residual_evaluations >= 0) {
    const double parts = s.residual_evaluation_time_in_seconds + s.jacobian_evaluation_time_in_seconds + s.inner_iteration_time_in_seconds;
    SIM_CHECK(parts >= sec(spent.all - spent.fixed - spent.callbacks) - tol, "time", "the evaluations took %.9f + %.9f s and the inner iterations %.9f s, less than the %.9f s that passed", s.residual_evaluation_time_in_seconds, s.jacobian_evaluation_time_in_seconds, s.inner_iteration_time_in_seconds,
              sec(spent.all - spent.fixed - spent.callbacks));
    SIM_CHECK(s.inner_iteration_time_in_seconds <= sec(spent.all - spent.fixed - spent.callbacks) + tol && s.residual_evaluation_time_in_seconds <= sec(spent.residual) + tol && s.jacobian_evaluation_time_in_seconds <= sec(spent.jacobian) + tol, "time", "more time is reported than passed");
  }
  if (s.num_linear_solves >= 0) TIME(linear_solver_time_in_seconds, 0.0);
  if (!pre_failed && s.num_residual_evaluations >= 0) {
    // Line searches take the time of their evaluations.
    SIM_CHECK(std::abs(s.line_search_cost_evaluation_time_in_seconds + s.line_search_gradient_evaluation_time_in_seconds + s.line_search_polynomial_minimization_time_in_seconds - s.line_search_total_time_in_seconds) <= tol, "time", "line searches: %.9f + %.9f + %.9f s of %.9f s",
              s.line_search_cost_evaluation_time_in_seconds, s.line_search_gradient_evaluation_time_in_seconds, s.line_search_polynomial_minimization_time_in_seconds, s.line_search_total_time_in_seconds);
    SIM_CHECK(s.line_search_cost_evaluation_time_in_seconds <= s.residual_evaluation_time_in_seconds + tol && s.line_search_gradient_evaluation_time_in_seconds <= s.jacobian_evaluation_time_in_seconds + tol, "time", "line searches took longer than all evaluations");
    if (!tr && r.clean && s.message.find("in line search") == std::string::npos) SIM_CHECK(std::abs(s.line_search_cost_evaluation_time_in_seconds - s.residual_evaluation_time_in_seconds) <= tol, "time", "the line searches' evaluations took %.9f s of %.9f s", s.line_search_cost_evaluation_time_in_seconds, s.residual_evaluation_time_in_seconds);
  }
  double prev = s.preprocessor_time_in_seconds;
  for (int i = 0; i < n; ++i) {
    const auto& it = s.iterations[i];
    const double want = it.cumulative_time_in_seconds - prev;
    SIM_CHECK(std::abs(it.iteration_time_in_seconds - want) <= tol, "time", "iteration %d took %.9f s, the cumulative times say %.9f s (%s)", i, it.iteration_time_in_seconds, want, text);
    SIM_CHECK(it.iteration_time_in_seconds > 0 || (i > 0 && !it.step_is_valid) || ManifoldFaults(), "time", "iteration %d took no time", i);
    SIM_CHECK(it.step_solver_time_in_seconds <= (tr ? tol : it.iteration_time_in_seconds + tol), "time", "the step of iteration %d took %.9f s of %.9f s", i, it.step_solver_time_in_seconds, it.iteration_time_in_seconds);
    prev = it.cumulative_time_in_seconds + sec(cb_time.count(i) ? cb_time[i] : 0);
  }
  }
  if (n > 2) sim::NonTrivial();

  // The reports.
  const std::string report = s.FullReport();
  const std::string brief = s.BriefReport();
  if (reports && !pre_failed) {
    REPORT("Parameter blocks ", (double)given.pb, (double)reduced.pb);
    REPORT("Parameters ", (double)given.par, (double)reduced.par);
    if (reduced.par != reduced.eff) REPORT("Effective parameters", (double)given.eff, (double)reduced.eff);
    REPORT("Residual blocks ", (double)given.rb, (double)reduced.rb);
    REPORT("Residuals ", (double)given.res, (double)reduced.res);
    REPORT("Threads ", (double)o.num_threads, (double)s.num_threads_used);
    if (s.initial_cost != -1) REPORT("Initial ", s.initial_cost);
    if (s.IsSolutionUsable()) {
      REPORT("Final ", s.final_cost);
      REPORT("Change ", s.initial_cost - s.final_cost);
    }
    int counted = 0;
    for (auto& it : s.iterations) counted += tr || it.iteration > 0;
    REPORT("Minimizer iterations ", (double)counted);
    if (tr) {
      REPORT("Successful steps ", (double)s.num_successful_steps);
      REPORT("Unsuccessful steps ", (double)s.num_unsuccessful_steps);
    }
    if (s.inner_iterations_used) REPORT("Steps with inner iterations ", (double)s.num_inner_iteration_steps);
    if (exact) REPORT("Preprocessor ", sec(spent.fixed));
    if (s.num_residual_evaluations >= 0) {
      REPORT("  Residual only evaluation ", s.residual_evaluation_time_in_seconds, (double)s.num_residual_evaluations);
      REPORT("  Jacobian & residual evaluation ", s.jacobian_evaluation_time_in_seconds, (double)s.num_jacobian_evaluations);
    }
    if (exact) REPORT("Minimizer  ", sec(spent.all - spent.fixed));
    if (exact) REPORT("Total ", sec(spent.all));
    SIM_CHECK(report.find(std::string("(") + s.message + ")") != std::string::npos && report.find(ceres::TerminationTypeToString(s.termination_type)) != std::string::npos, "report", "the full report does not say why the solve ended");
    char b[64];
    snprintf(b, sizeof(b), "Iterations: %d,", counted);
    SIM_CHECK(brief.find(b) != std::string::npos, "report", "%s after %d iterations", brief.c_str(), counted);
    sim::Probe("report.checked");
  }
}

SIM_WORKLOAD(C21, summary, 10) { Summary(true); }

}  // namespace
