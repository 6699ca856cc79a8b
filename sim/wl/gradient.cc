// C16: GradientProblem and GradientProblemSolver.
#include <memory>
#include <thread>

#include "ceres/first_order_function.h"
#include "ceres/gradient_problem.h"
#include "ceres/gradient_problem_solver.h"
#include "solve.h"

namespace {

using namespace wl;
using Opt = ceres::GradientProblemSolver::Options;
using Sum = ceres::GradientProblemSolver::Summary;

// What one problem is evaluated with, and what its owner observes.
struct GWorld {
  Model m;
  std::vector<double> x;  // the user's parameters
  int size = 0, tangent = 0, kind = 0;
  bool linear = false;    // Plus is linear in the step
  // Observations during a solve.
  bool solving = false, in_callback = false, must_not_evaluate = false, frozen = false;
  const char* stop_reason = "";
  int thread = -1;
  std::vector<double> start;
  bool trial_faults = false;
  long calls = 0, grad_calls = 0, failed = 0, ok_since_callback = 0, bad_since_callback = 0;

  double Cost(const double* p) const { return m.Cost({std::vector<double>(p, p + size)}); }
  // Gradient in the ambient space.
  Vec Ambient(const double* p) const {
    Vec g = Vec::Zero(size);
    for (auto& rb : m.rbs) {
      const Vec v = Eigen::Map<const Vec>(p, size);
      const Vec r = rb.cost.Residual(v);
      double rho[3] = {r.squaredNorm(), 1, 0};
      rb.loss.Rho(r.squaredNorm(), rho);
      g += rho[1] * rb.cost.Jacobian(v).transpose() * r;
    }
    return g;
  }
  Vec Tangent(const double* p) const { return m.Gradient({std::vector<double>(p, p + size)}); }
  double ProjectedGradient(const double* p) const {
    const PBlock& b = m.pbs[0];
    const Vec d = -Tangent(p);
    std::vector<double> y(size);
    double worst = 0;
    if (b.kind == kLinear) {
      const Vec z = b.S * d;
      for (int k = 0; k < size; ++k) y[k] = p[k] + z[k];
    } else if (b.ref) {
      b.ref->Plus(p, d.data(), y.data());
    } else {
      for (int k = 0; k < size; ++k) y[k] = p[k] + d[k];
    }
    for (int k = 0; k < size; ++k) worst = std::max(worst, std::abs(y[k] - p[k]));
    return worst;
  }
  // The point is one a solve from `start` may visit.
  void CheckPoint(const double* p) const {
    const PBlock& b = m.pbs[0];
    auto norm = [&](const double* q, int n) {
      double s = 0;
      for (int i = 0; i < n; ++i) s += q[i] * q[i];
      return std::sqrt(s);
    };
    auto unit = [&](const double* q, const double* s, int n) {
      const double a = norm(q, n), c = norm(s, n);
      SIM_CHECK(std::abs(a - c) <= 1e-6 * (1 + c), "off-manifold", "a point of norm %.12g was visited on a manifold of norm %.12g", a, c);
    };
    switch (b.kind) {
      case kSubset:
        for (int i : b.fixed) SIM_CHECK(Bits(p[i]) == Bits(start[i]), "off-manifold", "fixed coordinate %d moved from %.17g to %.17g", i, start[i], p[i]);
        break;
      case kQuaternion:
      case kEigenQuaternion:
      case kSphere: unit(p, start.data(), size); break;
      case kLine: unit(p + 2, start.data() + 2, 2); break;
      case kProduct: unit(p, start.data(), 2); break;
      case kLinear: {
        Vec d(size);
        for (int i = 0; i < size; ++i) d[i] = p[i] - start[i];
        const Vec s = b.S.colPivHouseholderQr().solve(d);
        SIM_CHECK((b.S * s - d).norm() <= 1e-7 * (1 + d.norm()), "off-manifold", "a point off the manifold was visited");
        break;
      }
      default: break;
    }
  }
};

class GFunction final : public ceres::FirstOrderFunction {
 public:
  explicit GFunction(GWorld* w) : w(w) {}
  int NumParameters() const override { return w->size; }
  bool Evaluate(const double* p, double* cost, double* grad) const override {
    int bad = 0;
    uint64_t pick = 0;
    {
      sim::Quiet q;
      SIM_CHECK(cost != nullptr, "null-cost", "the function was called without a place for the cost");
      SIM_CHECK(sim::HeapOk(p, w->size * sizeof(double)), "bad-pointer", "the function was given an invalid parameter pointer");
      if (w->solving) {
        SIM_CHECK(sim::Self() == w->thread, "evaluation-thread", "the function was evaluated on another thread than the one that solves");
        SIM_CHECK(!w->must_not_evaluate, "evaluated-after-stop", "the function was evaluated after %s", w->stop_reason);
        for (int i = 0; i < w->size; ++i) SIM_CHECK(std::isfinite(p[i]), "non-finite-point", "the function was evaluated at a point with coordinate %d = %g", i, p[i]);
        if (w->calls == 0) SIM_CHECK(SameBits(p, w->start.data(), w->size), "start", "the solve does not start at the user's parameters");
        w->CheckPoint(p);
        if (w->frozen) SIM_CHECK(SameBits(w->x.data(), w->start.data(), w->size), "early-update", "the user's parameters changed while the solve is running");
      }
      ++w->calls;
      w->grad_calls += grad != nullptr;
      if (sim::Fault("fo.slow")) sim::Advance((1 + sim::FaultValue("fo.slow_ms", 5000)) * 1000000ull);
      const bool trial = w->solving && !SameBits(p, w->start.data(), w->size);
      if (sim::Fault("fo.false") || (trial && sim::Fault("fo.trial"))) bad = 1;
      else if (sim::Fault("fo.nan")) bad = 2;
      else if (grad && sim::Fault("fo.gnan")) bad = 3;
      if (bad) pick = sim::FaultValue("fo.where", 1 << 16);
      if (bad) ++w->failed, ++w->bad_since_callback; else ++w->ok_since_callback;
    }
    sim::Point();
    Vec v(w->size);
    for (int i = 0; i < w->size; ++i) v[i] = p[i];
    double c;
    Vec g;
    {
      sim::Quiet q;
      c = w->Cost(v.data());
      if (grad) g = w->Ambient(v.data());
    }
    if (bad == 1 && pick % 2) return false;
    const double kBad[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
    *cost = bad == 2 ? kBad[pick % 3] : c;
    if (grad)
      for (int i = 0; i < w->size; ++i) grad[i] = bad == 3 && static_cast<int>(pick / 3 % w->size) == i ? kBad[pick % 3] : g[i];
    return bad != 1;
  }
  GWorld* w;
};

struct GSolved;
struct GCb : ceres::IterationCallback {
  int idx = 0, count = 1;
  GWorld* w = nullptr;
  const Opt* o = nullptr;
  std::vector<Rec>* recs = nullptr;
  std::vector<std::vector<double>>* seen = nullptr;
  int stop_cb = -1, stop_it = -1;
  ceres::CallbackReturnType stop = ceres::SOLVER_CONTINUE;
  bool* stopped = nullptr;
  ceres::CallbackReturnType operator()(const ceres::IterationSummary& s) override {
    sim::Quiet q;
    SIM_CHECK(w->solving, "callback-outside-solve", "an iteration callback ran outside the solve");
    SIM_CHECK(!w->must_not_evaluate, "callback-after-stop", "callback %d ran for iteration %d after %s", idx, s.iteration, w->stop_reason);
    SIM_CHECK(sim::Self() == w->thread, "callback-thread", "callback %d ran on another thread", idx);
    const size_t k = recs->size();
    SIM_CHECK(static_cast<int>(k % count) == idx && static_cast<int>(k / count) == s.iteration, "callback-order", "callback %d iteration %d is call number %zu with %d callbacks", idx, s.iteration, k, count);
    recs->push_back(Rec{idx, s});
    if (o->update_state_every_iteration) {
      {
        const double c = w->Cost(w->x.data());
        SIM_CHECK(Close(c, s.cost, 1e-9), "callback-state", "the parameters have cost %.17g in the callback of iteration %d, its summary says %.17g", c, s.iteration, s.cost);
      }
      if (idx == 0) seen->push_back(w->x);
    } else {
      SIM_CHECK(SameBits(w->x.data(), w->start.data(), w->size), "early-update", "the user's parameters changed before iteration %d's callback", s.iteration);
    }
    w->ok_since_callback = w->bad_since_callback = 0;
    if (idx == stop_cb && s.iteration == stop_it) {
      *stopped = true;
      w->must_not_evaluate = true;
      w->stop_reason = "a callback stopped the solve";
      return stop;
    }
    return ceres::SOLVER_CONTINUE;
  }
};

struct GSolved {
  Sum s;
  std::vector<Rec> recs;
  std::vector<std::vector<double>> seen;
  std::vector<double> end;
  bool stopped = false;
  long calls = 0;
};

std::string Text(const Opt& o) {
  char b[200];
  snprintf(b, sizeof(b), "dir %d type %d interp %d cg %d rank %d update %d its %d ls_its %d", o.line_search_direction_type, o.line_search_type, o.line_search_interpolation_type, o.nonlinear_conjugate_gradient_type, o.max_lbfgs_rank, o.update_state_every_iteration, o.max_num_iterations,
           o.max_num_line_search_step_size_iterations);
  return b;
}

Opt DrawOpt() {
  Opt o;
  o.line_search_direction_type = static_cast<ceres::LineSearchDirectionType>(sim::Draw(4));
  o.line_search_type = sim::Chance(50) ? ceres::ARMIJO : ceres::WOLFE;
  if (o.line_search_direction_type == ceres::BFGS || o.line_search_direction_type == ceres::LBFGS) o.line_search_type = ceres::WOLFE;
  o.nonlinear_conjugate_gradient_type = static_cast<ceres::NonlinearConjugateGradientType>(sim::Draw(3));
  if (sim::Chance(40)) o.line_search_interpolation_type = static_cast<ceres::LineSearchInterpolationType>(sim::Draw(3));
  if (sim::Chance(40)) o.max_lbfgs_rank = sim::Range(1, 4);
  o.use_approximate_eigenvalue_bfgs_scaling = sim::Chance(30);
  o.max_num_iterations = sim::Chance(20) ? static_cast<int>(sim::Draw(3)) : sim::Range(3, 25);
  if (sim::Chance(25)) o.max_num_line_search_step_size_iterations = sim::Range(1, 6);
  if (sim::Chance(20)) o.max_num_line_search_direction_restarts = static_cast<int>(sim::Draw(3));
  if (sim::Chance(40)) o.line_search_sufficient_function_decrease = sim::Uniform(0.01, 0.45);
  if (sim::Chance(30)) o.line_search_sufficient_curvature_decrease = sim::Uniform(0.46, 0.95);
  if (sim::Chance(20)) o.max_line_search_step_expansion = sim::Uniform(1.5, 10);
  if (sim::Chance(20)) o.min_line_search_step_contraction = sim::Uniform(0.3, 0.9), o.max_line_search_step_contraction = sim::Uniform(1e-3, 0.25);
  if (sim::Chance(30)) {
    o.function_tolerance = sim::Chance(50) ? 0 : 1e-3;
    o.gradient_tolerance = sim::Chance(50) ? 0 : 1e-3;
    o.parameter_tolerance = sim::Chance(50) ? 0 : 1e-3;
  }
  o.update_state_every_iteration = sim::Chance(50);
  o.logging_type = sim::Chance(20) ? ceres::PER_MINIMIZER_ITERATION : ceres::SILENT;
  return o;
}

struct CbDraw {
  int count = 0, stop_cb = -1, stop_it = -1;
  ceres::CallbackReturnType stop = ceres::SOLVER_CONTINUE;
};

GSolved RunG(GWorld* w, const ceres::GradientProblem& problem, const Opt& opt, const CbDraw& cd) {
  GSolved r;
  Opt o = opt;
  std::vector<std::unique_ptr<GCb>> cbs;
  uint64_t t0, j0;
  {
    sim::Quiet q;
    for (int i = 0; i < cd.count; ++i) {
      auto c = std::make_unique<GCb>();
      c->idx = i;
      c->count = cd.count;
      c->w = w;
      c->o = &opt;
      c->recs = &r.recs;
      c->seen = &r.seen;
      c->stop_cb = cd.stop_cb;
      c->stop_it = cd.stop_it;
      c->stop = cd.stop;
      c->stopped = &r.stopped;
      o.callbacks.push_back(c.get());
      cbs.push_back(std::move(c));
    }
    std::string err;
    SIM_CHECK(o.IsValid(&err), "harness-invalid-options", "the harness drew invalid options: %s", err.c_str());
    w->start = w->x;
    w->solving = true;
    w->thread = sim::Self();
    w->must_not_evaluate = false;
    w->frozen = !o.update_state_every_iteration;
    w->calls = w->grad_calls = w->failed = w->ok_since_callback = w->bad_since_callback = 0;
    t0 = sim::NowNs();
    j0 = sim::FaultCount("clock.jump");
    sim::Event("gsolve %s size %d kind %d", Text(o).c_str(), w->size, w->kind);
  }
  ceres::Solve(o, problem, w->x.data(), &r.s);
  sim::Quiet q;
  w->solving = false;
  const Sum& s = r.s;
  const bool jumped = sim::FaultCount("clock.jump") != j0;
  const double total = static_cast<double>(sim::NowNs() - t0) * 1e-9;
  const int n = static_cast<int>(s.iterations.size());
  r.end = w->x;
  r.calls = w->calls;
  for (auto& it : s.iterations) sim::Event("  it %d ok %d cost %.12g change %.6g step %.6g grad %.6g ls %d", it.iteration, it.step_is_successful, it.cost, it.cost_change, it.step_norm, it.gradient_max_norm, it.line_search_iterations);
  sim::Event("gsolved type %d its %d cost %.9g -> %.9g: %s", s.termination_type, n, s.initial_cost, s.final_cost, s.message.substr(0, 60).c_str());
  const char* type = ceres::TerminationTypeToString(s.termination_type);
  const std::string why = s.message.substr(0, 200);

  // Counts.
  SIM_CHECK(s.num_gradient_evaluations == w->grad_calls && s.num_cost_evaluations == w->calls - w->grad_calls, "evaluation-counts", "the summary counts %d cost and %d gradient evaluations, there were %ld and %ld", s.num_cost_evaluations, s.num_gradient_evaluations, w->calls - w->grad_calls,
            w->grad_calls);
  SIM_CHECK(s.num_parameters == w->size && s.num_tangent_parameters == w->tangent, "summary-counts", "the summary reports %d parameters and %d tangent ones", s.num_parameters, s.num_tangent_parameters);

  // The parameters.
  const double c0 = w->Cost(w->start.data());
  if (s.IsSolutionUsable()) {
    sim::Probe("gsolve.usable");
    w->CheckPoint(w->x.data());
    for (double v : w->x) SIM_CHECK(std::isfinite(v), "non-finite-solution", "the solve returned %s with a non-finite parameter", type);
    const double c1 = w->Cost(w->x.data());
    SIM_CHECK(Close(c1, s.final_cost, 1e-9), "final-cost", "final_cost is %.17g, the cost at the returned parameters is %.17g (%s; %s)", s.final_cost, c1, Text(o).c_str(), why.c_str());
    SIM_CHECK(Close(c0, s.initial_cost, 1e-9), "initial-cost", "initial_cost is %.17g, the cost at the start is %.17g", s.initial_cost, c0);
    SIM_CHECK(s.final_cost <= s.initial_cost * (1 + 1e-12) + 1e-300, "cost-increased", "final_cost %.17g exceeds initial_cost %.17g (%s)", s.final_cost, s.initial_cost, Text(o).c_str());
  } else {
    sim::Probe("gsolve.unusable");
    if (!o.update_state_every_iteration) {
      SIM_CHECK(SameBits(w->x.data(), w->start.data(), w->size), "failed-solve-modified", "the solve ended with %s (%s), but the parameters were modified", type, why.c_str());
    } else if (cd.count > 0) {
      // The last successful iteration the callbacks were told of.
      const std::vector<double>& last = r.seen.empty() ? w->start : r.seen.back();
      SIM_CHECK(SameBits(w->x.data(), last.data(), w->size), "failed-solve-modified", "the solve ended with %s (%s), the parameters are not those of the last iteration reported", type, why.c_str());
    }
  }

  // Iterations.
  double prev = 0;
  for (int i = 0; i < n; ++i) {
    const auto& it = s.iterations[i];
    SIM_CHECK(it.iteration == i, "iteration-number", "iteration %d is recorded as number %d", i, it.iteration);
    SIM_CHECK(std::isfinite(it.cost) && std::isfinite(it.gradient_max_norm) && std::isfinite(it.step_norm), "iteration-values", "iteration %d reports non-finite values", i);
    if (i == 0) {
      SIM_CHECK(Close(c0, it.cost, 1e-9), "initial-cost", "iteration 0 has cost %.17g, the cost at the start is %.17g", it.cost, c0);
    } else {
      SIM_CHECK(it.step_is_successful && it.step_is_valid, "iteration-values", "iteration %d of a line search is not successful", i);
      {
        SIM_CHECK(it.cost <= prev + 1e-12 * std::abs(prev), "accepted-increase", "iteration %d was accepted although the cost rose from %.17g to %.17g (%s)", i, prev, it.cost, Text(o).c_str());
        SIM_CHECK(std::abs(it.cost_change - (prev - it.cost)) <= 1e-9 * (1 + std::abs(prev)), "cost-change", "iteration %d reports a cost change of %.17g, the costs are %.17g and %.17g", i, it.cost_change, prev, it.cost);
      }
      SIM_CHECK(it.line_search_iterations <= o.max_num_line_search_step_size_iterations, "line-search-limit", "iteration %d took %d line search iterations, the limit is %d", i, it.line_search_iterations, o.max_num_line_search_step_size_iterations);
      if (!jumped) SIM_CHECK(s.iterations[i - 1].cumulative_time_in_seconds < o.max_solver_time_in_seconds, "time-limit", "iteration %d was made although %g s of %g s had passed before", i, s.iterations[i - 1].cumulative_time_in_seconds, o.max_solver_time_in_seconds);
    }
    prev = it.cost;
  }
  if (n > 0) SIM_CHECK(n - 1 <= o.max_num_iterations, "iteration-limit", "%d iterations were made, the limit is %d", n - 1, o.max_num_iterations);
  if (s.IsSolutionUsable() && n > 0) SIM_CHECK(Close(s.final_cost, prev, 1e-12), "final-cost", "final_cost is %.17g, the last iteration has %.17g", s.final_cost, prev);

  // Sufficient decrease at every accepted step, where the step is known.
  if (o.update_state_every_iteration && w->linear && cd.count > 0) {
    std::vector<std::vector<double>> pts = r.seen;
    if (static_cast<int>(pts.size()) == n - 1 && s.IsSolutionUsable()) pts.push_back(r.end);
    for (size_t i = 1; i < pts.size(); ++i) {
      const Vec g = w->Ambient(pts[i - 1].data());
      double slope = 0, len = 0;
      for (int k = 0; k < w->size; ++k) slope += g[k] * (pts[i][k] - pts[i - 1][k]), len += std::abs(pts[i][k] - pts[i - 1][k]);
      const double a = w->Cost(pts[i - 1].data()), b = w->Cost(pts[i].data());
      SIM_CHECK(slope <= 1e-11 * (1 + a) + 1e-6 * g.norm() * len, "ascent-step", "iteration %zu goes up the gradient: slope %.9g", i, slope);
      SIM_CHECK(b <= a + o.line_search_sufficient_function_decrease * slope + 1e-9 * (1 + a), "insufficient-decrease", "iteration %zu reduced the cost from %.17g to %.17g, the sufficient decrease condition demands %.9g times %.9g (%s)", i, a, b, o.line_search_sufficient_function_decrease, slope, Text(o).c_str());
      sim::Probe("gsolve.decrease_checked");
    }
  }

  // Callbacks.
  for (auto& rec : r.recs) {
    SIM_CHECK(rec.s.iteration < n, "callback-order", "a callback ran for iteration %d, which is not in the summary", rec.s.iteration);
    const auto& b = s.iterations[rec.s.iteration];
    SIM_CHECK(Bits(rec.s.cost) == Bits(b.cost) && Bits(rec.s.step_norm) == Bits(b.step_norm) && Bits(rec.s.gradient_max_norm) == Bits(b.gradient_max_norm), "callback-summary", "a callback saw another summary of iteration %d than Solve returned", rec.s.iteration);
  }
  if (cd.count > 0 && n > 0) {
    int want = n * cd.count;
    if (r.stopped) {
      want = cd.stop_it * cd.count + cd.stop_cb + 1;
      SIM_CHECK(cd.stop_it == n - 1, "callback-stop", "a callback stopped the solve at iteration %d, but %d iterations were made", cd.stop_it, n - 1);
    }
    const int calls = static_cast<int>(r.recs.size());
    SIM_CHECK(calls == want || (!r.stopped && s.termination_type == ceres::CONVERGENCE && calls == want - cd.count) , "callback-missing", "callbacks ran %d times for %d iterations and %d callbacks", calls, n, cd.count);
  }
  SIM_CHECK(r.stopped == (s.termination_type == ceres::USER_SUCCESS || s.termination_type == ceres::USER_FAILURE), "termination", "the termination type is %s, callbacks %s", type, r.stopped ? "stopped the solve" : "did not stop the solve");
  if (r.stopped) SIM_CHECK((s.termination_type == ceres::USER_SUCCESS) == (cd.stop == ceres::SOLVER_TERMINATE_SUCCESSFULLY), "termination", "a callback returned %d, the termination type is %s", cd.stop, type);

  // Reasons.
  if (s.termination_type == ceres::NO_CONVERGENCE) {
    const bool its = n - 1 >= o.max_num_iterations;
    const bool time = !jumped ? total >= o.max_solver_time_in_seconds : o.max_solver_time_in_seconds < 1e8;
    SIM_CHECK(its || time, "termination", "NO_CONVERGENCE, but neither the iteration nor the time limit was reached: %s", why.c_str());
  }
  if (s.termination_type == ceres::CONVERGENCE) {
    sim::Probe("gsolve.converged");
    const double g = w->ProjectedGradient(w->x.data());
    if (why.find("Gradient tolerance") != std::string::npos) {
      SIM_CHECK(g <= o.gradient_tolerance * (1 + 1e-6) + 1e-10 * (1 + s.final_cost), "false-convergence", "converged by the gradient tolerance %g, but the gradient norm at the solution is %g (%s)", o.gradient_tolerance, g, Text(o).c_str());
    } else {
      SIM_CHECK(n >= 2, "false-convergence", "converged without a step: %s", why.c_str());
      const auto &a = s.iterations[n - 2], &b = s.iterations[n - 1];
      if (why.find("Parameter tolerance") != std::string::npos) {
        Vec v = Eigen::Map<const Vec>(w->x.data(), w->size);
        SIM_CHECK(b.step_norm <= o.parameter_tolerance * (v.norm() + b.step_norm + o.parameter_tolerance) * (1 + 1e-9), "false-convergence", "converged by the parameter tolerance %g with a step of %g", o.parameter_tolerance, b.step_norm);
        // A step that was not taken because the function could not be evaluated says nothing.
        SIM_CHECK(b.step_norm > 0 || w->ok_since_callback > 1 || w->bad_since_callback == 0 || cd.count == 0 || g < 1e-9, "false-convergence", "converged by the parameter tolerance without a step: every evaluation failed, the gradient norm is %g (%s)", g, Text(o).c_str());
      } else {
        SIM_CHECK(std::abs(a.cost - b.cost) <= o.function_tolerance * std::abs(a.cost) * (1 + 1e-9), "false-convergence", "converged by the function tolerance %g with a change from %.17g to %.17g", o.function_tolerance, a.cost, b.cost);
      }
    }
  }
  if (!jumped) {
    double last = 0;
    for (auto& it : s.iterations) {
      SIM_CHECK(it.iteration_time_in_seconds >= 0 && it.cumulative_time_in_seconds >= last && it.cumulative_time_in_seconds <= total + 1e-9, "times", "iteration %d: time %g, cumulative %g after %g, the solve took %g", it.iteration, it.iteration_time_in_seconds, it.cumulative_time_in_seconds, last, total);
      last = it.cumulative_time_in_seconds;
    }
    SIM_CHECK(s.total_time_in_seconds <= total + 1e-9 && s.cost_evaluation_time_in_seconds + s.gradient_evaluation_time_in_seconds <= s.total_time_in_seconds + 1e-9, "times", "evaluations took %g + %g s of %g s, the call took %g s", s.cost_evaluation_time_in_seconds, s.gradient_evaluation_time_in_seconds, s.total_time_in_seconds, total);
  }
  s.BriefReport();
  s.FullReport();
  sim::State(HashMix(HashMix(o.line_search_direction_type * 8 + o.line_search_type * 4 + o.line_search_interpolation_type, w->kind * 8 + w->size), s.termination_type));
  return r;
}

std::unique_ptr<ceres::GradientProblem> MakeProblem(GWorld* w) {
  ModelOptions mo;
  mo.max_pb = 1;
  mo.max_rb = 4;
  mo.max_size = 5;
  mo.max_dim = 5;
  mo.max_arity = 1;
  mo.constants = false;
  mo.nonlinearity = sim::Chance(30) ? 2.0 : 0.4;
  w->m.Draw(mo);
  const PBlock& b = w->m.pbs[0];
  w->size = b.size;
  w->tangent = b.tangent;
  w->kind = b.kind;
  w->linear = b.kind == kNone || b.kind == kSubset || b.kind == kEuclidean || b.kind == kLinear;
  w->x = b.init;
  w->start = w->x;
  auto f = std::make_unique<GFunction>(w);
  if (b.kind == kNone) return std::make_unique<ceres::GradientProblem>(std::move(f));
  return std::make_unique<ceres::GradientProblem>(std::move(f), std::unique_ptr<ceres::Manifold>(MakeManifold(b, nullptr, nullptr)));
}

bool Same(const GSolved& a, const GSolved& b) {
  if (a.s.termination_type != b.s.termination_type || a.s.iterations.size() != b.s.iterations.size() || Bits(a.s.final_cost) != Bits(b.s.final_cost) || a.calls != b.calls) return false;
  for (size_t i = 0; i < a.s.iterations.size(); ++i)
    if (Bits(a.s.iterations[i].cost) != Bits(b.s.iterations[i].cost)) return false;
  return SameBits(a.end.data(), b.end.data(), static_cast<int>(a.end.size()));
}

CbDraw DrawCb() {
  CbDraw c;
  c.count = static_cast<int>(sim::Draw(4));
  if (c.count && sim::Chance(35)) {
    c.stop_cb = static_cast<int>(sim::Draw(c.count));
    c.stop_it = static_cast<int>(sim::Draw(6));
    c.stop = sim::Chance(50) ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  }
  return c;
}

// Every evaluation of the problem is the function's value and its gradient in
// the tangent space, or a failure.
void Evaluations(GWorld* w, const ceres::GradientProblem& p) {
  SIM_CHECK(p.NumParameters() == w->size && p.NumTangentParameters() == w->tangent, "counts", "the problem has %d parameters and %d tangent ones", p.NumParameters(), p.NumTangentParameters());
  const int k = sim::Range(1, 3);
  for (int i = 0; i < k; ++i) {
    std::vector<double> x = w->x;
    double cost = 0;
    std::vector<double> g(w->tangent + 1, 7.0);
    const bool want = sim::Chance(60);
    const long f0 = w->failed;
    const uint64_t mf0 = sim::FaultCount("manifold.jacobian");
    const bool ok = p.Evaluate(x.data(), &cost, want ? g.data() : nullptr);
    sim::Quiet q;
    SIM_CHECK(g[w->tangent] == 7.0, "overrun", "the gradient has more than %d entries", w->tangent);
    const bool soft = ok && w->failed != f0;  // NaN handed through
    if (sim::FaultCount("manifold.jacobian") != mf0) {
      SIM_CHECK(!ok, "failure-swallowed", "the manifold failed, but Evaluate returned true");
    } else if (!soft && w->failed == f0) {
      SIM_CHECK(ok, "spurious-failure", "Evaluate failed although the function and the manifold did not");
      SIM_CHECK(Close(cost, w->Cost(x.data()), 1e-12), "cost", "cost %.17g, expected %.17g", cost, w->Cost(x.data()));
      if (want) {
        const Vec t = w->Tangent(x.data());
        for (int j = 0; j < w->tangent; ++j) SIM_CHECK(Close(g[j], t[j], 1e-9), "gradient", "gradient %d is %.17g, expected %.17g", j, g[j], t[j]);
      }
      sim::Probe("geval.checked");
    }
  }
  // Plus is the manifold's.
  std::vector<double> d(w->tangent), y(w->size, 0.0), z(w->size, 0.0);
  for (double& v : d) v = sim::Uniform(-0.5, 0.5);
  const uint64_t pf = sim::FaultCount("manifold.plus");
  const bool ok = p.Plus(w->x.data(), d.data(), y.data());
  sim::Quiet q;
  if (sim::FaultCount("manifold.plus") != pf) {
    SIM_CHECK(!ok, "failure-swallowed", "the manifold failed, but Plus returned true");
    return;
  }
  SIM_CHECK(ok, "spurious-failure", "Plus failed although the manifold did not");
  const PBlock& b = w->m.pbs[0];
  for (int i = 0; i < w->size; ++i) z[i] = w->x[i];
  if (b.kind == kLinear) {
    const Vec s = b.S * Eigen::Map<const Vec>(d.data(), w->tangent);
    for (int i = 0; i < w->size; ++i) z[i] += s[i];
  } else if (b.ref) {
    b.ref->Plus(w->x.data(), d.data(), z.data());
  } else {
    for (int i = 0; i < w->size; ++i) z[i] += d[i];
  }
  for (int i = 0; i < w->size; ++i) SIM_CHECK(Close(y[i], z[i], 1e-12), "plus", "Plus gives %.17g at %d, the manifold %.17g", y[i], i, z[i]);
}

const char* kSites[] = {"fo.false", "fo.trial", "fo.nan", "manifold.plus", "manifold.jacobian", "fo.gnan"};

void Disarm() {
  for (const char* s : kSites) sim::ArmFault(s, 0);
  sim::ArmFault("fo.slow", 0);
  sim::ArmFault("clock.jump", 0);
}

void Faulty(GWorld* w, const ceres::GradientProblem& p, Opt o, const CbDraw& cd, const GSolved* a) {
  // Failures.
  const int which = static_cast<int>(sim::Draw(8));
  const double rates[] = {0.02, 0.1, 0.4, 1.0};
  const double rate = rates[sim::Draw(4)];
  for (int i = 0; i < 6; ++i)
    if (which == i || (which == 6 && i < 5)) sim::ArmFault(kSites[i], which == 6 ? rate / 3 : rate);
  if (which == 7 || sim::Chance(20)) {
    sim::ArmFault("fo.slow", rate);
    o.max_solver_time_in_seconds = sim::Uniform(0.5, 20);
    if (sim::Chance(40)) sim::ArmFault("clock.jump", 0.02);
  }
  if (sim::Chance(25)) Evaluations(w, p);
  const uint64_t m0 = sim::FaultCount("manifold.plus") + sim::FaultCount("manifold.jacobian");
  const GSolved b = RunG(w, p, o, cd);
  Disarm();
  sim::Quiet q;
  const bool clean = w->failed == 0 && sim::FaultCount("manifold.plus") + sim::FaultCount("manifold.jacobian") == m0;
  if (!clean) {
    sim::NonTrivial();
    sim::Probe("gsolve.faulty");
  }
  if (clean && a && o.max_solver_time_in_seconds > 1e8) SIM_CHECK(Same(*a, b), "not-repeatable", "the same solve gave %s %.17g and then %s %.17g", ceres::TerminationTypeToString(a->s.termination_type), a->s.final_cost, ceres::TerminationTypeToString(b.s.termination_type), b.s.final_cost);
}

SIM_WORKLOAD(C16, solve, 4) {
  sim::SetVlog(static_cast<int>(sim::Draw(3)) * 2);
  GWorld w;
  std::unique_ptr<ceres::GradientProblem> p;
  Opt o;
  CbDraw cd;
  {
    sim::Quiet q;
    p = MakeProblem(&w);
    if (w.tangent == 0) return;
    o = DrawOpt();
    cd = DrawCb();
  }
  const std::vector<double> x0 = w.x;
  if (sim::Chance(25)) Evaluations(&w, *p);
  const GSolved a = RunG(&w, *p, o, cd);
  if (a.s.iterations.size() > 2) sim::NonTrivial();
  const int rounds = sim::Range(1, 2);
  for (int i = 0; i < rounds; ++i) {
    w.x = x0;
    Faulty(&w, *p, o, cd, &a);
  }
  // Faults stop: what failed before leaves no trace.
  w.x = x0;
  const GSolved c = RunG(&w, *p, o, cd);
  sim::Quiet q;
  SIM_CHECK(Same(a, c), "not-repeatable", "after solves with failures the same solve ends with %s, cost %.17g in %zu iterations, before with %s, %.17g in %zu", ceres::TerminationTypeToString(c.s.termination_type), c.s.final_cost, c.s.iterations.size(), ceres::TerminationTypeToString(a.s.termination_type),
            a.s.final_cost, a.s.iterations.size());
}

// Several problems solved at once.
SIM_WORKLOAD(C16, parallel, 1) {
  struct User {
    GWorld w;
    std::unique_ptr<ceres::GradientProblem> p;
    Opt o;
    CbDraw cd;
    GSolved alone, together;
  };
  const int n = sim::Range(2, 3);
  std::vector<std::unique_ptr<User>> us;
  for (int i = 0; i < n; ++i) {
    us.push_back(std::make_unique<User>());
    User& u = *us.back();
    {
      sim::Quiet q;
      u.p = MakeProblem(&u.w);
      if (u.w.tangent == 0) return;
      u.o = DrawOpt();
      u.cd = DrawCb();
    }
    const std::vector<double> x0 = u.w.x;
    u.alone = RunG(&u.w, *u.p, u.o, u.cd);
    u.w.x = x0;
  }
  std::vector<std::thread> th;
  for (auto& u : us) th.emplace_back([&u] { u->together = RunG(&u->w, *u->p, u->o, u->cd); });
  for (auto& t : th) t.join();
  sim::NonTrivial();
  sim::Quiet q;
  for (auto& u : us) SIM_CHECK(Same(u->alone, u->together), "interference", "a solve ended differently because another problem was solved at the same time");
}

}  // namespace
