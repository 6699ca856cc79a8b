// Whole solves under schedules and faults: C06 - C12.
#include <memory>
#include <thread>

#include "ceres/context_impl.h"
#include "ceres/problem_impl.h"
#include "solve.h"

namespace {

using namespace wl;
using ceres::Solver;

// ---------------------------------------------------------------------------
// C06: the outcome does not depend on the number of threads or the schedule.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C06, trajectory, 10) {
  ModelOptions mo = EasyModel();
  mo.losses = sim::Chance(30);
  const bool unique = !mo.losses;
  mo.quaternions = sim::Chance(50);
  mo.bounds = sim::Chance(15);
  World w(mo, false);
  Flavor f;
  f.tight = true;
  SolveCfg cfg = DrawSolve(w.m, f);
  SolveCfg base = cfg;
  base.o.num_threads = 1;
  base.o.update_state_every_iteration = false;
  if (cfg.o.minimizer_type == ceres::TRUST_REGION && !cfg.o.use_mixed_precision_solves) {
    base.o.linear_solver_type = ceres::DENSE_QR;
    base.o.dynamic_sparsity = false;
    base.o.use_explicit_schur_complement = base.o.use_spse_initialization = false;
    base.o.preconditioner_type = ceres::JACOBI;
    base.o.residual_blocks_for_subset_preconditioner.clear();
    base.o.max_num_refinement_iterations = 0;
    base.text = "reference DENSE_QR";
  }
  CbPlan plan;
  const State s0 = w.m.UserState();
  const Solved a = RunSolve(&w.m, w.problem.get(), &w.mon, base, plan);
  w.m.SetUserState(s0);
  const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  sim::Quiet q;
  SIM_CHECK(b.s.num_threads_used <= cfg.o.num_threads, "threads-used", "%d threads were requested, %d used", cfg.o.num_threads, b.s.num_threads_used);
  if (cfg.o.use_mixed_precision_solves) {
    if (unique && a.s.termination_type == ceres::CONVERGENCE && b.s.termination_type == ceres::CONVERGENCE) SIM_CHECK(std::abs(a.s.final_cost - b.s.final_cost) <= 1e-5 * (1 + a.s.initial_cost), "final-cost-differs", "final cost %.17g, the serial reference found %.17g [%s]", b.s.final_cost, a.s.final_cost, cfg.text.c_str());
    return;
  }
  // Near the minimum, a line search may find no decrease, and inexact steps need
  // not decrease the model.
  if (cfg.o.minimizer_type == ceres::LINE_SEARCH && (a.s.message.find("line search") != std::string::npos || b.s.message.find("line search") != std::string::npos)) {
    sim::Probe("line_search.numerical");
    CompareSolves(w.m, a, b, cfg, false);
    return;
  }
  if (cfg.o.linear_solver_type == ceres::CGNR || cfg.o.linear_solver_type == ceres::ITERATIVE_SCHUR) {
    if (b.s.message.find("invalid steps") != std::string::npos) return;
  }
  SIM_CHECK((a.s.termination_type == ceres::FAILURE) == (b.s.termination_type == ceres::FAILURE) || !b.clean, "termination-differs", "the serial reference ended with %s (%s), this solve with %s (%s) [%s]", ceres::TerminationTypeToString(a.s.termination_type), a.s.message.substr(0, 100).c_str(),
            ceres::TerminationTypeToString(b.s.termination_type), b.s.message.substr(0, 100).c_str(), cfg.text.c_str());
  CompareSolves(w.m, a, b, cfg, unique && !w.m.has_bounds);
}


// Any problem, loose tolerances: the general oracles, and the same answer to the
// same question on one thread and on many.
SIM_WORKLOAD(C06, any, 6) {
  ModelOptions mo = AnyModel();
  mo.bounds = sim::Chance(25);
  World w(mo, false);
  Flavor f;
  SolveCfg cfg = DrawSolve(w.m, f);
  SolveCfg base = cfg;
  base.o.num_threads = 1;
  CbPlan plan;
  const State s0 = w.m.UserState();
  const Solved a = RunSolve(&w.m, w.problem.get(), &w.mon, base, plan);
  w.m.SetUserState(s0);
  const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  sim::Quiet q;
  SIM_CHECK(a.s.iterations.empty() == b.s.iterations.empty(), "termination-differs", "%zu iterations on one thread (%s), %zu on %d (%s)", a.s.iterations.size(), a.s.message.c_str(), b.s.iterations.size(), cfg.o.num_threads, b.s.message.c_str());
  SIM_CHECK(Close(a.s.initial_cost, b.s.initial_cost, 1e-12), "trajectory", "the initial cost is %.17g on one thread, %.17g on %d", a.s.initial_cost, b.s.initial_cost, cfg.o.num_threads);
  if (!a.s.iterations.empty()) SIM_CHECK(Close(a.s.iterations[0].gradient_max_norm, b.s.iterations[0].gradient_max_norm, 1e-9), "trajectory", "the initial gradient is %.17g on one thread, %.17g on %d", a.s.iterations[0].gradient_max_norm, b.s.iterations[0].gradient_max_norm, cfg.o.num_threads);
  SIM_CHECK(a.s.num_parameters_reduced == b.s.num_parameters_reduced && a.s.num_residuals_reduced == b.s.num_residuals_reduced && a.s.num_effective_parameters_reduced == b.s.num_effective_parameters_reduced && a.s.linear_solver_type_used == b.s.linear_solver_type_used, "summary-differs",
            "the reduced problems on one and on %d threads differ", cfg.o.num_threads);
  SIM_CHECK(Close(a.s.fixed_cost, b.s.fixed_cost, 1e-12), "summary-differs", "the fixed cost is %.17g on one thread, %.17g on %d", a.s.fixed_cost, b.s.fixed_cost, cfg.o.num_threads);
  sim::NonTrivial();
}

// ---------------------------------------------------------------------------
// C07: whatever fails, the caller's parameters are the start or a point at least
// as good, and the problem can be solved again as if nothing had happened.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C07, faulty, 10) {
  ModelOptions mo = AnyModel();
  mo.bounds = sim::Chance(25);
  World w(mo, sim::Chance(15));
  Flavor f;
  if (w.ecb) f.inner = false;
  SolveCfg cfg = DrawSolve(w.m, f);
  SolveCfg base = cfg;
  base.o.num_threads = 1;
  CbPlan plan;
  const State s0 = w.m.UserState();
  Solved ref;
  {
    sim::Quiet q;
    ref = RunSolve(&w.m, w.problem.get(), &w.mon, base, plan);
    w.m.SetUserState(s0);
  }
  static const double rates[] = {0.02, 0.005, 0.1, 0.5};
  const double rate = rates[sim::Draw(4)];
  if (sim::Chance(90)) ArmEvalFaults(rate);
  if (sim::Chance(30)) sim::ArmFault("cost.trial", rate);
  const bool no_threads = sim::Chance(20);
  if (no_threads) sim::ArmFault("thread.create", 0.3);
  if (sim::Chance(30)) {
    plan.count = 2;
    plan.stop_cb = static_cast<int>(sim::Draw(2));
    plan.stop_iteration = sim::Range(0, 4);
    plan.stop = sim::Chance(70) ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  }
  const int solves = sim::Range(1, 2);
  for (int k = 0; k < solves; ++k) {
    const State before = w.m.UserState();
    try {
      const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
      if (!b.clean) sim::NonTrivial();
      if (!b.clean) sim::Probe(Usable(b.s) ? "faulted.usable" : "faulted.unusable");
    } catch (const std::system_error&) {
      sim::Quiet q;
      // The platform had no threads left: nothing may have been touched.
      SIM_CHECK(no_threads, "unexpected-exception", "Solve threw although threads can be created");
      const State now = w.m.UserState();
      for (size_t i = 0; i < now.size(); ++i) SIM_CHECK(SameBits(now[i].data(), before[i].data(), static_cast<int>(now[i].size())), "failed-solve-modified", "Solve threw, but parameter block %zu was modified", i);
      sim::Probe("faulted.threw");
      sim::NonTrivial();
    }
    CheckProblemIntact(w.m, *w.problem);
  }
  sim::FaultsOff();
  sim::Quiet q;
  w.m.SetUserState(s0);
  plan = CbPlan();
  const Solved again = RunSolve(&w.m, w.problem.get(), &w.mon, base, plan);
  std::string why;
  SIM_CHECK(SameSolve(w.m, ref, again, &why), "not-restored", "the same solve before and after a solve with faults differs: %s [%s]", why.c_str(), cfg.text.c_str());
}

// ---------------------------------------------------------------------------
// C08: transient failures at trial points cost steps, not the result.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C08, transient, 10) {
  ModelOptions mo = EasyModel();
  mo.bounds = false;
  World w(mo, sim::Chance(10));
  Flavor f;
  f.tight = true;
  f.iterative = false;
  f.mixed = false;
  f.line_search = false;
  f.max_threads = 4;
  const bool plus = sim::Chance(40);
  if (w.ecb || plus) f.inner = false;
  SolveCfg cfg = DrawSolve(w.m, f);
  cfg.o.max_num_iterations = 100;
  CbPlan plan;
  const State s0 = w.m.UserState();
  SolveCfg base = cfg;
  base.o.num_threads = 1;
  Solved ref;
  {
    sim::Quiet q;
    ref = RunSolve(&w.m, w.problem.get(), &w.mon, base, plan);
    w.m.SetUserState(s0);
  }
  // At most a few failures, then faults stop.
  const int limit = sim::Range(1, 6);
  if (!plus || sim::Chance(50)) sim::ArmFault("cost.trial", sim::Chance(50) ? 0.3 : 0.8);
  if (plus) sim::ArmFault("manifold.trial", sim::Chance(50) ? 0.3 : 0.8);
  auto failures = [&] { return w.mon.cand_failed + static_cast<long>(sim::FaultCount("manifold.trial")); };
  plan.extra = [&](int, const ceres::IterationSummary&) {
    if (failures() >= limit) sim::FaultsOff();
  };
  const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  sim::Quiet q;
  if (failures() > 0) sim::NonTrivial();
  sim::Probe(failures() > 0 ? "trial.failed" : "trial.none");
  if (!Usable(ref.s)) return;
  SIM_CHECK(Usable(b.s), "not-tolerated", "%ld evaluations of trial points failed and the solve ended with %s (%s) [%s]", failures(), ceres::TerminationTypeToString(b.s.termination_type), b.s.message.substr(0, 200).c_str(), cfg.text.c_str());
  // A rejected step shrinks the trust region.
  for (size_t i = 1; i < b.s.iterations.size(); ++i) {
    const auto& x = b.s.iterations[i - 1];
    const auto& y = b.s.iterations[i];
    if (!y.step_is_successful) SIM_CHECK(y.trust_region_radius < x.trust_region_radius, "radius", "iteration %zu was rejected, but the trust region radius went from %g to %g", i, x.trust_region_radius, y.trust_region_radius);
  }
  if (b.s.termination_type != ceres::CONVERGENCE || ref.s.termination_type != ceres::CONVERGENCE) {
    sim::Probe("trial.limit");
    return;
  }
  // A trust region that the failures made tiny makes steps so small that the function tolerance stops the solve.
  if (b.s.message.find("Gradient tolerance") == std::string::npos && !b.s.iterations.empty() && b.s.iterations.back().trust_region_radius < 1e-3) {
    sim::Probe("trial.tiny_radius");
    return;
  }
  sim::Probe("trial.compared");
  // There may be several minima; wherever the solve ends is one.
  const double g0 = ProjectedGradientNorm(w.m, s0), ga = ProjectedGradientNorm(w.m, ref.end), gb = ProjectedGradientNorm(w.m, b.end);
  if (ga < 1e-4 * (1 + g0)) SIM_CHECK(gb < 1e-3 * (1 + g0), "false-convergence", "with %ld failed trial evaluations the solve converged to a point with gradient norm %g, without to %g (%s) [%s]", failures(), gb, ga, b.s.message.c_str(), cfg.text.c_str());
}

// The cost functions are undefined in a half space: no accepted point lies there.
SIM_WORKLOAD(C08, region, 8) {
  ModelOptions mo = AnyModel();
  mo.bounds = sim::Chance(15);
  World w(mo, sim::Chance(10));
  Flavor f;
  if (w.ecb) f.inner = false;
  SolveCfg cfg = DrawSolve(w.m, f);
  const bool ls = cfg.o.minimizer_type == ceres::LINE_SEARCH;
  // A half space through one coordinate, excluding the start.
  int blk = -1;
  for (size_t i = 0; i < w.m.rbs[0].pb.size(); ++i)
    if (!w.m.pbs[w.m.rbs[0].pb[i]].constant) blk = w.m.rbs[0].pb[i];
  if (blk < 0) blk = w.m.rbs[0].pb[0];
  const int coord = static_cast<int>(sim::Draw(w.m.pbs[blk].size));
  const double dir = sim::Chance(50) ? 1 : -1;
  State s0 = w.m.UserState();
  for (size_t i = 0; i < s0.size(); ++i) {
    const PBlock& b = w.m.pbs[i];
    if (!b.Bounded() || b.constant) continue;
    for (int k = 0; k < b.size; ++k) s0[i][k] = std::min(std::max(s0[i][k], b.lo[k]), b.hi[k]);
  }
  const double limit = dir * s0[blk][coord] + sim::Uniform(0.001, 1.0);
  auto bad = [&](double v) { return dir * v > limit; };
  w.mon.fail = [&](const SimCost& c, const double* const* p, bool) {
    const RBlock& rb = w.m.rbs[c.id];
    for (size_t k = 0; k < rb.pb.size(); ++k)
      if (rb.pb[k] == blk && bad(p[k][coord])) return true;
    return false;
  };
  CbPlan plan;
  const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  sim::Quiet q;
  if (!b.clean) sim::NonTrivial();
  SIM_CHECK(!bad(b.end[blk][coord]), "accepted-failing-point", "the solve returned a point at which the cost functions fail [%s]", cfg.text.c_str());
  SIM_CHECK(!b.s.iterations.empty() || b.s.termination_type == ceres::CONVERGENCE, "not-tolerated", "the solve made no iteration: %s", b.s.message.substr(0, 200).c_str());
  for (auto& it : b.s.iterations)
    if (it.step_is_successful) SIM_CHECK(std::isfinite(it.cost) && it.cost < 1e100, "accepted-failing-point", "iteration %d was accepted with cost %g", it.iteration, it.cost);
  if (!ls) {
    const bool excuse = b.s.message.find("invalid steps") != std::string::npos || b.s.message.find("Linear solver") != std::string::npos;
    SIM_CHECK(Usable(b.s) || excuse, "not-tolerated", "the cost functions fail in a half space away from the start, and the solve ended with %s (%s) [%s]", ceres::TerminationTypeToString(b.s.termination_type), b.s.message.substr(0, 200).c_str(), cfg.text.c_str());
  }
  sim::Probe(Usable(b.s) ? "region.usable" : "region.unusable");
}

// ---------------------------------------------------------------------------
// C09: iteration callbacks.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C09, callbacks, 10) {
  ModelOptions mo = AnyModel();
  mo.bounds = sim::Chance(20);
  World w(mo, sim::Chance(20));
  Flavor f;
  if (w.ecb) f.inner = false;
  f.max_iterations = 8;
  SolveCfg cfg = DrawSolve(w.m, f);
  cfg.o.update_state_every_iteration = sim::Chance(60);
  if (sim::Chance(25)) ArmEvalFaults(0.01);
  if (sim::Chance(25)) sim::ArmFault("cost.trial", 0.1);
  CbPlan plan;
  plan.count = sim::Range(0, 3);
  if (plan.count > 0 && sim::Chance(60)) {
    plan.stop_cb = static_cast<int>(sim::Draw(plan.count));
    plan.stop_iteration = sim::Range(0, 3);
    plan.stop = sim::Chance(50) ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  }
  plan.slow = sim::Chance(30);
  if (plan.slow && sim::Chance(50)) cfg.o.max_solver_time_in_seconds = 2.0;
  const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  if (b.recs.size() > 2) sim::NonTrivial();
  if (b.stopped) sim::Probe(plan.stop == ceres::SOLVER_ABORT ? "cb.abort" : "cb.success");
}

// ---------------------------------------------------------------------------
// C10: evaluation callbacks.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C10, solve, 10) {
  ModelOptions mo = AnyModel();
  mo.bounds = sim::Chance(25);
  World w(mo, true);
  Flavor f;
  f.inner = false;
  const int solves = sim::Range(1, 2);
  if (sim::Chance(40)) ArmEvalFaults(sim::Chance(50) ? 0.02 : 0.1);
  if (sim::Chance(40)) sim::ArmFault("cost.trial", 0.3);
  for (int k = 0; k < solves; ++k) {
    SolveCfg cfg = DrawSolve(w.m, f);
    CbPlan plan;
    plan.count = sim::Range(0, 1);
    const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
    if (w.ecb->new_points > 1) sim::NonTrivial();
    sim::Probe("prepare.checked");
  }
}

// ---------------------------------------------------------------------------
// C11: limits on time and work.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C11, limits, 10) {
  ModelOptions mo = AnyModel();
  mo.bounds = sim::Chance(20);
  World w(mo, false);
  Flavor f;
  f.max_iterations = 30;
  SolveCfg cfg = DrawSolve(w.m, f);
  static const double limits[] = {1.0, 0.0, 0.2, 5.0, 30.0};
  cfg.o.max_solver_time_in_seconds = limits[sim::Draw(5)];
  cfg.o.function_tolerance = cfg.o.gradient_tolerance = cfg.o.parameter_tolerance = sim::Chance(70) ? 0 : 1e-8;
  const bool jump = sim::Chance(25);
  if (jump) sim::ArmFault("clock.jump", 0.05);
  sim::ArmFault("cost.slow", sim::Chance(50) ? 0.02 : 0.2);
  if (sim::Chance(30)) sim::ArmFault("cost.trial", 0.2);
  CbPlan plan;
  plan.count = sim::Range(0, 2);
  plan.slow = sim::Chance(40);
  const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  sim::Quiet q;
  const auto& its = b.s.iterations;
  if (!b.jumped) {
    // No iteration starts after the limit.
    for (size_t i = 0; i + 1 < its.size(); ++i)
      SIM_CHECK(its[i].cumulative_time_in_seconds <= cfg.o.max_solver_time_in_seconds + 1e-3, "time-limit", "iteration %zu ended %g s after the start of the solve and another one followed, the limit is %g s [%s]", i, its[i].cumulative_time_in_seconds, cfg.o.max_solver_time_in_seconds, cfg.text.c_str());
    // The clock the summary reports is the simulated one.
    if (!its.empty()) SIM_CHECK(b.s.total_time_in_seconds >= its.back().cumulative_time_in_seconds - 1e-9, "times", "the solve took %g s, its last iteration ended after %g s", b.s.total_time_in_seconds, its.back().cumulative_time_in_seconds);
    SIM_CHECK(std::abs(b.s.total_time_in_seconds - static_cast<double>(b.ns) * 1e-9) < 1e-2, "times", "the summary says the solve took %g s, it took %g s", b.s.total_time_in_seconds, static_cast<double>(b.ns) * 1e-9);
  }
  const bool hit = b.s.termination_type == ceres::NO_CONVERGENCE && !its.empty() && its.back().iteration < cfg.o.max_num_iterations;
  if (hit) {
    sim::Probe("limit.time");
    sim::NonTrivial();
  } else if (b.s.termination_type == ceres::NO_CONVERGENCE) {
    sim::Probe("limit.iterations");
    sim::NonTrivial();
  }
  if (b.jumped) sim::Probe("limit.jumped");
}

// ---------------------------------------------------------------------------
// C12: constant blocks, bounds and manifolds bind at every evaluation.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C12, constrained, 10) {
  ModelOptions mo = AnyModel();
  mo.bounds = true;
  mo.max_pb = 6;
  World w(mo, false);
  Flavor f;
  f.line_search = false;
  // Constant-ness is a property of the problem, changed at will between solves.
  const int solves = sim::Range(1, 3);
  for (int k = 0; k < solves; ++k) {
    if (k > 0) {
      sim::Quiet q;
      for (auto& b : w.m.pbs) {
        if (!sim::Chance(30)) continue;
        b.constant = !b.constant;
        if (b.constant)
          w.problem->SetParameterBlockConstant(b.x);
        else
          w.problem->SetParameterBlockVariable(b.x);
      }
    }
    if (sim::Chance(40)) {
      // A start that violates the bounds, by a lot or by next to nothing.
      sim::Quiet q;
      for (auto& b : w.m.pbs) {
        if (b.constant || b.tangent == 0 || !b.Bounded()) continue;
        for (int k = 0; k < b.size; ++k) {
          if (std::find(b.fixed.begin(), b.fixed.end(), k) != b.fixed.end() || !sim::Chance(50)) continue;
          const double by = sim::Chance(70) ? sim::Uniform(0, 2) : 1e-13;
          if (b.lo[k] > -1e300 && (b.hi[k] > 1e300 || sim::Chance(50)))
            b.x[k] = b.lo[k] - by;
          else if (b.hi[k] < 1e300)
            b.x[k] = b.hi[k] + by;
        }
      }
      sim::Probe("start.infeasible");
    }
    SolveCfg cfg = DrawSolve(w.m, f);
    if (sim::Chance(25)) cfg.o.max_num_line_search_step_size_iterations = 0;
    if (sim::Chance(25)) sim::ArmFault("cost.trial", 0.1);
    CbPlan plan;
    plan.count = sim::Range(0, 1);
    const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
    if (b.s.iterations.size() > 2) sim::NonTrivial();
  }
}

}  // namespace
