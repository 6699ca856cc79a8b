// C18: derivative checking, by the solver (check_gradients) and by GradientChecker.
#include <memory>
#include <mutex>
#include <thread>

#include "ceres/gradient_checker.h"
#include "solve.h"

namespace {

using namespace wl;

// One entry of one cost function's Jacobian is wrong, everywhere or in part of
// the parameter space.
struct Wrong {
  int cost = -1;  // -1: none
  int block = 0, row = 0, col = 0;
  double by = 0;
  int where = 0;  // 0 everywhere, 1 away from the start, 2 at the start only, 3 where the first coordinate exceeds `at`
  double at = 0;
};

struct Checked {
  Model* m;
  SolveMonitor* mon;
  const std::vector<Wrong>* wrong;
  double precision;
  bool must = false;        // an error that has to be reported was returned
  bool may = false;         // ... or one at the limit of what can be seen
  bool ambiguous = false;   // a right Jacobian which finite differences may not confirm
  std::set<int> bad;        // cost functions that must be named
  void Look(const SimCost& c, double const* const* p, double** J) {
    const RBlock& rb = m->rbs[c.id];
    const Mat right = c.spec.Jacobian(c.spec.Gather(p));
    const Mat ambient = right;
    Mat wrong_j = right;
    int o = 0;
    std::vector<int> off;
    for (int s : c.spec.sizes) {
      off.push_back(o);
      o += s;
    }
    bool any = false;
    for (const Wrong& w : *wrong) {
      if (w.cost != c.id || !J[w.block]) continue;
      bool start = true;
      for (size_t b = 0; b < rb.pb.size(); ++b) start = start && SameBits(p[b], mon->start[rb.pb[b]].data(), m->pbs[rb.pb[b]].size);
      if ((w.where == 1 && start) || (w.where == 2 && !start) || (w.where == 3 && p[0][0] < w.at)) continue;
      J[w.block][w.row * c.spec.sizes[w.block] + w.col] += w.by;
      wrong_j(w.row, off[w.block] + w.col) += w.by;
      any = true;
    }
    for (size_t b = 0; b < rb.pb.size(); ++b) {
      const PBlock& pb = m->pbs[rb.pb[b]];
      const int s = c.spec.sizes[b];
      for (int k = 0; k < s; ++k)
        if (std::abs(p[b][k]) > 4) ambiguous = true;
      Mat P = Mat::Identity(s, s);
      if (pb.manifold) m->PlusJac(pb, p[b], &P);
      const Mat l = right.middleCols(off[b], s) * P, e = wrong_j.middleCols(off[b], s) * P;
      for (int i = 0; i < l.rows(); ++i)
        for (int j = 0; j < l.cols(); ++j) {
          if (l(i, j) != 0 && std::abs(l(i, j)) < 1e-3) ambiguous = true;
          // Sums of terms that cancel.
          if (pb.manifold && l(i, j) != 0 && std::abs(l(i, j)) < 1e-3 * ambient.middleCols(off[b], s).norm()) ambiguous = true;
          if (!any) continue;
          const double d = std::abs(l(i, j) - e(i, j));
          const double rel = l(i, j) == 0 || e(i, j) == 0 ? d : d / std::max(std::abs(l(i, j)), std::abs(e(i, j)));
          if (rel > 10 * precision) {
            must = true;
            bad.insert(c.id);
          }
          if (rel > 0.01 * precision) may = true;
        }
    }
  }
};

std::set<int> Named(const std::string& msg) {
  std::set<int> ids;
  const std::string key = "Residual block id ";
  for (size_t p = msg.find(key); p != std::string::npos; p = msg.find(key, p + 1)) ids.insert(atoi(msg.c_str() + p + key.size()));
  return ids;
}

}  // namespace

// A solve that checks derivatives takes the course of one that does not, unless
// a derivative is wrong: then it fails, says where, and changes nothing.
SIM_WORKLOAD(C18, solve, 10) {
  ModelOptions mo = AnyModel();
  mo.max_pb = 4;
  mo.max_rb = 4;
  mo.max_size = 3;
  mo.max_dim = 2;
  mo.nonlinearity = 0.4;
  mo.bounds = sim::Chance(20);
  World w(mo, sim::Chance(15));
  Flavor f;
  f.max_threads = 4;
  f.max_iterations = 5;
  if (w.ecb) f.inner = false;
  SolveCfg cfg = DrawSolve(w.m, f);
  if (cfg.o.max_num_line_search_step_size_iterations > 5) cfg.o.max_num_line_search_step_size_iterations = 5;
  static const double precs[] = {1e-4, 1e-5, 1e-2};
  cfg.o.gradient_check_relative_precision = precs[sim::Draw(3)];
  CbPlan plan;
  plan.count = sim::Range(0, 2);
  if (plan.count && sim::Chance(15)) {
    plan.stop_cb = 0;
    plan.stop_iteration = sim::Range(0, 2);
    plan.stop = sim::Chance(50) ? ceres::SOLVER_ABORT : ceres::SOLVER_TERMINATE_SUCCESSFULLY;
  }
  std::vector<Wrong> wrong;
  const int nwrong = sim::Chance(60) ? sim::Range(1, 2) : 0;
  for (int i = 0; i < nwrong; ++i) {
    Wrong x;
    x.cost = static_cast<int>(sim::Draw(w.m.rbs.size()));
    const CostSpec& s = w.m.rbs[x.cost].cost;
    x.block = static_cast<int>(sim::Draw(s.sizes.size()));
    x.row = static_cast<int>(sim::Draw(s.dim));
    x.col = static_cast<int>(sim::Draw(s.sizes[x.block]));
    static const double by[] = {0.5, -1, 0.01, 100, 1e-9};
    x.by = by[sim::Draw(5)];
    x.where = static_cast<int>(sim::Draw(4));
    x.at = sim::Uniform(-1, 1);
    wrong.push_back(x);
  }
  const bool faults = sim::Chance(25);
  const State s0 = w.m.UserState();
  Checked chk;
  chk.m = &w.m;
  chk.mon = &w.mon;
  chk.wrong = &wrong;
  chk.precision = cfg.o.gradient_check_relative_precision;
  w.mon.alter = [&](const SimCost& c, double const* const* p, double** J) { chk.Look(c, p, J); };
  Solved ref;
  bool compare = false;
  if (wrong.empty() && !faults) {
    sim::Quiet q;
    ref = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
    w.m.SetUserState(s0);
    compare = true;
  }
  if (faults) {
    static const double rates[] = {0.002, 0.02, 0.1};
    sim::ArmFault(sim::Chance(50) ? "cost.false" : "cost.trial", rates[sim::Draw(3)]);
  }
  w.mon.checking = true;
  w.mon.wrong_gradients = !wrong.empty();
  chk.must = chk.may = chk.ambiguous = false;
  SolveCfg checked = cfg;
  checked.o.check_gradients = true;
  const Solved r = RunSolve(&w.m, w.problem.get(), &w.mon, checked, plan);
  sim::Quiet q;
  const bool reported = r.s.message.find("Gradient Error detected!") != std::string::npos;
  if (!r.clean) sim::Probe("check.faulted");
  if (reported) {
    SIM_CHECK(chk.may || chk.ambiguous, "false-report", "a gradient error was reported, but every Jacobian was right: %s [%s]", r.s.message.substr(0, 900).c_str(), cfg.text.c_str());
    const std::set<int> named = Named(r.s.message);
    if (!chk.ambiguous) {
      for (int i : named) {
        bool is = false;
        for (auto& x : wrong) is = is || x.cost == i;
        SIM_CHECK(is, "false-report", "residual block %d is reported, its Jacobian is right: %s", i, r.s.message.substr(0, 900).c_str());
      }
    }
    if (r.clean)
      for (int i : chk.bad) SIM_CHECK(named.count(i), "unreported", "the wrong Jacobian of residual block %d is not mentioned: %s", i, r.s.message.substr(0, 900).c_str());
    sim::Probe("check.reported");
    sim::NonTrivial();
  } else if (r.clean) {
    SIM_CHECK(!chk.must, "missed", "cost function %d returned a wrong Jacobian, but the solve ended with %s: %s [%s]", *chk.bad.begin(), ceres::TerminationTypeToString(r.s.termination_type), r.s.message.substr(0, 200).c_str(), cfg.text.c_str());
  }
  if (compare && !reported) {
    if (cfg.o.num_threads == 1) {
      std::string why;
      SIM_CHECK(SameSolve(w.m, ref, r, &why), "disturbed", "the solve with derivative checks differs from the one without: %s [%s]", why.c_str(), cfg.text.c_str());
    } else {
      SIM_CHECK(Close(ref.s.initial_cost, r.s.initial_cost, 1e-12) && ref.s.iterations.empty() == r.s.iterations.empty(), "disturbed", "the solve with derivative checks starts with cost %.17g, the one without with %.17g [%s]", r.s.initial_cost, ref.s.initial_cost, cfg.text.c_str());
    }
    SIM_CHECK(ref.s.linear_solver_type_used == r.s.linear_solver_type_used && ref.s.preconditioner_type_used == r.s.preconditioner_type_used && ref.s.num_parameters_reduced == r.s.num_parameters_reduced && ref.s.num_effective_parameters_reduced == r.s.num_effective_parameters_reduced &&
                  ref.s.num_residuals_reduced == r.s.num_residuals_reduced && ref.s.schur_structure_used == r.s.schur_structure_used && Close(ref.s.fixed_cost, r.s.fixed_cost, 1e-12),
              "disturbed", "the problem solved with derivative checks is not the one solved without [%s]", cfg.text.c_str());
    sim::Probe("check.same");
    sim::NonTrivial();
  }
  CheckProblemIntact(w.m, *w.problem);
}

// GradientChecker by itself, used by one or several threads at once.
SIM_WORKLOAD(C18, probe, 6) {
  ModelOptions mo = AnyModel();
  mo.max_pb = 4;
  mo.max_rb = 2;
  mo.constants = false;
  Model m;
  EvalCounters cnt;
  SolveMonitor mon;
  {
    sim::Quiet q;
    m.Draw(mo);
  }
  mon.m = &m;
  mon.cnt = &cnt;
  ceres::Problem problem;
  m.AddTo(&problem, &mon, &cnt);
  const int id = static_cast<int>(sim::Draw(m.rbs.size()));
  RBlock& rb = m.rbs[id];
  std::vector<Wrong> wrong;
  const int nwrong = static_cast<int>(sim::Draw(3));
  for (int i = 0; i < nwrong; ++i) {
    Wrong x;
    x.cost = id;
    x.block = static_cast<int>(sim::Draw(rb.cost.sizes.size()));
    x.row = static_cast<int>(sim::Draw(rb.cost.dim));
    x.col = static_cast<int>(sim::Draw(rb.cost.sizes[x.block]));
    static const double by[] = {0.5, -1, 0.01, 100, 1e-9};
    x.by = by[sim::Draw(5)];
    wrong.push_back(x);
  }
  mon.start = m.UserState();
  Checked dummy;
  dummy.m = &m;
  dummy.mon = &mon;
  dummy.wrong = &wrong;
  dummy.precision = 1e-4;
  mon.alter = [&](const SimCost& c, double const* const* p, double** J) { dummy.Look(c, p, J); };
  std::vector<const ceres::Manifold*> manifolds;
  for (int i : rb.pb) manifolds.push_back(m.pbs[i].manifold);
  const bool with_manifolds = sim::Chance(75);
  ceres::NumericDiffOptions nd;
  ceres::GradientChecker checker(rb.fn, with_manifolds ? &manifolds : nullptr, nd);
  const double prec = sim::Chance(70) ? 1e-4 : 1e-2;
  static const double rates[] = {0, 0.02, 0.2};
  const double rate = rates[sim::Draw(3)];
  if (rate > 0) {
    static const char* sites[] = {"cost.false", "manifold.jacobian", "cost.nan", "cost.jac_nan", "cost.partial"};
    const int k = static_cast<int>(sim::Draw(7));
    for (int i = 0; i < 5; ++i)
      if (k >= 5 || k == i) sim::ArmFault(sites[i], rate);
  }
  const int nt = sim::Range(1, 3), rounds = sim::Range(1, 2);
  auto user = [&](int t) {
    ceres::GradientChecker::ProbeResults res;
    std::vector<std::vector<double>> x(rb.pb.size());
    for (int k = 0; k < rounds; ++k) {
      std::vector<const double*> p;
      bool null_results = false;
      {
        sim::Quiet q;
        for (size_t b = 0; b < rb.pb.size(); ++b) {
          const PBlock& pb = m.pbs[rb.pb[b]];
          x[b] = pb.init;
          if (k + t > 0 && pb.kind == kNone)
            for (double& v : x[b]) v += 0.1 * (k + 1) - 0.07 * t;
          p.push_back(x[b].data());
        }
        null_results = (t + k) % 4 == 3;
      }
      const uint64_t f0 = sim::FaultCount("cost.false") + sim::FaultCount("manifold.jacobian") + sim::FaultCount("cost.nan") + sim::FaultCount("cost.jac_nan") + sim::FaultCount("cost.partial");
      const bool ok = checker.Probe(p.data(), prec, null_results ? nullptr : &res);
      sim::Quiet q;
      const bool clean = sim::FaultCount("cost.false") + sim::FaultCount("manifold.jacobian") + sim::FaultCount("cost.nan") + sim::FaultCount("cost.jac_nan") + sim::FaultCount("cost.partial") == f0;
      if (!clean) sim::NonTrivial();
      if (nt > 1) sim::NonTrivial();
      // What it should say.
      std::vector<const double*> pp = p;
      Vec gx(rb.cost.total());
      {
        int o = 0;
        for (size_t b = 0; b < rb.pb.size(); ++b)
          for (double v : x[b]) gx[o++] = v;
      }
      const Vec rr = rb.cost.Residual(gx);
      Mat J = rb.cost.Jacobian(gx);
      std::vector<int> off;
      int o = 0;
      for (int s : rb.cost.sizes) {
        off.push_back(o);
        o += s;
      }
      const Mat right = J;
      for (auto& e : wrong) J(e.row, off[e.block] + e.col) += e.by;
      bool must = false, may = false;
      for (size_t b = 0; b < rb.pb.size(); ++b) {
        const PBlock& pb = m.pbs[rb.pb[b]];
        const int s = rb.cost.sizes[b];
        Mat P = Mat::Identity(s, s);
        if (with_manifolds && pb.manifold) m.PlusJac(pb, x[b].data(), &P);
        const Mat a = right.middleCols(off[b], s) * P, e = J.middleCols(off[b], s) * P;
        for (int i = 0; i < a.rows(); ++i)
          for (int j = 0; j < a.cols(); ++j) {
            const double d = std::abs(a(i, j) - e(i, j));
            const double rel = a(i, j) == 0 || e(i, j) == 0 ? d : d / std::max(std::abs(a(i, j)), std::abs(e(i, j)));
            if (rel > 10 * prec) must = true;
            if (rel > 0.01 * prec || (e(i, j) != 0 && std::abs(e(i, j)) < 1e-3)) may = true;
          }
      }
      if (clean) {
        SIM_CHECK(ok ? !must : may, "probe-verdict", "Probe returned %d, a Jacobian entry is %s", ok, must ? "wrong" : "right in every entry");
        sim::Probe(ok ? "probe.right" : "probe.wrong");
      }
      if (null_results) continue;
      SIM_CHECK(!ok || res.return_value, "probe-results", "Probe returned true although an evaluation failed");
      if (clean) SIM_CHECK(res.return_value, "probe-results", "Probe says an evaluation failed, none did");
      if (!res.return_value) {
        SIM_CHECK(!res.error_log.empty(), "probe-results", "an evaluation failed and the log is empty");
        continue;
      }
      const int n = rb.cost.dim;
      SIM_CHECK(res.residuals.size() == n && res.jacobians.size() == rb.pb.size() && res.local_jacobians.size() == rb.pb.size() && res.numeric_jacobians.size() == rb.pb.size() && res.local_numeric_jacobians.size() == rb.pb.size(), "probe-results", "the results have %d residuals and %zu Jacobians",
                (int)res.residuals.size(), res.jacobians.size());
      if (clean)
        for (int i = 0; i < n; ++i) SIM_CHECK(Bits(res.residuals[i]) == Bits(rr[i]), "probe-results", "residual %d is %.17g, the cost function returned %.17g", i, res.residuals[i], rr[i]);
      double worst = 0;
      int nbad = 0;
      bool nan = false, same_residuals = true;
      for (size_t b = 0; b < rb.pb.size(); ++b) {
        const PBlock& pb = m.pbs[rb.pb[b]];
        const int s = rb.cost.sizes[b];
        Mat P = Mat::Identity(s, s);
        if (with_manifolds && pb.manifold) m.PlusJac(pb, x[b].data(), &P);
        const int ls = static_cast<int>(P.cols());
        SIM_CHECK(res.jacobians[b].rows() == n && res.jacobians[b].cols() == s && res.numeric_jacobians[b].cols() == s && res.local_jacobians[b].cols() == ls && res.local_numeric_jacobians[b].cols() == ls, "probe-results", "the Jacobians of block %zu have the wrong size", b);
        const Mat lj = res.jacobians[b] * P, ln = res.numeric_jacobians[b] * P;
        for (int i = 0; i < n; ++i) {
          for (int j = 0; j < s; ++j) {
            if (clean) {
              SIM_CHECK(Bits(res.jacobians[b](i, j)) == Bits(J(i, off[b] + j)), "probe-results", "Jacobian (%zu,%d,%d) is %.17g, the cost function returned %.17g", b, i, j, res.jacobians[b](i, j), J(i, off[b] + j));
              SIM_CHECK(std::abs(res.numeric_jacobians[b](i, j) - right(i, off[b] + j)) < 1e-5 * (1 + std::abs(right(i, off[b] + j))), "probe-numeric", "numeric derivative (%zu,%d,%d) is %.17g, the true one %.17g", b, i, j, res.numeric_jacobians[b](i, j), right(i, off[b] + j));
            }
          }
          for (int j = 0; j < ls; ++j) {
            const double a = res.local_jacobians[b](i, j), c = res.local_numeric_jacobians[b](i, j);
            auto same = [](double u, double v) { return std::abs(u - v) <= 1e-12 * (1 + std::abs(v)) || !std::isfinite(v); };
            SIM_CHECK(same(a, lj(i, j)) && same(c, ln(i, j)), "probe-local", "local Jacobian (%zu,%d,%d) is %.17g and %.17g numerically; the Jacobian times the manifold's is %.17g and %.17g", b, i, j, a, c, lj(i, j), ln(i, j));
            const double d = std::abs(a - c), rel = a == 0 || c == 0 ? d : d / std::max(std::abs(a), std::abs(c));
            if (!(rel < prec)) ++nbad;
            if (std::isnan(rel)) nan = true;
            else worst = std::max(worst, rel);
          }
        }
      }
      for (int i = 0; i < n; ++i)
        if (!std::isfinite(res.residuals[i])) same_residuals = false;
      if (!clean && res.error_log.find("different residuals") != std::string::npos) same_residuals = false;
      if (same_residuals) {
        SIM_CHECK(ok == (nbad == 0), "probe-verdict", "Probe returned %d, %d entries of the Jacobians it returned differ by more than %g", ok, nbad, prec);
        if (!nan) SIM_CHECK(Bits(res.maximum_relative_error) == Bits(worst), "probe-results", "maximum_relative_error is %.17g, the largest difference between the Jacobians is %.17g", res.maximum_relative_error, worst);
        int listed = 0;
        for (size_t at = res.error_log.find("Relative error worse than"); at != std::string::npos; at = res.error_log.find("Relative error worse than", at + 1)) ++listed;
        SIM_CHECK(listed == nbad, "probe-results", "the log names %d bad entries, there are %d", listed, nbad);
        SIM_CHECK(!ok || res.error_log.empty(), "probe-results", "the check passed with the log: %s", res.error_log.substr(0, 200).c_str());
      } else {
        SIM_CHECK(!ok, "probe-verdict", "Probe returned true although the residuals are not the same or not finite");
      }
    }
  };
  std::vector<std::thread> threads;
  for (int t = 1; t < nt; ++t) threads.emplace_back(user, t);
  user(0);
  for (auto& t : threads) t.join();
}
