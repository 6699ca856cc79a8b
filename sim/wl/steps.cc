// C20: every iteration of the trust region minimizer is the iteration its
// documented algorithm makes: refinement against an independent reference that
// recomputes model, step, verdict, radius and termination from the observed
// points, in whatever pattern trial points fail.
#include <cmath>

#include "solve.h"

namespace {

using namespace wl;

struct Seen {
  State at;                 // per parameter block; empty = not observed
  std::vector<char> known;
  bool failed = false;
  long evals = 0;
  void Reset(size_t n) {
    at.assign(n, {});
    known.assign(n, 0);
    failed = false;
    evals = 0;
  }
};

struct Step {
  Seen trial, jac;
  ceres::IterationSummary s;
};

struct Trace {
  const Model* m = nullptr;
  Seen trial, jac;
  std::vector<Step> steps;
  void Reset() {
    trial.Reset(m->pbs.size());
    jac.Reset(m->pbs.size());
  }
};

// Conn, Gould & Toint, algorithm 10.1.2: costs are compared with the current
// and with a reference iterate.
struct RefEvaluator {
  int limit;
  double min_cost, cur, ref, cand, acc_ref = 0, acc_cand = 0;
  int run = 0;
  RefEvaluator(double c, int l) : limit(l), min_cost(c), cur(c), ref(c), cand(c) {}
  double Quality(double c, double model) const {
    if (c >= std::numeric_limits<double>::max()) return std::numeric_limits<double>::lowest();
    return std::max((cur - c) / model, (ref - c) / (acc_ref + model));
  }
  void Accept(double c, double model) {
    cur = c;
    acc_cand += model;
    acc_ref += model;
    if (c < min_cost) {
      min_cost = cand = c;
      run = 0;
      acc_cand = 0;
    } else {
      ++run;
      if (c > cand) {
        cand = c;
        acc_cand = 0;
      }
    }
    if (run == limit) {
      ref = cand;
      acc_ref = acc_cand;
    }
  }
};

struct LinearModel {
  Mat J;     // scaled
  Vec r, S, g, diag;
  double cost = 0;
  double Decrease(const Vec& y) const {
    const Vec q = J * y;
    return -q.dot(r + q / 2);
  }
};

struct Proposal {
  Vec y;               // scaled step
  double norm = 0;     // || D y || (dogleg)
  double lo = 0;       // least acceptable model decrease
  bool exact = true;   // y is determined
  double cond = 1;
};

double Cond(const Mat& H) {
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(H, Eigen::EigenvaluesOnly);
  const double a = es.eigenvalues().minCoeff(), b = es.eigenvalues().maxCoeff();
  return a > 0 ? b / a : std::numeric_limits<double>::infinity();
}

Proposal LevenbergMarquardt(const LinearModel& lm, double radius) {
  Proposal p;
  Mat H = lm.J.transpose() * lm.J;
  for (int i = 0; i < H.rows(); ++i) H(i, i) += lm.diag[i] / radius;
  p.cond = Cond(H);
  p.y = -H.ldlt().solve(lm.g);
  return p;
}

// Powell's dogleg in the metric D = sqrt(diag).
Proposal Dogleg(const LinearModel& lm, double radius, double mu, bool subspace) {
  Proposal p;
  const Vec D = lm.diag.cwiseSqrt();
  Mat H = lm.J.transpose() * lm.J;
  for (int i = 0; i < H.rows(); ++i) H(i, i) += mu * lm.diag[i];
  p.cond = Cond(H);
  const Vec gn = -(H.ldlt().solve(lm.g)).cwiseProduct(D);
  const Vec g = lm.g.cwiseQuotient(D);
  const double gg = g.norm(), nn = gn.norm();
  auto unscale = [&](const Vec& v) { return Vec(v.cwiseQuotient(D)); };
  Vec s;
  if (nn <= radius) {
    s = gn;
  } else {
    const double alpha = g.squaredNorm() / (lm.J * unscale(g)).squaredNorm();
    if (gg * alpha >= radius) {
      s = -(radius / gg) * g;
    } else {
      // The point of the segment from the Cauchy point to the Gauss-Newton point on the boundary.
      const Vec a = -alpha * g, d = gn - a;
      const double A = d.squaredNorm(), B = a.dot(d), C = a.squaredNorm() - radius * radius;
      const double root = std::sqrt(std::max(0.0, B * B - A * C));
      const double beta = B <= 0 ? (root - B) / A : -C / (B + root);
      s = a + beta * d;
    }
    if (subspace) p.exact = false;  // at least as good as the dogleg path, inside the region
  }
  p.norm = s.norm();
  p.y = unscale(s);
  p.lo = lm.Decrease(p.y);
  return p;
}

State PlusAll(const Model& m, const State& x, const Vec& d, const std::vector<int>& col) {
  State y = x;
  for (size_t i = 0; i < m.pbs.size(); ++i) {
    const PBlock& b = m.pbs[i];
    if (col[i] < 0) continue;
    const Vec t = d.segment(col[i], b.tangent);
    if (b.kind == kLinear) {
      const Vec z = b.S * t;
      for (int k = 0; k < b.size; ++k) y[i][k] = x[i][k] + z[k];
    } else if (b.ref) {
      b.ref->Plus(x[i].data(), t.data(), y[i].data());
    } else {
      for (int k = 0; k < b.size; ++k) y[i][k] = x[i][k] + t[k];
    }
  }
  return y;
}

// The scaled step from x to y, false if it cannot be recovered.
bool Delta(const Model& m, const State& x, const State& y, const std::vector<int>& col, const Vec& S, Vec* d) {
  for (int c = 0, b = 0; b < static_cast<int>(m.pbs.size()); ++b) {
    if (col[b] < 0) continue;
    const PBlock& pb = m.pbs[b];
    Vec v(pb.tangent);
    if (pb.kind == kLinear) {
      Vec z(pb.size);
      for (int k = 0; k < pb.size; ++k) z[k] = y[b][k] - x[b][k];
      v = pb.S.colPivHouseholderQr().solve(z);
    } else if (pb.kind == kNone || pb.kind == kSubset) {
      if (pb.ref) {
        if (!pb.ref->Minus(y[b].data(), x[b].data(), v.data())) return false;
      } else {
        for (int k = 0; k < pb.size; ++k) v[k] = y[b][k] - x[b][k];
      }
    } else {
      return false;
    }
    for (int k = 0; k < pb.tangent; ++k, ++c) (*d)[c] = v[k] / S[c];
  }
  return true;
}

}  // namespace

SIM_WORKLOAD(C20, trust_region, 10) {
  ModelOptions mo = sim::Chance(50) ? AnyModel() : EasyModel();
  mo.bounds = false;
  World w(mo, sim::Chance(10));
  Flavor f;
  f.inner = false;
  f.mixed = false;
  f.line_search = false;
  f.iterative = sim::Chance(25);
  f.max_iterations = 14;
  SolveCfg cfg = DrawSolve(w.m, f);
  auto& o = cfg.o;
  const bool iterative = o.linear_solver_type == ceres::CGNR || o.linear_solver_type == ceres::ITERATIVE_SCHUR;
  if (sim::Chance(20)) o.max_trust_region_radius = sim::Chance(50) ? 10.0 * o.initial_trust_region_radius : 1e5;
  if (o.max_trust_region_radius < o.initial_trust_region_radius) o.max_trust_region_radius = o.initial_trust_region_radius;
  if (sim::Chance(15)) o.min_trust_region_radius = o.initial_trust_region_radius * 1e-4;
  const bool dogleg = o.trust_region_strategy_type == ceres::DOGLEG;
  const bool schur = o.linear_solver_type == ceres::DENSE_SCHUR || o.linear_solver_type == ceres::SPARSE_SCHUR;
  const size_t np = w.m.pbs.size();

  Trace tr;
  tr.m = &w.m;
  tr.Reset();
  w.mon.fail = [&](const SimCost& c, const double* const* p, bool want_jac) {
    if (!w.mon.solving) return false;
    Seen& s = want_jac ? tr.jac : tr.trial;
    ++s.evals;
    const RBlock& rb = w.m.rbs[c.id];
    for (size_t b = 0; b < rb.pb.size(); ++b) {
      const int i = rb.pb[b];
      std::vector<double> v(p[b], p[b] + w.m.pbs[i].size);
      if (s.known[i]) SIM_CHECK(SameBits(v.data(), s.at[i].data(), w.m.pbs[i].size), "one-point", "cost functions are evaluated at different values of parameter block %d in one iteration", i);
      s.known[i] = 1;
      s.at[i] = std::move(v);
    }
    return false;
  };
  const double rate = sim::Chance(60) ? (sim::Chance(50) ? 0.15 : 0.5) / (1 + w.m.rbs.size() / 2.0) : 0;
  if (rate > 0) {
    sim::ArmFault("cost.trial", rate);
    if (sim::Chance(30)) sim::ArmFault("manifold.trial", rate);
  }
  if (sim::Chance(15)) sim::ArmFault("thread.create", 0.3);
  CbPlan plan;
  long trial_failures = 0;
  plan.extra = [&](int cb, const ceres::IterationSummary& s) {
    if (cb != 0) return;
    Step st;
    st.trial = tr.trial;
    st.jac = tr.jac;
    st.trial.failed = w.mon.cand_failed > trial_failures;
    trial_failures = w.mon.cand_failed;
    st.s = s;
    tr.steps.push_back(std::move(st));
    tr.Reset();
  };
  const uint64_t mt0 = sim::FaultCount("manifold.trial");
  Solved r;
  try {
    r = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  } catch (const std::system_error&) {
    sim::Probe("steps.no_thread");
    return;
  }
  sim::Quiet q;
  w.mon.fail = nullptr;
  const auto& its = r.s.iterations;
  const int n = static_cast<int>(its.size());
  if (n == 0) return;
  SIM_CHECK(static_cast<int>(tr.steps.size()) == n, "callback-missing", "%zu callbacks for %d iterations", tr.steps.size(), n);

  // What the reduced problem is.
  std::vector<char> used(np, 0);
  for (auto& rb : w.m.rbs)
    for (int i : rb.pb) used[i] = 1;
  State x = r.start;
  RefEval e = w.m.Reference(x, w.m.AllRb(), w.m.AllPb(), true, true);
  std::vector<int> col(np);
  for (size_t i = 0; i < np; ++i) col[i] = used[i] ? e.pb_col[i] : -1;
  auto norm_of = [&](const State& a, const State* b) {
    double s = 0;
    for (size_t i = 0; i < np; ++i) {
      if (col[i] < 0) continue;
      for (int k = 0; k < w.m.pbs[i].size; ++k) {
        const double d = a[i][k] - (b ? (*b)[i][k] : 0);
        s += d * d;
      }
    }
    return std::sqrt(s);
  };
  const double fixed = r.s.fixed_cost;
  {
    double want = 0;
    for (size_t k = 0; k < w.m.rbs.size(); ++k) {
      bool all = true;
      for (int i : w.m.rbs[k].pb) all = all && col[i] < 0;
      if (all) want += w.m.Reference(x, {static_cast<int>(k)}, w.m.AllPb(), true, false).cost;
    }
    SIM_CHECK(Close(want, fixed, 1e-10), "fixed-cost", "fixed_cost is %.17g, the residual blocks without variable parameters cost %.17g", fixed, want);
  }
  // Columns the solver sees.
  std::vector<int> cols;
  for (size_t i = 0; i < np; ++i)
    for (int k = 0; col[i] >= 0 && k < w.m.pbs[i].tangent; ++k) cols.push_back(col[i] + k);
  const int nc = static_cast<int>(cols.size());
  if (nc == 0) return;
  Vec S = Vec::Ones(nc);
  LinearModel lm;
  auto linearize = [&](bool first) {
    Mat J(e.jacobian.rows(), nc);
    for (int c = 0; c < nc; ++c) J.col(c) = e.jacobian.col(cols[c]);
    if (first && o.jacobi_scaling)
      for (int c = 0; c < nc; ++c) S[c] = 1.0 / (1.0 + J.col(c).norm());
    lm.J = J * S.asDiagonal();
    lm.r = e.residuals;
    lm.S = S;
    lm.g = lm.J.transpose() * lm.r;
    lm.diag = lm.J.colwise().squaredNorm().transpose();
    for (int c = 0; c < nc; ++c) lm.diag[c] = std::min(std::max(lm.diag[c], o.min_lm_diagonal), o.max_lm_diagonal);
    lm.cost = e.cost;
  };
  auto expand = [&](const Vec& y) {
    Vec d = Vec::Zero(e.jacobian.cols());
    for (int c = 0; c < nc; ++c) d[cols[c]] = y[c] * S[c];
    return d;
  };
  auto gradient_norms = [&](double* max, double* two) {
    Vec d = Vec::Zero(e.jacobian.cols());
    for (int c = 0; c < nc; ++c) d[cols[c]] = -e.gradient[cols[c]];
    const State y = PlusAll(w.m, x, d, col);
    *two = norm_of(x, &y);
    *max = 0;
    for (size_t i = 0; i < np; ++i)
      for (int k = 0; col[i] >= 0 && k < w.m.pbs[i].size; ++k) *max = std::max(*max, std::abs(x[i][k] - y[i][k]));
  };
  linearize(true);
  {
    double gm, g2;
    gradient_norms(&gm, &g2);
    SIM_CHECK(its[0].step_is_successful && its[0].step_is_valid, "iteration-zero", "iteration 0 is not marked successful");
    SIM_CHECK(Close(its[0].gradient_max_norm, gm, 1e-9) && Close(its[0].gradient_norm, g2, 1e-9), "gradient-norm", "iteration 0 reports gradient norms %.12g and %.12g, they are %.12g and %.12g", its[0].gradient_max_norm, its[0].gradient_norm, gm, g2);
    SIM_CHECK(its[0].trust_region_radius == o.initial_trust_region_radius, "radius", "the initial radius is %g instead of %g", its[0].trust_region_radius, o.initial_trust_region_radius);
  }
  RefEvaluator ev(e.cost - fixed, o.use_nonmonotonic_steps ? o.max_consecutive_nonmonotonic_steps : 0);
  double radius = o.initial_trust_region_radius, decrease = 2, mu = 1e-8, best = e.cost;
  bool tie = false, moved = false, mu_known = true, model_known = true;
  int compared = 0;

  // One iteration of the reference at x; `t` is the observed trial point.
  struct Judged {
    Proposal p;
    double model = 0, tol = 0;  // model decrease and its relative uncertainty
    bool known = false;         // the model decrease is known
  };
  auto judge = [&](const Seen& t, bool whole, int i) {
    Judged j;
    j.p = dogleg ? Dogleg(lm, radius, mu, o.dogleg_type == ceres::SUBSPACE_DOGLEG) : LevenbergMarquardt(lm, radius);
    const bool sharp = !iterative && j.p.cond < (schur ? 1e6 : 1e9) && mu_known;
    // Eliminating a nearly singular block by its inverse squares the condition.
    const double rel = (schur ? 1e-14 * j.p.cond * j.p.cond : 1e-13 * j.p.cond) + 1e-10;
    const double noise = 1e-14 * (std::sqrt(j.p.cond) * (1 + norm_of(x, nullptr)) + j.p.cond * lm.r.norm() / (1e-300 + lm.J.norm()));
    State y;
    if (sharp && j.p.exact) {
      y = PlusAll(w.m, x, expand(j.p.y), col);
      // What was evaluated is what the strategy proposes.
      const double len = norm_of(y, &x), scale = 1 + norm_of(x, nullptr);
      for (size_t b = 0; b < np; ++b) {
        if (col[b] < 0 || !t.known[b]) continue;
        for (int k = 0; k < w.m.pbs[b].size; ++k) {
          const double d = std::abs(t.at[b][k] - y[b][k]), bound = 20 * rel * len + 1e-13 * scale + noise;
          SIM_CHECK(d <= bound + 1e-7 * len, "step", "iteration %d: parameter block %zu [%d] was tried at %.17g, the step leads to %.17g (step norm %.3g, condition %.2g, radius %g) [%s]", i, b, k, t.at[b][k], y[b][k], len, j.p.cond, radius, cfg.text.c_str());
        }
      }
      j.model = lm.Decrease(j.p.y);
      j.known = true;
      j.tol = 20 * rel + 1e-7 + noise / std::max(len, 1e-300);
      ++compared;
    } else if (whole) {
      // Any step: judge it by its own model decrease.
      Vec d = Vec::Zero(nc);
      const bool ok = Delta(w.m, x, t.at, col, S, &d);
      double len = 0;
      if (ok) {
        len = norm_of(t.at, &x);
        j.model = lm.Decrease(d);
        // Cancellation in t - x.
        const double cancel = 1e-15 * (1 + norm_of(x, nullptr)) / std::max(len, 1e-300);
        j.tol = 1e-6 + 100 * cancel * (1 + (lm.J * d).norm() * (lm.r.norm() + (lm.J * d).norm()) / std::max(std::abs(j.model), 1e-300));
        j.known = j.tol < 0.05;
        if (j.known) {
          SIM_CHECK(j.model > -1e-12 * lm.cost, "model-increase", "iteration %d: the step was taken although the model predicts an increase of %g [%s]", i, -j.model, cfg.text.c_str());
          if (dogleg && sharp) {
            const double dn = d.cwiseProduct(lm.diag.cwiseSqrt()).norm();
            SIM_CHECK(dn <= radius * (1 + 1e-6) + 1e-12, "outside-region", "iteration %d: the step has length %.12g in a trust region of radius %.12g [%s]", i, dn, radius, cfg.text.c_str());
            SIM_CHECK(j.model >= j.p.lo * (1 - 1e-6 - 20 * rel) - 1e-12 * lm.cost, "poor-step", "iteration %d: the step decreases the model by %.12g, the dogleg path by %.12g [%s]", i, j.model, j.p.lo, cfg.text.c_str());
            j.p.norm = dn;
            ++compared;
          }
        }
      }
    }
    return j;
  };
  auto whole_point = [&](const Seen& t) {
    for (size_t b = 0; b < np; ++b)
      if (col[b] >= 0 && !t.known[b]) return false;
    return true;
  };
  auto fill = [&](const Seen& t) {
    State y = x;
    for (size_t b = 0; b < np; ++b)
      if (t.known[b]) y[b] = t.at[b];
    return y;
  };

  for (int i = 1; i < n; ++i) {
    const auto& it = its[i];
    const auto& pr = its[i - 1];
    const Step& st = tr.steps[i];
    SIM_CHECK(pr.trust_region_radius > o.min_trust_region_radius, "no-stop", "iteration %d was made although the radius had reached %g", i, pr.trust_region_radius);
    if (pr.step_is_successful) SIM_CHECK(pr.gradient_max_norm > o.gradient_tolerance, "no-stop", "iteration %d was made although the gradient norm had reached %g", i, pr.gradient_max_norm);
    const double before = e.cost - fixed;
    if (!it.step_is_valid) {
      SIM_CHECK(!it.step_is_successful && Close(it.cost, e.cost, 1e-9), "invalid-step", "invalid iteration %d reports success %d, cost %.12g at a point of cost %.12g", i, it.step_is_successful, it.cost, e.cost);
      SIM_CHECK(st.trial.evals == 0 && st.jac.evals == 0, "invalid-step", "invalid iteration %d evaluated cost functions", i);
      // Rounding decides when there is nothing left to gain.
      if (!iterative && mu_known) {
        const Proposal p = dogleg ? Dogleg(lm, radius, mu, o.dogleg_type == ceres::SUBSPACE_DOGLEG) : LevenbergMarquardt(lm, radius);
        if (p.cond < 1e8) SIM_CHECK(lm.Decrease(p.y) <= 1e-9 * (e.cost + 1e-300), "invalid-step", "iteration %d is invalid, but the linear system has condition %.3g and its solution decreases the model from %g by %g [%s]", i, p.cond, e.cost, lm.Decrease(p.y), cfg.text.c_str());
        mu_known = mu_known && dogleg;
      }
      if (dogleg) {
        SIM_CHECK(it.trust_region_radius == radius, "radius", "dogleg iteration %d is invalid, the radius went from %g to %g", i, radius, it.trust_region_radius);
        mu_known = false;
      } else {
        radius /= decrease;
        decrease *= 2;
        SIM_CHECK(Close(it.trust_region_radius / radius, 1, 1e-12), "radius", "iteration %d is invalid, the radius is %.12g instead of %.12g", i, it.trust_region_radius, radius);
        mu_known = true;
      }
      radius = it.trust_region_radius;
      sim::Probe("steps.invalid");
      continue;
    }
    const bool whole = whole_point(st.trial) && !st.trial.failed;
    const bool infinite = it.cost >= 1e300;
    const Judged j = judge(st.trial, whole_point(st.trial), i);
    double after = std::numeric_limits<double>::max();
    State y = x;
    if (whole) {
      y = fill(st.trial);
      after = w.m.Cost(y) - fixed;
    }
    // A failed candidate costs infinitely much, another one what it costs.
    if (st.trial.failed || !whole) {
      SIM_CHECK(st.trial.failed || sim::FaultCount("manifold.trial") != mt0, "not-evaluated", "the candidate of iteration %d was not evaluated", i);
      SIM_CHECK(infinite && !it.step_is_successful, "failed-trial", "the candidate of iteration %d could not be evaluated, but the iteration has cost %g, successful %d", i, it.cost, it.step_is_successful);
    } else {
      SIM_CHECK(Close(it.cost, after + fixed, 1e-9), "trial-cost", "iteration %d reports cost %.17g, the candidate costs %.17g", i, it.cost, after + fixed);
      SIM_CHECK(std::abs(it.cost_change - (before - after)) <= 1e-9 * (1 + before + after), "cost-change", "iteration %d reports a cost change of %.12g, it is %.12g", i, it.cost_change, before - after);
      const double sn = norm_of(y, &x);
      SIM_CHECK(std::abs(it.step_norm - sn) <= 1e-9 * sn + 1e-15 * norm_of(x, nullptr), "step-norm", "iteration %d reports a step of norm %.12g, it is %.12g", i, it.step_norm, sn);
      if (moved) SIM_CHECK(sn > o.parameter_tolerance * (norm_of(x, nullptr) + o.parameter_tolerance) * (1 - 1e-9), "no-stop", "the solve went on after iteration %d, whose step of norm %g meets the parameter tolerance %g", i, sn, o.parameter_tolerance);
      SIM_CHECK(std::abs(it.cost_change) > o.function_tolerance * before * (1 - 1e-6) - 1e-15 * before, "no-stop", "the solve went on after iteration %d, whose cost change %g meets the function tolerance %g", i, it.cost_change, o.function_tolerance);
    }
    // Verdict.
    SIM_CHECK(it.step_is_successful == (it.relative_decrease > o.min_relative_decrease), "verdict", "iteration %d has relative decrease %.12g, threshold %g, successful %d", i, it.relative_decrease, o.min_relative_decrease, it.step_is_successful);
    if (j.known && whole && model_known) {
      const double want = ev.Quality(after, j.model);
      const double tol = (j.tol + 1e-6) * (1 + std::abs(want)) + 1e-12 * (1 + before + after) / j.model;
      if (tol < 0.05 * (1 + std::abs(want))) {
        SIM_CHECK(std::abs(it.relative_decrease - want) <= tol, "quality", "iteration %d reports relative decrease %.12g, cost %.12g -> %.12g with model decrease %.12g makes %.12g [%s]", i, it.relative_decrease, before, after, j.model, want, cfg.text.c_str());
        sim::Probe("steps.quality");
      }
    }
    // Radius.
    double next = radius;
    bool next_known = true;
    if (dogleg) {
      if (!it.step_is_successful) {
        next = radius * 0.5;
      } else {
        if (it.relative_decrease < 0.25) next = radius * 0.5;
        if (it.relative_decrease > 0.75) {
          next_known = j.known && !iterative && mu_known && j.p.cond < (schur ? 1e6 : 1e9);
          next = std::max(next, 3 * j.p.norm);
        }
        mu = std::max(1e-8, 0.2 * mu);
      }
      if (next_known) SIM_CHECK(std::abs(it.trust_region_radius - next) <= (j.tol + 1e-6) * next, "radius", "dogleg iteration %d (relative decrease %.6g, step %.9g, successful %d): the radius went from %.12g to %.12g instead of %.12g [%s]", i, it.relative_decrease, j.p.norm, it.step_is_successful, radius, it.trust_region_radius, next, cfg.text.c_str());
    } else if (it.step_is_successful) {
      const double z = 2 * it.relative_decrease - 1;
      next = std::min(o.max_trust_region_radius, radius / std::max(1.0 / 3, 1 - z * z * z));
      decrease = 2;
      SIM_CHECK(Close(it.trust_region_radius / next, 1, 1e-9), "radius", "iteration %d was accepted with relative decrease %.9g: the radius went from %.12g to %.12g instead of %.12g [%s]", i, it.relative_decrease, radius, it.trust_region_radius, next, cfg.text.c_str());
    } else {
      next = radius / decrease;
      decrease *= 2;
      SIM_CHECK(Close(it.trust_region_radius / next, 1, 1e-12), "radius", "iteration %d was rejected: the radius went from %.12g to %.12g instead of %.12g [%s]", i, radius, it.trust_region_radius, next, cfg.text.c_str());
    }
    radius = it.trust_region_radius;
    // Move.
    if (it.step_is_successful) {
      SIM_CHECK(st.jac.evals > 0, "no-derivatives", "iteration %d was accepted without evaluating derivatives", i);
      for (size_t b = 0; b < np; ++b)
        if (st.jac.known[b]) SIM_CHECK(SameBits(st.jac.at[b].data(), y[b].data(), w.m.pbs[b].size), "moved-elsewhere", "iteration %d was accepted, but the derivatives of parameter block %zu are computed elsewhere", i, b);
      x = y;
      moved = true;
      // Rounding decides whether this is an improvement.
      tie = tie || before - after < 1e-11 * (before + fixed);
      if (j.known) ev.Accept(after, j.model);
      else {
        // Without the model decreases the history is unknown; monotonic solves have none.
        ev = RefEvaluator(after, ev.limit);
        model_known = !o.use_nonmonotonic_steps;
      }
      e = w.m.Reference(x, w.m.AllRb(), w.m.AllPb(), true, true);
      linearize(false);
      double gm, g2;
      gradient_norms(&gm, &g2);
      SIM_CHECK(Close(it.gradient_max_norm, gm, 1e-8) && Close(it.gradient_norm, g2, 1e-8), "gradient-norm", "iteration %d reports gradient norms %.12g and %.12g, they are %.12g and %.12g", i, it.gradient_max_norm, it.gradient_norm, gm, g2);
      if (std::abs(e.cost - best) > 1e-12 * best) SIM_CHECK(it.step_is_nonmonotonic == (e.cost >= best), "nonmonotonic", "iteration %d has cost %.12g, the best so far was %.12g, step_is_nonmonotonic %d", i, e.cost, best, it.step_is_nonmonotonic);
      best = std::min(best, e.cost);
    } else {
      SIM_CHECK(st.jac.evals == 0, "rejected-derivatives", "derivatives were evaluated in rejected iteration %d", i);
      SIM_CHECK(Bits(it.gradient_max_norm) == Bits(pr.gradient_max_norm) && Bits(it.gradient_norm) == Bits(pr.gradient_norm), "gradient-norm", "the gradient norms changed in rejected iteration %d", i);
    }
  }
  // Why it ended.
  const auto& last = its.back();
  const std::string& why = r.s.message;
  auto says = [&](const char* s) { return why.find(s) != std::string::npos; };
  if (r.s.termination_type == ceres::CONVERGENCE) {
    if (says("Gradient tolerance")) {
      SIM_CHECK(last.step_is_successful && last.gradient_max_norm <= o.gradient_tolerance, "false-convergence", "%s", why.c_str());
    } else if (says("Minimum trust region radius")) {
      SIM_CHECK(last.trust_region_radius <= o.min_trust_region_radius, "false-convergence", "%s", why.c_str());
      sim::Probe("steps.min_radius");
    } else {
      const bool whole = whole_point(tr.trial);
      judge(tr.trial, whole, n);
      const double before = e.cost - fixed;
      if (says("Function tolerance")) {
        SIM_CHECK(whole, "false-convergence", "converged by the function tolerance without evaluating a candidate");
        const double after = w.m.Cost(fill(tr.trial)) - fixed;
        SIM_CHECK(std::abs(before - after) <= o.function_tolerance * before * (1 + 1e-6) + 1e-14 * (before + fixed), "false-convergence", "converged by the function tolerance %g with a change from %.17g to %.17g", o.function_tolerance, before, after);
        sim::Probe("steps.function");
      } else if (says("Parameter tolerance")) {
        SIM_CHECK(moved, "false-convergence", "converged by the parameter tolerance before any step succeeded");
        if (whole) {
          const State y = fill(tr.trial);
          SIM_CHECK(norm_of(y, &x) <= o.parameter_tolerance * (norm_of(x, nullptr) + o.parameter_tolerance) * (1 + 1e-9), "false-convergence", "converged by the parameter tolerance %g with a step of %g at a point of norm %g", o.parameter_tolerance, norm_of(y, &x), norm_of(x, nullptr));
        }
        sim::Probe("steps.parameter");
      } else {
        SIM_CHECK(false, "false-convergence", "converged for an unknown reason: %s", why.c_str());
      }
    }
  } else if (r.s.termination_type == ceres::FAILURE && says("invalid steps")) {
    int c = 1;  // the last one is not recorded
    for (int i = n - 1; i >= 0 && !its[i].step_is_valid; --i) ++c;
    SIM_CHECK(c == std::max(1, o.max_num_consecutive_invalid_steps), "invalid-steps", "the solve failed after %d invalid steps, the limit is %d", c, o.max_num_consecutive_invalid_steps);
  } else {
    SIM_CHECK(tr.trial.evals == 0, "evaluation-after-stop", "a candidate was evaluated after the last iteration");
  }
  {
    // What the summary counts.
    int trials = tr.trial.evals > 0, jacs = 0, solves = n - 1;
    for (int i = 0; i < n; ++i) trials += i > 0 && tr.steps[i].trial.evals > 0, jacs += tr.steps[i].jac.evals > 0;  // the fixed cost is not counted
    if (says("Function tolerance") || says("Parameter tolerance") || says("invalid steps")) ++solves;  // the last one is not recorded
    SIM_CHECK(r.s.num_residual_evaluations == trials && r.s.num_jacobian_evaluations == jacs, "summary-counts", "%d residual and %d Jacobian evaluations are reported, %d and %d were made", r.s.num_residual_evaluations, r.s.num_jacobian_evaluations, trials, jacs);
    if (!dogleg) SIM_CHECK(r.s.num_linear_solves == solves, "summary-counts", "%d linear solves are reported for %d steps", r.s.num_linear_solves, solves);
  }
  if (Usable(r.s)) {
    // The user gets the best point.
    SIM_CHECK(Close(r.s.final_cost, best, 1e-10), "final-cost", "final_cost is %.17g, the best point costs %.17g", r.s.final_cost, best);
    if (!o.use_nonmonotonic_steps && !tie)
      for (size_t b = 0; b < np; ++b) SIM_CHECK(SameBits(r.end[b].data(), x[b].data(), w.m.pbs[b].size), "not-the-last-point", "parameter block %zu is not at the last accepted point", b);
  }
  if (compared > 1 || trial_failures > 0) sim::NonTrivial();
  sim::Probe(dogleg ? "steps.dogleg" : iterative ? "steps.inexact" : "steps.lm");
  if (compared > 0) sim::Probe("steps.compared");
}

// With bounds or inner iterations the candidate is not the strategy's step:
// verdicts, radii, gradients and reasons are checked at the accepted points.
SIM_WORKLOAD(C20, projected, 4) {
  ModelOptions mo = sim::Chance(50) ? AnyModel() : EasyModel();
  mo.bounds = sim::Chance(70);
  World w(mo, sim::Chance(10));
  Flavor f;
  f.inner = w.ecb == nullptr;
  f.line_search = false;
  f.max_iterations = 14;
  SolveCfg cfg = DrawSolve(w.m, f);
  auto& o = cfg.o;
  if (f.inner && sim::Chance(40)) o.use_inner_iterations = true;
  const bool dogleg = o.trust_region_strategy_type == ceres::DOGLEG;
  const size_t np = w.m.pbs.size();
  State at(np);
  w.mon.fail = [&](const SimCost& c, const double* const* p, bool want_jac) {
    if (!w.mon.solving || !want_jac) return false;
    const RBlock& rb = w.m.rbs[c.id];
    for (size_t b = 0; b < rb.pb.size(); ++b) at[rb.pb[b]].assign(p[b], p[b] + w.m.pbs[rb.pb[b]].size);
    return false;
  };
  if (sim::Chance(50)) sim::ArmFault("cost.trial", (sim::Chance(50) ? 0.15 : 0.5) / (1 + w.m.rbs.size() / 2.0));
  if (sim::Chance(20)) sim::ArmFault("manifold.trial", 0.1);
  std::vector<State> points;
  CbPlan plan;
  plan.extra = [&](int cb, const ceres::IterationSummary&) {
    if (cb == 0) points.push_back(at);
  };
  const Solved r = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  sim::Quiet q;
  w.mon.fail = nullptr;
  const auto& its = r.s.iterations;
  const int n = static_cast<int>(its.size());
  if (n == 0) return;
  double radius = o.initial_trust_region_radius, decrease = 2, best = its[0].cost;
  auto whole = [&](const State& s) {
    State y = r.start;
    for (size_t b = 0; b < np; ++b)
      if (!s[b].empty()) y[b] = s[b];
    return y;
  };
  for (int i = 0; i < n; ++i) {
    const auto& it = its[i];
    if (it.step_is_successful && !o.use_inner_iterations) {
      // With inner iterations derivatives are also computed elsewhere.
      const State x = whole(points[i]);
      const double c = w.m.Cost(x), g = ProjectedGradientNorm(w.m, x);
      SIM_CHECK(Close(it.cost, c, 1e-9), "trial-cost", "iteration %d reports cost %.17g, its point costs %.17g [%s]", i, it.cost, c, cfg.text.c_str());
      SIM_CHECK(Close(it.gradient_max_norm, g, 1e-8), "gradient-norm", "iteration %d reports a projected gradient of norm %.12g, it is %.12g [%s]", i, it.gradient_max_norm, g, cfg.text.c_str());
      SIM_CHECK(it.gradient_norm >= it.gradient_max_norm * (1 - 1e-12) && it.gradient_norm <= 100 * it.gradient_max_norm, "gradient-norm", "iteration %d reports gradient norms %g and %g", i, it.gradient_max_norm, it.gradient_norm);
    }
    if (i == 0) {
      SIM_CHECK(it.trust_region_radius == radius, "radius", "the initial radius is %g instead of %g", it.trust_region_radius, radius);
      continue;
    }
    const auto& pr = its[i - 1];
    SIM_CHECK(pr.trust_region_radius > o.min_trust_region_radius, "no-stop", "iteration %d was made although the radius had reached %g", i, pr.trust_region_radius);
    if (pr.step_is_successful) SIM_CHECK(pr.gradient_max_norm > o.gradient_tolerance, "no-stop", "iteration %d was made although the gradient norm had reached %g", i, pr.gradient_max_norm);
    if (!it.step_is_valid) {
      if (!dogleg) {
        radius /= decrease;
        decrease *= 2;
      }
      SIM_CHECK(Close(it.trust_region_radius / radius, 1, 1e-9), "radius", "iteration %d is invalid: the radius is %.12g instead of %.12g [%s]", i, it.trust_region_radius, radius, cfg.text.c_str());
      continue;
    }
    const bool accept = it.relative_decrease > o.min_relative_decrease;
    if (accept || !o.use_inner_iterations) SIM_CHECK(it.step_is_successful == accept, "verdict", "iteration %d has relative decrease %.12g, threshold %g, successful %d [%s]", i, it.relative_decrease, o.min_relative_decrease, it.step_is_successful, cfg.text.c_str());
    double next = radius;
    bool known = true;
    if (dogleg) {
      if (!it.step_is_successful || it.relative_decrease < 0.25) next = radius * 0.5;
      if (it.step_is_successful && it.relative_decrease > 0.75) {
        known = false;
        SIM_CHECK(it.trust_region_radius >= radius && it.trust_region_radius <= 3 * radius * (1 + 1e-6), "radius", "dogleg iteration %d has relative decrease %g: the radius went from %g to %g [%s]", i, it.relative_decrease, radius, it.trust_region_radius, cfg.text.c_str());
      }
    } else if (it.step_is_successful) {
      const double z = 2 * it.relative_decrease - 1;
      next = std::min(o.max_trust_region_radius, radius / std::max(1.0 / 3, 1 - z * z * z));
      decrease = 2;
    } else {
      next = radius / decrease;
      decrease *= 2;
    }
    if (known) SIM_CHECK(Close(it.trust_region_radius / next, 1, 1e-9), "radius", "iteration %d (relative decrease %.9g, successful %d): the radius went from %.12g to %.12g instead of %.12g [%s]", i, it.relative_decrease, it.step_is_successful, radius, it.trust_region_radius, next, cfg.text.c_str());
    radius = it.trust_region_radius;
    if (it.step_is_successful) {
      if (std::abs(it.cost - best) > 1e-12 * best) SIM_CHECK(it.step_is_nonmonotonic == (it.cost >= best), "nonmonotonic", "iteration %d has cost %.12g, the best so far was %.12g, step_is_nonmonotonic %d", i, it.cost, best, it.step_is_nonmonotonic);
      best = std::min(best, it.cost);
    }
  }
  const auto& last = its.back();
  if (r.s.termination_type == ceres::CONVERGENCE) {
    const std::string& why = r.s.message;
    if (why.find("Gradient tolerance") != std::string::npos) SIM_CHECK(last.step_is_successful && last.gradient_max_norm <= o.gradient_tolerance, "false-convergence", "%s", why.c_str());
    else if (why.find("Minimum trust region radius") != std::string::npos) SIM_CHECK(last.trust_region_radius <= o.min_trust_region_radius, "false-convergence", "%s", why.c_str());
    else SIM_CHECK(why.find("Function tolerance") != std::string::npos || why.find("Parameter tolerance") != std::string::npos, "false-convergence", "converged for an unknown reason: %s", why.c_str());
  }
  if (Usable(r.s) && best < its[0].cost) sim::NonTrivial();
  sim::Probe(o.use_inner_iterations ? "projected.inner" : w.m.has_bounds ? "projected.bounds" : "projected.plain");
}

namespace {

// Search directions, from the books.
struct Directions {
  const ceres::Solver::Options* o = nullptr;
  Vec d, g;
  double gg = 0;
  bool first = true, initialized = false;
  std::vector<std::pair<Vec, Vec>> pairs;  // L-BFGS
  Mat H;                                   // BFGS
  int restarts = 0;
  std::string course;                      // the decisions that were made
  enum Result { kOk, kFresh, kFailed };

  Result Next(const Vec& g1, double gg1, double t) {
    Result r = kOk;
    if (first) {
      d = -g1;
      r = kFresh;
      first = false;
    } else if (!Update(g1, gg1, t)) {
      if (restarts >= o->max_num_line_search_direction_restarts) {
        course += 'F';
        return kFailed;
      }
      ++restarts;
      pairs.clear();
      initialized = false;
      H.resize(0, 0);
      d = -g1;
      r = kFresh;
      course += 'R';
    }
    g = g1;
    gg = gg1;
    return r;
  }

 private:
  bool Update(const Vec& g1, double gg1, double t) {
    const Vec s = t * d, y = g1 - g;
    switch (o->line_search_direction_type) {
      case ceres::STEEPEST_DESCENT:
        d = -g1;
        return true;
      case ceres::NONLINEAR_CONJUGATE_GRADIENT: {
        double beta = 0;
        if (o->nonlinear_conjugate_gradient_type == ceres::FLETCHER_REEVES) beta = gg1 / gg;
        else if (o->nonlinear_conjugate_gradient_type == ceres::POLAK_RIBIERE) beta = g1.dot(y) / gg;
        else beta = g1.dot(y) / d.dot(y);
        d = beta * d - g1;
        if (g1.dot(d) > -1e-12) {
          d = -g1;
          course += 'r';
        }
        return true;
      }
      case ceres::LBFGS: {
        if (s.dot(y) > 1e-14) {
          pairs.emplace_back(s, y);
          if (static_cast<int>(pairs.size()) > o->max_lbfgs_rank) pairs.erase(pairs.begin());
        } else {
          course += 's';
        }
        // The inverse Hessian approximation as a matrix: no two-loop recursion.
        Mat B = Mat::Identity(g1.size(), g1.size());
        if (o->use_approximate_eigenvalue_bfgs_scaling && !pairs.empty()) B *= pairs.back().first.dot(pairs.back().second) / pairs.back().second.squaredNorm();
        for (auto& p : pairs) Bfgs(&B, p.first, p.second);
        d = -(B * g1);
        break;
      }
      case ceres::BFGS: {
        if (H.size() == 0) H = Mat::Identity(g1.size(), g1.size());
        if (s.dot(y) > 1e-14) {
          if (!initialized && o->use_approximate_eigenvalue_bfgs_scaling) H *= s.dot(y) / y.squaredNorm();
          initialized = true;
          Bfgs(&H, s, y);
        } else {
          course += 's';
        }
        d = -(H * g1);
        break;
      }
    }
    return d.dot(g1) < 0;
  }
  static void Bfgs(Mat* H, const Vec& s, const Vec& y) {
    const double rho = 1 / s.dot(y);
    const Mat V = Mat::Identity(s.size(), s.size()) - rho * y * s.transpose();
    *H = (V.transpose() * *H * V + rho * s * s.transpose()).eval();
  }
};

}  // namespace

SIM_WORKLOAD(C20, line_search, 6) {
  ModelOptions mo = sim::Chance(50) ? AnyModel() : EasyModel();
  mo.bounds = false;
  World w(mo, sim::Chance(10));
  Flavor f;
  f.trust_region = false;
  f.max_iterations = 14;
  SolveCfg cfg = DrawSolve(w.m, f);
  auto& o = cfg.o;
  o.update_state_every_iteration = true;
  if (sim::Chance(25)) o.line_search_sufficient_function_decrease = sim::Chance(50) ? 0.1 : 1e-6;
  if (sim::Chance(25)) o.line_search_sufficient_curvature_decrease = sim::Chance(50) ? 0.3 : 0.99;
  if (sim::Chance(25)) o.max_line_search_step_contraction = 0.1;
  if (sim::Chance(25)) o.min_line_search_step_contraction = 0.9;
  if (sim::Chance(25)) o.max_line_search_step_expansion = 2;
  if (sim::Chance(15)) o.max_num_line_search_direction_restarts = static_cast<int>(sim::Draw(3));
  const bool wolfe = o.line_search_type == ceres::WOLFE;
  const size_t np = w.m.pbs.size();
  // Cost functions which are not defined everywhere.
  const double rate = sim::Chance(50) ? (sim::Chance(50) ? 0.15 : 0.4) / (1 + w.m.rbs.size() / 2.0) : 0;
  const uint64_t salt = sim::Draw(1u << 30);
  bool moving = false;
  long evals0 = 0, fails = 0;
  int watched = -1;
  std::vector<char> used(np, 0);
  for (auto& rb : w.m.rbs)
    for (int i : rb.pb) {
      used[i] = 1;
      if (!w.m.pbs[i].constant && w.m.pbs[i].tangent > 0) watched = static_cast<int>(&rb - w.m.rbs.data());
    }
  w.mon.fail = [&](const SimCost& c, const double* const* p, bool want_jac) {
    if (!w.mon.solving) return false;
    if (c.id == watched) ++evals0;
    if (!moving) return false;
    const RBlock& rb = w.m.rbs[c.id];
    bool start = true;
    uint64_t h = HashMix(salt, c.id);
    for (size_t b = 0; b < rb.pb.size(); ++b)
      for (int k = 0; k < w.m.pbs[rb.pb[b]].size; ++k) {
        h = HashMix(h, Bits(p[b][k]));
        start = start && Bits(p[b][k]) == Bits(w.mon.start[rb.pb[b]][k]);
      }
    if (start || (h >> 11) * 0x1p-53 >= rate) return false;
    ++fails;
    return true;
  };
  struct At {
    State x;
    long evals, fails;
  };
  std::vector<At> at;
  CbPlan plan;
  plan.extra = [&](int cb, const ceres::IterationSummary&) {
    if (cb != 0) return;
    at.push_back({w.m.UserState(), evals0, fails});
    moving = rate > 0;
  };
  Solved r;
  try {
    r = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  } catch (const std::system_error&) {
    sim::Probe("steps.no_thread");
    return;
  }
  sim::Quiet q;
  w.mon.fail = nullptr;
  const auto& its = r.s.iterations;
  const int n = static_cast<int>(its.size());
  if (n == 0) return;
  const bool converged = r.s.termination_type == ceres::CONVERGENCE;
  const int points = static_cast<int>(at.size());
  SIM_CHECK(points == n || (converged && points == n - 1), "callback-missing", "%d callbacks for %d iterations", points, n);
  if (points == n - 1) at.push_back({r.end, evals0, fails});
  SIM_CHECK(r.s.num_line_search_steps == [&] { int k = 0; for (auto& it : its) k += it.line_search_iterations; return k; }(), "summary-counts", "num_line_search_steps is %d", r.s.num_line_search_steps);

  State x = at[0].x;
  RefEval e = w.m.Reference(x, w.m.AllRb(), w.m.AllPb(), true, true);
  std::vector<int> col(np), cols;
  for (size_t i = 0; i < np; ++i) {
    col[i] = used[i] ? e.pb_col[i] : -1;
    for (int k = 0; col[i] >= 0 && k < w.m.pbs[i].tangent; ++k) cols.push_back(col[i] + k);
  }
  const int nc = static_cast<int>(cols.size());
  if (nc == 0) return;
  auto norm_of = [&](const State& a, const State* b) {
    double s = 0;
    for (size_t i = 0; i < np; ++i)
      for (int k = 0; col[i] >= 0 && k < w.m.pbs[i].size; ++k) {
        const double d = a[i][k] - (b ? (*b)[i][k] : 0);
        s += d * d;
      }
    return std::sqrt(s);
  };
  auto expand = [&](const Vec& y) {
    Vec d = Vec::Zero(e.jacobian.cols());
    for (int c = 0; c < nc; ++c) d[cols[c]] = y[c];
    return d;
  };
  auto gradient_norms = [&](double* max, double* two) {
    Vec d = Vec::Zero(e.jacobian.cols());
    for (int c = 0; c < nc; ++c) d[cols[c]] = -e.gradient[cols[c]];
    const State y = PlusAll(w.m, x, d, col);
    *two = norm_of(x, &y);
    *max = 0;
    for (size_t i = 0; i < np; ++i)
      for (int k = 0; col[i] >= 0 && k < w.m.pbs[i].size; ++k) *max = std::max(*max, std::abs(x[i][k] - y[i][k]));
  };
  // The reference, and the same with gradients perturbed more than rounding
  // does: what they disagree about is not determined.
  constexpr int kReplicas = 4;
  Directions dirs[kReplicas];
  for (auto& d : dirs) d.o = &o;
  uint64_t lcg = 12345;
  auto noise = [&] {
    lcg = lcg * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<double>(lcg >> 11) * 0x1p-52 - 1;
  };
  auto gradient_of = [&](int rep) {
    Vec g(nc);
    for (int c = 0; c < nc; ++c) {
      g[c] = e.gradient[cols[c]];
      if (rep > 0) g[c] += 1e-13 * noise() * e.jacobian.col(cols[c]).cwiseAbs().dot(e.residuals.cwiseAbs());
    }
    return g;
  };
  const double fixed = r.s.fixed_cost;
  bool known = true, flat = true;
  for (size_t i = 0; i < np; ++i) flat = flat && (col[i] < 0 || !w.m.pbs[i].ref || w.m.pbs[i].kind == kNone || w.m.pbs[i].kind == kSubset || w.m.pbs[i].kind == kLinear);
  int compared = 0;
  double t_prev = 0;
  for (int k = 0; k < n; ++k) {
    const auto& it = its[k];
    x = at[k].x;
    e = w.m.Reference(x, w.m.AllRb(), w.m.AllPb(), true, true);
    double gm, g2;
    gradient_norms(&gm, &g2);
    SIM_CHECK(Close(it.gradient_max_norm, gm, 1e-8) && Close(it.gradient_norm, g2, 1e-8), "gradient-norm", "iteration %d reports gradient norms %.12g and %.12g, they are %.12g and %.12g [%s]", k, it.gradient_max_norm, it.gradient_norm, gm, g2, cfg.text.c_str());
    SIM_CHECK(Close(it.cost, e.cost, 1e-9), "trial-cost", "iteration %d reports cost %.17g, its point costs %.17g", k, it.cost, e.cost);
    if (k > 0) {
      const State& p = at[k - 1].x;
      const double sn = norm_of(x, &p), before = its[k - 1].cost - fixed;
      SIM_CHECK(it.step_is_valid && it.step_is_successful, "verdict", "iteration %d of a line search solve is not successful", k);
      SIM_CHECK(std::abs(it.step_norm - sn) <= 1e-9 * sn + 1e-15 * norm_of(x, nullptr), "step-norm", "iteration %d reports a step of norm %.12g, it is %.12g", k, it.step_norm, sn);
      // Nothing that would have ended the solve.
      const double pn = norm_of(p, nullptr);
      const bool param = it.step_norm <= o.parameter_tolerance * (pn + o.parameter_tolerance), grad = it.gradient_max_norm <= o.gradient_tolerance, func = std::abs(it.cost_change) <= o.function_tolerance * std::abs(before);
      const bool close = std::abs(it.step_norm - o.parameter_tolerance * (pn + o.parameter_tolerance)) <= 1e-9 * it.step_norm || std::abs(std::abs(it.cost_change) - o.function_tolerance * std::abs(before)) <= 1e-15 * (std::abs(before) + fixed);
      if (k < n - 1 || !converged) {
        SIM_CHECK(close || (!param && !grad && !func), "no-stop", "the solve went on after iteration %d: step %g, gradient %g, cost change %g from %g meet the tolerances %g %g %g", k, it.step_norm, it.gradient_max_norm, it.cost_change, before, o.parameter_tolerance, o.gradient_tolerance, o.function_tolerance);
      } else {
        auto says = [&](const char* s) { return r.s.message.find(s) != std::string::npos; };
        SIM_CHECK(close || (says("Parameter tolerance") ? param : says("Gradient tolerance") ? grad : says("Function tolerance") && func), "false-convergence", "%s (step %g, gradient %g, cost change %g from %g)", r.s.message.c_str(), it.step_norm, it.gradient_max_norm, it.cost_change, before);
      }
      SIM_CHECK(it.line_search_gradient_evaluations == (wolfe || o.line_search_interpolation_type == ceres::CUBIC ? it.line_search_function_evaluations : 0), "summary-counts", "iteration %d reports %d function and %d gradient evaluations", k, it.line_search_function_evaluations, it.line_search_gradient_evaluations);
      if (!wolfe) SIM_CHECK(it.line_search_function_evaluations == it.line_search_iterations + 1, "summary-counts", "iteration %d reports %d function evaluations in %d Armijo iterations", k, it.line_search_function_evaluations, it.line_search_iterations);
      if (watched >= 0 && at[k].fails == at[k - 1].fails) {
        const long made = at[k].evals - at[k - 1].evals;
        const bool again = !wolfe && o.line_search_interpolation_type != ceres::CUBIC;
        SIM_CHECK(made == it.line_search_function_evaluations + again || (wolfe && it.step_size == 0 && made == it.line_search_function_evaluations + 1), "summary-counts", "iteration %d reports %d function evaluations, %ld were made (%d for the gradient)", k, it.line_search_function_evaluations, made, again);
      }
    }
    if (k == n - 1) break;
    // The next iteration from here.
    const auto& ni = its[k + 1];
    const State& y = at[k + 1].x;
    const double t = ni.step_size;
    Directions::Result res = Directions::kOk;
    for (int j = 0; j < kReplicas; ++j) {
      const Vec g = gradient_of(j);
      const Directions::Result rj = dirs[j].Next(g, it.gradient_norm * it.gradient_norm, t_prev);
      if (j == 0) res = rj;
      known = known && rj == res && dirs[j].course == dirs[0].course && rj != Directions::kFailed;
    }
    t_prev = t;
    if (!known) continue;
    const Vec& d = dirs[0].d;
    const Vec g = gradient_of(0);
    double spread = 0, dd_spread = 0;
    const double dd = g.dot(d);
    for (int j = 1; j < kReplicas; ++j) {
      spread = std::max(spread, (dirs[j].d - d).norm());
      dd_spread = std::max(dd_spread, std::abs(g.dot(dirs[j].d) - dd));
    }
    if (!(10 * spread < 1e-3 * d.norm() && 10 * dd_spread < 1e-3 * std::abs(dd))) {
      sim::Probe("steps.ls_noise");
      continue;
    }
    const double dtol = 10 * dd_spread / std::abs(dd) + 1e-9;
    const State z = PlusAll(w.m, x, expand(t * d), col);
    const double len = t * d.norm(), bound = 100 * t * spread + 1e-8 * len + 1e-13 * (1 + norm_of(x, nullptr));
    for (size_t b = 0; b < np; ++b)
      for (int c = 0; col[b] >= 0 && c < w.m.pbs[b].size; ++c)
        SIM_CHECK(std::abs(z[b][c] - y[b][c]) <= bound, "direction", "iteration %d: a step of size %.12g takes parameter block %zu [%d] to %.17g, the search direction leads to %.17g (step norm %.3g, decisions %s) [%s]", k + 1, t, b, c, y[b][c], z[b][c], len, dirs[0].course.c_str(), cfg.text.c_str());
    ++compared;
    // Step size.
    double t0, t0tol;
    if (res == Directions::kFresh) {
      t0 = std::min(1.0, 1.0 / it.gradient_max_norm);
      t0tol = 1e-9;
    } else {
      t0 = std::min(1.0, -2 * it.cost_change / dd);
      t0tol = t0 == 1 && -2 * it.cost_change / dd > 1 + dtol ? 1e-12 : dtol;
    }
    const double after = ni.cost - fixed, before = it.cost - fixed;
    const double cnoise = 1e-13 * (e.cost + 1e-300);
    const double c1 = o.line_search_sufficient_function_decrease, c2 = o.line_search_sufficient_curvature_decrease;
    const int li = ni.line_search_iterations;
    const bool nofail = at[k + 1].fails == at[k].fails;
    SIM_CHECK(after <= before + c1 * t * dd * (1 - dtol) + cnoise, "armijo", "iteration %d: a step of size %.9g takes the cost from %.17g to %.17g, sufficient decrease asks for %.3g [%s]", k + 1, t, before, after, -c1 * t * dd, cfg.text.c_str());
    // The first trial.
    const State z0 = PlusAll(w.m, x, expand(t0 * d), col);
    const RefEval e0 = w.m.Reference(z0, w.m.AllRb(), w.m.AllPb(), true, true);
    Vec g0(nc);
    for (int c = 0; c < nc; ++c) g0[c] = e0.gradient[cols[c]];
    const double f0 = e0.cost - e.cost, s0 = g0.dot(d);
    const double slack = f0 - c1 * t0 * dd;  // negative: enough
    const double uncertain = 10 * cnoise + 1e-6 * std::abs(f0) + 1e-6 * std::abs(t0 * dd) + std::abs(t0 * s0) * t0tol;
    const bool same = std::abs(t - t0) <= 2 * t0tol * t0;
    if (!wolfe) {
      SIM_CHECK(li < o.max_num_line_search_step_size_iterations, "line-search-limit", "iteration %d made %d line search iterations, the limit is %d", k + 1, li, o.max_num_line_search_step_size_iterations);
      const double lo = std::pow(o.max_line_search_step_contraction, li) * t0, hi = std::pow(o.min_line_search_step_contraction, li) * t0;
      SIM_CHECK(t >= lo * (1 - 2 * t0tol) && t <= hi * (1 + 2 * t0tol), "contraction", "iteration %d: the step size is %.12g after %d contractions from %.12g, contractions are between %g and %g [%s]", k + 1, t, li, t0, o.max_line_search_step_contraction, o.min_line_search_step_contraction, cfg.text.c_str());
      if (o.line_search_interpolation_type == ceres::BISECTION) SIM_CHECK(Close(t, t0 * std::pow(0.5, li), 2 * t0tol), "contraction", "iteration %d: the step size is %.12g after %d bisections of %.12g", k + 1, t, li, t0);
      if (nofail && slack < -uncertain) SIM_CHECK(li == 0, "needless-contraction", "iteration %d: the initial step size %.9g decreases the cost by %.9g, %.9g is sufficient, but %.9g was taken [%s]", k + 1, t0, -f0, -c1 * t0 * dd, t, cfg.text.c_str());
      if (slack > uncertain) SIM_CHECK(li > 0, "armijo", "iteration %d: the initial step size %.9g was taken", k + 1, t0);
      if (nofail && li == 1 && o.line_search_interpolation_type != ceres::BISECTION && slack > uncertain) {
        // One interpolation: its minimizer.
        const double a = o.max_line_search_step_contraction * t0, b = o.min_line_search_step_contraction * t0;
        auto poly = [&](double s) {
          const double u = s / t0;
          if (o.line_search_interpolation_type == ceres::QUADRATIC) return dd * s + (f0 - dd * t0) * u * u;
          return dd * t0 * u * (1 - u) * (1 - u) + f0 * u * u * (3 - 2 * u) + s0 * t0 * u * u * (u - 1);
        };
        double best = std::min(poly(a), poly(b));
        for (int i = 1; i < 64; ++i) best = std::min(best, poly(a + (b - a) * i / 64));
        const double scale = std::abs(f0) + std::abs(dd * t0) + std::abs(s0 * t0);
        SIM_CHECK(poly(t) <= best + 1e-6 * scale + 10 * cnoise, "interpolation", "iteration %d: the interpolating polynomial is %.9g at the step size %.9g and %.9g at its minimum (%g..%g) [%s]", k + 1, poly(t), t, best, a, b, cfg.text.c_str());
        sim::Probe("steps.ls_interpolated");
      }
    } else {
      SIM_CHECK(li <= o.max_num_line_search_step_size_iterations, "line-search-limit", "iteration %d made %d line search iterations, the limit is %d", k + 1, li, o.max_num_line_search_step_size_iterations);
      SIM_CHECK(t >= 0 && t <= t0 * (1 + 2 * t0tol) * std::pow(o.max_line_search_step_expansion, li - 1), "expansion", "iteration %d: the step size is %.12g after %d iterations from %.12g, the largest expansion is %g [%s]", k + 1, t, li, t0, o.max_line_search_step_expansion, cfg.text.c_str());
      if (li <= 1) SIM_CHECK(t == 0 || same, "expansion", "iteration %d: the only step size tried is %.12g instead of %.12g [%s]", k + 1, t, t0, cfg.text.c_str());
      const RefEval e1 = w.m.Reference(y, w.m.AllRb(), w.m.AllPb(), true, true);
      Vec g1(nc);
      for (int c = 0; c < nc; ++c) g1[c] = e1.gradient[cols[c]];
      const double s1 = std::abs(g1.dot(d));
      const double curve = 1e-6 * std::abs(dd) + 1e-12 * g1.norm() * d.norm() + 10 * dd_spread;
      // On a curved manifold the slopes along the path are not those of the cost.
      // The quadratic ignores the slope at one end, and may be smallest there:
      // that ends the search.
      if (flat && o.line_search_interpolation_type != ceres::QUADRATIC && t > 0 && li < o.max_num_line_search_step_size_iterations && t * d.lpNorm<Eigen::Infinity>() > (nofail ? 1e-6 : 1e-3) && std::abs(t * dd) > 1e-8 * (e.cost + 1e-300))
        SIM_CHECK(s1 <= -c2 * dd + curve, "curvature", "iteration %d: the slope is %.9g at the step size %.9g and %.9g at zero, curvature %g was asked for and %d line search iterations were made [%s]", k + 1, s1, t, dd, c2, li, cfg.text.c_str());
      if (nofail && slack < -uncertain && f0 < -uncertain && std::abs(s0) < -c2 * dd - curve - 1e-12 * g0.norm() * d.norm()) {
        SIM_CHECK(li == 1 && same, "needless-search", "iteration %d: the initial step size %.9g satisfies the Wolfe conditions, but %.9g was taken after %d iterations [%s]", k + 1, t0, t, li, cfg.text.c_str());
        sim::Probe("steps.wolfe_first");
      }
      if (nofail && slack > uncertain) SIM_CHECK(t == 0 || !same, "armijo", "iteration %d: the initial step size %.9g was taken, which does not decrease the cost enough", k + 1, t0);
    }
  }
  // Giving up.
  if (r.s.termination_type == ceres::FAILURE && points == n && at.back().fails == fails && known) {
    auto says = [&](const char* t) { return r.s.message.find(t) != std::string::npos; };
    SIM_CHECK(!says("initial_step_size is negative") && !says("is negative"), "false-failure", "%s", r.s.message.c_str());
    const Vec g = gradient_of(0);
    Directions::Result res = Directions::kOk;
    for (int j = 0; j < kReplicas; ++j) {
      const Directions::Result rj = dirs[j].Next(gradient_of(j), its.back().gradient_norm * its.back().gradient_norm, t_prev);
      if (j == 0) res = rj;
      known = known && rj == res && dirs[j].course == dirs[0].course;
    }
    if (known) {
      SIM_CHECK(says("Line search direction failure") == (res == Directions::kFailed), "false-failure", "the solve ended after iteration %d with: %s (decisions %s) [%s]", n - 1, r.s.message.c_str(), dirs[0].course.c_str(), cfg.text.c_str());
      if (says("valid step size")) {
        const Vec& d = dirs[0].d;
        const double dd = g.dot(d);
        double spread = 0;
        for (int j = 1; j < kReplicas; ++j) spread = std::max(spread, (dirs[j].d - d).norm());
        const double t0 = res == Directions::kFresh ? std::min(1.0, 1.0 / its.back().gradient_max_norm) : std::min(1.0, -2 * its.back().cost_change / dd);
        const RefEval e0 = w.m.Reference(PlusAll(w.m, x, expand(t0 * d), col), w.m.AllRb(), w.m.AllPb(), true, true);
        Vec g0(nc);
        for (int c = 0; c < nc; ++c) g0[c] = e0.gradient[cols[c]];
        const double slack = e0.cost - e.cost - o.line_search_sufficient_function_decrease * t0 * dd;
        const bool good = slack < -1e-6 * (std::abs(t0 * dd) + e.cost) && (!wolfe || std::abs(g0.dot(d)) < -0.99 * o.line_search_sufficient_curvature_decrease * dd);
        if (10 * spread < 1e-3 * d.norm()) SIM_CHECK(!good, "false-failure", "the line search failed after iteration %d, although its first step size %g takes the cost from %.12g to %.12g: %s [%s]", n - 1, t0, e.cost, e0.cost, r.s.message.c_str(), cfg.text.c_str());
        sim::Probe("steps.ls_gave_up");
      }
    }
  }
  if (compared > 1) sim::NonTrivial();
  static const char* names[] = {"steps.ls_sd", "steps.ls_ncg", "steps.ls_lbfgs", "steps.ls_bfgs"};
  sim::Probe(names[o.line_search_direction_type]);
}

// Inner iterations: they start at the candidate, never make it worse, are
// credited to the model and stop once they do not pay.
SIM_WORKLOAD(C20, inner_iterations, 3) {
  ModelOptions mo = sim::Chance(50) ? AnyModel() : EasyModel();
  mo.bounds = false;
  World w(mo, false);
  Flavor f;
  f.mixed = false;
  f.line_search = false;
  f.iterative = false;
  f.max_iterations = 10;
  SolveCfg cfg = DrawSolve(w.m, f);
  cfg.o.use_inner_iterations = true;
  cfg.text += " inner";
  static const double tol[] = {1e-3, 0, 0.1, 0.5};
  cfg.o.inner_iteration_tolerance = tol[sim::Draw(4)];
  const auto& o = cfg.o;
  const size_t np = w.m.pbs.size(), nr = w.m.rbs.size();

  // Which blocks inner iterations may move: all, or those of an ordering.
  std::vector<char> movable(np, 1);
  bool ordering = false;
  if (sim::Chance(50)) {
    ordering = true;
    std::vector<int> group(np, -1);
    const int groups = sim::Range(1, 4);
    for (size_t i = 0; i < np; ++i) {
      int g = static_cast<int>(sim::Draw(groups + 2));
      // Blocks of one group share no residual block.
      for (auto& rb : w.m.rbs) {
        if (std::find(rb.pb.begin(), rb.pb.end(), static_cast<int>(i)) == rb.pb.end()) continue;
        for (int k : rb.pb)
          if (k != static_cast<int>(i) && group[k] == g) g = groups;
      }
      movable[i] = g < groups;
      if (movable[i]) group[i] = g;
    }
    cfg.tweak = [&w, group](ceres::Solver::Options* so) {
      so->inner_iteration_ordering = std::make_shared<ceres::ParameterBlockOrdering>();
      for (size_t i = 0; i < group.size(); ++i)
        if (group[i] >= 0) so->inner_iteration_ordering->AddElementToGroup(w.m.pbs[i].x, group[i]);
    };
    cfg.text += " ordered";
  }

  struct Calls {
    int trials = 0;
    State first, last, jac;  // per parameter of the residual block
  };
  struct Iter {
    std::vector<Calls> rb;
    bool failed = false;
    ceres::IterationSummary s;
  };
  Iter cur;
  cur.rb.resize(nr);
  std::vector<Iter> its;
  w.mon.fail = [&](const SimCost& c, const double* const* p, bool want_jac) {
    if (!w.mon.solving) return false;
    Calls& k = cur.rb[c.id];
    const RBlock& rb = w.m.rbs[c.id];
    State v;
    for (size_t b = 0; b < rb.pb.size(); ++b) v.emplace_back(p[b], p[b] + w.m.pbs[rb.pb[b]].size);
    if (want_jac) {
      k.jac = std::move(v);
    } else {
      if (k.trials++ == 0) k.first = v;
      k.last = std::move(v);
    }
    return false;
  };
  if (sim::Chance(40)) sim::ArmFault("cost.trial", (sim::Chance(50) ? 0.02 : 0.2) / (1 + nr / 2.0));
  if (sim::Chance(15)) sim::ArmFault("thread.create", 0.3);
  CbPlan plan;
  long failures = 0;
  plan.extra = [&](int cb, const ceres::IterationSummary& s) {
    if (cb != 0) return;
    cur.failed = w.mon.failed > failures;
    failures = w.mon.failed;
    cur.s = s;
    its.push_back(std::move(cur));
    cur = Iter();
    cur.rb.resize(nr);
  };
  Solved r;
  try {
    r = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  } catch (const std::system_error&) {
    sim::Probe("steps.no_thread");
    return;
  }
  sim::Quiet q;
  w.mon.fail = nullptr;
  const int n = static_cast<int>(its.size());
  if (n == 0) return;
  State x = r.start;
  RefEval e = w.m.Reference(x, w.m.AllRb(), w.m.AllPb(), true, true);
  std::vector<char> used(np, 0);
  for (auto& rb : w.m.rbs)
    for (int i : rb.pb) used[i] = 1;
  std::vector<int> col(np), cols;
  for (size_t i = 0; i < np; ++i) {
    col[i] = used[i] ? e.pb_col[i] : -1;
    for (int k = 0; col[i] >= 0 && k < w.m.pbs[i].tangent; ++k) cols.push_back(col[i] + k);
  }
  const int nc = static_cast<int>(cols.size());
  if (nc == 0) return;
  const double fixed = r.s.fixed_cost;
  const Vec S = Vec::Ones(nc);
  LinearModel lm;
  auto linearize = [&] {
    lm.J.resize(e.jacobian.rows(), nc);
    for (int c = 0; c < nc; ++c) lm.J.col(c) = e.jacobian.col(cols[c]);
    lm.r = e.residuals;
    lm.cost = e.cost;
  };
  linearize();
  auto norm = [&](const State& a, const State* b) {
    double s = 0;
    for (size_t i = 0; i < np; ++i)
      for (int k = 0; col[i] >= 0 && k < w.m.pbs[i].size; ++k) s += (a[i][k] - (b ? (*b)[i][k] : 0)) * (a[i][k] - (b ? (*b)[i][k] : 0));
    return std::sqrt(s);
  };
  // The point of which residual blocks have seen parts, false if they disagree or miss some.
  auto assemble = [&](const Iter& it, State Calls::*which, State* y, const char* what, int i) {
    *y = x;
    std::vector<char> known(np, 0);
    for (size_t k = 0; k < nr; ++k) {
      const State& v = it.rb[k].*which;
      bool variable = false;
      for (int b : w.m.rbs[k].pb) variable = variable || col[b] >= 0;
      if (!variable) continue;
      if (v.empty()) return false;
      for (size_t b = 0; b < v.size(); ++b) {
        const int pb = w.m.rbs[k].pb[b];
        if (known[pb]) SIM_CHECK(SameBits((*y)[pb].data(), v[b].data(), v[b].size()), "one-point", "iteration %d: the %s has two values of parameter block %d [%s]", i, what, pb, cfg.text.c_str());
        known[pb] = 1;
        (*y)[pb] = v[b];
      }
    }
    return true;
  };
  int variable = 0, moving = 0;
  for (size_t i = 0; i < np; ++i) {
    variable += col[i] >= 0;
    moving += col[i] >= 0 && movable[i];
  }
  SIM_CHECK(r.s.inner_iterations_used == (variable > 1 && moving > 0), "inner-used", "inner_iterations_used is %d with %d variable parameter blocks, %d of which may move [%s]", r.s.inner_iterations_used, variable, moving, cfg.text.c_str());
  bool enabled = r.s.inner_iterations_used, enabled_known = true, model_known = true;
  long steps = 0;
  int judged = 0;
  bool steps_known = true;
  RefEvaluator ev(e.cost - fixed, o.use_nonmonotonic_steps ? o.max_consecutive_nonmonotonic_steps : 0);
  for (int i = 1; i < n; ++i) {
    const Iter& it = its[i];
    const auto& s = it.s;
    if (!s.step_is_valid) continue;
    if (it.failed) {
      // The candidate, an inner solve or its result could not be evaluated.
      enabled_known = steps_known = false;
      State y = x;
      if (s.step_is_successful) {
        if (!assemble(it, &Calls::jac, &y, "accepted point", i)) return;
        x = y;
        e = w.m.Reference(x, w.m.AllRb(), w.m.AllPb(), true, true);
        linearize();
        SIM_CHECK(Close(s.cost, e.cost, 1e-9), "cost", "iteration %d reports cost %.17g, the accepted point costs %.17g [%s]", i, s.cost, e.cost, cfg.text.c_str());
        ev = RefEvaluator(e.cost - fixed, ev.limit);
        model_known = !o.use_nonmonotonic_steps;
      }
      sim::Probe("inner.failed");
      continue;
    }
    bool inner = false;
    for (auto& k : it.rb) inner = inner || k.trials > 1;
    if (enabled_known) SIM_CHECK(inner == enabled, "inner-switch", "iteration %d has %s inner iterations although the progress of the last was %s the tolerance %g [%s]", i, inner ? "" : "no", enabled ? "above" : "below", o.inner_iteration_tolerance, cfg.text.c_str());
    enabled = inner;
    enabled_known = true;
    steps += inner;
    State cand, end;
    SIM_CHECK(assemble(it, &Calls::first, &cand, "candidate", i), "not-evaluated", "the candidate of iteration %d was not evaluated as a whole", i);
    SIM_CHECK(assemble(it, &Calls::last, &end, "result", i), "not-evaluated", "the result of iteration %d was not evaluated as a whole", i);
    const double before = e.cost - fixed, mid = w.m.Cost(cand) - fixed, after = w.m.Cost(end) - fixed, noise = 1e-12 * (1 + before + mid + after);
    if (inner) SIM_CHECK(after <= mid + noise, "inner-worse", "inner iterations %d made the candidate worse, from %.17g to %.17g [%s]", i, mid, after, cfg.text.c_str());
    SIM_CHECK(Close(s.cost, after + fixed, 1e-9), "cost", "iteration %d reports cost %.17g, its result costs %.17g [%s]", i, s.cost, after + fixed, cfg.text.c_str());
    SIM_CHECK(std::abs(s.cost_change - (before - after)) <= 1e-9 * (1 + before + after), "cost-change", "iteration %d reports a cost change of %.12g, it is %.12g [%s]", i, s.cost_change, before - after, cfg.text.c_str());
    const double sn = norm(end, &x);
    SIM_CHECK(std::abs(s.step_norm - sn) <= 1e-9 * sn + 1e-15 * norm(x, nullptr), "step-norm", "iteration %d reports a step of norm %.12g, it is %.12g [%s]", i, s.step_norm, sn, cfg.text.c_str());
    if (ordering)
      for (size_t b = 0; b < np; ++b)
        if (col[b] >= 0 && !movable[b]) SIM_CHECK(SameBits(cand[b].data(), end[b].data(), w.m.pbs[b].size), "inner-moved", "inner iterations %d moved parameter block %zu, which is not in their ordering [%s]", i, b, cfg.text.c_str());
    // Verdict.
    const bool useful = inner && after < std::min(before, mid);
    if (!inner || std::abs(after - std::min(before, mid)) > noise)
      SIM_CHECK(s.step_is_successful == (useful || s.relative_decrease > o.min_relative_decrease), "verdict", "iteration %d has relative decrease %.12g, threshold %g, costs %.12g -> %.12g -> %.12g, successful %d [%s]", i, s.relative_decrease, o.min_relative_decrease, before, mid, after, s.step_is_successful, cfg.text.c_str());
    Vec d = Vec::Zero(nc);
    double model = 0, mtol = 1;
    if (Delta(w.m, x, cand, col, S, &d)) {
      const double len = norm(cand, &x);
      model = lm.Decrease(d);
      const double cancel = 1e-15 * (1 + norm(x, nullptr)) / std::max(len, 1e-300);
      mtol = (1e-6 + 100 * cancel * (1 + (lm.J * d).norm() * (lm.r.norm() + (lm.J * d).norm()) / std::max(std::abs(model), 1e-300)));
      mtol = mtol * std::abs(model) + noise;
      model += mid - after;
      mtol /= std::max(std::abs(model), 1e-300);
    }
    if (mtol < 0.05 && model_known && mid < 1e300) {
      const double want = ev.Quality(after, model), t = (mtol + 1e-6) * (1 + std::abs(want)) + noise / std::abs(model);
      if (t < 0.05 * (1 + std::abs(want))) {
        SIM_CHECK(std::abs(s.relative_decrease - want) <= t, "quality", "iteration %d reports relative decrease %.12g, costs %.12g -> %.12g -> %.12g with model decrease %.12g make %.12g [%s]", i, s.relative_decrease, before, mid, after, model, want, cfg.text.c_str());
        sim::Probe("inner.quality");
        ++judged;
      }
    }
    if (inner) {
      const double progress = 1 - after / mid;
      if (std::abs(progress - o.inner_iteration_tolerance) < 1e-9) enabled_known = false;
      enabled = progress > o.inner_iteration_tolerance;
    }
    if (s.step_is_successful) {
      State y;
      if (!assemble(it, &Calls::jac, &y, "accepted point", i)) return;
      for (size_t b = 0; b < np; ++b)
        if (col[b] >= 0) SIM_CHECK(SameBits(y[b].data(), end[b].data(), w.m.pbs[b].size), "moved-elsewhere", "iteration %d was accepted, but the derivatives of parameter block %zu are computed elsewhere [%s]", i, b, cfg.text.c_str());
      x = y;
      if (mtol < 0.05) {
        ev.Accept(after, model);
      } else {
        ev = RefEvaluator(after, ev.limit);
        model_known = !o.use_nonmonotonic_steps;
      }
      e = w.m.Reference(x, w.m.AllRb(), w.m.AllPb(), true, true);
      linearize();
    }
    if (inner) sim::Probe(useful ? "inner.useful" : "inner.useless");
  }
  // The last iteration is not recorded if a tolerance ended it.
  bool more = false;
  for (auto& k : cur.rb) more = more || k.trials > 0;
  if (steps_known && !more) SIM_CHECK(r.s.num_inner_iteration_steps == steps, "inner-count", "%d inner iteration steps are reported, there were %ld [%s]", r.s.num_inner_iteration_steps, steps, cfg.text.c_str());
  if (judged > 0 || w.mon.failed > 0) sim::NonTrivial();
}
