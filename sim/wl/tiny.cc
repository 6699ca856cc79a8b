// C23: the header-only solver under functions that fail, reuse of a solver and
// concurrent users.
#include <cmath>
#include <memory>
#include <thread>

#include "Eigen/Dense"
#include "ceres/cost_function.h"
#include "ceres/jet.h"
#include "ceres/tiny_solver.h"
#include "ceres/tiny_solver_autodiff_function.h"
#include "ceres/tiny_solver_cost_function_adapter.h"
#include "prob.h"

namespace {

using namespace wl;
using LD = long double;
using VecL = Eigen::Matrix<LD, Eigen::Dynamic, 1>;
using MatL = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;

// r_k = scale (t_k + a_k.x + g_k(b_k.x))
struct Fit {
  int m = 1, n = 1;
  double scale = 1;
  std::vector<std::vector<double>> A, B;
  std::vector<double> t;
  std::vector<int> fn;

  template <typename T>
  static T G(int f, const T& u) {
    using std::exp;
    using std::sin;
    switch (f) {
      case 0: return u * T(0.0);
      case 1: return sin(u);
      case 2: return u * u * T(0.5);
      case 3: return exp(u * T(0.3));
      default: return u / (T(1.0) + u * u);
    }
  }
  static LD DG(int f, LD u) {
    switch (f) {
      case 0: return 0;
      case 1: return std::cos(u);
      case 2: return u;
      case 3: return 0.3L * std::exp(0.3L * u);
      default: return (1 - u * u) / ((1 + u * u) * (1 + u * u));
    }
  }
  template <typename T>
  void Residuals(const T* x, T* r) const {
    for (int k = 0; k < m; ++k) {
      T a = T(t[k]), b = T(0.0);
      for (int j = 0; j < n; ++j) {
        a += T(A[k][j]) * x[j];
        b += T(B[k][j]) * x[j];
      }
      r[k] = (a + G(fn[k], b)) * T(scale);
    }
  }
  // Rounding errors of the residuals.
  VecL Errors(const VecL& x) const {
    VecL e(m);
    for (int k = 0; k < m; ++k) {
      LD a = std::abs(t[k]), b = 0, u = 0;
      for (int j = 0; j < n; ++j) {
        a += std::abs(A[k][j] * x[j]);
        b += std::abs(B[k][j] * x[j]);
        u += static_cast<LD>(B[k][j]) * x[j];
      }
      e[k] = 1e-15L * scale * (a + std::abs(DG(fn[k], u)) * b + std::abs(G(fn[k], u)));
    }
    return e;
  }
  // Rounding errors of the derivatives.
  MatL DerivativeErrors(const VecL& x) const {
    MatL e(m, n);
    for (int k = 0; k < m; ++k) {
      LD b = 0, u = 0;
      for (int j = 0; j < n; ++j) {
        b += std::abs(B[k][j] * x[j]);
        u += static_cast<LD>(B[k][j]) * x[j];
      }
      const LD d = std::abs(DG(fn[k], u)) + (2 + (fn[k] == 3 ? std::exp(0.3L * u) : 0)) * b;
      for (int j = 0; j < n; ++j) e(k, j) = 4e-15L * scale * (std::abs(A[k][j]) + d * std::abs(B[k][j]));
    }
    return e;
  }
  template <typename V, typename M>
  void Derivatives(const V& x, M&& J) const {  // m x n
    for (int k = 0; k < m; ++k) {
      LD b = 0;
      for (int j = 0; j < n; ++j) b += static_cast<LD>(B[k][j]) * x[j];
      const LD d = DG(fn[k], b);
      for (int j = 0; j < n; ++j) J(k, j) = (A[k][j] + d * B[k][j]) * scale;
    }
  }
};

struct Call {
  bool jacobian = false, ok = true, nan = false;
  std::vector<double> x;
};
// One solve by one thread.
struct Book {
  std::vector<Call> calls;
  bool plain = true;  // only the function itself fails, at trial points too
};

// What the functions share: decides about failures, keeps the book.
struct Watch {
  const Fit* fit = nullptr;
  Book* book = nullptr;
  // Returns false if the call fails. `nan` is set if it returns NaN instead.
  bool Enter(bool jacobian, const double* x, bool* nan) const {
    sim::Point();
    sim::Quiet q;
    Call c;
    c.jacobian = jacobian;
    c.x.assign(x, x + fit->n);
    c.ok = !sim::Fault("tiny.false") && !(jacobian ? sim::Fault("tiny.jacobian") : sim::Fault("tiny.trial"));
    c.nan = c.ok && !jacobian && sim::Fault("tiny.nan");
    *nan = c.nan;
    book->calls.push_back(c);
    return c.ok;
  }
};

template <int R, int P>
struct Plain {
  using Scalar = double;
  enum { NUM_RESIDUALS = R, NUM_PARAMETERS = P };
  Watch w;
  bool operator()(const double* x, double* r, double* J) const {
    bool nan = false;
    const bool ok = w.Enter(J != nullptr, x, &nan);
    const Fit& f = *w.fit;
    if (!ok) {  // what a failing function leaves behind
      for (int k = 0; k < f.m; ++k) r[k] = k == 0 ? 1e-3 : 0;
      if (J) for (int k = 0; k < f.m * f.n; ++k) J[k] = 77;
      return false;
    }
    f.Residuals(x, r);
    if (nan) r[f.m - 1] = std::nan("");
    if (J) {
      Eigen::Map<Eigen::MatrixXd> map(J, f.m, f.n);
      f.Derivatives(x, map);
    }
    sim::Point();
    return true;
  }
  int NumResiduals() const { return w.fit->m; }
  int NumParameters() const { return w.fit->n; }
};

class Cost : public ceres::CostFunction {
 public:
  explicit Cost(const Watch& w) : w_(w) {
    set_num_residuals(w.fit->m);
    mutable_parameter_block_sizes()->push_back(w.fit->n);
  }
  bool Evaluate(double const* const* p, double* r, double** jac) const override {
    bool nan = false;
    const bool want = jac != nullptr && jac[0] != nullptr;
    const bool ok = w_.Enter(want, p[0], &nan);
    const Fit& f = *w_.fit;
    if (!ok) {
      for (int k = 0; k < f.m; ++k) r[k] = 0;
      if (want) jac[0][0] = 77;
      return false;
    }
    f.Residuals(p[0], r);
    if (nan) r[0] = std::nan("");
    if (want) {
      Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>> map(jac[0], f.m, f.n);
      f.Derivatives(p[0], map);
    }
    return true;
  }

 private:
  Watch w_;
};

struct Functor {
  Watch w;
  template <typename T>
  static double Value(const T& v) {
    if constexpr (std::is_same_v<T, double>) return v;
    else return v.a;
  }
  template <typename T>
  bool operator()(const T* x, T* r) const {
    const Fit& f = *w.fit;
    std::vector<double> v;
    {
      sim::Quiet q;
      for (int j = 0; j < f.n; ++j) v.push_back(Value(x[j]));
    }
    bool nan = false;
    if (!w.Enter(!std::is_same_v<T, double>, v.data(), &nan)) {
      r[0] = T(0.0);
      return false;
    }
    f.Residuals(x, r);
    if (nan) r[0] = T(std::nan(""));
    return true;
  }
  int NumResiduals() const { return w.fit->m; }
};

struct Tolerances {
  int max_num_iterations = 50;
  double gradient = 1e-10, parameter = 1e-8, function = 1e-6, cost = std::numeric_limits<double>::epsilon(), radius = 1e4;
};

struct Result {
  double initial_cost, final_cost, gradient_max_norm;
  int iterations, status;
  std::vector<double> x;
  Eigen::MatrixXd J;
  Eigen::VectorXd r;
};

enum Status { GRADIENT, STEP, COST, ITERATIONS, CHANGE, FAILED };
const char* const kStatus[] = {"GRADIENT_TOO_SMALL", "RELATIVE_STEP_SIZE_TOO_SMALL", "COST_TOO_SMALL", "HIT_MAX_ITERATIONS", "COST_CHANGE_TOO_SMALL", "EVALUATION_FAILED"};

// Follows the solve through its calls with the method's definition in extended
// precision; decisions nearer to a threshold than rounding follow the solver.
void Verify(const char* name, const Fit& fit, const Tolerances& o, const std::vector<double>& start, const Book& book, const Result& s) {
  const auto& c = book.calls;
  size_t at = 0;
  auto cost_of = [&](const VecL& r) { return r.squaredNorm() / 2; };
  VecL x(fit.n), r(fit.m), re(fit.m), g, ge;
  auto cost_error = [](const VecL& r, const VecL& e) { return 1e-14L * r.squaredNorm() + r.cwiseAbs().dot(e) + e.squaredNorm(); };
  auto near_cost = [&](double c) { return std::abs(c - cost_of(r)) <= cost_error(r, re); };
  MatL J(fit.m, fit.n);
  for (int j = 0; j < fit.n; ++j) x[j] = start[j];
  auto point = [&](const Call& k) {
    VecL v(fit.n);
    for (int j = 0; j < fit.n; ++j) v[j] = k.x[j];
    return v;
  };
  auto load = [&](const VecL& v) {
    x = v;
    fit.Residuals(x.data(), r.data());
    fit.Derivatives(x, J);
    g = J.transpose() * r;
    re = fit.Errors(x);
    ge = J.cwiseAbs().transpose() * (re + 1e-13L * r.cwiseAbs()) + fit.DerivativeErrors(x).transpose() * r.cwiseAbs();
  };
  auto same = [&](const Call& k, const std::vector<double>& v) { return k.x == v; };
  SIM_CHECK(!c.empty() && c[0].jacobian && same(c[0], start), "start", "%s: the first evaluation is not of the start with its Jacobian", name);
  at = 1;
  if (!c[0].ok) {
    SIM_CHECK(c.size() == 1, "after-failure", "%s: %zu evaluations after the one of the start failed", name, c.size() - 1);
    SIM_CHECK(s.status == FAILED, "status", "%s: the start cannot be evaluated, the status is %s", name, kStatus[s.status]);
    SIM_CHECK(s.x == start, "start-changed", "%s: the start cannot be evaluated and was changed", name);
    SIM_CHECK(s.initial_cost == -1 && s.final_cost == -1, "cost", "%s: costs %g and %g of a point that cannot be evaluated", name, s.initial_cost, s.final_cost);
    sim::Probe("tiny.start_failed");
    sim::NonTrivial();
    return;
  }
  load(x);
  const VecL scaling = (1 + J.colwise().norm().array().transpose()).inverse().matrix();
  std::vector<double> best = start;
  SIM_CHECK(near_cost(s.initial_cost), "initial-cost", "%s: initial_cost %.17g, the cost of the start is %.17Lg", name, s.initial_cost, cost_of(r));
  LD u = 1.0L / o.radius, v = 2, u_error = 1e-14L;
  int iterations = 0, rejected = 0;
  bool failed = false, uncertain = false;
  // What a condition says: 1 holds, 0 does not, -1 too near to tell.
  auto less = [](LD a, LD b, LD err) { return std::abs(a - b) <= err ? -1 : a < b ? 1 : 0; };
  auto end_with = [&](int status, int verdict, const char* what) {
    // Returns true if the solve ended here.
    const bool ended = at == c.size() && s.status == status;
    if (verdict == 1) SIM_CHECK(ended, "missed-end", "%s: %s holds after %d iterations but the solve went on or ended with %s", name, what, iterations, kStatus[s.status]);
    if (verdict == 0) return false;
    return ended;
  };
  const LD tiny = 1e-13L;
  auto gradient_verdict = [&]() { return less(g.lpNorm<Eigen::Infinity>(), o.gradient, tiny * o.gradient + 2 * ge.lpNorm<Eigen::Infinity>()); };
  auto cost_verdict = [&]() { return less(cost_of(r), o.cost, tiny * o.cost + cost_error(r, re)); };
  bool done = end_with(GRADIENT, gradient_verdict(), "the gradient tolerance") || end_with(COST, cost_verdict(), "the cost threshold");
  const bool at_start = done;
  while (!done) {
    ++iterations;
    if (iterations >= o.max_num_iterations) {
      SIM_CHECK(at == c.size() && s.status == ITERATIONS, "iterations", "%s: %d iterations are allowed, %zu more evaluations, status %s", name, o.max_num_iterations, c.size() - at, kStatus[s.status]);
      break;
    }
    // The step.
    const MatL Js = J * scaling.asDiagonal();
    MatL H = Js.transpose() * Js;
    const MatL JtJ = H;
    for (int j = 0; j < fit.n; ++j) H(j, j) += u * std::min<LD>(std::max<LD>(JtJ(j, j), 1e-6L), 1e32L);
    const VecL gs = -(Js.transpose() * r);
    Eigen::SelfAdjointEigenSolver<MatL> eig(H);
    const LD cond = eig.eigenvalues()[fit.n - 1] / std::max<LD>(eig.eigenvalues()[0], 1e-300L);
    const VecL y = H.ldlt().solve(gs);
    const VecL dx = scaling.asDiagonal() * y;
    const LD err = (cond * 1e-14L + u_error) * (dx.norm() + (scaling.asDiagonal() * (H.ldlt().solve(scaling.asDiagonal() * ge)).cwiseAbs()).norm() + gs.norm() / std::max<LD>(eig.eigenvalues()[0], 1e-300L) * 1e-3L) + 1e-14L * x.norm();
    // Damping beyond double's range makes the step anything, NaN included.
    const bool trusted = u < 1e200L && cond < 1e9L && u_error < 1e-4L && std::isfinite(static_cast<double>(err));
    if (!trusted) uncertain = true;
    const LD ptol = o.parameter * (x.norm() + o.parameter);
    if (end_with(STEP, trusted ? less(dx.norm(), ptol, err + 1e-12L * ptol) : -1, "the parameter tolerance")) break;
    SIM_CHECK(at < c.size(), "stopped", "%s: the solve ended with %s after %d iterations without a reason", name, kStatus[s.status], iterations);
    const Call& t = c[at++];
    SIM_CHECK(!t.jacobian, "jacobian", "%s: a trial point was evaluated with its Jacobian", name);
    const VecL xt = point(t);
    if (trusted) {
      SIM_CHECK((xt - x - dx).norm() <= 10 * err, "step", "%s: iteration %d: the step is off by %.3Lg, its norm is %.3Lg (condition %.3Lg)", name, iterations, (xt - x - dx).norm(), dx.norm(), cond);
      sim::Probe("tiny.step_checked");
    }
    VecL rt(fit.m);
    fit.Residuals(xt.data(), rt.data());
    const LD change = 2 * cost_of(r) - 2 * cost_of(rt), model = y.dot(2 * gs - JtJ * y);
    const LD change_err = 4 * (cost_error(r, re) + cost_error(rt, fit.Errors(xt)));
    const bool usable = t.ok && !t.nan && xt.allFinite();
    const bool accepted = at < c.size() && c[at].jacobian;
    if (!usable) {
      if (xt.allFinite()) failed = true;
      SIM_CHECK(!accepted, "accepted", "%s: a trial point which cannot be evaluated was accepted", name);
    } else if (std::abs(change) > change_err && trusted) {
      SIM_CHECK(accepted == (change > 0), "decision", "%s: iteration %d: a step which changes the squared error by %.3Lg was %s", name, iterations, -change, accepted ? "accepted" : "rejected");
    } else {
      uncertain = true;
    }
    const int small = usable ? less(std::abs(change), o.function * 2 * cost_of(r), change_err + 1e-12L * o.function * cost_of(r)) : 0;
    if (accepted) {
      const Call& k = c[at++];
      SIM_CHECK(same(k, t.x), "accepted-point", "%s: the accepted point differs from the trial point", name);
      if (!k.ok) {
        SIM_CHECK(at == c.size() && s.status == FAILED, "status", "%s: the Jacobian at an accepted point cannot be evaluated, the status is %s after %zu more evaluations", name, kStatus[s.status], c.size() - at);
        SIM_CHECK(s.x == best, "returned-point", "%s: the Jacobian cannot be evaluated and the last complete point is not returned", name);
        failed = true;
        break;
      }
      load(xt);
      best = t.x;
      if (end_with(CHANGE, small, "the function tolerance") || end_with(GRADIENT, gradient_verdict(), "the gradient tolerance") || end_with(COST, cost_verdict(), "the cost threshold")) break;
      const LD rho = change / model, z = 2 * rho - 1;
      const LD factor = std::max<LD>(1 / 3.0L, 1 - z * z * z);
      u_error += 1e-13L + 6 * z * z * (std::abs(rho) * (cond * 1e-14L + u_error) + change_err / std::abs(model)) / factor;
      u *= factor;
      v = 2;
    } else {
      ++rejected;
      if (end_with(CHANGE, small, "the function tolerance")) break;
      u *= v;
      v *= 2;
    }
  }
  SIM_CHECK(at == c.size(), "extra-evaluations", "%s: %zu evaluations after the end (%s)", name, c.size() - at, kStatus[s.status]);
  SIM_CHECK(s.x == best, "returned-point", "%s: the returned point is not the last accepted one (%s after %d iterations)", name, kStatus[s.status], iterations);
  SIM_CHECK(near_cost(s.final_cost), "final-cost", "%s: final_cost %.17g, the cost of the returned point is %.17Lg", name, s.final_cost, cost_of(r));
  SIM_CHECK(s.final_cost <= s.initial_cost * (1 + 1e-13), "worse", "%s: final_cost %.17g exceeds initial_cost %.17g", name, s.final_cost, s.initial_cost);
  const LD gm = g.lpNorm<Eigen::Infinity>();
  SIM_CHECK(std::abs(s.gradient_max_norm - gm) <= 1e-13L * gm + 2 * ge.lpNorm<Eigen::Infinity>(), "gradient", "%s: gradient_max_norm %.17g instead of %.17Lg", name, s.gradient_max_norm, gm);
  const int want = at_start ? 0 : std::max(iterations, 1);
  SIM_CHECK(s.iterations == want, "iteration-count", "%s: %d iterations are reported, there were %d (%s)", name, s.iterations, want, kStatus[s.status]);
  if (s.status != FAILED) {
    SIM_CHECK((s.r.cast<LD>() - r).norm() <= 1e-14L * r.norm() + re.norm(), "residuals", "%s: Residuals() are not those of the returned point", name);
    SIM_CHECK((s.J.cast<LD>() - J).norm() <= 1e-13L * J.norm() + fit.DerivativeErrors(x).norm(), "jacobian", "%s: Jacobian() is not that of the returned point", name);
  }
  if (iterations > 2 || failed) sim::NonTrivial();
  if (failed) sim::Probe("tiny.failed");
  if (rejected) sim::Probe("tiny.rejected");
  if (uncertain) sim::Probe("tiny.uncertain");
  char buf[64];
  snprintf(buf, sizeof buf, "tiny.%s", kStatus[s.status]);
  sim::Probe(buf);
}

template <typename Solver, typename F>
Result Run(Solver* solver, const F& f, const Fit& fit, const Tolerances& o, const std::vector<double>& start) {
  solver->options.max_num_iterations = o.max_num_iterations;
  solver->options.gradient_tolerance = o.gradient;
  solver->options.parameter_tolerance = o.parameter;
  solver->options.function_tolerance = o.function;
  solver->options.cost_threshold = o.cost;
  solver->options.initial_trust_region_radius = o.radius;
  typename Solver::ParameterVector x(fit.n);
  for (int j = 0; j < fit.n; ++j) x[j] = start[j];
  const auto& summary = solver->Solve(f, &x);
  sim::Quiet q;
  Result r;
  r.initial_cost = summary.initial_cost;
  r.final_cost = summary.final_cost;
  r.gradient_max_norm = summary.gradient_max_norm;
  r.iterations = summary.iterations;
  using S = std::decay_t<decltype(summary)>;
  (void)sizeof(S);
  r.status = summary.status;
  SIM_CHECK(r.status >= 0 && r.status <= FAILED, "status", "unknown status %d", r.status);
  for (int j = 0; j < fit.n; ++j) r.x.push_back(x[j]);
  r.J = solver->Jacobian();
  r.r = solver->Residuals();
  return r;
}

void DrawFit(Fit* f, int m, int n) {
  f->m = m;
  f->n = n;
  static const double scales[] = {1, 1e-3, 30, 1e-6};
  f->scale = scales[sim::Draw(4)];
  const bool exact = sim::Chance(40), deficient = n > 1 && sim::Chance(15);
  std::vector<double> sol;
  for (int j = 0; j < n; ++j) sol.push_back(sim::Uniform(-1, 1));
  for (int k = 0; k < m; ++k) {
    f->A.emplace_back();
    f->B.emplace_back();
    for (int j = 0; j < n; ++j) {
      f->A[k].push_back(sim::Uniform(-1, 1));
      f->B[k].push_back(sim::Uniform(-1.5, 1.5));
    }
    if (deficient) {
      f->A[k][1] = f->A[k][0];
      f->B[k][1] = f->B[k][0];
    }
    f->fn.push_back(static_cast<int>(sim::Draw(5)));
    f->t.push_back(sim::Uniform(-1, 1));
    if (exact) {
      double a = 0, b = 0;
      for (int j = 0; j < n; ++j) a += f->A[k][j] * sol[j], b += f->B[k][j] * sol[j];
      f->t[k] = -a - Fit::G(f->fn[k], b);
    }
  }
}

struct Task {
  int kind;
  Fit fit;
  Tolerances o;
  std::vector<double> start;
};
constexpr int kKinds = 9;
Task DrawTask(int kind) {
  Task t;
  t.kind = kind;
  int m = 3, n = 2;
  if (kind == 1 || kind == 3 || kind == 5 || kind == 7 || kind == 8) m = sim::Range(1, 6);
  if (kind == 2 || kind == 3 || kind == 5 || kind == 7) n = sim::Range(1, 5);
  if (kind == 7) m = sim::Range(1, 4), n = sim::Range(1, 4);
  DrawFit(&t.fit, m, n);
  auto pick = [](std::vector<double> v) { return v[sim::Draw(v.size())]; };
  if (sim::Chance(50)) {
    static const int it[] = {50, 2, 5, 1, 200};
    t.o.max_num_iterations = it[sim::Draw(5)];
    t.o.gradient = pick({1e-10, 1e-4, 0});
    t.o.parameter = pick({1e-8, 1e-3, 0});
    t.o.function = pick({1e-6, 0, 1e-2});
    t.o.cost = pick({std::numeric_limits<double>::epsilon(), 0, 1e-2});
    t.o.radius = pick({1e4, 1, 1e-3, 1e8});
  }
  for (int j = 0; j < n; ++j) t.start.push_back(sim::Uniform(-2, 2));
  return t;
}

// The solvers of one thread; each is used again and again.
struct Solvers {
  ceres::TinySolver<Plain<3, 2>> s0;
  ceres::TinySolver<Plain<Eigen::Dynamic, 2>> s1;
  ceres::TinySolver<Plain<3, Eigen::Dynamic>> s2;
  ceres::TinySolver<Plain<Eigen::Dynamic, Eigen::Dynamic>> s3;
  ceres::TinySolver<ceres::TinySolverCostFunctionAdapter<3, 2>> s4;
  ceres::TinySolver<ceres::TinySolverCostFunctionAdapter<>> s5;
  ceres::TinySolver<ceres::TinySolverAutoDiffFunction<Functor, 3, 2>> s6;
  ceres::TinySolver<Plain<Eigen::Dynamic, Eigen::Dynamic>, 4, 4> s7;
  ceres::TinySolver<ceres::TinySolverAutoDiffFunction<Functor, Eigen::Dynamic, 2>> s8;
};

void Solve(Solvers* s, const Task& t) {
  static const char* const names[kKinds] = {"static", "dynamic residuals", "dynamic parameters", "dynamic", "cost function", "dynamic cost function", "automatic", "dynamic with maxima", "automatic with dynamic residuals"};
  Book book;
  Watch w;
  w.fit = &t.fit;
  w.book = &book;
  Result r;
  switch (t.kind) {
    case 0: r = Run(&s->s0, Plain<3, 2>{w}, t.fit, t.o, t.start); break;
    case 1: r = Run(&s->s1, Plain<Eigen::Dynamic, 2>{w}, t.fit, t.o, t.start); break;
    case 2: r = Run(&s->s2, Plain<3, Eigen::Dynamic>{w}, t.fit, t.o, t.start); break;
    case 3: r = Run(&s->s3, Plain<Eigen::Dynamic, Eigen::Dynamic>{w}, t.fit, t.o, t.start); break;
    case 4: {
      Cost cost(w);
      ceres::TinySolverCostFunctionAdapter<3, 2> f(cost);
      r = Run(&s->s4, f, t.fit, t.o, t.start);
      break;
    }
    case 5: {
      Cost cost(w);
      ceres::TinySolverCostFunctionAdapter<> f(cost);
      SIM_CHECK(f.NumResiduals() == t.fit.m && f.NumParameters() == t.fit.n, "sizes", "the adapter has other sizes than its cost function");
      r = Run(&s->s5, f, t.fit, t.o, t.start);
      break;
    }
    case 6: {
      Functor fn{w};
      ceres::TinySolverAutoDiffFunction<Functor, 3, 2> f(fn);
      r = Run(&s->s6, f, t.fit, t.o, t.start);
      break;
    }
    case 7: r = Run(&s->s7, Plain<Eigen::Dynamic, Eigen::Dynamic>{w}, t.fit, t.o, t.start); break;
    default: {
      Functor fn{w};
      ceres::TinySolverAutoDiffFunction<Functor, Eigen::Dynamic, 2> f(fn);
      r = Run(&s->s8, f, t.fit, t.o, t.start);
    }
  }
  sim::Quiet q;
  sim::Event("%s %d %zu %s %.17g", names[t.kind], r.iterations, book.calls.size(), kStatus[r.status], r.final_cost);
  Verify(names[t.kind], t.fit, t.o, t.start, book, r);
}

}  // namespace

SIM_WORKLOAD(C23, solve, 10) {
  const int nt = sim::Chance(30) ? sim::Range(2, 3) : 1;
  std::vector<std::vector<Task>> tasks(nt);
  {
    sim::Quiet q;
    for (auto& v : tasks) {
      const int kind = static_cast<int>(sim::Draw(kKinds));
      const int k = sim::Range(1, 3);
      for (int i = 0; i < k; ++i) v.push_back(DrawTask(sim::Chance(70) ? kind : static_cast<int>(sim::Draw(kKinds))));
    }
  }
  static const double rates[] = {0, 0.02, 0.15, 0.5};
  static const char* const sites[] = {"tiny.false", "tiny.trial", "tiny.jacobian", "tiny.nan"};
  for (const char* site : sites)
    if (sim::Chance(40)) {
      const double rate = rates[sim::Draw(4)];
      if (rate > 0) sim::ArmFault(site, rate);
    }
  sim::State(HashMix(tasks[0][0].kind, nt));
  auto user = [&](int t) {
    Solvers s;
    for (const Task& k : tasks[t]) Solve(&s, k);
  };
  std::vector<std::thread> threads;
  for (int t = 1; t < nt; ++t) threads.emplace_back(user, t);
  user(0);
  for (auto& t : threads) t.join();
}
