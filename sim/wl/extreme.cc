// C24: values at the ends of the floating point range, alone and together with
// failures, neither abort a solve nor make it return a worse point.
#include <cmath>
#include <limits>
#include <memory>
#include <system_error>

#include "ceres/ceres.h"
#include "solve.h"

namespace wl {
namespace {

constexpr double kMax = std::numeric_limits<double>::max();

// One residual as a function of u = a.x + b.
struct Steep {
  int kind = 0;
  double s = 1, k = 1, b = 0, wall = 1e308;
  std::vector<double> a;
  double U(const double* x) const {
    double u = b;
    for (size_t i = 0; i < a.size(); ++i) u += a[i] * x[i];
    return u;
  }
  // False where the function is not defined.
  bool Value(double u, double* r, double* d) const {
    if (u > wall) return false;
    switch (kind) {
      case 0: *r = s * u; *d = s; break;
      case 1: *r = s * std::exp(k * u); *d = k * *r; break;
      case 2: *r = s * std::pow(u, k); *d = s * k * std::pow(u, k - 1); break;
      case 3: *r = s / u; *d = -s / (u * u); break;
      case 4: *r = s * std::sqrt(std::abs(u)); *d = (u < 0 ? -0.5 : 0.5) * s / std::sqrt(std::abs(u)); break;
      case 5: *r = s * std::log(std::abs(u)); *d = s / u; break;
      case 6: *r = s * std::tan(k * u); *d = s * k * (1 + std::tan(k * u) * std::tan(k * u)); break;
      default: *r = s * std::cosh(k * u); *d = s * k * std::sinh(k * u);
    }
    return true;
  }
};

struct Scene {
  std::vector<std::vector<double>> x;  // user memory
  struct Block {
    std::vector<int> pb;
    std::vector<Steep> f;
    int loss = 0;
    double scale = 1;
  };
  std::vector<Block> blocks;
  bool solving = false;
  long calls = 0, failed = 0, huge = 0, points = 0;
  std::vector<int> frozen;
  std::vector<std::pair<double, double>> bound;  // of the first coordinate
};

class SteepCost final : public ceres::CostFunction {
 public:
  SteepCost(Scene* s, int id) : s_(s), id_(id) {
    const auto& b = s->blocks[id];
    set_num_residuals(static_cast<int>(b.f.size()));
    for (int i : b.pb) mutable_parameter_block_sizes()->push_back(static_cast<int>(s->x[i].size()));
  }
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    const auto& b = s_->blocks[id_];
    std::vector<double> x, rv, dv;
    bool ok = true;
    {
      sim::Quiet q;
      ++s_->calls;
      for (size_t i = 0; i < b.pb.size(); ++i)
        for (size_t k = 0; k < s_->x[b.pb[i]].size(); ++k) {
          x.push_back(p[i][k]);
          SIM_CHECK(std::isfinite(p[i][k]), "non-finite-point", "a cost function is evaluated at coordinate %zu of parameter block %d = %g", k, b.pb[i], p[i][k]);
        }
      ok = !sim::Fault("cost.false");
      for (auto& f : b.f) {
        double v = 0, d = 0;
        if (!f.Value(f.U(x.data()), &v, &d)) ok = false;
        rv.push_back(v);
        dv.push_back(d);
        if (!(std::abs(v) < 1e150)) ++s_->huge;
        if (J && !(std::abs(d) < 1e150)) ++s_->huge;
      }
      s_->failed += !ok;
    }
    sim::Point();
    if (!ok) return false;
    for (size_t k = 0; k < b.f.size(); ++k) r[k] = rv[k];
    if (J) {
      size_t o = 0;
      for (size_t i = 0; i < b.pb.size(); ++i) {
        const size_t n = s_->x[b.pb[i]].size();
        if (J[i])
          for (size_t k = 0; k < b.f.size(); ++k)
            for (size_t c = 0; c < n; ++c) J[i][k * n + c] = dv[k] * b.f[k].a[o + c];
        o += n;
      }
    }
    return true;
  }

 private:
  Scene* s_;
  int id_;
};

ceres::LossFunction* Loss(int kind, double scale) {
  switch (kind) {
    case 1: return new ceres::HuberLoss(scale);
    case 2: return new ceres::CauchyLoss(scale);
    case 3: return new ceres::TukeyLoss(scale);
    case 4: return new ceres::SoftLOneLoss(scale);
    case 5: return new ceres::ArctanLoss(scale);
    default: return nullptr;
  }
}

// The cost at x, false if some function is not defined or not finite there.
// *smooth is set to whether the derivatives of the loss functions are, too.
bool CostAt(const Scene& s, const std::vector<std::vector<double>>& x, double* cost, bool* smooth = nullptr) {
  *cost = 0;
  if (smooth) *smooth = true;
  for (auto& b : s.blocks) {
    std::vector<double> v;
    for (int i : b.pb) v.insert(v.end(), x[i].begin(), x[i].end());
    double sq = 0;
    for (auto& f : b.f) {
      double r, d;
      if (!f.Value(f.U(v.data()), &r, &d) || !std::isfinite(r)) return false;
      sq += r * r;
    }
    std::unique_ptr<ceres::LossFunction> loss(Loss(b.loss, b.scale));
    double rho[3] = {sq, 1, 0};
    if (loss) loss->Evaluate(sq, rho);
    *cost += rho[0] / 2;
    if (smooth && !(std::isfinite(rho[1]) && std::isfinite(rho[2]))) *smooth = false;
  }
  return std::isfinite(*cost);
}

double Magnitude() {
  static const double m[] = {1, 1e-150, 1e-300, 1e10, 1e100, 1e153, 1e200, 1e307, 1e-8};
  return m[sim::Draw(9)] * (sim::Chance(30) ? -1 : 1);
}

Steep DrawSteep(int n) {
  Steep f;
  const bool wild = sim::Chance(50);
  f.kind = static_cast<int>(sim::Draw(8));
  if (wild) f.s = Magnitude();
  if (f.kind == 1 || f.kind == 7) f.k = sim::Chance(50) ? sim::Uniform(-2, 2) : sim::Uniform(-700, 700);
  if (f.kind == 2) f.k = sim::Range(1, sim::Chance(50) ? 4 : 200);
  if (f.kind == 6) f.k = sim::Uniform(0.1, 3);
  for (int i = 0; i < n; ++i) f.a.push_back(sim::Chance(10) ? 0 : sim::Uniform(-1, 1) * (sim::Chance(10) ? Magnitude() : 1));
  f.b = sim::Uniform(-1, 1);
  if (sim::Chance(10)) f.wall = f.b + sim::Uniform(-0.5, 3);
  return f;
}

void DrawScene(Scene* s) {
  const int np = sim::Range(1, 4), nb = sim::Range(1, 5);
  for (int i = 0; i < np; ++i) {
    s->x.emplace_back();
    const int n = sim::Range(1, 3);
    const double m = sim::Chance(10) ? Magnitude() : 1;
    for (int k = 0; k < n; ++k) s->x[i].push_back(sim::Uniform(-1, 1) * m);
  }
  for (int j = 0; j < nb; ++j) {
    Scene::Block b;
    int n = 0;
    for (int i = 0; i < np; ++i)
      if (sim::Chance(60)) b.pb.push_back(i);
    if (b.pb.empty()) b.pb.push_back(static_cast<int>(sim::Draw(np)));
    for (int i : b.pb) n += static_cast<int>(s->x[i].size());
    const int m = sim::Range(1, 3);
    for (int k = 0; k < m; ++k) b.f.push_back(DrawSteep(n));
    if (sim::Chance(30)) {
      b.loss = sim::Range(1, 5);
      if (sim::Chance(30)) b.scale = std::abs(Magnitude());
    }
    s->blocks.push_back(b);
  }
  s->frozen.assign(np, 0);
  s->bound.assign(np, {-kMax, kMax});
}

// Mostly a scene whose start can be evaluated.
void DrawDefined(Scene* s) {
  const int tries = sim::Chance(10) ? 1 : 12;
  double cost;
  for (int i = 0; i < tries; ++i) {
    *s = Scene();
    DrawScene(s);
    if (CostAt(*s, s->x, &cost)) return;
  }
}

std::string Dump(const Scene& s) {
  std::string t;
  char buf[200];
  for (size_t i = 0; i < s.x.size(); ++i) {
    snprintf(buf, sizeof buf, " x%zu=(", i);
    t += buf;
    for (double v : s.x[i]) snprintf(buf, sizeof buf, "%.6g,", v), t += buf;
    t += ")";
  }
  for (auto& b : s.blocks) {
    snprintf(buf, sizeof buf, " [loss %d %g:", b.loss, b.scale);
    t += buf;
    for (int i : b.pb) snprintf(buf, sizeof buf, " x%d", i), t += buf;
    for (auto& f : b.f) {
      snprintf(buf, sizeof buf, "; kind %d s %.4g k %.4g b %.4g a", f.kind, f.s, f.k, f.b);
      t += buf;
      for (double a : f.a) snprintf(buf, sizeof buf, " %.4g", a), t += buf;
    }
    t += "]";
  }
  return t;
}

const char* const kLinear_[] = {"DENSE_NORMAL_CHOLESKY", "DENSE_QR", "SPARSE_NORMAL_CHOLESKY", "DENSE_SCHUR", "SPARSE_SCHUR", "ITERATIVE_SCHUR", "CGNR"};

}  // namespace

SIM_WORKLOAD(C24, solve, 10) {
  Scene s;
  ceres::Solver::Options o;
  std::string text;
  {
    sim::Quiet q;
    DrawDefined(&s);
    o.logging_type = ceres::SILENT;
    static const int threads[] = {1, 2, 4};
    o.num_threads = threads[sim::Draw(3)];
    o.max_num_iterations = sim::Range(1, 30);
    if (sim::Chance(25)) {
      o.minimizer_type = ceres::LINE_SEARCH;
      o.line_search_direction_type = static_cast<ceres::LineSearchDirectionType>(sim::Draw(4));
      o.nonlinear_conjugate_gradient_type = static_cast<ceres::NonlinearConjugateGradientType>(sim::Draw(3));
      o.line_search_interpolation_type = static_cast<ceres::LineSearchInterpolationType>(sim::Draw(3));
      if (o.line_search_direction_type < ceres::LBFGS && sim::Chance(40)) o.line_search_type = ceres::ARMIJO;
      text = "LINE_SEARCH " + std::to_string(o.line_search_direction_type) + " " + std::to_string(o.line_search_type) + " interpolation " + std::to_string(o.line_search_interpolation_type);
    } else {
      static const ceres::LinearSolverType types[] = {ceres::DENSE_NORMAL_CHOLESKY, ceres::DENSE_QR, ceres::SPARSE_NORMAL_CHOLESKY, ceres::DENSE_SCHUR, ceres::SPARSE_SCHUR, ceres::ITERATIVE_SCHUR, ceres::CGNR};
      const int k = static_cast<int>(sim::Draw(7));
      o.linear_solver_type = types[k];
      text = kLinear_[k];
      if (k < 5 && sim::Chance(30)) {
        o.trust_region_strategy_type = ceres::DOGLEG;
        o.dogleg_type = sim::Chance(50) ? ceres::SUBSPACE_DOGLEG : ceres::TRADITIONAL_DOGLEG;
        text += o.dogleg_type == ceres::SUBSPACE_DOGLEG ? " subspace" : " dogleg";
      }
      if (k == 5) {
        static const ceres::PreconditionerType p[] = {ceres::JACOBI, ceres::SCHUR_JACOBI, ceres::IDENTITY, ceres::SCHUR_POWER_SERIES_EXPANSION};
        o.preconditioner_type = p[sim::Draw(4)];
        o.use_explicit_schur_complement = o.preconditioner_type == ceres::SCHUR_JACOBI && sim::Chance(30);
      }
      o.dynamic_sparsity = k == 2 && sim::Chance(30);
      o.use_mixed_precision_solves = (k == 0 || k == 2 || k == 3 || k == 4) && sim::Chance(20);
      if (o.use_mixed_precision_solves) o.max_num_refinement_iterations = sim::Range(0, 3), text += " mixed";
      o.use_nonmonotonic_steps = sim::Chance(25);
      o.use_inner_iterations = sim::Chance(20);
      o.jacobi_scaling = !sim::Chance(30);
      if (o.use_nonmonotonic_steps) text += " nonmonotonic";
      if (o.use_inner_iterations) text += " inner";
      if (!o.jacobi_scaling) text += " unscaled";
      if (sim::Chance(20)) {
        static const double r[] = {1e-20, 1e16, 1, 1e-8};
        o.initial_trust_region_radius = r[sim::Draw(4)];
      }
      if (sim::Chance(20))
        for (auto& b : s.bound) b = {-1.5, 1.5};
    }
    if (sim::Chance(30)) o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0;
    for (auto& f : s.frozen) f = sim::Chance(10);
  }
  sim::State(HashMix(o.linear_solver_type * 16 + o.minimizer_type, s.blocks.size()));
  if (sim::Chance(30)) sim::ArmFault("cost.false", sim::Chance(50) ? 0.01 : 0.1);
  if (sim::Chance(15)) sim::ArmFault("thread.create", 0.3);
  const auto start = s.x;
  double initial = 0;
  const bool defined = CostAt(s, start, &initial);
  ceres::Solver::Summary sum;
  std::vector<ceres::IterationSummary> its;
  {
    ceres::Problem problem;
    for (size_t j = 0; j < s.blocks.size(); ++j) {
      std::vector<double*> p;
      for (int i : s.blocks[j].pb) p.push_back(s.x[i].data());
      problem.AddResidualBlock(new SteepCost(&s, static_cast<int>(j)), Loss(s.blocks[j].loss, s.blocks[j].scale), p);
    }
    for (size_t i = 0; i < s.x.size(); ++i) {
      if (!problem.HasParameterBlock(s.x[i].data())) continue;
      if (s.frozen[i]) problem.SetParameterBlockConstant(s.x[i].data());
      if (s.bound[i].second < kMax && std::abs(s.x[i][0]) < 1.5) {
        problem.SetParameterLowerBound(s.x[i].data(), 0, s.bound[i].first);
        problem.SetParameterUpperBound(s.x[i].data(), 0, s.bound[i].second);
      }
    }
    try {
      ceres::Solve(o, &problem, &sum);
    } catch (const std::system_error&) {
      sim::Probe("extreme.no_thread");
      return;
    }
  }
  sim::Quiet q;
  const std::string at = text + Dump(s);
  sim::Event("%s %d %.17g %zu", text.c_str(), sum.termination_type, sum.final_cost, sum.iterations.size());
  if (!sum.IsSolutionUsable()) {
    for (size_t i = 0; i < s.x.size(); ++i) SIM_CHECK(SameBits(s.x[i].data(), start[i].data(), static_cast<int>(s.x[i].size())), "changed", "no usable solution (%s), but parameter block %zu changed [%s]", sum.message.c_str(), i, text.c_str());
    if (!defined) sim::Probe("extreme.undefined");
  } else {
    for (auto& v : s.x)
      for (double d : v) SIM_CHECK(std::isfinite(d), "non-finite-solution", "the solution has a coordinate %g [%s]", d, at.c_str());
    double cost = 0;
    SIM_CHECK(CostAt(s, s.x, &cost), "undefined-solution", "the functions are not defined or not finite at the solution, final_cost %g (%s) [%s]", sum.final_cost, sum.message.c_str(), at.c_str());
    SIM_CHECK(std::abs(cost - sum.final_cost) <= 1e-9 * std::max(cost, initial) || cost == sum.final_cost, "final-cost", "final_cost is %.17g, the solution costs %.17g (initially %.17g; %s) [%s]", sum.final_cost, cost, initial, sum.message.c_str(), at.c_str());
    SIM_CHECK(cost <= initial * (1 + 1e-9), "worse", "the cost went from %.17g to %.17g (%s) [%s]", initial, cost, sum.message.c_str(), at.c_str());
    for (size_t i = 0; i < s.x.size(); ++i)
      if (s.frozen[i]) SIM_CHECK(SameBits(s.x[i].data(), start[i].data(), static_cast<int>(s.x[i].size())), "changed", "constant parameter block %zu changed", i);
    for (auto& it : sum.iterations)
      if (it.step_is_successful) SIM_CHECK(std::isfinite(it.cost), "iteration-cost", "successful iteration %d has cost %g [%s]", it.iteration, it.cost, at.c_str());
    sim::Probe(cost < initial ? "extreme.improved" : "extreme.kept");
  }
  if (s.huge > 0) sim::NonTrivial(), sim::Probe("extreme.huge");
  char buf[80];
  snprintf(buf, sizeof buf, "extreme.%s", ceres::TerminationTypeToString(sum.termination_type));
  sim::Probe(buf);
}


SIM_WORKLOAD(C24, evaluate, 3) {
  Scene s;
  {
    sim::Quiet q;
    DrawDefined(&s);
  }
  ceres::Problem problem;
  for (size_t j = 0; j < s.blocks.size(); ++j) {
    std::vector<double*> p;
    for (int i : s.blocks[j].pb) p.push_back(s.x[i].data());
    problem.AddResidualBlock(new SteepCost(&s, static_cast<int>(j)), Loss(s.blocks[j].loss, s.blocks[j].scale), p);
  }
  if (sim::Chance(20)) sim::ArmFault("cost.false", 0.1);
  const int rounds = sim::Range(1, 4);
  for (int r = 0; r < rounds; ++r) {
    {
      sim::Quiet q;
      if (r > 0)
        for (auto& v : s.x)
          for (double& d : v) d += sim::Uniform(-1, 1) * (sim::Chance(10) ? Magnitude() : 1);
      for (auto& v : s.x)
        for (double& d : v)
          if (!std::isfinite(d)) d = 0;
    }
    ceres::Problem::EvaluateOptions eo;
    eo.num_threads = sim::Range(1, 4);
    const int want = 1 + static_cast<int>(sim::Draw(15));
    double cost = 0, expected;
    std::vector<double> res, grad;
    ceres::CRSMatrix jac;
    const long failed = s.failed;
    const bool ok = problem.Evaluate(eo, (want & 1) ? &cost : nullptr, (want & 2) ? &res : nullptr, (want & 4) ? &grad : nullptr, (want & 8) ? &jac : nullptr);
    sim::Quiet q;
    bool smooth = true;
    const bool defined = CostAt(s, s.x, &expected, &smooth);
    sim::Event("evaluate %d %d %d", want, ok, defined);
    if (!ok) {
      // Derivatives may be undefined where the cost is not.
      if (defined && smooth && (want & 12) == 0) SIM_CHECK(s.failed > failed, "refused", "an evaluation failed at a point where everything is defined and the cost is %g", expected);
      sim::Probe("extreme.refused");
      continue;
    }
    SIM_CHECK(defined && s.failed == failed, "undefined", "an evaluation succeeded (cost %g) at a point where the cost is not defined or not finite%s", cost, Dump(s).c_str());
    if (want & 1) SIM_CHECK(Close(cost, expected, 1e-10) || std::abs(cost - expected) <= 1e-12 * std::abs(expected), "cost", "the cost is %.17g instead of %.17g", cost, expected);
    for (double v : res) SIM_CHECK(std::isfinite(v), "non-finite", "a residual is %g although the evaluation succeeded%s", v, Dump(s).c_str());
    // J'r itself can be too large for a double.
    double jm = 0, rm = 0;
    for (double v : res) rm = std::max(rm, std::abs(v));
    for (double v : jac.values) jm = std::max(jm, std::abs(v));
    if ((want & 14) == 14 && jm * rm < 1e300)
      for (double v : grad) SIM_CHECK(std::isfinite(v), "non-finite", "a coordinate of the gradient is %g although the evaluation succeeded%s", v, Dump(s).c_str());
    for (double v : jac.values) SIM_CHECK(std::isfinite(v), "non-finite", "an entry of the Jacobian is %g although the evaluation succeeded%s", v, Dump(s).c_str());
    // One residual block at a time.
    sim::Probe("extreme.evaluated");
  }
  {
    std::vector<ceres::ResidualBlockId> ids;
    problem.GetResidualBlocks(&ids);
    for (auto id : ids) {
      double c = 0;
      const bool ok = problem.EvaluateResidualBlock(id, true, &c, nullptr, nullptr);
      if (ok) SIM_CHECK(std::isfinite(c), "non-finite", "the cost of a residual block is %g although its evaluation succeeded%s", c, Dump(s).c_str());
    }
  }
  if (s.huge > 0) sim::NonTrivial();
}

namespace {

// The cost of a scene as a general function.
class SteepFunction final : public ceres::FirstOrderFunction {
 public:
  explicit SteepFunction(Scene* s) : s_(s) {}
  int NumParameters() const override { return static_cast<int>(s_->x[0].size()); }
  bool Evaluate(const double* p, double* cost, double* g) const override {
    const int n = NumParameters();
    double c = 0;
    std::vector<double> gv(n, 0.0);
    bool ok = true;
    {
      sim::Quiet q;
      for (int i = 0; i < n; ++i) SIM_CHECK(std::isfinite(p[i]), "non-finite-point", "the function is evaluated at coordinate %d = %g", i, p[i]);
      ok = !sim::Fault("fo.false");
      const std::vector<double> x(p, p + n);
      ok = Eval(*s_, x.data(), &c, &gv) && ok;
      if (!(std::abs(c) < 1e150)) ++s_->huge;
      for (double v : gv)
        if (!(std::abs(v) < 1e150)) ++s_->huge;
    }
    sim::Point();
    if (!ok) return false;
    *cost = c;
    if (g)
      for (int i = 0; i < n; ++i) g[i] = gv[i];
    return true;
  }
  static bool Eval(const Scene& s, const double* p, double* c, std::vector<double>* g) {
    *c = 0;
    for (auto& f : s.blocks[0].f) {
      double r = 0, d = 0;
      if (!f.Value(f.U(p), &r, &d)) return false;
      *c += r;
      if (g)
        for (size_t i = 0; i < g->size(); ++i) (*g)[i] += d * f.a[i];
    }
    return true;
  }

 private:
  Scene* s_;
};

}  // namespace

SIM_WORKLOAD(C24, gradient, 4) {
  Scene s;
  ceres::GradientProblemSolver::Options o;
  std::string text;
  double initial = 0;
  {
    sim::Quiet q;
    for (int k = 0; k < 12; ++k) {
      s = Scene();
      s.x.emplace_back();
      const int n = sim::Range(1, 3), m = sim::Range(1, 4);
      for (int i = 0; i < n; ++i) s.x[0].push_back(sim::Uniform(-1, 1));
      s.blocks.emplace_back();
      for (int i = 0; i < m; ++i) s.blocks[0].f.push_back(DrawSteep(n));
      if (SteepFunction::Eval(s, s.x[0].data(), &initial, nullptr) && std::isfinite(initial)) break;
    }
    o.logging_type = ceres::SILENT;
    o.max_num_iterations = sim::Range(1, 30);
    o.line_search_direction_type = static_cast<ceres::LineSearchDirectionType>(sim::Draw(4));
    o.nonlinear_conjugate_gradient_type = static_cast<ceres::NonlinearConjugateGradientType>(sim::Draw(3));
    o.line_search_interpolation_type = static_cast<ceres::LineSearchInterpolationType>(sim::Draw(3));
    if (o.line_search_direction_type < ceres::LBFGS && sim::Chance(40)) o.line_search_type = ceres::ARMIJO;
    text = "direction " + std::to_string(o.line_search_direction_type) + " search " + std::to_string(o.line_search_type) + " interpolation " + std::to_string(o.line_search_interpolation_type);
    if (sim::Chance(30)) o.function_tolerance = o.gradient_tolerance = o.parameter_tolerance = 0;
  }
  sim::State(HashMix(o.line_search_direction_type, s.blocks[0].f.size()));
  if (sim::Chance(30)) sim::ArmFault("fo.false", sim::Chance(50) ? 0.01 : 0.1);
  const auto start = s.x[0];
  ceres::GradientProblemSolver::Summary sum;
  {
    ceres::GradientProblem problem(std::make_unique<SteepFunction>(&s));
    ceres::Solve(o, problem, s.x[0].data(), &sum);
  }
  sim::Quiet q;
  const std::string at = text + Dump(s);
  sim::Event("%s %d %.17g %zu", text.c_str(), sum.termination_type, sum.final_cost, sum.iterations.size());
  for (double d : s.x[0]) SIM_CHECK(std::isfinite(d), "non-finite-solution", "the solution has a coordinate %g [%s]", d, at.c_str());
  if (sum.IsSolutionUsable()) {
    double cost = 0;
    SIM_CHECK(SteepFunction::Eval(s, s.x[0].data(), &cost, nullptr) && std::isfinite(cost), "undefined-solution", "the function is not defined or not finite at the solution, final_cost %g (%s) [%s]", sum.final_cost, sum.message.c_str(), at.c_str());
    SIM_CHECK(cost == sum.final_cost || std::abs(cost - sum.final_cost) <= 1e-12 * std::abs(cost), "final-cost", "final_cost is %.17g, the solution costs %.17g (initially %.17g; %s) [%s]", sum.final_cost, cost, initial, sum.message.c_str(), at.c_str());
    SIM_CHECK(cost <= initial || std::abs(cost - initial) <= 1e-9 * std::abs(initial), "worse", "the cost went from %.17g to %.17g (%s) [%s]", initial, cost, sum.message.c_str(), at.c_str());
    sim::Probe(cost < initial ? "extreme.improved" : "extreme.kept");
  }
  if (s.huge > 0) sim::NonTrivial(), sim::Probe("extreme.huge");
}

SIM_WORKLOAD(C24, covariance, 3) {
  Scene s;
  {
    sim::Quiet q;
    DrawDefined(&s);
  }
  ceres::Problem problem;
  for (size_t j = 0; j < s.blocks.size(); ++j) {
    std::vector<double*> p;
    for (int i : s.blocks[j].pb) p.push_back(s.x[i].data());
    problem.AddResidualBlock(new SteepCost(&s, static_cast<int>(j)), Loss(s.blocks[j].loss, s.blocks[j].scale), p);
  }
  if (sim::Chance(20)) sim::ArmFault("cost.false", 0.1);
  ceres::Covariance::Options o;
  o.num_threads = sim::Range(1, 4);
  o.algorithm_type = sim::Chance(50) ? ceres::DENSE_SVD : ceres::SPARSE_QR;
  if (o.algorithm_type == ceres::DENSE_SVD && sim::Chance(40)) o.null_space_rank = sim::Range(-1, 2);
  if (sim::Chance(40)) o.min_reciprocal_condition_number = 1e-30;
  ceres::Covariance cov(o);
  std::vector<const double*> blocks;
  for (auto& v : s.x)
    if (problem.HasParameterBlock(v.data())) blocks.push_back(v.data());
  const auto start = s.x;
  bool ok;
  try {
    ok = cov.Compute(blocks, &problem);
  } catch (const std::system_error&) {
    return;
  }
  sim::Quiet q;
  for (size_t i = 0; i < s.x.size(); ++i) SIM_CHECK(SameBits(s.x[i].data(), start[i].data(), static_cast<int>(s.x[i].size())), "changed", "a covariance changed parameter block %zu", i);
  sim::Event("covariance %d", ok);
  if (s.huge > 0) sim::NonTrivial();
  if (!ok) {
    sim::Probe("extreme.cov_refused");
    return;
  }
  const auto& cb = blocks;
  int n = 0;
  for (auto& v : s.x)
    if (problem.HasParameterBlock(v.data())) n += static_cast<int>(v.size());
  std::vector<double> m(n * n, -1);
  if (!cov.GetCovarianceMatrix(cb, m.data())) return;
  for (double v : m) SIM_CHECK(!std::isnan(v), "nan-covariance", "the covariance (%s) was computed, but has an entry %g%s", o.algorithm_type == ceres::DENSE_SVD ? "DENSE_SVD" : "SPARSE_QR", v, Dump(s).c_str());
  sim::Probe("extreme.cov");
}

}  // namespace wl
