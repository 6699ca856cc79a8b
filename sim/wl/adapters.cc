// C19: the cost functions, functors, first-order functions and manifolds the
// library builds from user functors, with functors that fail, under concurrent
// use of one object.
#include <cmath>
#include <memory>
#include <thread>

#include "ceres/autodiff_cost_function.h"
#include "ceres/autodiff_first_order_function.h"
#include "ceres/autodiff_manifold.h"
#include "ceres/conditioned_cost_function.h"
#include "ceres/cost_function_to_functor.h"
#include "ceres/dynamic_autodiff_cost_function.h"
#include "ceres/dynamic_cost_function_to_functor.h"
#include "ceres/dynamic_numeric_diff_cost_function.h"
#include "ceres/normal_prior.h"
#include "ceres/numeric_diff_cost_function.h"
#include "ceres/numeric_diff_first_order_function.h"
#include "ceres/product_manifold.h"
#include "prob.h"

namespace {

using namespace wl;
using ceres::CostFunction;
using LD = long double;

// What the user's functors did, per thread.
struct Log {
  std::map<int, long> calls, failed;
  int live = 0, deleted = 0;
  long max_active = 0, active = 0;
};

// r_k = A_k.x + t_k + g_k(B_k.x), with one of several elementary functions.
struct Spec {
  int dim = 1;
  std::vector<int> sizes;
  std::vector<std::vector<double>> A, B;
  std::vector<double> t;
  std::vector<int> fn;
  int total() const {
    int s = 0;
    for (int v : sizes) s += v;
    return s;
  }
};

template <typename T>
T Elementary(int f, const T& u) {
  using std::abs;
  using std::asin;
  using std::atan;
  using std::atan2;
  using std::cbrt;
  using std::cos;
  using std::cosh;
  using std::exp;
  using std::exp2;
  using std::hypot;
  using std::log;
  using std::pow;
  using std::sin;
  using std::sqrt;
  using std::tanh;
  switch (f) {
    case 0: return sin(u);
    case 1: return cos(u) * u;
    case 2: return exp(u * T(0.3));
    case 3: return sqrt(u * u + T(1.0));
    case 4: return atan2(u, u * u + T(1.0));
    case 5: return pow(u * u + T(1.0), T(0.7));
    case 6: return log(u * u + T(1.5));
    case 7: return hypot(u, T(1.0) + u);
    case 8: return tanh(u) / (T(2.0) + cos(u));
    case 9: return asin(T(0.5) * sin(u));
    case 10: return cbrt(u * u + T(1.0)) - atan(u);
    case 11: return cosh(u * T(0.2)) * exp2(u * T(0.1));
    case 12: return T(1.0) / (T(1.0) + u * u) - u;
    default: return u * u * T(0.5);
  }
}

template <typename T>
void Compute(const Spec& s, T const* const* p, T* r) {
  for (int k = 0; k < s.dim; ++k) {
    T a = T(s.t[k]), b = T(0.0);
    int o = 0;
    for (size_t i = 0; i < s.sizes.size(); ++i)
      for (int j = 0; j < s.sizes[i]; ++j, ++o) {
        a += T(s.A[k][o]) * p[i][j];
        b += T(s.B[k][o]) * p[i][j];
      }
    r[k] = a + Elementary(s.fn[k], b);
  }
}

// The user's functor; fault site functor.false (any of its evaluations fails).
struct Fn {
  Fn(const Spec* s, Log* l) : spec(s), log(l) { ++log->live; }
  Fn(const Fn& o) : spec(o.spec), log(o.log) { ++log->live; }
  ~Fn() {
    --log->live;
    ++log->deleted;
  }
  bool Enter() const {
    sim::Quiet q;
    ++log->calls[sim::Self()];
    if (++log->active > log->max_active) log->max_active = log->active;
    if (!sim::Fault("functor.false")) return true;
    ++log->failed[sim::Self()];
    return false;
  }
  void Leave() const {
    sim::Quiet q;
    --log->active;
  }
  template <typename T>
  bool operator()(T const* const* p, T* r) const {
    const bool ok = Enter();
    sim::Point();
    if (ok) {
      // The outputs are no place where inputs may still be expected.
      for (int k = 0; k < spec->dim; ++k) r[k] = T(-7.0);
      Compute(*spec, p, r);
    } else r[0] = T(12345.0);
    sim::Point();
    Leave();
    return ok;
  }
  template <typename T>
  bool operator()(const T* a, const T* b, T* r) const {
    const T* p[2] = {a, b};
    return (*this)(p, r);
  }
  template <typename T>
  bool operator()(const T* a, const T* b, const T* c, T* r) const {
    const T* p[3] = {a, b, c};
    return (*this)(p, r);
  }
  const Spec* spec;
  Log* log;
};
// Only for doubles (numeric differentiation of opaque code).
struct FnD {
  FnD(const Spec* s, Log* l) : f(s, l) {}
  bool operator()(double const* const* p, double* r) const { return f(p, r); }
  bool operator()(const double* a, const double* b, double* r) const { return f(a, b, r); }
  bool operator()(const double* a, const double* b, const double* c, double* r) const { return f(a, b, c, r); }
  Fn f;
};

// A functor built around a cost function: r_i = inner_i(2a + 0.1 a^2, b) * 0.5 + inner_0.
template <typename T>
T Pre(const T& v) {
  return v * T(2.0) + v * v * T(0.1);
}
struct Outer {
  explicit Outer(CostFunction* inner) : f(inner) {}
  template <typename T>
  bool operator()(const T* a, const T* b, T* r) const {
    const T y[2] = {Pre(a[0]), Pre(a[1])};
    T tmp[2];
    if (!f(y, b, tmp)) return false;
    r[0] = tmp[0] * T(0.5) + tmp[0];
    r[1] = tmp[1] * T(0.5) + tmp[0];
    return true;
  }
  ceres::CostFunctionToFunctor<2, 2, 3> f;
};
struct DynOuter {
  DynOuter(CostFunction* inner, const Spec* s) : f(inner), spec(s) {}
  template <typename T>
  bool operator()(T const* const* p, T* r) const {
    std::vector<T> y;
    std::vector<T*> q;
    y.reserve(spec->total());
    for (size_t i = 0; i < spec->sizes.size(); ++i) {
      q.push_back(y.data() + y.size());
      for (int j = 0; j < spec->sizes[i]; ++j) y.push_back(Pre(p[i][j]));
    }
    std::vector<T> tmp(spec->dim);
    if (!f(q.data(), tmp.data())) return false;
    for (int k = 0; k < spec->dim; ++k) r[k] = tmp[k] * T(0.5) + tmp[0];
    return true;
  }
  ceres::DynamicCostFunctionToFunctor f;
  const Spec* spec;
};

// Reference: residuals in long double, derivatives by Richardson extrapolation.
using RefFn = std::function<void(const std::vector<LD>& x, std::vector<LD>* r)>;
void Derivatives(const RefFn& f, const std::vector<double>& x0, int dim, std::vector<LD>* r, std::vector<std::vector<LD>>* J) {
  std::vector<LD> x(x0.begin(), x0.end());
  r->assign(dim, 0);
  f(x, r);
  J->assign(dim, std::vector<LD>(x.size(), 0));
  for (size_t j = 0; j < x.size(); ++j) {
    const LD x_j = x[j];
    std::vector<LD> D[3];
    for (int l = 0; l < 3; ++l) {
      const LD h = 2e-3L / (1 << l);
      std::vector<LD> p(dim), m(dim);
      x[j] = x_j + h;
      f(x, &p);
      x[j] = x_j - h;
      f(x, &m);
      D[l].resize(dim);
      for (int k = 0; k < dim; ++k) D[l][k] = (p[k] - m[k]) / (2 * h);
    }
    x[j] = x_j;
    for (int k = 0; k < dim; ++k) {
      const LD a = (4 * D[1][k] - D[0][k]) / 3, b = (4 * D[2][k] - D[1][k]) / 3;
      (*J)[k][j] = (16 * b - a) / 15;
    }
  }
}

void DrawSpec(Spec* s, const std::vector<int>& sizes, int dim) {
  s->dim = dim;
  s->sizes = sizes;
  const int n = s->total();
  for (int k = 0; k < dim; ++k) {
    s->A.emplace_back();
    s->B.emplace_back();
    for (int j = 0; j < n; ++j) {
      s->A[k].push_back(sim::Uniform(-1, 1));
      s->B[k].push_back(sim::Uniform(-0.5, 0.5));
    }
    s->t.push_back(sim::Uniform(-1, 1));
    s->fn.push_back(static_cast<int>(sim::Draw(14)));
  }
}
RefFn SpecFn(const Spec* s) {
  return [s](const std::vector<LD>& x, std::vector<LD>* r) {
    std::vector<const LD*> p;
    int o = 0;
    for (int v : s->sizes) {
      p.push_back(x.data() + o);
      o += v;
    }
    Compute<LD>(*s, p.data(), r->data());
  };
}
RefFn OuterFn(const RefFn& in, std::vector<bool> pre) {
  return [in, pre](const std::vector<LD>& x, std::vector<LD>* r) {
    std::vector<LD> y(x.size()), tmp(r->size());
    for (size_t i = 0; i < x.size(); ++i) y[i] = pre[i] ? Pre(x[i]) : x[i];
    in(y, &tmp);
    for (size_t k = 0; k < r->size(); ++k) (*r)[k] = tmp[k] * 0.5L + tmp[0];
  };
}

struct Case {
  std::string name;
  Spec spec;
  std::vector<int> sizes;
  int dim = 0;
  RefFn ref;
  double tol_r = 1e-13, tol_j = 1e-11;
  bool derivative_is_separate = false;
  std::unique_ptr<CostFunction> fn;
  std::vector<std::unique_ptr<Fn>> kept;    // functors the user keeps
  std::vector<std::unique_ptr<FnD>> kept_d;
  std::vector<std::unique_ptr<CostFunction>> kept_cf;
  std::vector<std::unique_ptr<Spec>> more;
};

// Ridders' error estimate can be fooled by functions with poles near the real axis.
void Entire(Spec* s) {
  static const int entire[] = {0, 1, 2, 13};
  for (int& f : s->fn) f = entire[f % 4];
}
double NumTol(ceres::NumericDiffMethodType m) { return m == ceres::FORWARD ? 2e-4 : m == ceres::CENTRAL ? 1e-6 : 1e-6; }

template <ceres::NumericDiffMethodType M>
CostFunction* Numeric(Case* c, Log* log, int kind, bool keep) {
  ceres::NumericDiffOptions o;
  const ceres::Ownership own = keep ? ceres::DO_NOT_TAKE_OWNERSHIP : ceres::TAKE_OWNERSHIP;
  if (M == ceres::RIDDERS) Entire(&c->spec);
  auto* f = new FnD(&c->spec, log);
  if (keep) c->kept_d.emplace_back(f);
  c->tol_j = NumTol(M);
  if (kind == 0) return new ceres::NumericDiffCostFunction<FnD, M, 2, 2, 3>(f, own, 2, o);
  if (kind == 1) return new ceres::NumericDiffCostFunction<FnD, M, ceres::DYNAMIC, 3, 1, 2>(f, own, c->dim, o);
  auto* d = new ceres::DynamicNumericDiffCostFunction<FnD, M>(f, own, o);
  for (int s : c->sizes) d->AddParameterBlock(s);
  d->SetNumResiduals(c->dim);
  return d;
}
template <int Stride>
CostFunction* DynAuto(Case* c, Log* log, bool keep) {
  auto* f = new Fn(&c->spec, log);
  if (keep) c->kept.emplace_back(f);
  auto* d = new ceres::DynamicAutoDiffCostFunction<Fn, Stride>(f, keep ? ceres::DO_NOT_TAKE_OWNERSHIP : ceres::TAKE_OWNERSHIP);
  for (int s : c->sizes) d->AddParameterBlock(s);
  d->SetNumResiduals(c->dim);
  return d;
}

void Make(Case* c, Log* log, bool nested);

// A conditioner written by hand: residual first, derivative from the parameter.
struct OneByOne final : CostFunction {
  OneByOne(const Spec* s, Log* l) : f(s, l) {
    mutable_parameter_block_sizes()->push_back(1);
    set_num_residuals(1);
  }
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    if (!f(p, r)) return false;
    if (!J || !J[0]) return true;
    std::vector<LD> rr;
    std::vector<std::vector<LD>> D;
    sim::Point();
    sim::Quiet q;
    Derivatives(SpecFn(f.spec), {p[0][0]}, 1, &rr, &D);
    J[0][0] = static_cast<double>(D[0][0]);
    return true;
  }
  Fn f;
};

// One residual through a one-by-one cost function.
struct Condition {
  std::unique_ptr<Spec> spec;
  CostFunction* fn;
};

void MakeConditioned(Case* c, Log* log) {
  auto inner = std::make_unique<Case>();
  Make(inner.get(), log, true);
  c->name = "Conditioned(" + inner->name + ")";
  c->sizes = inner->sizes;
  c->dim = inner->dim;
  c->tol_j = inner->tol_j * 4;
  c->tol_r = inner->tol_r * 4;
  const bool own = sim::Chance(60);
  std::vector<CostFunction*> cond;
  std::vector<const Spec*> specs;
  for (int k = 0; k < c->dim; ++k) {
    const int what = static_cast<int>(sim::Draw(3));
    if (what == 0) {
      cond.push_back(nullptr);
      specs.push_back(nullptr);
    } else if (what == 1 && k > 0 && cond[k - 1]) {
      cond.push_back(cond[k - 1]);  // conditioners can repeat
      specs.push_back(specs[k - 1]);
    } else {
      auto s = std::make_unique<Spec>();
      DrawSpec(s.get(), {1}, 1);
      CostFunction* one;
      if (sim::Chance(50)) {
        one = new OneByOne(s.get(), log);
      } else {
        auto* d = new ceres::DynamicAutoDiffCostFunction<Fn, 1>(new Fn(s.get(), log));
        d->AddParameterBlock(1);
        d->SetNumResiduals(1);
        one = d;
      }
      cond.push_back(one);
      specs.push_back(s.get());
      c->more.push_back(std::move(s));
      if (!own) c->kept_cf.emplace_back(one);
    }
  }
  CostFunction* in = inner->fn.release();
  if (!own) c->kept_cf.emplace_back(in);
  c->fn = std::make_unique<ceres::ConditionedCostFunction>(in, cond, own ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP);
  std::shared_ptr<Case> hold(std::move(inner));
  c->ref = [hold, specs](const std::vector<LD>& x, std::vector<LD>* r) {
    hold->ref(x, r);
    for (size_t k = 0; k < r->size(); ++k)
      if (specs[k]) {
        const LD v = (*r)[k];
        const LD* p[1] = {&v};
        LD out;
        Compute<LD>(*specs[k], p, &out);
        (*r)[k] = out;
      }
  };
}

void Make(Case* c, Log* log, bool nested) {
  const int kind = static_cast<int>(sim::Draw(nested ? 7 : 11));
  const bool keep = !nested && sim::Chance(25);
  auto fixed = [&](int which) {
    c->dim = which == 0 ? 2 : sim::Range(1, 25);
    if (which == 1 && !sim::Chance(10)) c->dim = sim::Range(1, 3);
    c->sizes = which == 0 ? std::vector<int>{2, 3} : std::vector<int>{3, 1, 2};
    DrawSpec(&c->spec, c->sizes, c->dim);
    c->ref = SpecFn(&c->spec);
  };
  auto random = [&]() {
    c->dim = sim::Range(1, 3);
    c->sizes.clear();
    const int n = sim::Range(1, 4);
    for (int i = 0; i < n; ++i) c->sizes.push_back(sim::Range(1, 4));
    DrawSpec(&c->spec, c->sizes, c->dim);
    c->ref = SpecFn(&c->spec);
  };
  switch (kind) {
    case 0:
    case 1: {
      fixed(kind);
      c->name = kind ? "AutoDiffCostFunction<DYNAMIC,3,1,2>" : "AutoDiffCostFunction<2,2,3>";
      auto* f = new Fn(&c->spec, log);
      if (keep) c->kept.emplace_back(f);
      const ceres::Ownership own = keep ? ceres::DO_NOT_TAKE_OWNERSHIP : ceres::TAKE_OWNERSHIP;
      if (kind == 0) c->fn = std::make_unique<ceres::AutoDiffCostFunction<Fn, 2, 2, 3>>(f, own);
      else c->fn = std::make_unique<ceres::AutoDiffCostFunction<Fn, ceres::DYNAMIC, 3, 1, 2>>(f, c->dim, own);
      break;
    }
    case 2:
    case 3:
    case 4: {
      if (kind == 4) random();
      else fixed(kind - 2);
      const int m = static_cast<int>(sim::Draw(3));
      c->name = std::string(kind == 4 ? "Dynamic" : "") + "NumericDiffCostFunction " + (m == 0 ? "CENTRAL" : m == 1 ? "FORWARD" : "RIDDERS");
      CostFunction* f = m == 0 ? Numeric<ceres::CENTRAL>(c, log, kind - 2, keep) : m == 1 ? Numeric<ceres::FORWARD>(c, log, kind - 2, keep) : Numeric<ceres::RIDDERS>(c, log, kind - 2, keep);
      c->fn.reset(f);
      break;
    }
    case 5:
    case 6: {
      random();
      const int stride = sim::Range(1, 5);
      c->name = "DynamicAutoDiffCostFunction stride " + std::to_string(stride);
      CostFunction* f = nullptr;
      switch (stride) {
        case 1: f = DynAuto<1>(c, log, keep); break;
        case 2: f = DynAuto<2>(c, log, keep); break;
        case 3: f = DynAuto<3>(c, log, keep); break;
        case 4: f = DynAuto<4>(c, log, keep); break;
        default: f = DynAuto<7>(c, log, keep);
      }
      c->fn.reset(f);
      break;
    }
    case 7: {
      fixed(0);
      c->name = "AutoDiff of CostFunctionToFunctor";
      CostFunction* in;
      if (sim::Chance(50)) in = new ceres::AutoDiffCostFunction<Fn, 2, 2, 3>(new Fn(&c->spec, log));
      else in = Numeric<ceres::CENTRAL>(c, log, 0, false);
      c->tol_j *= 10;
      c->fn = std::make_unique<ceres::AutoDiffCostFunction<Outer, 2, 2, 3>>(new Outer(in));
      c->ref = OuterFn(c->ref, {true, true, false, false, false});
      break;
    }
    case 8: {
      random();
      c->name = "DynamicAutoDiff of DynamicCostFunctionToFunctor";
      CostFunction* in = sim::Chance(50) ? DynAuto<3>(c, log, false) : Numeric<ceres::CENTRAL>(c, log, 2, false);
      auto* d = new ceres::DynamicAutoDiffCostFunction<DynOuter, 3>(new DynOuter(in, &c->spec));
      for (int s : c->sizes) d->AddParameterBlock(s);
      d->SetNumResiduals(c->dim);
      c->fn.reset(d);
      c->tol_j *= 10;
      c->ref = OuterFn(c->ref, std::vector<bool>(c->spec.total(), true));
      break;
    }
    case 9: {
      const int n = sim::Range(1, 4), m = sim::Range(1, 3);
      c->name = "NormalPrior";
      c->sizes = {n};
      c->dim = m;
      ceres::Matrix A(m, n);
      ceres::Vector b(n);
      std::vector<double> av, bv;
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) av.push_back(A(i, j) = sim::Uniform(-1, 1));
      for (int j = 0; j < n; ++j) bv.push_back(b[j] = sim::Uniform(-1, 1));
      c->fn = std::make_unique<ceres::NormalPrior>(A, b);
      c->ref = [=](const std::vector<LD>& x, std::vector<LD>* r) {
        for (int i = 0; i < m; ++i) {
          (*r)[i] = 0;
          for (int j = 0; j < n; ++j) (*r)[i] += static_cast<LD>(av[i * n + j]) * (x[j] - bv[j]);
        }
      };
      break;
    }
    default: MakeConditioned(c, log);
  }
}

double Canary(int i) { return -7.25e33 - i; }

// One evaluation at a drawn point with a drawn subset of Jacobians.
void Exercise(const Case& c, const CostFunction& fn, Log* log, uint64_t seed) {
  std::vector<std::vector<double>> x;
  std::vector<double> flat;
  std::vector<const double*> p;
  std::vector<double> r;
  std::vector<std::vector<double>> J;
  std::vector<double*> jp;
  bool want;
  long f0;
  const int pad = 4;
  {
    sim::Quiet q;
    uint64_t s = seed;
    auto next = [&]() {
      s = HashMix(s, 12345);
      return s >> 11;
    };
    want = next() % 5 != 0;
    for (size_t b = 0; b < c.sizes.size(); ++b) {
      x.emplace_back();
      for (int i = 0; i < c.sizes[b]; ++i) {
        const double v = next() % 9 == 0 ? 0.0 : static_cast<double>(next() % 4000) / 1000 - 2;
        x[b].push_back(v);
        flat.push_back(v);
      }
    }
    for (auto& v : x) p.push_back(v.data());
    r.assign(c.dim + pad, 0);
    for (size_t i = 0; i < r.size(); ++i) r[i] = Canary(static_cast<int>(i));
    for (size_t b = 0; b < c.sizes.size(); ++b) {
      J.emplace_back(c.sizes[b] * c.dim + pad);
      for (size_t i = 0; i < J[b].size(); ++i) J[b][i] = Canary(static_cast<int>(i));
    }
    const bool all = next() % 3 == 0;
    for (auto& m : J) jp.push_back(all || next() % 3 ? m.data() : nullptr);
    f0 = log->failed[sim::Self()];
  }
  const bool ok = fn.Evaluate(p.data(), r.data(), want ? jp.data() : nullptr);
  sim::Quiet q;
  const bool failed = log->failed[sim::Self()] != f0;
  SIM_CHECK(ok == !failed, failed ? "failure-hidden" : "unexpected-failure", "%s: Evaluate returned %d, the user's functor %s", c.name.c_str(), ok, failed ? "failed in one of its evaluations" : "never failed");
  if (failed) {
    sim::Probe("adapter.failed");
    sim::NonTrivial();
  }
  int o = 0;
  for (size_t b = 0; b < x.size(); ++b)
    for (size_t i = 0; i < x[b].size(); ++i) SIM_CHECK(Bits(x[b][i]) == Bits(flat[o++]), "parameters-modified", "%s modified its parameter block %zu", c.name.c_str(), b);
  for (int i = 0; i < pad; ++i) {
    SIM_CHECK(r[c.dim + i] == Canary(c.dim + i), "overrun", "%s wrote behind its residuals", c.name.c_str());
    for (size_t b = 0; b < J.size(); ++b) SIM_CHECK(J[b][c.sizes[b] * c.dim + i] == Canary(c.sizes[b] * c.dim + i), "overrun", "%s wrote behind the Jacobian of block %zu", c.name.c_str(), b);
  }
  for (size_t b = 0; b < J.size(); ++b)
    if (!want || !jp[b])
      for (size_t i = 0; i < J[b].size(); ++i) SIM_CHECK(J[b][i] == Canary(static_cast<int>(i)), "unrequested", "%s wrote a Jacobian that was not requested (block %zu)", c.name.c_str(), b);
  if (!ok) return;
  std::vector<LD> rr;
  std::vector<std::vector<LD>> JJ;
  Derivatives(c.ref, flat, c.dim, &rr, &JJ);
  for (int k = 0; k < c.dim; ++k) SIM_CHECK(std::abs(r[k] - static_cast<double>(rr[k])) <= c.tol_r * (1 + std::abs(static_cast<double>(rr[k]))), "residual", "%s: residual %d is %.17g, expected %.17g", c.name.c_str(), k, r[k], static_cast<double>(rr[k]));
  if (!want) return;
  o = 0;
  for (size_t b = 0; b < J.size(); ++b)
    for (int i = 0; i < c.sizes[b]; ++i, ++o) {
      if (!jp[b]) continue;
      for (int k = 0; k < c.dim; ++k) {
        const double g = J[b][k * c.sizes[b] + i], e = static_cast<double>(JJ[k][o]);
        SIM_CHECK(std::abs(g - e) <= c.tol_j * (1 + std::abs(e)), "jacobian", "%s: derivative of residual %d by block %zu [%d] is %.17g, expected %.17g", c.name.c_str(), k, b, i, g, e);
      }
    }
  sim::Probe("adapter.verified");
}

}  // namespace

SIM_WORKLOAD(C19, cost, 10) {
  Log log;
  uint64_t live0;
  {
    Case c;
    {
      sim::Quiet q;
      Make(&c, &log, false);
    }
    SIM_CHECK(c.fn->num_residuals() == c.dim && std::vector<int>(c.fn->parameter_block_sizes().begin(), c.fn->parameter_block_sizes().end()) == c.sizes, "sizes", "%s reports other sizes than it was given", c.name.c_str());
    static const double rates[] = {0, 0.05, 0.3};
    const double rate = rates[sim::Draw(3)];
    if (rate > 0) sim::ArmFault("functor.false", rate);
    const int nt = sim::Range(1, 3), rounds = sim::Range(1, 3);
    const uint64_t seed = sim::Draw(1 << 20);
    sim::Event("%s", c.name.c_str());
    sim::State(HashMix(std::hash<std::string>()(c.name), nt));
    auto user = [&](int t) {
      for (int k = 0; k < rounds; ++k) Exercise(c, *c.fn, &log, HashMix(seed, t * 16 + k));
    };
    std::vector<std::thread> threads;
    for (int t = 1; t < nt; ++t) threads.emplace_back(user, t);
    user(0);
    for (auto& t : threads) t.join();
    if (log.max_active > 1) {
      sim::Probe("adapter.concurrent");
      sim::NonTrivial();
    }
    sim::Quiet q;
    // Whoever owns the functors deletes them.
    c.fn.reset();
    const int kept = static_cast<int>(c.kept.size() + c.kept_d.size());
    if (c.kept_cf.empty()) SIM_CHECK(log.live == kept, "ownership", "%s: %d functors are left after its destruction, the user owns %d", c.name.c_str(), log.live, kept);
    else SIM_CHECK(log.deleted == 0, "ownership", "%s deleted %d functors it does not own", c.name.c_str(), log.deleted);
  }
  SIM_CHECK(log.live == 0, "ownership", "%d functors were never deleted", log.live);
  (void)live0;
}

// One cost function object in several residual blocks of one problem, which is
// evaluated by several threads.
SIM_WORKLOAD(C19, shared, 5) {
  Log log;
  {
    Case c;
    {
      sim::Quiet q;
      Make(&c, &log, false);
    }
    sim::Event("%s", c.name.c_str());
    const int blocks = sim::Range(2, 6);
    std::vector<std::vector<std::vector<double>>> x(blocks);
    {
      sim::Quiet q;
      for (auto& b : x)
        for (int s : c.sizes) {
          b.emplace_back();
          for (int i = 0; i < s; ++i) b.back().push_back(sim::Uniform(-2, 2));
        }
    }
    ceres::Problem::Options po;
    po.cost_function_ownership = sim::Chance(70) ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
    auto problem = std::make_unique<ceres::Problem>(po);
    std::vector<ceres::ResidualBlockId> ids;
    for (auto& b : x) {
      std::vector<double*> p;
      for (auto& v : b) p.push_back(v.data());
      ids.push_back(problem->AddResidualBlock(c.fn.get(), nullptr, p));
    }
    CostFunction* raw = c.fn.get();
    if (po.cost_function_ownership == ceres::TAKE_OWNERSHIP) c.fn.release();
    static const double rates[] = {0, 0.03, 0.2};
    const double rate = rates[sim::Draw(3)];
    if (rate > 0) sim::ArmFault("functor.false", rate);
    const int rounds = sim::Range(1, 2);
    for (int k = 0; k < rounds; ++k) {
      ceres::Problem::EvaluateOptions eo;
      eo.num_threads = sim::Range(1, 4);
      long f0 = 0, f1 = 0;
      for (auto& [t, n] : log.failed) f0 += n;
      double cost = 0;
      std::vector<double> res, grad;
      ceres::CRSMatrix J;
      const bool ok = problem->Evaluate(eo, &cost, &res, &grad, &J);
      sim::Quiet q;
      for (auto& [t, n] : log.failed) f1 += n;
      SIM_CHECK(ok == (f0 == f1), f0 == f1 ? "unexpected-failure" : "failure-hidden", "%s: Problem::Evaluate returned %d, the functor %s", c.name.c_str(), ok, f0 == f1 ? "never failed" : "failed");
      if (log.max_active > 1) sim::NonTrivial();
      if (f0 != f1) sim::NonTrivial();
      if (!ok) continue;
      const int per = std::accumulate(c.sizes.begin(), c.sizes.end(), 0);
      double want = 0;
      for (int b = 0; b < blocks; ++b) {
        std::vector<double> flat;
        for (auto& v : x[b]) flat.insert(flat.end(), v.begin(), v.end());
        std::vector<LD> rr;
        std::vector<std::vector<LD>> JJ;
        Derivatives(c.ref, flat, c.dim, &rr, &JJ);
        for (int i = 0; i < c.dim; ++i) {
          want += 0.5 * static_cast<double>(rr[i] * rr[i]);
          const double e = static_cast<double>(rr[i]);
          SIM_CHECK(std::abs(res[b * c.dim + i] - e) <= c.tol_r * (1 + std::abs(e)), "residual", "%s: residual %d of block %d is %.17g, expected %.17g", c.name.c_str(), i, b, res[b * c.dim + i], e);
          const int row = b * c.dim + i;
          for (int z = J.rows[row]; z < J.rows[row + 1]; ++z) {
            const double g = static_cast<double>(JJ[i][J.cols[z] - b * per]);
            SIM_CHECK(std::abs(J.values[z] - g) <= c.tol_j * (1 + std::abs(g)), "jacobian", "%s: derivative of residual %d of block %d is %.17g, expected %.17g", c.name.c_str(), i, b, J.values[z], g);
          }
        }
      }
      SIM_CHECK(std::abs(cost - want) <= 1e-11 * (1 + want), "cost", "%s: the cost is %.17g, expected %.17g", c.name.c_str(), cost, want);
      sim::Probe("shared.verified");
    }
    sim::FaultsOff();
    // Removing one residual block leaves the cost function to the others.
    problem->RemoveResidualBlock(ids[static_cast<int>(sim::Draw(blocks))]);
    {
      sim::Quiet q;
      const long d0 = log.deleted;
      SIM_CHECK(d0 == log.deleted && raw != nullptr, "ownership", "unreachable");
    }
    double cost = 0;
    SIM_CHECK(problem->Evaluate(ceres::Problem::EvaluateOptions(), &cost, nullptr, nullptr, nullptr), "unexpected-failure", "the remaining residual blocks cannot be evaluated");
    sim::Quiet q;
    problem.reset();
    if (po.cost_function_ownership == ceres::DO_NOT_TAKE_OWNERSHIP) SIM_CHECK(log.deleted == 0, "ownership", "the problem deleted a cost function it does not own");
    c.fn.reset();
    const int kept = static_cast<int>(c.kept.size() + c.kept_d.size());
    if (c.kept_cf.empty()) SIM_CHECK(log.live == kept, "ownership", "%s: %d functors are left, the user owns %d", c.name.c_str(), log.live, kept);
  }
  SIM_CHECK(log.live == 0, "ownership", "%d functors were never deleted", log.live);
}

// ---------------------------------------------------------------------------
// First-order functions and manifolds.
// ---------------------------------------------------------------------------
namespace {

struct Scalar {
  Scalar(const Spec* s, Log* l) : f(s, l) {}
  template <typename T>
  bool operator()(const T* x, T* cost) const {
    const T* p[1] = {x};
    return f(p, cost);
  }
  Fn f;
};

// Plus(x, d) = x + exp-scaled d on the first two coordinates, x2 += d0 * d1 + d1.
struct PlusMinus {
  PlusMinus(const Spec* s, Log* l) : f(s, l) {}
  template <typename T>
  bool Plus(const T* x, const T* d, T* y) const {
    const bool ok = f.Enter();
    sim::Point();
    Out(x, d, y);
    f.Leave();
    return ok;
  }
  template <typename T>
  static void Out(const T* x, const T* d, T* y) {
    using std::sin;
    y[0] = x[0] + T(2.0) * d[0] + sin(d[1]) * x[1];
    y[1] = x[1] + d[1];
    y[2] = x[2] + d[1] * T(3.0) + d[0] * d[1];
  }
  template <typename T>
  bool Minus(const T* y, const T* x, T* d) const {
    const bool ok = f.Enter();
    sim::Point();
    Diff(y, x, d);
    f.Leave();
    return ok;
  }
  template <typename T>
  static void Diff(const T* y, const T* x, T* d) {
    using std::sin;
    d[1] = y[1] - x[1];
    d[0] = (y[0] - x[0] - sin(d[1]) * x[1]) * T(0.5);
  }
  Fn f;
};

}  // namespace

SIM_WORKLOAD(C19, first_order, 3) {
  Log log;
  {
    Spec spec;
    const int n = 4;
    {
      sim::Quiet q;
      DrawSpec(&spec, {n}, 1);
    }
    const int kind = static_cast<int>(sim::Draw(5));
    std::unique_ptr<ceres::FirstOrderFunction> fn;
    std::unique_ptr<Scalar> keep;
    double tol = 1e-11;
    const char* name = "AutoDiffFirstOrderFunction";
    switch (kind) {
      case 0: fn = std::make_unique<ceres::AutoDiffFirstOrderFunction<Scalar, n>>(new Scalar(&spec, &log)); break;
      case 1:
        keep = std::make_unique<Scalar>(&spec, &log);
        fn = std::make_unique<ceres::AutoDiffFirstOrderFunction<Scalar, n>>(keep.get(), ceres::DO_NOT_TAKE_OWNERSHIP);
        break;
      case 2:
        fn = std::make_unique<ceres::NumericDiffFirstOrderFunction<Scalar, ceres::CENTRAL, n>>(std::make_unique<Scalar>(&spec, &log));
        tol = NumTol(ceres::CENTRAL);
        name = "NumericDiffFirstOrderFunction CENTRAL";
        break;
      case 3:
        fn = std::make_unique<ceres::NumericDiffFirstOrderFunction<Scalar, ceres::RIDDERS>>(std::make_unique<Scalar>(&spec, &log), n);
        tol = NumTol(ceres::RIDDERS);
        Entire(&spec);
        name = "NumericDiffFirstOrderFunction RIDDERS";
        break;
      default:
        fn = std::make_unique<ceres::NumericDiffFirstOrderFunction<Scalar, ceres::FORWARD>>(std::make_unique<Scalar>(&spec, &log), n);
        tol = NumTol(ceres::FORWARD);
        name = "NumericDiffFirstOrderFunction FORWARD";
    }
    SIM_CHECK(fn->NumParameters() == n, "sizes", "%s reports %d parameters", name, fn->NumParameters());
    static const double rates[] = {0, 0.1, 0.4};
    const double rate = rates[sim::Draw(3)];
    if (rate > 0) sim::ArmFault("functor.false", rate);
    const int nt = sim::Range(1, 3), rounds = sim::Range(1, 3);
    const uint64_t seed = sim::Draw(1 << 20);
    auto user = [&](int t) {
      for (int k = 0; k < rounds; ++k) {
        double x[n], g[n + 2], cost = Canary(0);
        uint64_t s = HashMix(seed, t * 8 + k);
        long f0;
        std::vector<double> flat;
        {
          sim::Quiet q;
          for (int i = 0; i < n; ++i) {
            s = HashMix(s, 7);
            x[i] = static_cast<double>((s >> 11) % 4000) / 1000 - 2;
            flat.push_back(x[i]);
          }
          for (int i = 0; i < n + 2; ++i) g[i] = Canary(i);
          f0 = log.failed[sim::Self()];
        }
        const bool want = s % 4 != 0;
        const bool ok = fn->Evaluate(x, &cost, want ? g : nullptr);
        sim::Quiet q;
        const bool failed = log.failed[sim::Self()] != f0;
        if (failed || log.max_active > 1) sim::NonTrivial();
        SIM_CHECK(ok == !failed, failed ? "failure-hidden" : "unexpected-failure", "%s: Evaluate returned %d, the user's functor %s", name, ok, failed ? "failed" : "never failed");
        for (int i = 0; i < n; ++i) SIM_CHECK(Bits(x[i]) == Bits(flat[i]), "parameters-modified", "%s modified its parameters", name);
        for (int i = want ? n : 0; i < n + 2; ++i) SIM_CHECK(g[i] == Canary(i), "overrun", "%s wrote gradient entry %d of %d", name, i, n);
        if (!ok) continue;
        std::vector<LD> rr;
        std::vector<std::vector<LD>> JJ;
        Derivatives(SpecFn(&spec), flat, 1, &rr, &JJ);
        SIM_CHECK(std::abs(cost - static_cast<double>(rr[0])) <= 1e-13 * (1 + std::abs(cost)), "residual", "%s: the cost is %.17g, expected %.17g", name, cost, static_cast<double>(rr[0]));
        for (int i = 0; want && i < n; ++i) SIM_CHECK(std::abs(g[i] - static_cast<double>(JJ[0][i])) <= tol * (1 + std::abs(g[i])), "jacobian", "%s: derivative %d is %.17g, expected %.17g", name, i, g[i], static_cast<double>(JJ[0][i]));
        sim::Probe("first_order.verified");
      }
    };
    std::vector<std::thread> threads;
    for (int t = 1; t < nt; ++t) threads.emplace_back(user, t);
    user(0);
    for (auto& t : threads) t.join();
    sim::Quiet q;
    fn.reset();
    SIM_CHECK(log.live == (keep ? 1 : 0), "ownership", "%s: %d functors are left", name, log.live);
  }
}

SIM_WORKLOAD(C19, manifold, 3) {
  Log log;
  {
    Spec spec;
    {
      sim::Quiet q;
      DrawSpec(&spec, {1}, 1);
    }
    // AutoDiffManifold by itself or as part of a product.
    using AM = ceres::AutoDiffManifold<PlusMinus, 3, 2>;
    const int kind = static_cast<int>(sim::Draw(3));
    std::unique_ptr<ceres::Manifold> mf;
    int ambient = 3, tangent = 2, off_a = 0, off_t = 0;
    if (kind == 0) {
      mf = std::make_unique<AM>(new PlusMinus(&spec, &log));
    } else if (kind == 1) {
      mf = std::make_unique<ceres::ProductManifold<ceres::EuclideanManifold<2>, std::unique_ptr<AM>>>(ceres::EuclideanManifold<2>{}, std::make_unique<AM>(new PlusMinus(&spec, &log)));
      ambient = 5, tangent = 4, off_a = off_t = 2;
    } else {
      mf = std::make_unique<ceres::ProductManifold<ceres::SubsetManifold, std::unique_ptr<AM>, ceres::SubsetManifold>>(ceres::SubsetManifold(3, {1}), std::make_unique<AM>(new PlusMinus(&spec, &log)), ceres::SubsetManifold(2, {0}));
      ambient = 8, tangent = 5, off_a = 3, off_t = 2;
    }
    SIM_CHECK(mf->AmbientSize() == ambient && mf->TangentSize() == tangent, "sizes", "the manifold has sizes %d and %d", mf->AmbientSize(), mf->TangentSize());
    auto ref_plus = [&](const std::vector<LD>& x, const std::vector<LD>& d) {
      std::vector<LD> y = x;
      PlusMinus::Out<LD>(&x[off_a], &d[off_t], &y[off_a]);
      if (kind == 1)
        for (int i = 0; i < 2; ++i) y[i] = x[i] + d[i];
      if (kind == 2) {
        y[0] = x[0] + d[0];
        y[2] = x[2] + d[1];
        y[7] = x[7] + d[4];
      }
      return y;
    };
    auto ref_minus = [&](const std::vector<LD>& y, const std::vector<LD>& x) {
      std::vector<LD> d(tangent);
      PlusMinus::Diff<LD>(&y[off_a], &x[off_a], &d[off_t]);
      if (kind == 1)
        for (int i = 0; i < 2; ++i) d[i] = y[i] - x[i];
      if (kind == 2) {
        d[0] = y[0] - x[0];
        d[1] = y[2] - x[2];
        d[4] = y[7] - x[7];
      }
      return d;
    };
    static const double rates[] = {0, 0.1, 0.4};
    const double rate = rates[sim::Draw(3)];
    if (rate > 0) sim::ArmFault("functor.false", rate);
    const int nt = sim::Range(1, 3), rounds = sim::Range(1, 4);
    const uint64_t seed = sim::Draw(1 << 20);
    auto user = [&](int t) {
      for (int k = 0; k < rounds; ++k) {
        uint64_t s = HashMix(seed, t * 8 + k);
        std::vector<double> x, y, d, out, A;
        int op, rows;
        long f0;
        {
          sim::Quiet q;
          auto next = [&]() {
            s = HashMix(s, 77);
            return static_cast<double>((s >> 11) % 4000) / 1000 - 2;
          };
          op = static_cast<int>((s >> 20) % 5);
          rows = 1 + static_cast<int>((s >> 30) % 3);
          for (int i = 0; i < ambient; ++i) x.push_back(next()), y.push_back(next());
          for (int i = 0; i < tangent; ++i) d.push_back(next());
          for (int i = 0; i < rows * ambient; ++i) A.push_back(next());
          out.assign(ambient * tangent + rows * tangent + 4, 0);
          for (size_t i = 0; i < out.size(); ++i) out[i] = Canary(static_cast<int>(i));
          f0 = log.failed[sim::Self()];
        }
        bool ok = false;
        int written = 0;
        const std::vector<double> x0 = x;
        switch (op) {
          case 0: ok = mf->Plus(x.data(), d.data(), out.data()), written = ambient; break;
          case 1: ok = mf->Minus(y.data(), x.data(), out.data()), written = tangent; break;
          case 2: ok = mf->PlusJacobian(x.data(), out.data()), written = ambient * tangent; break;
          case 3: ok = mf->MinusJacobian(x.data(), out.data()), written = ambient * tangent; break;
          default: ok = mf->RightMultiplyByPlusJacobian(x.data(), rows, A.data(), out.data()), written = rows * tangent;
        }
        sim::Quiet q;
        const bool failed = log.failed[sim::Self()] != f0;
        if (failed || log.max_active > 1) sim::NonTrivial();
        SIM_CHECK(ok == !failed, failed ? "failure-hidden" : "unexpected-failure", "manifold %d operation %d returned %d, the user's functor %s", kind, op, ok, failed ? "failed" : "never failed");
        SIM_CHECK(x == x0, "parameters-modified", "manifold operation %d modified its argument", op);
        for (size_t i = written; i < out.size(); ++i) SIM_CHECK(out[i] == Canary(static_cast<int>(i)), "overrun", "manifold operation %d wrote entry %zu of %d", op, i, written);
        if (!ok) continue;
        std::vector<LD> X(x.begin(), x.end()), Y(y.begin(), y.end()), D(d.begin(), d.end());
        auto cmp = [&](int i, LD e) { SIM_CHECK(std::abs(out[i] - static_cast<double>(e)) <= 1e-11 * (1 + std::abs(static_cast<double>(e))), "manifold-value", "manifold %d operation %d: entry %d is %.17g, expected %.17g", kind, op, i, out[i], static_cast<double>(e)); };
        if (op == 0) {
          const auto e = ref_plus(X, D);
          for (int i = 0; i < ambient; ++i) cmp(i, e[i]);
        } else if (op == 1) {
          const auto e = ref_minus(Y, X);
          for (int i = 0; i < tangent; ++i) cmp(i, e[i]);
        } else {
          // Jacobians by central differences in long double, extrapolated.
          const int nin = op == 3 ? ambient : tangent, nout = op == 3 ? tangent : ambient;
          std::vector<std::vector<LD>> JJ(nout, std::vector<LD>(nin));
          for (int j = 0; j < nin; ++j) {
            std::vector<LD> Dl[2];
            for (int l = 0; l < 2; ++l) {
              const LD h = 1e-4L / (1 + l);
              std::vector<LD> a, b;
              if (op == 3) {
                auto u = X, v = X;
                u[j] += h, v[j] -= h;
                a = ref_minus(u, X), b = ref_minus(v, X);
              } else {
                std::vector<LD> u(tangent), v(tangent);
                u[j] = h, v[j] = -h;
                a = ref_plus(X, u), b = ref_plus(X, v);
              }
              for (int i = 0; i < nout; ++i) Dl[l].push_back((a[i] - b[i]) / (2 * h));
            }
            for (int i = 0; i < nout; ++i) JJ[i][j] = (4 * Dl[1][i] - Dl[0][i]) / 3;
          }
          if (op < 4) {
            for (int i = 0; i < nout; ++i)
              for (int j = 0; j < nin; ++j) cmp(i * nin + j, JJ[i][j]);
          } else {
            for (int r = 0; r < rows; ++r)
              for (int j = 0; j < tangent; ++j) {
                LD e = 0;
                for (int i = 0; i < ambient; ++i) e += A[r * ambient + i] * JJ[i][j];
                cmp(r * tangent + j, e);
              }
          }
        }
        sim::Probe("manifold.verified");
      }
    };
    std::vector<std::thread> threads;
    for (int t = 1; t < nt; ++t) threads.emplace_back(user, t);
    user(0);
    for (auto& t : threads) t.join();
    sim::Quiet q;
    mf.reset();
    SIM_CHECK(log.live == 0, "ownership", "%d manifold functors are left", log.live);
  }
}
