// Random nonlinear least-squares problems with an independent reference
// evaluator, instrumented cost functions, manifolds and loss functions.
#ifndef VERIF_SIM_WL_PROB_H_
#define VERIF_SIM_WL_PROB_H_

#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "Eigen/Dense"
#include "ceres/ceres.h"
#include "sim.h"

namespace wl {

using Mat = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
using Vec = Eigen::VectorXd;

inline uint64_t Bits(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
inline bool SameBits(const double* a, const double* b, int n) { return std::memcmp(a, b, n * sizeof(double)) == 0; }
inline uint64_t HashMix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}

// ---------------------------------------------------------------------------
// residual_k(x) = A_k.x + c_k sin(B_k.x) + t_k over the concatenated blocks.
// ---------------------------------------------------------------------------
struct CostSpec {
  int dim = 1;
  std::vector<int> sizes;
  Mat A, B;
  Vec c, t;
  int total() const {
    int s = 0;
    for (int v : sizes) s += v;
    return s;
  }
  Vec Gather(double const* const* p) const {
    Vec x(total());
    int o = 0;
    for (size_t b = 0; b < sizes.size(); ++b)
      for (int i = 0; i < sizes[b]; ++i) x[o++] = p[b][i];
    return x;
  }
  Vec Residual(const Vec& x) const {
    Vec r(dim);
    for (int k = 0; k < dim; ++k) {
      double a = t[k], b = 0;
      for (int i = 0; i < x.size(); ++i) {
        a += A(k, i) * x[i];
        b += B(k, i) * x[i];
      }
      r[k] = a + c[k] * std::sin(b);
    }
    return r;
  }
  Mat Jacobian(const Vec& x) const {
    Mat J(dim, x.size());
    for (int k = 0; k < dim; ++k) {
      double b = 0;
      for (int i = 0; i < x.size(); ++i) b += B(k, i) * x[i];
      const double g = c[k] * std::cos(b);
      for (int i = 0; i < x.size(); ++i) J(k, i) = A(k, i) + g * B(k, i);
    }
    return J;
  }
};

class SimCost;

// Hooks of the harness around user callbacks; default does nothing. Called with
// the simulator quiet (no preemption, no race checks).
struct Monitor {
  virtual ~Monitor() = default;
  virtual void OnEval(const SimCost& /*c*/, double const* const* /*p*/, bool /*want_jac*/) {}
  // The cost function fails here by its own definition (not a transient fault).
  virtual bool Fail(const SimCost& /*c*/, double const* const* /*p*/, bool /*want_jac*/) { return false; }
  // Called by the cost function with the simulator on: user code of its own.
  virtual void Body(const SimCost& /*c*/) {}
  // The cost function's Jacobian is wrong by its own definition.
  virtual void Alter(const SimCost& /*c*/, double const* const* /*p*/, double** /*J*/) {}
  virtual void OnEvalDone(const SimCost& /*c*/, bool /*ok*/) {}
  virtual void OnCostDeleted(int /*id*/) {}
};

struct EvalCounters {
  int active = 0;      // evaluations in progress
  int max_active = 0;
  long calls = 0, jac_calls = 0, failures = 0;
  std::set<int> threads;
  std::map<int, long> per_cost;
};

// Instrumented user cost function. Fault sites:
//  cost.false    returns false           cost.nan     non-finite residual
//  cost.jac_nan  non-finite Jacobian     cost.partial leaves a value unwritten
//  cost.slow     takes a long time
class SimCost final : public ceres::CostFunction {
 public:
  SimCost(int id, const CostSpec& s, Monitor* m, EvalCounters* n) : id(id), spec(s), mon(m), cnt(n) {
    set_num_residuals(s.dim);
    *mutable_parameter_block_sizes() = std::vector<int32_t>(s.sizes.begin(), s.sizes.end());
  }
  ~SimCost() override {
    sim::Quiet q;
    if (mon) mon->OnCostDeleted(id);
  }
  bool Evaluate(double const* const* p, double* r, double** J) const override {
    // Copied so that the arithmetic below is not itself a scheduling storm.
    int bad = 0;  // 1 false, 2 nan residual, 3 nan jacobian, 4 unwritten
    uint64_t pick = 0;
    {
      sim::Quiet q;
      if (cnt) {
        ++cnt->calls;
        cnt->jac_calls += J != nullptr;
        ++cnt->per_cost[id];
        cnt->threads.insert(sim::Self());
        if (++cnt->active > cnt->max_active) cnt->max_active = cnt->active;
      }
      if (mon) mon->OnEval(*this, p, J != nullptr);
      if (sim::Fault("cost.slow")) sim::Advance((1 + sim::FaultValue("cost.slow_ms", 5000)) * 1000000ull);
      if (force_fail || (mon && mon->Fail(*this, p, J != nullptr)) || sim::Fault("cost.false")) bad = 1;
      else if (sim::Fault("cost.nan")) bad = 2;
      else if (J && sim::Fault("cost.jac_nan")) bad = 3;
      else if (sim::Fault("cost.partial")) bad = 4;
      if (bad > 1) pick = sim::FaultValue("cost.where", 1 << 16);
    }
    sim::Point();
    if (mon) mon->Body(*this);
    bool any_jac = false;
    const Vec x = Read(p);
    {
      Vec rr;
      Mat JJ;
      {
        sim::Quiet q;
        rr = spec.Residual(x);
        if (J) JJ = spec.Jacobian(x);
      }
      const int n = spec.dim;
      if (bad != 1 || pick % 2) {
        for (int k = 0; k < n; ++k) {
          if (bad == 4 && k == static_cast<int>(pick % n)) continue;
          r[k] = rr[k];
          if (bad == 2 && k == static_cast<int>(pick % n)) r[k] = (pick & 256) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
        }
        if (J) {
          int o = 0;
          for (size_t b = 0; b < spec.sizes.size(); ++b) {
            const int w = spec.sizes[b];
            if (J[b]) {
              any_jac = true;
              for (int k = 0; k < n; ++k)
                for (int i = 0; i < w; ++i) J[b][k * w + i] = JJ(k, o + i);
              if (bad == 3) J[b][pick % (n * w)] = (pick & 256) ? std::numeric_limits<double>::quiet_NaN() : -std::numeric_limits<double>::infinity();
            }
            o += w;
          }
        }
      }
    }
    if (bad == 3 && !any_jac) bad = 0;
    {
      sim::Quiet q;
      if (J && !bad && mon) mon->Alter(*this, p, J);
      if (cnt) {
        --cnt->active;
        cnt->failures += bad != 0;
      }
      if (mon) mon->OnEvalDone(*this, bad == 0);
    }
    return bad != 1;
  }

  const int id;
  const CostSpec spec;
  Monitor* mon;
  EvalCounters* cnt;
  bool force_fail = false;

 private:
  // Instrumented reads of the caller's parameter memory.
  Vec Read(double const* const* p) const {
    Vec x(spec.total());
    int o = 0;
    for (size_t b = 0; b < spec.sizes.size(); ++b)
      for (int i = 0; i < spec.sizes[b]; ++i) x[o++] = p[b][i];
    return x;
  }
};

// ---------------------------------------------------------------------------
// Manifolds
// ---------------------------------------------------------------------------
// User manifold on a linear subspace with a curved retraction-free Plus:
// Plus(x, d) = x + S d. Fault sites manifold.plus, manifold.trial, manifold.jacobian.
class SimManifold final : public ceres::Manifold {
 public:
  SimManifold(const Mat& S, Monitor* m, int* live) : S_(S), mon_(m), live_(live) {
    if (live_) ++*live_;
  }
  ~SimManifold() override {
    if (live_) --*live_;
  }
  int AmbientSize() const override { return static_cast<int>(S_.rows()); }
  int TangentSize() const override { return static_cast<int>(S_.cols()); }
  bool Plus(const double* x, const double* d, double* y) const override {
    if (sim::Fault("manifold.plus")) return false;
    {
      // The first Plus after the derivatives were computed is the gradient
      // step, which may not fail; what follows are trial points.
      sim::Quiet q;
      const bool trial = fresh <= 0;
      if (!trial) --fresh;
      if (trial && sim::Fault("manifold.trial")) return false;
    }
    for (int i = 0; i < S_.rows(); ++i) {
      double v = x[i];
      for (int j = 0; j < S_.cols(); ++j) v += S_(i, j) * d[j];
      y[i] = v;
    }
    return true;
  }
  bool PlusJacobian(const double*, double* J) const override {
    if (sim::Fault("manifold.jacobian")) return false;
    for (int i = 0; i < S_.rows(); ++i)
      for (int j = 0; j < S_.cols(); ++j) J[i * S_.cols() + j] = S_(i, j);
    return true;
  }
  bool Minus(const double* y, const double* x, double* d) const override {
    Vec z(S_.rows());
    for (int i = 0; i < S_.rows(); ++i) z[i] = y[i] - x[i];
    Vec s = S_.colPivHouseholderQr().solve(z);
    for (int j = 0; j < S_.cols(); ++j) d[j] = s[j];
    return true;
  }
  bool MinusJacobian(const double*, double* J) const override {
    Mat P = (S_.transpose() * S_).ldlt().solve(S_.transpose());
    for (int i = 0; i < P.rows(); ++i)
      for (int j = 0; j < P.cols(); ++j) J[i * P.cols() + j] = P(i, j);
    return true;
  }
  const Mat& S() const { return S_; }
  mutable int fresh = 1;
  int users = 1;  // parameter blocks that share this object

 private:
  const Mat S_;
  Monitor* mon_;
  int* live_;
};

enum ManifoldKind { kNone, kSubset, kQuaternion, kEigenQuaternion, kSphere, kLine, kLinear, kProduct, kEuclidean };

struct LossSpec {
  int kind = 0;  // 0 none 1 Huber 2 SoftLOne 3 Cauchy 4 Arctan 5 Tolerant 6 Tukey 7 Scaled(Huber) 8 Composed 9 Trivial 10 Scaled(null)
  double a = 1, b = 1;
  ceres::LossFunction* Make() const;
  // Independent implementation of the documented formulas.
  void Rho(double s, double rho[3]) const;
};

struct PBlock {
  int size = 1;
  bool constant = false;
  int kind = kNone;
  std::vector<int> fixed;  // subset manifold
  Mat S;                   // linear manifold
  int tangent = 1;
  std::vector<double> lo, hi;  // empty = unbounded
  double* x = nullptr;         // user memory
  std::vector<double> init;
  const ceres::Manifold* manifold = nullptr;  // as given to the problem
  std::unique_ptr<ceres::Manifold> ref;       // the reference's own instance
  int same = -1;                              // shares the manifold object of this block
  bool Bounded() const { return !lo.empty(); }
};

struct RBlock {
  CostSpec cost;
  std::vector<int> pb;
  LossSpec loss;
  SimCost* fn = nullptr;
  const ceres::LossFunction* loss_fn = nullptr;
  ceres::ResidualBlockId id = nullptr;
};

struct ModelOptions {
  int min_pb = 1, max_pb = 6;
  int max_size = 4;
  int min_rb = 1, max_rb = 12;
  int max_dim = 4;
  int max_arity = 3;
  bool manifolds = true;
  bool losses = true;
  bool constants = true;
  bool bounds = false;
  bool priors = true;       // anchors each varying block, so the minimum is unique
  bool bipartite = false;   // e-blocks and f-blocks, as in bundle adjustment
  double nonlinearity = 0.3;
  bool quaternions = true;
};

struct RefEval {
  double cost = 0;
  Vec residuals, gradient;
  Mat jacobian;
  std::vector<int> rb_row;  // first row of each requested residual block
  std::vector<int> pb_col;  // first column of each requested parameter block, -1 if none
};

class Model {
 public:
  Model() = default;
  ~Model();
  Model(const Model&) = delete;

  void Draw(const ModelOptions& o);
  // Adds everything to the problem (which owns costs, losses and manifolds).
  void AddTo(ceres::Problem* p, Monitor* m, EvalCounters* c);

  // Reference evaluation at `state` (state[i] for block i), columns in pb order,
  // excluding the blocks flagged constant or not listed.
  RefEval Reference(const std::vector<std::vector<double>>& state, const std::vector<int>& rbs, const std::vector<int>& pbs, bool loss, bool want_jac) const;
  double Cost(const std::vector<std::vector<double>>& state) const;
  // Gradient over non-constant blocks in the tangent space at state.
  Vec Gradient(const std::vector<std::vector<double>>& state) const;

  std::vector<std::vector<double>> UserState() const;
  void SetUserState(const std::vector<std::vector<double>>& s);
  std::vector<int> AllRb() const, AllPb() const;
  bool PlusJac(const PBlock& b, const double* x, Mat* J) const;

  std::vector<PBlock> pbs;
  std::vector<RBlock> rbs;
  std::vector<int> pb_order;  // order in which the blocks were added to the problem
  std::set<int> e_blocks;  // when bipartite
  int live_manifolds = 0;
  uint64_t shape = 0;  // fingerprint
  bool has_bounds = false;

 private:
  CostSpec DrawCost(const std::vector<int>& pb, int dim, double nonlin);
};

ceres::Manifold* MakeManifold(const PBlock& b, Monitor* m, int* live);

inline double RelErr(double a, double b) { return std::abs(a - b) / (1.0 + std::max(std::abs(a), std::abs(b))); }
inline bool Close(double a, double b, double tol) { return RelErr(a, b) <= tol && std::isfinite(a) == std::isfinite(b); }

}  // namespace wl

#endif
