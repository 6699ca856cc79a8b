#include "prob.h"

namespace wl {

ceres::LossFunction* LossSpec::Make() const {
  switch (kind) {
    case 1: return new ceres::HuberLoss(a);
    case 2: return new ceres::SoftLOneLoss(a);
    case 3: return new ceres::CauchyLoss(a);
    case 4: return new ceres::ArctanLoss(a);
    case 5: return new ceres::TolerantLoss(a, b);
    case 6: return new ceres::TukeyLoss(a);
    case 7: return new ceres::ScaledLoss(new ceres::HuberLoss(a), b, ceres::TAKE_OWNERSHIP);
    case 8: return new ceres::ComposedLoss(new ceres::CauchyLoss(a), ceres::TAKE_OWNERSHIP, new ceres::SoftLOneLoss(b), ceres::TAKE_OWNERSHIP);
    case 9: return new ceres::TrivialLoss();
    case 10: return new ceres::ScaledLoss(nullptr, b, ceres::TAKE_OWNERSHIP);
    default: return nullptr;
  }
}

static void Huber(double a, double s, double* r) {
  if (s > a * a) {
    const double q = std::sqrt(s);
    r[0] = 2 * a * q - a * a;
    r[1] = a / q;
    r[2] = -r[1] / (2 * s);
  } else {
    r[0] = s;
    r[1] = 1;
    r[2] = 0;
  }
}
static void SoftL(double a, double s, double* r) {
  const double b = a * a, u = 1 + s / b, q = std::sqrt(u);
  r[0] = 2 * b * (q - 1);
  r[1] = 1 / q;
  r[2] = -0.5 / (b * u * q);
}
static void Cauchy(double a, double s, double* r) {
  const double b = a * a, u = 1 + s / b;
  r[0] = b * std::log(u);
  r[1] = 1 / u;
  r[2] = -1 / (b * u * u);
}

void LossSpec::Rho(double s, double r[3]) const {
  switch (kind) {
    case 1: Huber(a, s, r); return;
    case 2: SoftL(a, s, r); return;
    case 3: Cauchy(a, s, r); return;
    case 4: {
      const double u = 1 + s * s / (a * a);
      r[0] = a * std::atan2(s, a);
      r[1] = 1 / u;
      r[2] = -2 * s / (a * a) / (u * u);
      return;
    }
    case 5: {
      const double c = b * std::log1p(std::exp(-a / b)), x = (s - a) / b;
      if (x > 36.7) {
        r[0] = s - a - c;
        r[1] = 1;
        r[2] = 0;
      } else {
        const double e = std::exp(x);
        r[0] = b * std::log1p(e) - c;
        r[1] = e / (1 + e);
        r[2] = 1 / (b * (2 + e + std::exp(-x)));
      }
      return;
    }
    case 6: {
      const double q = a * a;
      if (s <= q) {
        const double v = 1 - s / q;
        r[0] = q / 3 * (1 - v * v * v);
        r[1] = v * v;
        r[2] = -2 / q * v;
      } else {
        r[0] = q / 3;
        r[1] = r[2] = 0;
      }
      return;
    }
    case 7:
      Huber(a, s, r);
      for (int i = 0; i < 3; ++i) r[i] *= b;
      return;
    case 8: {
      double g[3], f[3];
      SoftL(b, s, g);
      Cauchy(a, g[0], f);
      r[0] = f[0];
      r[1] = f[1] * g[1];
      r[2] = f[2] * g[1] * g[1] + f[1] * g[2];
      return;
    }
    case 10:
      r[0] = b * s;
      r[1] = b;
      r[2] = 0;
      return;
    default:
      r[0] = s;
      r[1] = 1;
      r[2] = 0;
  }
}

ceres::Manifold* MakeManifold(const PBlock& b, Monitor* m, int* live) {
  switch (b.kind) {
    case kSubset: return new ceres::SubsetManifold(b.size, b.fixed);
    case kQuaternion: return new ceres::QuaternionManifold;
    case kEigenQuaternion: return new ceres::EigenQuaternionManifold;
    case kSphere:
      if (b.size == 2) return new ceres::SphereManifold<2>;
      if (b.size == 3) return new ceres::SphereManifold<3>;
      return new ceres::SphereManifold<ceres::DYNAMIC>(b.size);
    case kLine: return new ceres::LineManifold<2>;
    case kLinear: return new SimManifold(b.S, m, live);
    case kProduct: return new ceres::ProductManifold<ceres::SphereManifold<2>, ceres::EuclideanManifold<2>>;
    case kEuclidean:
      return new ceres::EuclideanManifold<ceres::DYNAMIC>(b.size);
    default: return nullptr;
  }
}

Model::~Model() {
  for (auto& b : pbs) delete[] b.x;
}

CostSpec Model::DrawCost(const std::vector<int>& pb, int dim, double nonlin) {
  CostSpec c;
  c.dim = dim;
  for (int i : pb) c.sizes.push_back(pbs[i].size);
  const int n = c.total();
  c.A.resize(dim, n);
  c.B.resize(dim, n);
  c.c.resize(dim);
  c.t.resize(dim);
  for (int k = 0; k < dim; ++k) {
    for (int i = 0; i < n; ++i) {
      c.A(k, i) = sim::Chance(12) ? 0.0 : sim::Uniform(-1.5, 1.5);
      c.B(k, i) = sim::Uniform(-1, 1);
    }
    c.c[k] = sim::Uniform(-nonlin, nonlin);
    c.t[k] = sim::Uniform(-3, 3);
  }
  return c;
}

void Model::Draw(const ModelOptions& o) {
  const int n = sim::Range(o.min_pb, o.max_pb);
  for (int i = 0; i < n; ++i) {
    PBlock b;
    b.size = sim::Range(1, o.max_size);
    if (o.manifolds && sim::Chance(45)) {
      switch (sim::Draw(8)) {
        case 0:
          b.kind = kSubset;
          for (int k = 0; k < b.size; ++k)
            if (sim::Chance(35)) b.fixed.push_back(k);
          if (!b.fixed.empty() && sim::Chance(20)) std::swap(b.fixed.front(), b.fixed.back());
          break;
        case 1:
          if (o.quaternions && o.max_size >= 4) b.kind = kQuaternion, b.size = 4;
          break;
        case 2:
          if (o.quaternions && o.max_size >= 4) b.kind = kEigenQuaternion, b.size = 4;
          break;
        case 3:
          if (o.quaternions && o.max_size >= 2) b.kind = kSphere, b.size = sim::Range(2, o.max_size);
          break;
        case 4:
          if (o.quaternions && o.max_size >= 4) b.kind = kLine, b.size = 4;
          break;
        case 5: {
          b.kind = kLinear;
          const int t = sim::Range(1, b.size);
          b.S = Mat::Zero(b.size, t);
          for (int r = 0; r < b.size; ++r)
            for (int c = 0; c < t; ++c) b.S(r, c) = (r == c ? 1.0 : 0.0) + sim::Uniform(-0.4, 0.4);
          break;
        }
        case 6:
          if (o.quaternions && o.max_size >= 4) b.kind = kProduct, b.size = 4;
          break;
        default: b.kind = kEuclidean;
      }
    }
    // Several blocks may be on the very same manifold object.
    if (o.manifolds && i > 0 && sim::Chance(15)) {
      const int j = static_cast<int>(sim::Draw(i));
      if (pbs[j].kind != kNone) {
        b.kind = pbs[j].kind, b.size = pbs[j].size, b.fixed = pbs[j].fixed, b.S = pbs[j].S;
        b.same = pbs[j].same >= 0 ? pbs[j].same : j;
      }
    }
    b.ref.reset(MakeManifold(b, nullptr, nullptr));
    b.tangent = b.ref ? b.ref->TangentSize() : b.size;
    b.constant = o.constants && n > 1 && sim::Chance(18);
    b.init.resize(b.size);
    for (auto& v : b.init) v = sim::Uniform(-2, 2);
    if (b.kind == kQuaternion || b.kind == kEigenQuaternion || b.kind == kSphere) {
      double q = 0;
      for (double v : b.init) q += v * v;
      q = std::sqrt(q);
      if (q < 0.1) {
        b.init.assign(b.size, 0.0);
        b.init[0] = 1;
      } else {
        for (auto& v : b.init) v /= q;
      }
    } else if (b.kind == kLine || b.kind == kProduct) {
      const int o2 = b.kind == kLine ? 2 : 0;
      double q = std::hypot(b.init[o2], b.init[o2 + 1]);
      if (q < 0.1) {
        b.init[o2] = 1;
        b.init[o2 + 1] = 0;
      } else {
        b.init[o2] /= q;
        b.init[o2 + 1] /= q;
      }
    }
    if (o.bounds && sim::Chance(50) && (b.kind == kNone || b.kind == kSubset)) {
      b.lo.assign(b.size, -std::numeric_limits<double>::max());
      b.hi.assign(b.size, std::numeric_limits<double>::max());
      for (int k = 0; k < b.size; ++k) {
        const int s = static_cast<int>(sim::Draw(4));
        const double w = sim::Chance(20) ? 0.0 : sim::Uniform(0.0, 1.5);
        if (s & 1) b.lo[k] = b.init[k] - w;
        if (s & 2) b.hi[k] = b.init[k] + (w > 0 ? w * 0.7 : 0.5);
      }
      has_bounds = true;
    }
    if (o.bipartite && (i == 0 || sim::Chance(60))) e_blocks.insert(i);
    pbs.push_back(std::move(b));
  }
  if (o.bipartite && static_cast<int>(e_blocks.size()) == n) e_blocks.erase(n - 1);
  if (o.bipartite)
    for (int e : e_blocks) pbs[e].constant = false;
  const int m = sim::Range(o.min_rb, o.max_rb);
  for (int r = 0; r < m; ++r) {
    RBlock rb;
    if (o.bipartite) {
      std::vector<int> es(e_blocks.begin(), e_blocks.end()), fs;
      for (int i = 0; i < n; ++i)
        if (!e_blocks.count(i)) fs.push_back(i);
      if (!es.empty() && sim::Chance(90)) rb.pb.push_back(es[sim::Draw(es.size())]);
      const int k = rb.pb.empty() ? sim::Range(1, 2) : sim::Range(0, std::min(2, o.max_arity - 1));
      for (int j = 0; j < k && !fs.empty(); ++j) {
        const int f = fs[sim::Draw(fs.size())];
        if (std::find(rb.pb.begin(), rb.pb.end(), f) == rb.pb.end()) rb.pb.push_back(f);
      }
      if (rb.pb.empty()) rb.pb.push_back(0);
    } else {
      const int k = sim::Range(1, std::min(o.max_arity, n));
      while (static_cast<int>(rb.pb.size()) < k) {
        const int f = static_cast<int>(sim::Draw(n));
        if (std::find(rb.pb.begin(), rb.pb.end(), f) == rb.pb.end()) rb.pb.push_back(f);
        else if (sim::Chance(50)) break;
      }
      if (rb.pb.empty()) rb.pb.push_back(0);
    }
    rb.cost = DrawCost(rb.pb, sim::Range(1, o.max_dim), o.nonlinearity);
    if (o.losses && sim::Chance(40)) {
      rb.loss.kind = 1 + static_cast<int>(sim::Draw(10));
      rb.loss.a = sim::Uniform(0.5, 3);
      rb.loss.b = sim::Uniform(0.5, 3);
    }
    rbs.push_back(std::move(rb));
  }
  if (o.priors) {
    for (int i = 0; i < n; ++i) {
      RBlock rb;
      rb.pb.push_back(i);
      rb.cost.dim = pbs[i].size;
      rb.cost.sizes.push_back(pbs[i].size);
      rb.cost.A = Mat::Zero(pbs[i].size, pbs[i].size);
      rb.cost.B = Mat::Zero(pbs[i].size, pbs[i].size);
      rb.cost.c = Vec::Zero(pbs[i].size);
      rb.cost.t = Vec::Zero(pbs[i].size);
      for (int k = 0; k < pbs[i].size; ++k) {
        rb.cost.A(k, k) = 2.0;
        rb.cost.t[k] = -2.0 * (pbs[i].init[k] + sim::Uniform(-1, 1));
      }
      rbs.push_back(std::move(rb));
    }
  }
  uint64_t h = 1469598103934665603ull;
  for (auto& b : pbs) h = HashMix(h, b.size * 64 + b.kind * 4 + b.constant * 2 + b.Bounded());
  for (auto& r : rbs) {
    h = HashMix(h, r.cost.dim * 32 + r.loss.kind);
    for (int i : r.pb) h = HashMix(h, i);
  }
  shape = h;
  for (auto& b : pbs) {
    b.x = new double[b.size];
    for (int k = 0; k < b.size; ++k) b.x[k] = b.init[k];
  }
}

void Model::AddTo(ceres::Problem* p, Monitor* m, EvalCounters* c) {
  // Some blocks are added explicitly first, others by their residual blocks.
  pb_order.clear();
  auto added = [&](int i) {
    if (std::find(pb_order.begin(), pb_order.end(), i) == pb_order.end()) pb_order.push_back(i);
  };
  for (size_t i = 0; i < pbs.size(); ++i)
    if (sim::Chance(50)) {
      p->AddParameterBlock(pbs[i].x, pbs[i].size);
      added(static_cast<int>(i));
    }
  for (size_t i = 0; i < rbs.size(); ++i) {
    RBlock& rb = rbs[i];
    std::vector<double*> x;
    for (int k : rb.pb) {
      x.push_back(pbs[k].x);
      added(k);
    }
    rb.fn = new SimCost(static_cast<int>(i), rb.cost, m, c);
    rb.loss_fn = rb.loss.Make();
    rb.id = p->AddResidualBlock(rb.fn, const_cast<ceres::LossFunction*>(rb.loss_fn), x);
  }
  for (size_t i = 0; i < pbs.size(); ++i) {
    PBlock& b = pbs[i];
    if (!p->HasParameterBlock(b.x)) p->AddParameterBlock(b.x, b.size);
    added(static_cast<int>(i));
    if (b.kind != kNone) {
      ceres::Manifold* mf = b.same >= 0 ? const_cast<ceres::Manifold*>(pbs[b.same].manifold) : MakeManifold(b, m, &live_manifolds);
      if (b.same >= 0) {
        sim::Probe("model.shared_manifold");
        if (b.kind == kLinear) ++static_cast<SimManifold*>(mf)->users;
      }
      b.manifold = mf;
      p->SetManifold(b.x, mf);
    }
    for (size_t k = 0; k < b.lo.size(); ++k) {
      if (b.lo[k] > -1e300) p->SetParameterLowerBound(b.x, static_cast<int>(k), b.lo[k]);
      if (b.hi[k] < 1e300) p->SetParameterUpperBound(b.x, static_cast<int>(k), b.hi[k]);
    }
    if (b.constant) p->SetParameterBlockConstant(b.x);
  }
}

bool Model::PlusJac(const PBlock& b, const double* x, Mat* J) const {
  if (!b.ref) {
    *J = Mat::Identity(b.size, b.size);
    return true;
  }
  *J = Mat::Zero(b.size, b.tangent);
  if (b.tangent == 0) return true;
  if (b.kind == kLinear) {
    *J = b.S;
    return true;
  }
  return b.ref->PlusJacobian(x, J->data());
}

RefEval Model::Reference(const std::vector<std::vector<double>>& state, const std::vector<int>& rlist, const std::vector<int>& plist, bool loss, bool want_jac) const {
  RefEval e;
  int rows = 0, cols = 0;
  for (int r : rlist) {
    e.rb_row.push_back(rows);
    rows += rbs[r].cost.dim;
  }
  std::vector<int> col(pbs.size(), -1);
  for (int i : plist) {
    // A constant block keeps its (zero) columns.
    const bool varying = !pbs[i].constant && pbs[i].tangent > 0;
    e.pb_col.push_back(varying ? cols : -1);
    if (varying) col[i] = cols;
    cols += pbs[i].tangent;
  }
  e.residuals = Vec::Zero(rows);
  e.gradient = Vec::Zero(cols);
  if (want_jac) e.jacobian = Mat::Zero(rows, cols);
  for (size_t q = 0; q < rlist.size(); ++q) {
    const RBlock& rb = rbs[rlist[q]];
    std::vector<const double*> p;
    for (int i : rb.pb) p.push_back(state[i].data());
    const Vec x = rb.cost.Gather(p.data());
    Vec r = rb.cost.Residual(x);
    const double s = r.squaredNorm();
    double rho[3];
    if (loss) {
      rb.loss.Rho(s, rho);
    } else {
      rho[0] = s;
      rho[1] = 1;
      rho[2] = 0;
    }
    e.cost += 0.5 * rho[0];
    const Mat J = rb.cost.Jacobian(x);
    double scale = std::sqrt(rho[1]), asq = 0;
    const double root = scale;
    if (s > 0 && rho[2] > 0) {
      const double D = 1 + 2 * s * rho[2] / rho[1];
      const double al = 1 - std::sqrt(D);
      scale = root / (1 - al);
      asq = al / s;
    }
    int o = 0;
    for (size_t b = 0; b < rb.pb.size(); ++b) {
      const PBlock& blk = pbs[rb.pb[b]];
      const int c0 = col[rb.pb[b]];
      if (c0 >= 0) {
        Mat P;
        PlusJac(blk, state[rb.pb[b]].data(), &P);
        const Mat Jt = J.middleCols(o, blk.size) * P;
        e.gradient.segment(c0, blk.tangent) += rho[1] * (Jt.transpose() * r);
        if (want_jac) e.jacobian.block(e.rb_row[q], c0, rb.cost.dim, blk.tangent) += root * (Jt - asq * r * (r.transpose() * Jt));
      }
      o += blk.size;
    }
    e.residuals.segment(e.rb_row[q], rb.cost.dim) = scale * r;
  }
  return e;
}

std::vector<int> Model::AllRb() const {
  std::vector<int> v;
  for (size_t i = 0; i < rbs.size(); ++i) v.push_back(static_cast<int>(i));
  return v;
}
std::vector<int> Model::AllPb() const {
  std::vector<int> v;
  for (size_t i = 0; i < pbs.size(); ++i) v.push_back(static_cast<int>(i));
  return v;
}
double Model::Cost(const std::vector<std::vector<double>>& s) const { return Reference(s, AllRb(), AllPb(), true, false).cost; }
Vec Model::Gradient(const std::vector<std::vector<double>>& s) const { return Reference(s, AllRb(), AllPb(), true, false).gradient; }
std::vector<std::vector<double>> Model::UserState() const {
  std::vector<std::vector<double>> s;
  for (auto& b : pbs) s.emplace_back(b.x, b.x + b.size);
  return s;
}
void Model::SetUserState(const std::vector<std::vector<double>>& s) {
  for (size_t i = 0; i < pbs.size(); ++i)
    for (int k = 0; k < pbs[i].size; ++k) pbs[i].x[k] = s[i][k];
}

}  // namespace wl
