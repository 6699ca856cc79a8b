// C13: a Problem behaves like its reference model over histories of mutation,
// evaluation and (failing) solves; owned objects are deleted exactly once.
#include <memory>
#include <system_error>

#include "ceres/context_impl.h"
#include "prob.h"

namespace {

using namespace wl;
using State = std::vector<std::vector<double>>;

struct Tracked {
  int deleted = 0;
};
struct Loss final : ceres::LossFunction {
  LossSpec spec;
  Tracked* t;
  Loss(const LossSpec& s, Tracked* t) : spec(s), t(t) {}
  ~Loss() override { ++t->deleted; }
  void Evaluate(double s, double out[3]) const override { spec.Rho(s, out); }
};
struct Mani final : ceres::Manifold {
  std::unique_ptr<ceres::Manifold> in;
  Tracked* t;
  Mani(ceres::Manifold* m, Tracked* t) : in(m), t(t) {}
  ~Mani() override { ++t->deleted; }
  int AmbientSize() const override { return in->AmbientSize(); }
  int TangentSize() const override { return in->TangentSize(); }
  bool Plus(const double* x, const double* d, double* y) const override { return !sim::Fault("manifold.plus") && in->Plus(x, d, y); }
  bool PlusJacobian(const double* x, double* J) const override { return !sim::Fault("manifold.jacobian") && in->PlusJacobian(x, J); }
  bool Minus(const double* y, const double* x, double* d) const override { return in->Minus(y, x, d); }
  bool MinusJacobian(const double* x, double* J) const override { return in->MinusJacobian(x, J); }
};

struct CostObj {
  SimCost* fn;
  Tracked* t;
  bool owned;  // by the problem
};

struct Hist : Monitor {
  Model m;  // pbs: the pool; rbs: every residual block ever added
  std::vector<char> present;
  std::vector<int> live;  // residual blocks in the problem, in its order
  std::map<int, std::unique_ptr<Tracked>> tracked;
  std::map<const void*, Tracked*> of;
  std::vector<SimCost*> costs;
  std::vector<const Loss*> losses;
  std::vector<Mani*> manis;
  std::vector<std::vector<int>> cost_users, loss_users;
  EvalCounters cnt;
  ceres::Problem::Options po;
  std::unique_ptr<ceres::Context> ctx;
  std::unique_ptr<ceres::Problem> p;
  bool own_cost, own_loss, own_mani;
  int num_faults = 0;

  Tracked* NewTracked() {
    const int k = static_cast<int>(tracked.size());
    tracked[k] = std::make_unique<Tracked>();
    return tracked[k].get();
  }
  std::map<int, int> cost_deleted;
  void OnCostDeleted(int id) override { ++cost_deleted[id]; }
  void OnEval(const SimCost& c, double const* const* x, bool) override {
    SIM_CHECK(!cost_deleted.count(c.id), "use-after-delete", "a deleted cost function is evaluated");
    for (size_t b = 0; b < c.spec.sizes.size(); ++b) SIM_CHECK(sim::HeapOk(x[b], c.spec.sizes[b] * sizeof(double)), "bad-parameter-pointer", "cost function %d was given an invalid pointer for its parameter block %zu", c.id, b);
  }
  void OnEvalDone(const SimCost&, bool ok) override { num_faults += !ok; }

  bool Constant(int i) const { return m.pbs[i].constant || m.pbs[i].tangent == 0; }

  void SetManifoldKind(int i, int kind) {
    PBlock& b = m.pbs[i];
    b.kind = kind;
    b.fixed.clear();
    if (kind == kSubset)
      for (int k = 0; k < b.size; ++k)
        if (sim::Chance(45)) b.fixed.push_back(k);
    if (kind == kLinear) {
      const int t = sim::Range(1, b.size);
      b.S = Mat::Zero(b.size, t);
      for (int r = 0; r < b.size; ++r)
        for (int c = 0; c < t; ++c) b.S(r, c) = (r == c ? 1.0 : 0.0) + sim::Uniform(-0.4, 0.4);
    }
    b.ref.reset(MakeManifold(b, nullptr, nullptr));
    b.tangent = b.ref ? b.ref->TangentSize() : b.size;
  }
  void Reset(int i) {
    PBlock& b = m.pbs[i];
    b.kind = kNone;
    b.ref.reset();
    b.tangent = b.size;
    b.constant = false;
    b.lo.clear();
    b.hi.clear();
    b.manifold = nullptr;
  }
  // The manifold object given to the problem for block i.
  Mani* Fresh(int i) {
    ceres::Manifold* in = MakeManifold(m.pbs[i], nullptr, nullptr);
    if (!in) return nullptr;
    Mani* x = new Mani(in, NewTracked());
    of[x] = x->t;
    manis.push_back(x);
    return x;
  }

  // ---- operations ----------------------------------------------------------
  void AddParam(int i) {
    if (present[i]) {
      // Adding the same block again changes nothing.
      p->AddParameterBlock(m.pbs[i].x, m.pbs[i].size);
      return;
    }
    Reset(i);
    if (sim::Chance(40)) {
      static const int kinds[] = {kSubset, kLinear, kEuclidean};
      SetManifoldKind(i, kinds[sim::Draw(3)]);
      Mani* mf = Fresh(i);
      m.pbs[i].manifold = mf;
      sim::FaultsOff();  // the library aborts if a manifold is broken when it is set
      p->AddParameterBlock(m.pbs[i].x, m.pbs[i].size, mf);
      sim::FaultsOn();
    } else {
      p->AddParameterBlock(m.pbs[i].x, m.pbs[i].size);
    }
    present[i] = 1;
  }
  void AddResidual() {
    RBlock rb;
    const int n = static_cast<int>(m.pbs.size());
    const int k = sim::Range(1, std::min(3, n));
    int from = -1;  // an existing cost object to share
    if (!costs.empty() && sim::Chance(25)) from = static_cast<int>(sim::Draw(costs.size()));
    if (from >= 0 && (cost_users[from].empty() && own_cost)) from = -1;  // it may be gone
    if (from >= 0) {
      rb.cost = costs[from]->spec;
      for (int s : rb.cost.sizes) {
        int pick = -1;
        for (int tries = 0; tries < 8 && pick < 0; ++tries) {
          const int c = static_cast<int>(sim::Draw(n));
          if (m.pbs[c].size == s && std::find(rb.pb.begin(), rb.pb.end(), c) == rb.pb.end()) pick = c;
        }
        if (pick < 0) return;
        rb.pb.push_back(pick);
      }
    } else {
      for (int j = 0; j < k; ++j) {
        const int c = static_cast<int>(sim::Draw(n));
        if (std::find(rb.pb.begin(), rb.pb.end(), c) == rb.pb.end()) rb.pb.push_back(c);
      }
      CostSpec& c = rb.cost;
      c.dim = sim::Range(1, 3);
      for (int i : rb.pb) c.sizes.push_back(m.pbs[i].size);
      const int w = c.total();
      c.A.resize(c.dim, w);
      c.B.resize(c.dim, w);
      c.c.resize(c.dim);
      c.t.resize(c.dim);
      for (int r = 0; r < c.dim; ++r) {
        for (int q = 0; q < w; ++q) {
          c.A(r, q) = sim::Uniform(-1.5, 1.5);
          c.B(r, q) = sim::Uniform(-1, 1);
        }
        c.c[r] = sim::Uniform(-0.3, 0.3);
        c.t[r] = sim::Uniform(-3, 3);
      }
    }
    int ci = from;
    if (from < 0) {
      ci = static_cast<int>(costs.size());
      costs.push_back(new SimCost(ci, rb.cost, this, &cnt));
      cost_users.emplace_back();
    }
    int li = -1;
    if (sim::Chance(40)) {
      if (!losses.empty() && sim::Chance(30)) {
        li = static_cast<int>(sim::Draw(losses.size()));
        if (own_loss && loss_users[li].empty()) li = -1;
      }
      if (li < 0) {
        LossSpec s;
        s.kind = 1 + static_cast<int>(sim::Draw(10));
        s.a = sim::Uniform(0.5, 3);
        s.b = sim::Uniform(0.5, 3);
        li = static_cast<int>(losses.size());
        auto* l = new Loss(s, NewTracked());
        of[l] = l->t;
        losses.push_back(l);
        loss_users.emplace_back();
      }
      rb.loss = losses[li]->spec;
    }
    for (int i : rb.pb)
      if (!present[i]) {
        Reset(i);
        present[i] = 1;
      }
    std::vector<double*> x;
    for (int i : rb.pb) x.push_back(m.pbs[i].x);
    rb.fn = costs[ci];
    rb.loss_fn = li >= 0 ? losses[li] : nullptr;
    rb.id = p->AddResidualBlock(rb.fn, const_cast<ceres::LossFunction*>(rb.loss_fn), x);
    const int r = static_cast<int>(m.rbs.size());
    m.rbs.push_back(std::move(rb));
    cost_users[ci].push_back(r);
    if (li >= 0) loss_users[li].push_back(r);
    live.push_back(r);
  }
  void Gone(int r) {
    live.erase(std::find(live.begin(), live.end(), r));
    for (auto& u : cost_users) u.erase(std::remove(u.begin(), u.end(), r), u.end());
    for (auto& u : loss_users) u.erase(std::remove(u.begin(), u.end(), r), u.end());
  }
  void RemoveResidual() {
    if (live.empty()) return;
    const int r = live[sim::Draw(live.size())];
    p->RemoveResidualBlock(m.rbs[r].id);
    Gone(r);
  }
  void RemoveParam(int i) {
    if (!present[i]) return;
    p->RemoveParameterBlock(m.pbs[i].x);
    for (int r : std::vector<int>(live))
      if (std::find(m.rbs[r].pb.begin(), m.rbs[r].pb.end(), i) != m.rbs[r].pb.end()) Gone(r);
    present[i] = 0;
    Reset(i);
  }
  void Manifold(int i) {
    if (!present[i]) return;
    // Now and then the object another block already has.
    const int j = static_cast<int>(sim::Draw(m.pbs.size()));
    if (j != i && present[j] && m.pbs[j].manifold && m.pbs[j].size == m.pbs[i].size && sim::Chance(60)) {
      PBlock &b = m.pbs[i], &o = m.pbs[j];
      b.kind = o.kind, b.fixed = o.fixed, b.S = o.S;
      b.ref.reset(MakeManifold(b, nullptr, nullptr));
      b.tangent = b.ref->TangentSize();
      b.manifold = o.manifold;
      p->SetManifold(b.x, const_cast<ceres::Manifold*>(b.manifold));
      sim::Probe("hist.shared_manifold");
      return;
    }
    static const int kinds[] = {kNone, kSubset, kLinear, kEuclidean};
    SetManifoldKind(i, kinds[sim::Draw(4)]);
    Mani* mf = Fresh(i);
    m.pbs[i].manifold = mf;
    p->SetManifold(m.pbs[i].x, mf);
  }
  void Flip(int i) {
    if (!present[i]) return;
    PBlock& b = m.pbs[i];
    b.constant = sim::Chance(50);
    if (b.constant)
      p->SetParameterBlockConstant(b.x);
    else
      p->SetParameterBlockVariable(b.x);
  }
  void Bound(int i) {
    if (!present[i]) return;
    PBlock& b = m.pbs[i];
    if (b.lo.empty()) {
      b.lo.assign(b.size, -std::numeric_limits<double>::max());
      b.hi.assign(b.size, std::numeric_limits<double>::max());
    }
    const int k = static_cast<int>(sim::Draw(b.size));
    const double v = sim::Chance(25) ? std::numeric_limits<double>::max() : b.x[k] + sim::Uniform(0.1, 2);
    const double l = sim::Chance(25) ? -std::numeric_limits<double>::max() : b.x[k] - sim::Uniform(0.1, 2);
    if (sim::Chance(50)) {
      b.lo[k] = l;
      p->SetParameterLowerBound(b.x, k, l);
    } else {
      b.hi[k] = v;
      p->SetParameterUpperBound(b.x, k, v);
    }
  }
  void Values(int i) {
    for (int k = 0; k < m.pbs[i].size; ++k) m.pbs[i].x[k] = sim::Uniform(-2, 2);
  }
  void Move() {
    if (sim::Chance(50)) {
      p = std::make_unique<ceres::Problem>(std::move(*p));
    } else {
      auto q = std::make_unique<ceres::Problem>();
      double* dummy = new double[2]();
      q->AddParameterBlock(dummy, 2);
      *q = std::move(*p);
      delete[] dummy;
      p = std::move(q);
    }
  }
  void Evaluate() {
    ceres::Problem::EvaluateOptions o;
    std::vector<int> rs = live, ps;
    if (sim::Chance(40) && !live.empty()) {
      rs.clear();
      for (int r : live)
        if (sim::Chance(60)) rs.push_back(r);
      if (rs.size() > 1 && sim::Chance(50)) std::swap(rs.front(), rs.back());
      for (int r : rs) o.residual_blocks.push_back(m.rbs[r].id);
      if (rs.empty()) rs = live;
    }
    std::vector<int> all = ProblemOrder();
    if (sim::Chance(50)) {
      for (int i : all)
        if (sim::Chance(60)) ps.push_back(i);
      if (ps.size() > 1 && sim::Chance(50)) std::swap(ps.front(), ps.back());
      if (ps.empty()) ps = all;
      for (int i : ps) o.parameter_blocks.push_back(m.pbs[i].x);
    } else {
      // The order of the columns is unspecified after removals: ask for it.
      ps = all;
      for (int i : ps) o.parameter_blocks.push_back(m.pbs[i].x);
    }
    o.apply_loss_function = sim::Chance(70);
    o.num_threads = sim::Range(1, 4);
    const bool want_j = sim::Chance(50), want_g = sim::Chance(50), want_r = sim::Chance(60);
    double cost = -7;
    std::vector<double> res, grad;
    ceres::CRSMatrix J;
    const int f0 = num_faults;
    const uint64_t mf0 = sim::FaultCount("manifold.jacobian");
    const bool ok = p->Evaluate(o, &cost, want_r ? &res : nullptr, want_g ? &grad : nullptr, want_j ? &J : nullptr);
    sim::Quiet q;
    const bool faulted = num_faults != f0 || sim::FaultCount("manifold.jacobian") != mf0;
    SIM_CHECK(ok || faulted, "evaluate-failed", "Problem::Evaluate failed although no cost function or manifold did");
    SIM_CHECK(!ok || num_faults == f0, "evaluate-ok", "Problem::Evaluate succeeded although a cost function failed");
    sim::Probe(ok ? "hist.evaluate" : "hist.evaluate_failed");
    if (!ok) {
      SIM_CHECK(cost == -7, "evaluate-output", "a failed evaluation wrote the cost");
      return;
    }
    const RefEval e = m.Reference(m.UserState(), rs, ps, o.apply_loss_function, want_j);
    SIM_CHECK(Close(cost, e.cost, 1e-10), "cost", "the cost is %.17g, the reference %.17g", cost, e.cost);
    if (want_r) {
      SIM_CHECK(static_cast<int>(res.size()) == e.residuals.size(), "residuals", "%zu residuals, the reference has %d", res.size(), (int)e.residuals.size());
      for (size_t i = 0; i < res.size(); ++i) SIM_CHECK(Close(res[i], e.residuals[i], 1e-9), "residuals", "residual %zu is %.17g, the reference %.17g", i, res[i], e.residuals[i]);
    }
    if (want_g) {
      SIM_CHECK(static_cast<int>(grad.size()) == e.gradient.size(), "gradient", "the gradient has %zu entries, the reference %d", grad.size(), (int)e.gradient.size());
      for (size_t i = 0; i < grad.size(); ++i) SIM_CHECK(Close(grad[i], e.gradient[i], 1e-9), "gradient", "gradient %zu is %.17g, the reference %.17g", i, grad[i], e.gradient[i]);
    }
    if (want_j) {
      SIM_CHECK(J.num_rows == e.jacobian.rows() && J.num_cols == e.jacobian.cols(), "jacobian", "the jacobian is %dx%d, the reference %dx%d", J.num_rows, J.num_cols, (int)e.jacobian.rows(), (int)e.jacobian.cols());
      Mat d = Mat::Zero(J.num_rows, J.num_cols);
      for (int r = 0; r < J.num_rows; ++r)
        for (int k = J.rows[r]; k < J.rows[r + 1]; ++k) d(r, J.cols[k]) += J.values[k];
      for (int r = 0; r < J.num_rows; ++r)
        for (int c = 0; c < J.num_cols; ++c) SIM_CHECK(Close(d(r, c), e.jacobian(r, c), 1e-9), "jacobian", "jacobian (%d, %d) is %.17g, the reference %.17g", r, c, d(r, c), e.jacobian(r, c));
    }
  }
  void EvaluateOne() {
    if (live.empty()) return;
    const int r = live[sim::Draw(live.size())];
    const RBlock& rb = m.rbs[r];
    const bool loss = sim::Chance(60), want_j = sim::Chance(70);
    double cost = 0;
    std::vector<double> res(rb.cost.dim, 0);
    std::vector<std::vector<double>> js;
    std::vector<double*> jp;
    bool any_const = false;
    for (int i : rb.pb) {
      js.emplace_back(rb.cost.dim * m.pbs[i].tangent + 1, 4.5);
      const bool ask = sim::Chance(80);
      if (ask && want_j && Constant(i)) any_const = true;
      jp.push_back(ask ? js.back().data() : nullptr);
    }
    const int f0 = num_faults;
    const uint64_t mf0 = sim::FaultCount("manifold.jacobian");
    const bool assume = sim::Chance(20);
    bool ok;
    if (assume) {
      // The state is the user's: nothing else was evaluated in between.
      ok = p->EvaluateResidualBlockAssumingParametersUnchanged(rb.id, loss, &cost, res.data(), want_j ? jp.data() : nullptr);
    } else {
      ok = p->EvaluateResidualBlock(rb.id, loss, &cost, res.data(), want_j ? jp.data() : nullptr);
    }
    sim::Quiet q;
    const bool faulted = num_faults != f0 || sim::FaultCount("manifold.jacobian") != mf0;
    SIM_CHECK(ok == !(faulted || any_const), "evaluate-one", "EvaluateResidualBlock returned %d, faults %d, Jacobian of a constant block requested %d", ok, faulted, any_const);
    sim::Probe(ok ? "hist.evaluate_one" : "hist.evaluate_one_failed");
    if (!ok) return;
    const RefEval e = m.Reference(m.UserState(), {r}, rb.pb, loss, true);
    SIM_CHECK(Close(cost, e.cost, 1e-10), "cost", "the cost of one residual block is %.17g, the reference %.17g", cost, e.cost);
    for (int k = 0; k < rb.cost.dim; ++k) SIM_CHECK(Close(res[k], e.residuals[k], 1e-9), "residuals", "residual %d of one block is %.17g, the reference %.17g", k, res[k], e.residuals[k]);
    if (!want_j) return;
    for (size_t b = 0; b < rb.pb.size(); ++b) {
      if (!jp[b]) continue;
      const int t = m.pbs[rb.pb[b]].tangent;
      for (int k = 0; k < rb.cost.dim; ++k)
        for (int c = 0; c < t; ++c) SIM_CHECK(Close(jp[b][k * t + c], e.jacobian(k, e.pb_col[b] + c), 1e-9), "jacobian", "jacobian (%d, %d) of block %zu is %.17g, the reference %.17g", k, c, b, jp[b][k * t + c], e.jacobian(k, e.pb_col[b] + c));
      SIM_CHECK(js[b].back() == 4.5, "jacobian-overrun", "the Jacobian of block %zu was written past its end", b);
    }
  }
  void Solve() {
    ceres::Solver::Options o;
    o.logging_type = ceres::SILENT;
    o.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
    o.num_threads = sim::Range(1, 4);
    o.max_num_iterations = sim::Range(0, 4);
    static const ceres::LinearSolverType types[] = {ceres::DENSE_QR, ceres::SPARSE_NORMAL_CHOLESKY, ceres::DENSE_SCHUR, ceres::SPARSE_SCHUR, ceres::CGNR, ceres::ITERATIVE_SCHUR};
    o.linear_solver_type = types[sim::Draw(6)];
    o.use_inner_iterations = sim::Chance(20);
    o.update_state_every_iteration = sim::Chance(20);
    bool bounded = false;
    for (size_t i = 0; i < m.pbs.size(); ++i) bounded |= present[i] && m.pbs[i].Bounded();
    if (!bounded && sim::Chance(20)) o.minimizer_type = ceres::LINE_SEARCH;
    const State s0 = m.UserState();
    const double c0 = m.Reference(s0, live, AllPresent(), true, false).cost;
    ceres::Solver::Summary s;
    ceres::Solve(o, p.get(), &s);
    sim::Quiet q;
    const State s1 = m.UserState();
    sim::Probe(s.IsSolutionUsable() ? "hist.solve" : "hist.solve_failed");
    for (size_t i = 0; i < m.pbs.size(); ++i) {
      const PBlock& b = m.pbs[i];
      const bool same = SameBits(s0[i].data(), s1[i].data(), b.size);
      if (!s.IsSolutionUsable()) SIM_CHECK(same, "failed-solve-modified", "the solve failed (%s), but parameter block %zu was modified", s.message.substr(0, 100).c_str(), i);
      if (!present[i] || Constant(static_cast<int>(i))) SIM_CHECK(same, "constant-moved", "parameter block %zu (%s) was modified by the solve", i, present[i] ? "constant" : "not part of the problem");
      if (b.kind == kSubset && !b.Bounded())
        for (int k : b.fixed) SIM_CHECK(Bits(s0[i][k]) == Bits(s1[i][k]), "fixed-coordinate-moved", "coordinate %d of block %zu is fixed by its manifold but moved", k, i);
    }
    if (s.IsSolutionUsable()) {
      const double c1 = m.Reference(s1, live, AllPresent(), true, false).cost;
      SIM_CHECK(Close(c1, s.final_cost, 1e-7), "final-cost", "final_cost is %.17g, the cost at the returned parameters is %.17g (%s)", s.final_cost, c1, s.message.substr(0, 100).c_str());
      if (!bounded) {
        SIM_CHECK(Close(c0, s.initial_cost, 1e-9), "initial-cost", "initial_cost is %.17g, the cost at the start %.17g", s.initial_cost, c0);
        SIM_CHECK(c1 <= c0 * (1 + 1e-9) + 1e-9, "cost-increased", "the cost rose from %.17g to %.17g", c0, c1);
      }
    }
  }
  std::vector<int> AllPresent() const {
    std::vector<int> v;
    for (size_t i = 0; i < present.size(); ++i)
      if (present[i]) v.push_back(static_cast<int>(i));
    return v;
  }
  std::vector<int> ProblemOrder() const { return AllPresent(); }

  // ---- every query agrees with the model -----------------------------------
  void Check() {
    sim::Quiet q;
    const int n = static_cast<int>(m.pbs.size());
    int np = 0, nv = 0, nr = 0;
    for (int i = 0; i < n; ++i) {
      const PBlock& b = m.pbs[i];
      SIM_CHECK(p->HasParameterBlock(b.x) == (present[i] != 0), "query", "HasParameterBlock(%d) is %d", i, p->HasParameterBlock(b.x));
      if (!present[i]) continue;
      ++np;
      nv += b.size;
      SIM_CHECK(p->ParameterBlockSize(b.x) == b.size && p->ParameterBlockTangentSize(b.x) == b.tangent, "query", "block %d has size %d, tangent size %d, expected %d, %d", i, p->ParameterBlockSize(b.x), p->ParameterBlockTangentSize(b.x), b.size, b.tangent);
      SIM_CHECK(p->IsParameterBlockConstant(b.x) == Constant(i), "query", "IsParameterBlockConstant(%d) is %d", i, !Constant(i));
      SIM_CHECK(p->GetManifold(b.x) == b.manifold && p->HasManifold(b.x) == (b.manifold != nullptr), "query", "the manifold of block %d is not the one set", i);
      for (int k = 0; k < b.size; ++k) {
        const double lo = b.lo.empty() ? -std::numeric_limits<double>::max() : b.lo[k], hi = b.hi.empty() ? std::numeric_limits<double>::max() : b.hi[k];
        SIM_CHECK(p->GetParameterLowerBound(b.x, k) == lo && p->GetParameterUpperBound(b.x, k) == hi, "query", "the bounds of block %d [%d] are [%g, %g], expected [%g, %g]", i, k, p->GetParameterLowerBound(b.x, k), p->GetParameterUpperBound(b.x, k), lo, hi);
      }
      std::vector<ceres::ResidualBlockId> ids;
      p->GetResidualBlocksForParameterBlock(b.x, &ids);
      std::set<ceres::ResidualBlockId> got(ids.begin(), ids.end()), want;
      for (int r : live)
        if (std::find(m.rbs[r].pb.begin(), m.rbs[r].pb.end(), i) != m.rbs[r].pb.end()) want.insert(m.rbs[r].id);
      SIM_CHECK(got == want && got.size() == ids.size(), "query", "block %d is used by %zu residual blocks, expected %zu", i, ids.size(), want.size());
    }
    for (int r : live) nr += m.rbs[r].cost.dim;
    SIM_CHECK(p->NumParameterBlocks() == np && p->NumParameters() == nv, "query", "%d parameter blocks of %d values, expected %d, %d", p->NumParameterBlocks(), p->NumParameters(), np, nv);
    SIM_CHECK(p->NumResidualBlocks() == static_cast<int>(live.size()) && p->NumResiduals() == nr, "query", "%d residual blocks of %d values, expected %zu, %d", p->NumResidualBlocks(), p->NumResiduals(), live.size(), nr);
    std::vector<double*> ptrs;
    p->GetParameterBlocks(&ptrs);
    std::set<double*> got(ptrs.begin(), ptrs.end());
    SIM_CHECK(static_cast<int>(got.size()) == np && ptrs.size() == got.size(), "query", "GetParameterBlocks returns %zu blocks, expected %d", ptrs.size(), np);
    for (int i = 0; i < n; ++i) SIM_CHECK(got.count(m.pbs[i].x) == (present[i] ? 1u : 0u), "query", "GetParameterBlocks disagrees about block %d", i);
    std::vector<ceres::ResidualBlockId> ids;
    p->GetResidualBlocks(&ids);
    std::vector<int> order;
    for (auto id : ids) {
      int r = -1;
      for (int k : live)
        if (m.rbs[k].id == id) r = k;
      SIM_CHECK(r >= 0, "query", "GetResidualBlocks returns a block which is not in the problem");
      order.push_back(r);
    }
    std::set<int> u(order.begin(), order.end());
    SIM_CHECK(u.size() == live.size() && order.size() == live.size(), "query", "GetResidualBlocks returns %zu blocks, expected %zu", order.size(), live.size());
    // Without removals the order is the order of addition.
    if (live.size() == m.rbs.size()) SIM_CHECK(order == live, "query", "the residual blocks are not in the order in which they were added");
    live = order;
    for (int r : live) {
      const RBlock& rb = m.rbs[r];
      std::vector<double*> x;
      p->GetParameterBlocksForResidualBlock(rb.id, &x);
      SIM_CHECK(x.size() == rb.pb.size(), "query", "residual block %d has %zu parameter blocks, expected %zu", r, x.size(), rb.pb.size());
      for (size_t k = 0; k < x.size(); ++k) SIM_CHECK(x[k] == m.pbs[rb.pb[k]].x, "query", "residual block %d has another parameter block %zu", r, k);
      SIM_CHECK(p->GetCostFunctionForResidualBlock(rb.id) == rb.fn && p->GetLossFunctionForResidualBlock(rb.id) == rb.loss_fn, "query", "residual block %d has another cost or loss function", r);
    }
    // Nothing in use, and nothing the user owns, was deleted.
    for (size_t c = 0; c < costs.size(); ++c) {
      auto it = cost_deleted.find(static_cast<int>(c));
      if (it == cost_deleted.end()) continue;
      SIM_CHECK(own_cost && it->second == 1 && cost_users[c].empty(), "deleted-early", "cost function %zu was deleted %d times while %zu residual blocks use it (owned: %d)", c, it->second, cost_users[c].size(), own_cost);
    }
    for (size_t l = 0; l < losses.size(); ++l) {
      Tracked* t = of[losses[l]];
      if (t->deleted) SIM_CHECK(own_loss && t->deleted == 1 && loss_users[l].empty(), "deleted-early", "loss function %zu was deleted while %zu residual blocks use it (owned: %d)", l, loss_users[l].size(), own_loss);
    }
    for (auto* x : manis) SIM_CHECK(of[x]->deleted == 0, "deleted-early", "a manifold was deleted before its problem");
  }
};

SIM_WORKLOAD(C13, history, 10) {
  Hist h;
  {
    sim::Quiet q;
    const int n = sim::Range(2, 6);
    for (int i = 0; i < n; ++i) {
      PBlock b;
      b.size = sim::Range(1, 3);
      b.tangent = b.size;
      b.x = new double[b.size];
      for (int k = 0; k < b.size; ++k) b.x[k] = sim::Uniform(-2, 2);
      h.m.pbs.push_back(std::move(b));
      h.present.push_back(0);
    }
  }
  ceres::Problem::Options& po = h.po;
  h.own_cost = sim::Chance(75);
  h.own_loss = sim::Chance(75);
  h.own_mani = sim::Chance(75);
  po.cost_function_ownership = h.own_cost ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
  po.loss_function_ownership = h.own_loss ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
  po.manifold_ownership = h.own_mani ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
  po.enable_fast_removal = sim::Chance(50);
  po.disable_all_safety_checks = sim::Chance(25);
  if (sim::Chance(30)) {
    h.ctx.reset(ceres::Context::Create());
    po.context = h.ctx.get();
  }
  h.p = std::make_unique<ceres::Problem>(po);
  const bool faults = sim::Chance(60);
  const bool threads = sim::Chance(25);
  static const char* sites[] = {"cost.false", "cost.nan", "cost.jac_nan", "cost.partial", "manifold.plus", "manifold.jacobian"};
  if (faults)
    for (auto* s : sites) sim::ArmFault(s, 0.02);
  if (threads) sim::ArmFault("thread.create", 0.3);
  const int steps = sim::Range(4, 40);
  int removals = 0;
  for (int k = 0; k < steps; ++k) {
    const int n = static_cast<int>(h.m.pbs.size());
    const int i = static_cast<int>(sim::Draw(n));
    const int op = static_cast<int>(sim::Draw(100));
    sim::Event("op %d on %d", op, i);
    if (op < 8) h.AddParam(i);
    else if (op < 40) h.AddResidual();
    else if (op < 48) h.RemoveResidual(), ++removals;
    else if (op < 53) h.RemoveParam(i), ++removals;
    else if (op < 60) {
      sim::FaultsOff();
      h.Manifold(i);
      sim::FaultsOn();
    } else if (op < 66) h.Flip(i);
    else if (op < 70) h.Bound(i);
    else if (op < 75) h.Values(i);
    else if (op < 78) h.Move();
    else {
      try {
        if (op < 87) h.Evaluate();
        else if (op < 93) h.EvaluateOne();
        else h.Solve();
      } catch (const std::system_error&) {
        SIM_CHECK(threads, "unexpected-exception", "an exception although threads can be created");
        sim::Probe("hist.threw");
      }
    }
    h.Check();
  }
  if (removals > 0 && h.m.rbs.size() > 2) sim::NonTrivial();
  sim::FaultsOff();
  // What remains can be evaluated.
  h.Evaluate();
  h.Check();
  sim::State(HashMix(HashMix(h.m.rbs.size(), h.live.size()), po.enable_fast_removal * 8 + h.own_cost * 4 + h.own_loss * 2 + h.own_mani));
  h.p.reset();
  sim::Quiet q;
  for (size_t c = 0; c < h.costs.size(); ++c) {
    const int d = h.cost_deleted.count(static_cast<int>(c)) ? h.cost_deleted[static_cast<int>(c)] : 0;
    SIM_CHECK(d == (h.own_cost ? 1 : 0), "ownership", "cost function %zu was deleted %d times by the problem, owned: %d", c, d, h.own_cost);
    if (!h.own_cost) delete h.costs[c];
  }
  for (auto* l : h.losses) {
    SIM_CHECK(h.of[l]->deleted == (h.own_loss ? 1 : 0), "ownership", "a loss function was deleted %d times by the problem, owned: %d", h.of[l]->deleted, h.own_loss);
    if (!h.own_loss) delete l;
  }
  for (auto* x : h.manis) {
    SIM_CHECK(h.of[x]->deleted == (h.own_mani ? 1 : 0), "ownership", "a manifold was deleted %d times by the problem, owned: %d", h.of[x]->deleted, h.own_mani);
    if (!h.own_mani) delete x;
  }
}

}  // namespace
