// C14: problems used at the same time do not disturb each other.
#include <memory>
#include <mutex>
#include <system_error>
#include <thread>

#include "ceres/context_impl.h"
#include "solve.h"

namespace {

using namespace wl;

// What one user does with its own problem, and what it gets when alone.
struct User {
  std::unique_ptr<World> w;
  SolveCfg cfg;
  CbPlan plan;
  State s0;
  Solved alone;
  bool serial = false, threw = false;
  bool busy = false;
  int done = 0;
};

std::unique_ptr<User> MakeUser(ceres::Context* ctx, bool small) {
  auto u = std::make_unique<User>();
  ModelOptions mo = EasyModel();
  mo.losses = sim::Chance(30);
  mo.max_pb = 4;
  mo.max_rb = 5;
  if (small) {
    mo.max_pb = 3;
    mo.max_rb = 3;
  }
  u->w = std::make_unique<World>(mo, !small && sim::Chance(15), ctx);
  Flavor f;
  f.tight = sim::Chance(30);
  f.iterative = false;
  f.mixed = false;
  f.max_threads = small ? 3 : 4;
  f.max_iterations = small ? 3 : 8;
  if (u->w->ecb) f.inner = false;
  u->cfg = DrawSolve(u->w->m, f);
  u->cfg.o.max_num_iterations = std::min(u->cfg.o.max_num_iterations, small ? 3 : 12);
  u->plan.count = sim::Range(0, 1);
  u->serial = u->cfg.o.num_threads == 1;
  u->s0 = u->w->m.UserState();
  u->alone = RunSolve(&u->w->m, u->w->problem.get(), &u->w->mon, u->cfg, u->plan);
  u->w->m.SetUserState(u->s0);
  return u;
}

void Compare(User* u, const Solved& b, const char* what) {
  sim::Quiet q;
  ++u->done;
  if (u->serial) {
    std::string why;
    SIM_CHECK(SameSolve(u->w->m, u->alone, b, &why), "interference", "a single-threaded solve %s differs from the same solve alone: %s [%s]", what, why.c_str(), u->cfg.text.c_str());
    return;
  }
  const auto line = [](const Solved& x) { return x.s.message.find("line search") != std::string::npos; };
  // Near the minimum rounding decides whether a line search finds a decrease.
  if (!line(u->alone) && !line(b))
    SIM_CHECK((u->alone.s.termination_type == ceres::FAILURE) == (b.s.termination_type == ceres::FAILURE), "interference", "a solve %s ended with %s (%s), alone with %s (%s) [%s]", what, ceres::TerminationTypeToString(b.s.termination_type), b.s.message.substr(0, 100).c_str(), ceres::TerminationTypeToString(u->alone.s.termination_type), u->alone.s.message.substr(0, 100).c_str(), u->cfg.text.c_str());
  if (u->cfg.o.function_tolerance < 1e-14) CompareSolves(u->w->m, u->alone, b, u->cfg, false);
}

void EvaluateAndCheck(World* w, int threads, bool loss) {
  ceres::Problem::EvaluateOptions o;
  o.num_threads = threads;
  o.apply_loss_function = loss;
  State st;
  {
    sim::Quiet q;
    st = w->m.UserState();
    for (auto& b : w->m.pbs) o.parameter_blocks.push_back(b.x);
  }
  double cost = 0;
  std::vector<double> r, g;
  const bool ok = w->problem->Evaluate(o, &cost, &r, &g, nullptr);
  sim::Quiet q;
  SIM_CHECK(ok, "evaluate-failed", "Problem::Evaluate failed although no cost function did");
  const RefEval e = w->m.Reference(st, w->m.AllRb(), w->m.AllPb(), loss, false);
  SIM_CHECK(Close(cost, e.cost, 1e-10), "cost", "cost %.17g, the reference %.17g", cost, e.cost);
  for (size_t i = 0; i < g.size(); ++i) SIM_CHECK(Close(g[i], e.gradient[i], 1e-9), "gradient", "gradient[%zu] %.17g, the reference %.17g", i, g[i], e.gradient[i]);
  for (size_t i = 0; i < r.size(); ++i) SIM_CHECK(Close(r[i], e.residuals[i], 1e-9), "residuals", "residual %zu %.17g, the reference %.17g", i, r[i], e.residuals[i]);
}

// The same one residual block at a time.
void EvaluateBlocksAndCheck(World* w, bool loss) {
  State st;
  int n = 0;
  {
    sim::Quiet q;
    st = w->m.UserState();
    n = std::min<int>(w->m.rbs.size(), 3);
  }
  for (int k = 0; k < n; ++k) {
    std::vector<double> r;
    std::vector<std::vector<double>> jac;
    std::vector<double*> J;
    const RBlock* rb = nullptr;
    {
      sim::Quiet q;
      rb = &w->m.rbs[k];
      r.resize(rb->cost.dim);
      for (int i : rb->pb) {
        const PBlock& b = w->m.pbs[i];
        jac.emplace_back(rb->cost.dim * b.tangent);
        J.push_back(b.constant || b.tangent == 0 ? nullptr : jac.back().data());
      }
    }
    double cost = 0;
    const bool ok = w->problem->EvaluateResidualBlock(rb->id, loss, &cost, r.data(), J.data());
    sim::Quiet q;
    SIM_CHECK(ok, "evaluate-failed", "EvaluateResidualBlock failed although no cost function did");
    const RefEval e = w->m.Reference(st, {k}, w->m.AllPb(), loss, true);
    SIM_CHECK(Close(cost, e.cost, 1e-10), "cost", "EvaluateResidualBlock: cost %.17g, the reference %.17g", cost, e.cost);
    for (size_t i = 0; i < r.size(); ++i) SIM_CHECK(Close(r[i], e.residuals[i], 1e-9), "residuals", "EvaluateResidualBlock: residual %zu %.17g, the reference %.17g", i, r[i], e.residuals[i]);
    for (size_t b = 0; b < J.size(); ++b) {
      const PBlock& pb = w->m.pbs[rb->pb[b]];
      if (!J[b] || e.pb_col[rb->pb[b]] < 0) continue;
      for (int i = 0; i < rb->cost.dim; ++i)
        for (int t = 0; t < pb.tangent; ++t) {
          const double x = J[b][i * pb.tangent + t], y = e.jacobian(i, e.pb_col[rb->pb[b]] + t);
          SIM_CHECK(Close(x, y, 1e-8), "jacobian", "EvaluateResidualBlock: entry (%d, %d) of the Jacobian for block %zu is %.17g, the reference %.17g", i, t, b, x, y);
        }
    }
  }
}

SIM_WORKLOAD(C14, users, 10) {
  std::unique_ptr<ceres::Context> ctx;
  if (sim::Chance(85)) ctx.reset(ceres::Context::Create());
  const int n = sim::Range(2, 3);
  std::vector<std::unique_ptr<User>> users;
  {
    // Alone first, without schedules.
    sim::Quiet q;
    for (int i = 0; i < n; ++i) users.push_back(MakeUser(ctx && sim::Chance(85) ? ctx.get() : nullptr, false));
  }
  const int faulty = sim::Chance(30) ? static_cast<int>(sim::Draw(n)) : -1;
  if (faulty >= 0) {
    // One user's cost functions fail; the others must not notice.
    sim::ArmFault("cost.neighbour", 0.05);
    users[faulty]->w->mon.fail = [](const SimCost&, const double* const*, bool) { return sim::Fault("cost.neighbour"); };
  }
  const bool no_threads = sim::Chance(15);
  if (no_threads) sim::ArmFault("thread.create", 0.2);
  struct Op {
    int what;
    int threads;
    bool loss;
  };
  std::vector<std::vector<Op>> ops(n);
  for (auto& o : ops)
    for (int k = sim::Range(1, 3); k > 0; --k) o.push_back({static_cast<int>(sim::Draw(4)), sim::Range(1, 4), sim::Chance(70)});
  int active = 0, overlap = 0;
  auto user = [&](int i) {
    User* u = users[i].get();
    for (const Op& op : ops[i]) {
      {
        sim::Quiet q;
        if (++active > overlap) overlap = active;
      }
      try {
        if (op.what <= 1) {
          {
            sim::Quiet q;
            u->w->m.SetUserState(u->s0);
          }
          const Solved b = RunSolve(&u->w->m, u->w->problem.get(), &u->w->mon, u->cfg, u->plan);
          if (i != faulty) Compare(u, b, "next to others");
        } else if (i == faulty) {
          ceres::Problem::EvaluateOptions o;
          o.num_threads = op.threads;
          double c;
          u->w->problem->Evaluate(o, &c, nullptr, nullptr, nullptr);
        } else if (op.what == 2) {
          EvaluateAndCheck(u->w.get(), op.threads, op.loss);
        } else {
          // A problem which lives only for a moment on the same threads.
          ceres::Problem::Options po;
          po.context = ctx.get();
          double x[2] = {1, 2};
          ceres::Problem p(po);
          CostSpec s;
          {
            sim::Quiet q;
            s.dim = 1;
            s.sizes = {2};
            s.A = Mat::Constant(1, 2, 3.0);
            s.B = Mat::Zero(1, 2);
            s.c = Vec::Zero(1);
            s.t = Vec::Constant(1, -1.0);
          }
          for (int k = 0; k < 5; ++k) p.AddResidualBlock(new SimCost(k, s, nullptr, nullptr), nullptr, x);
          ceres::Problem::EvaluateOptions o;
          o.num_threads = op.threads;
          double c = 0;
          const bool ok = p.Evaluate(o, &c, nullptr, nullptr, nullptr);
          SIM_CHECK(ok && Close(c, 5 * 32.0, 1e-12), "cost", "a problem of a moment has cost %g (evaluated: %d)", c, ok);
        }
      } catch (const std::system_error&) {
        SIM_CHECK(no_threads, "unexpected-exception", "an exception although threads can be created");
        sim::Quiet q;
        u->threw = true;
        sim::Probe("users.threw");
      }
      sim::Quiet q;
      --active;
    }
  };
  std::vector<std::thread> ts;
  sim::FaultsOff();  // the harness needs its own threads
  std::vector<int> go(n, 0);
  for (int i = 1; i < n; ++i) ts.emplace_back([&, i] { user(i); });
  sim::FaultsOn();
  user(0);
  for (auto& t : ts) t.join();
  if (overlap >= 2) sim::NonTrivial();
  if (overlap >= 2) sim::Probe("users.overlapped");
  // The threads are still good for everybody.
  sim::FaultsOff();
  for (auto& u : users) {
    u->w->mon.fail = nullptr;
    {
      sim::Quiet q;
      u->w->m.SetUserState(u->s0);
    }
    EvaluateAndCheck(u->w.get(), 3, true);
  }
}

// A cost function or a callback solves or evaluates another problem on the
// threads of the solve it runs in.
SIM_WORKLOAD(C14, nested, 8) {
  std::unique_ptr<ceres::Context> ctx(ceres::Context::Create());
  std::unique_ptr<User> outer;
  std::vector<std::unique_ptr<User>> inner;
  {
    sim::Quiet q;
    outer = MakeUser(ctx.get(), sim::Chance(30));
    for (int k = sim::Range(1, 3); k > 0; --k) inner.push_back(MakeUser(sim::Chance(90) ? ctx.get() : nullptr, true));
  }
  int left = sim::Range(1, 6), deep = 0, depth = 0;
  const int style = static_cast<int>(sim::Draw(4));
  std::mutex mu;
  auto nested = [&] {
    User* u = nullptr;
    {
      std::lock_guard<std::mutex> lock(mu);
      sim::Quiet q;
      if (left > 0)
        for (auto& k : inner)
          if (!k->busy) {
            u = k.get();
            break;
          }
      if (!u) return;
      --left;
      u->busy = true;
      if (++depth > deep) deep = depth;
    }
    if (style & 1) {
      if (u->serial) EvaluateBlocksAndCheck(u->w.get(), true);
      EvaluateAndCheck(u->w.get(), u->cfg.o.num_threads, true);
    } else {
      {
        sim::Quiet q;
        u->w->m.SetUserState(u->s0);
      }
      const Solved b = RunSolve(&u->w->m, u->w->problem.get(), &u->w->mon, u->cfg, u->plan);
      Compare(u, b, "inside another");
    }
    std::lock_guard<std::mutex> lock(mu);
    sim::Quiet q;
    u->busy = false;
    --depth;
    sim::Probe("nested.done");
  };
  if (style & 2) {
    outer->plan.count = 1;
    struct Cb : ceres::IterationCallback {
      std::function<void()> f;
      ceres::CallbackReturnType operator()(const ceres::IterationSummary&) override {
        f();
        return ceres::SOLVER_CONTINUE;
      }
    };
    Cb cb;
    cb.f = nested;
    SolveCfg cfg = outer->cfg;
    cfg.o.callbacks.push_back(&cb);
    const Solved b = RunSolve(&outer->w->m, outer->w->problem.get(), &outer->w->mon, cfg, outer->plan);
    Compare(outer.get(), b, "with others inside its callbacks");
  } else {
    outer->w->mon.body = [&](const SimCost&) { nested(); };
    const int op = static_cast<int>(sim::Draw(4));
    if (op == 1) EvaluateAndCheck(outer->w.get(), outer->cfg.o.num_threads, sim::Chance(80));
    if (op >= 2) EvaluateBlocksAndCheck(outer->w.get(), sim::Chance(80));
    if (op == 3) EvaluateBlocksAndCheck(outer->w.get(), true);
    if (op > 0) sim::Probe(op == 1 ? "nested.in_evaluate" : "nested.in_block");
    const Solved b = RunSolve(&outer->w->m, outer->w->problem.get(), &outer->w->mon, outer->cfg, outer->plan);
    Compare(outer.get(), b, "with others inside its cost functions");
  }
  if (deep > 0) sim::NonTrivial();
  if (deep > 1) sim::Probe("nested.concurrent");
}

}  // namespace
