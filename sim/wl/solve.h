// Running ceres::Solve under simulation with oracles that hold for every solve.
#ifndef VERIF_SIM_WL_SOLVE_H_
#define VERIF_SIM_WL_SOLVE_H_

#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "prob.h"

namespace wl {

using State = std::vector<std::vector<double>>;

struct Flavor {
  bool line_search = true;      // LINE_SEARCH minimizer allowed
  bool trust_region = true;
  bool iterative = true;        // inexact linear solvers allowed
  bool tight = false;           // tolerances near machine precision, iterative solvers solve exactly
  bool inner = true;            // inner iterations allowed
  bool mixed = true;            // mixed precision allowed
  bool nonmonotonic = true;
  int max_threads = 8;
  int max_iterations = 12;
};

struct SolveCfg {
  ceres::Solver::Options o;
  int linear = 0;      // index for reporting
  std::string text;    // description
  std::function<void(ceres::Solver::Options*)> tweak;  // applied last
  uint64_t Fingerprint() const;
};

// Draws a valid configuration for the model. Orderings are added per solve by
// MakeOrderings, because the solver consumes them.
SolveCfg DrawSolve(const Model& m, const Flavor& f);

struct SolveMonitor;

// An evaluation callback which checks its protocol.
struct EvalCb : ceres::EvaluationCallback {
  SolveMonitor* mon = nullptr;
  bool prepared = false, with_jac = false;
  int calls = 0, new_points = 0;
  State at;  // user memory at the last call
  std::function<void(bool jac)> slow;  // takes time
  void PrepareForEvaluation(bool evaluate_jacobians, bool new_evaluation_point) override;
};

struct SolveMonitor : Monitor {
  Model* m = nullptr;
  EvalCounters* cnt = nullptr;
  EvalCb* ecb = nullptr;
  bool solving = false;
  bool in_callback = false;
  bool must_not_evaluate = false;  // after a callback or limit stopped the solve
  bool stop_is_time = false;       // ... which holds only while the clock does not jump
  uint64_t stop_jumps = 0;
  const char* stop_reason = "";
  bool MustNotEvaluate() const { return must_not_evaluate && !(stop_is_time && sim::FaultCount("clock.jump") != stop_jumps); }
  bool check_frozen = false, check_bounds = false, check_manifold = true;
  int num_threads = 1;
  State start, frozen;
  long evals = 0, jac_evals = 0, failed = 0, cand_failed = 0;
  bool seen_jac = false;
  bool parallel = false;
  // Cost functions fail where this says so.
  std::function<bool(const SimCost&, const double* const*, bool)> fail;
  void OnEval(const SimCost& c, double const* const* p, bool want_jac) override;
  void OnEvalDone(const SimCost& c, bool ok) override;
  bool Fail(const SimCost& c, double const* const* p, bool want_jac) override;
  // Solver::Options::check_gradients: cost functions are also evaluated next to
  // the points of the solve.
  bool checking = false, wrong_gradients = false;
  std::function<void(const SimCost&, const double* const*, double**)> alter;
  void Alter(const SimCost& c, double const* const* p, double** J) override { if (alter) alter(c, p, J); }
  // User code run inside every cost function of this problem.
  std::function<void(const SimCost&)> body;
  void Body(const SimCost& c) override { if (body) body(c); }
  void OnCostDeleted(int id) override { ++deleted[id]; }
  std::map<int, int> deleted;
  void CheckPoint(int pb, const double* x) const;
};

struct Rec {
  int cb;
  ceres::IterationSummary s;
};

// What the user callbacks do.
struct CbPlan {
  int count = 1;
  int stop_cb = -1, stop_iteration = -1;
  ceres::CallbackReturnType stop = ceres::SOLVER_CONTINUE;
  bool slow = false;
  std::function<void(int cb, const ceres::IterationSummary&)> extra;
};

struct Solved {
  ceres::Solver::Summary s;
  std::vector<Rec> recs;
  State start, end;
  bool stopped = false;          // a user callback stopped the solve
  bool clean = true;             // no fault fired during the solve
  bool jumped = false;           // clock jumped
  bool pre_failed = false;       // preprocessing failed
  uint64_t ns = 0;               // simulated duration
};

// Solves with every general oracle armed.
Solved RunSolve(Model* m, ceres::Problem* problem, SolveMonitor* mon, const SolveCfg& cfg, const CbPlan& plan);

// The problem after a solve is the problem before it (apart from the values).
void CheckProblemIntact(const Model& m, const ceres::Problem& p);

double ProjectedGradientNorm(const Model& m, const State& s);

// A problem with a single minimum close to the start.
ModelOptions EasyModel();
ModelOptions AnyModel();

struct World {
  Model m;
  SolveMonitor mon;
  EvalCounters cnt;
  std::unique_ptr<ceres::Context> ctx;
  std::unique_ptr<EvalCb> ecb;
  std::unique_ptr<ceres::Problem> problem;

  World(const ModelOptions& mo, bool evaluation_callback, ceres::Context* shared = nullptr) {
    {
      sim::Quiet q;
      m.Draw(mo);
    }
    ceres::Problem::Options po;
    if (shared) {
      po.context = shared;
    } else if (sim::Chance(50)) {
      ctx.reset(ceres::Context::Create());
      po.context = ctx.get();
    }
    if (evaluation_callback) {
      ecb = std::make_unique<EvalCb>();
      ecb->mon = &mon;
      po.evaluation_callback = ecb.get();
    }
    mon.m = &m;
    mon.cnt = &cnt;
    mon.ecb = ecb.get();
    problem = std::make_unique<ceres::Problem>(po);
    m.AddTo(problem.get(), &mon, &cnt);
  }
};

void ArmEvalFaults(double rate);
// Two solves of the same problem from the same point, which may differ only in
// rounding, took the same steps.
void CompareSolves(const Model& m, const Solved& a, const Solved& b, const SolveCfg& cfg, bool unique);
// Bitwise.
bool SameSolve(const Model& m, const Solved& a, const Solved& b, std::string* why);

inline bool Usable(const ceres::Solver::Summary& s) { return s.IsSolutionUsable(); }

}  // namespace wl

#endif
