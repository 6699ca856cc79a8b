// C22: any Solver::Options are either refused, with a reason and without a
// trace, or solved; and they are the caller's.
#include <cinttypes>
#include <cmath>
#include <limits>

#include "solve.h"

namespace wl {
namespace {

using ceres::Solver;
using O = Solver::Options;

constexpr double kNan = std::numeric_limits<double>::quiet_NaN();
constexpr double kInf = std::numeric_limits<double>::infinity();

bool Varying(const PBlock& b) { return !b.constant && b.tangent > 0; }

// The documented constraints (solver.h), for a build with Eigen only.
bool Iterative(const O& o) { return o.linear_solver_type == ceres::CGNR || o.linear_solver_type == ceres::ITERATIVE_SCHUR; }
bool SparseCholesky(const O& o) { return o.sparse_linear_algebra_library_type == ceres::EIGEN_SPARSE && o.linear_solver_ordering_type != ceres::NESDIS; }
bool Dense(const O& o) { return o.dense_linear_algebra_library_type == ceres::EIGEN; }
bool SolverValid(const O& o) {
  const bool subset = o.preconditioner_type == ceres::SUBSET;
  switch (o.linear_solver_type) {
    case ceres::DENSE_QR: return Dense(o) && !o.use_mixed_precision_solves;
    case ceres::DENSE_NORMAL_CHOLESKY: return Dense(o);
    case ceres::SPARSE_NORMAL_CHOLESKY: return SparseCholesky(o);
    case ceres::DENSE_SCHUR: return Dense(o) && !o.dynamic_sparsity;
    case ceres::SPARSE_SCHUR: return SparseCholesky(o) && !o.dynamic_sparsity;
    case ceres::ITERATIVE_SCHUR:
      if (o.dynamic_sparsity || o.use_mixed_precision_solves || subset) return false;
      if (o.use_explicit_schur_complement && (o.preconditioner_type != ceres::SCHUR_JACOBI || o.use_spse_initialization)) return false;
      if ((o.use_spse_initialization || o.preconditioner_type == ceres::SCHUR_POWER_SERIES_EXPANSION) && !(o.max_num_spse_iterations >= 1 && o.spse_tolerance >= 0)) return false;
      if (o.preconditioner_type == ceres::CLUSTER_JACOBI || o.preconditioner_type == ceres::CLUSTER_TRIDIAGONAL) return SparseCholesky(o);
      return true;
    case ceres::CGNR:
      if (o.preconditioner_type != ceres::IDENTITY && o.preconditioner_type != ceres::JACOBI && !subset) return false;
      if (o.use_mixed_precision_solves || o.dynamic_sparsity) return false;
      if (o.sparse_linear_algebra_library_type == ceres::CUDA_SPARSE) return false;
      return !subset || (!o.residual_blocks_for_subset_preconditioner.empty() && SparseCholesky(o));
  }
  return false;
}
const char* Invalid(const O& o) {
#define MUST(x) \
  if (!(x)) return #x
  MUST(o.max_num_iterations >= 0);
  MUST(o.max_solver_time_in_seconds >= 0);
  MUST(o.function_tolerance >= 0);
  MUST(o.gradient_tolerance >= 0);
  MUST(o.parameter_tolerance >= 0);
  MUST(o.num_threads >= 1);
  if (o.check_gradients) {
    MUST(o.gradient_check_relative_precision > 0);
    MUST(o.gradient_check_numeric_derivative_relative_step_size > 0);
  }
  if (o.minimizer_type == ceres::TRUST_REGION) {
    MUST(o.min_trust_region_radius > 0);
    MUST(o.min_trust_region_radius <= o.initial_trust_region_radius);
    MUST(o.initial_trust_region_radius <= o.max_trust_region_radius);
    MUST(o.min_relative_decrease >= 0);
    MUST(o.min_lm_diagonal > 0);
    MUST(o.min_lm_diagonal <= o.max_lm_diagonal);
    MUST(o.max_num_consecutive_invalid_steps >= 0);
    MUST(o.eta > 0);
    MUST(o.min_linear_solver_iterations >= 0);
    MUST(o.min_linear_solver_iterations <= o.max_linear_solver_iterations);
    MUST(!o.use_inner_iterations || o.inner_iteration_tolerance >= 0);
    MUST(!o.use_nonmonotonic_steps || o.max_consecutive_nonmonotonic_steps >= 1);
    MUST(o.trust_region_strategy_type != ceres::DOGLEG || !Iterative(o));
    MUST(SolverValid(o));
    MUST(o.trust_region_minimizer_iterations_to_dump.empty() || o.trust_region_problem_dump_format_type == ceres::CONSOLE || !o.trust_region_problem_dump_directory.empty());
  }
  // The trust region minimizer also searches along the projected step.
  MUST(o.max_lbfgs_rank >= 1);
  MUST(o.min_line_search_step_size > 0);
  MUST(o.max_line_search_step_contraction > 0);
  MUST(o.max_line_search_step_contraction < o.min_line_search_step_contraction);
  MUST(o.min_line_search_step_contraction <= 1);
  MUST(o.max_num_line_search_step_size_iterations >= (o.minimizer_type == ceres::TRUST_REGION ? 0 : 1));
  MUST(o.line_search_sufficient_function_decrease > 0);
  MUST(o.line_search_sufficient_function_decrease < o.line_search_sufficient_curvature_decrease);
  MUST(o.line_search_sufficient_curvature_decrease < 1);
  MUST(o.max_line_search_step_expansion > 1);
  MUST((o.line_search_direction_type != ceres::BFGS && o.line_search_direction_type != ceres::LBFGS) || o.line_search_type == ceres::WOLFE);
#undef MUST
  return nullptr;
}

struct IntField {
  const char* name;
  int O::*f;
  std::vector<int> v;
};
struct DblField {
  const char* name;
  double O::*f;
  std::vector<double> v;
};
const std::vector<IntField>& Ints() {
  static const std::vector<IntField> t = {
      {"max_num_iterations", &O::max_num_iterations, {-1, 0, 1, 3}},
      {"num_threads", &O::num_threads, {-1, 0, 1, 40}},
      {"max_num_consecutive_invalid_steps", &O::max_num_consecutive_invalid_steps, {-1, 0, 1, 1 << 30}},
      {"min_linear_solver_iterations", &O::min_linear_solver_iterations, {-1, 0, 3, 501}},
      {"max_linear_solver_iterations", &O::max_linear_solver_iterations, {-1, 0, 1, 2}},
      {"max_consecutive_nonmonotonic_steps", &O::max_consecutive_nonmonotonic_steps, {-1, 0, 1, 3}},
      {"max_lbfgs_rank", &O::max_lbfgs_rank, {-1, 0, 1, 20}},
      {"max_num_line_search_step_size_iterations", &O::max_num_line_search_step_size_iterations, {-1, 0, 1, 20}},
      {"max_num_line_search_direction_restarts", &O::max_num_line_search_direction_restarts, {-1, 0, 1, 5}},
      {"max_num_refinement_iterations", &O::max_num_refinement_iterations, {-1, 0, 1, 2}},
      {"max_num_spse_iterations", &O::max_num_spse_iterations, {-1, 0, 1, 5}},
  };
  return t;
}
const std::vector<DblField>& Dbls() {
  static const std::vector<DblField> t = {
      {"max_solver_time_in_seconds", &O::max_solver_time_in_seconds, {kNan, -1, 0, 1e-3, kInf}},
      {"function_tolerance", &O::function_tolerance, {kNan, -1e-300, 0, 1e-6, kInf}},
      {"gradient_tolerance", &O::gradient_tolerance, {kNan, -1, 0, 1e-6, kInf}},
      {"parameter_tolerance", &O::parameter_tolerance, {kNan, -1e-9, 0, 1e-6, kInf}},
      {"initial_trust_region_radius", &O::initial_trust_region_radius, {kNan, -1, 0, 1, 1e20}},
      {"max_trust_region_radius", &O::max_trust_region_radius, {kNan, 0, 1e-40, 1, kInf}},
      {"min_trust_region_radius", &O::min_trust_region_radius, {kNan, 0, 1e-3, 1e17, -1}},
      {"min_relative_decrease", &O::min_relative_decrease, {kNan, -1e-3, 0, 0.5, 2}},
      {"min_lm_diagonal", &O::min_lm_diagonal, {kNan, -1, 0, 1e-2, 1e40}},
      {"max_lm_diagonal", &O::max_lm_diagonal, {kNan, -1, 0, 1, kInf}},
      {"eta", &O::eta, {kNan, -1, 0, 0.5, 10}},
      {"inner_iteration_tolerance", &O::inner_iteration_tolerance, {kNan, -1, 0, 1e-3, kInf}},
      {"spse_tolerance", &O::spse_tolerance, {kNan, -1, 0, 0.1}},
      {"min_line_search_step_size", &O::min_line_search_step_size, {kNan, -1, 0, 1e-9, 1e-2}},
      {"line_search_sufficient_function_decrease", &O::line_search_sufficient_function_decrease, {kNan, -1, 0, 0.3, 0.95}},
      {"max_line_search_step_contraction", &O::max_line_search_step_contraction, {kNan, 0, 1, 0.3, 0.7}},
      {"min_line_search_step_contraction", &O::min_line_search_step_contraction, {kNan, 1e-4, 1, 1.5, 0.8}},
      {"line_search_sufficient_curvature_decrease", &O::line_search_sufficient_curvature_decrease, {kNan, 1e-5, 1, 0.5, 0}},
      {"max_line_search_step_expansion", &O::max_line_search_step_expansion, {kNan, 1, 0.5, 1.5, 20}},
      {"gradient_check_relative_precision", &O::gradient_check_relative_precision, {kNan, -1, 0, 1e-6, kInf}},
      {"gradient_check_numeric_derivative_relative_step_size", &O::gradient_check_numeric_derivative_relative_step_size, {kNan, -1, 0, 1e-6}},
  };
  return t;
}

template <class E>
void Pick(O* o, E O::*f, std::initializer_list<E> v, const char* name, std::string* text) {
  o->*f = *(v.begin() + sim::Draw(v.size()));
  *text += std::string(" ") + name + "=" + std::to_string(static_cast<int>(o->*f));
}

void Mutate(O* o, std::string* text) {
  char b[96];
  switch (sim::Draw(8)) {
    case 0:
    case 1: {
      const IntField& f = Ints()[sim::Draw(Ints().size())];
      o->*f.f = f.v[sim::Draw(f.v.size())];
      snprintf(b, sizeof(b), " %s=%d", f.name, o->*f.f);
      *text += b;
      if (f.f == &O::max_consecutive_nonmonotonic_steps) o->use_nonmonotonic_steps = sim::Chance(70);
      break;
    }
    case 2:
    case 3:
    case 4: {
      const DblField& f = Dbls()[sim::Draw(Dbls().size())];
      o->*f.f = f.v[sim::Draw(f.v.size())];
      snprintf(b, sizeof(b), " %s=%g", f.name, o->*f.f);
      *text += b;
      if (f.f == &O::gradient_check_relative_precision || f.f == &O::gradient_check_numeric_derivative_relative_step_size) o->check_gradients = sim::Chance(70);
      break;
    }
    default:
      switch (sim::Draw(18)) {
        case 0: Pick(o, &O::sparse_linear_algebra_library_type, {ceres::NO_SPARSE, ceres::SUITE_SPARSE, ceres::ACCELERATE_SPARSE, ceres::CUDA_SPARSE, ceres::EIGEN_SPARSE}, "sparse", text); break;
        case 1: Pick(o, &O::dense_linear_algebra_library_type, {ceres::LAPACK, ceres::CUDA, ceres::EIGEN}, "dense", text); break;
        case 2: Pick(o, &O::linear_solver_ordering_type, {ceres::NESDIS, ceres::AMD}, "ordering_type", text); break;
        case 3: Pick(o, &O::dynamic_sparsity, {true, false}, "dynamic", text); break;
        case 4: Pick(o, &O::use_mixed_precision_solves, {true, false}, "mixed", text); break;
        case 5: Pick(o, &O::use_explicit_schur_complement, {true, false}, "explicit", text); break;
        case 6: Pick(o, &O::use_spse_initialization, {true, false}, "spse", text); break;
        case 7: Pick(o, &O::preconditioner_type, {ceres::IDENTITY, ceres::JACOBI, ceres::SCHUR_JACOBI, ceres::SCHUR_POWER_SERIES_EXPANSION, ceres::CLUSTER_JACOBI, ceres::CLUSTER_TRIDIAGONAL, ceres::SUBSET}, "preconditioner", text); break;
        case 8: Pick(o, &O::trust_region_strategy_type, {ceres::DOGLEG, ceres::LEVENBERG_MARQUARDT}, "strategy", text); break;
        case 9: Pick(o, &O::linear_solver_type, {ceres::DENSE_QR, ceres::DENSE_NORMAL_CHOLESKY, ceres::SPARSE_NORMAL_CHOLESKY, ceres::DENSE_SCHUR, ceres::SPARSE_SCHUR, ceres::ITERATIVE_SCHUR, ceres::CGNR}, "solver", text); break;
        case 10: Pick(o, &O::line_search_type, {ceres::ARMIJO, ceres::WOLFE}, "line_search", text); break;
        case 11: Pick(o, &O::line_search_direction_type, {ceres::STEEPEST_DESCENT, ceres::NONLINEAR_CONJUGATE_GRADIENT, ceres::LBFGS, ceres::BFGS}, "direction", text); break;
        case 12: Pick(o, &O::minimizer_type, {ceres::LINE_SEARCH, ceres::TRUST_REGION}, "minimizer", text); break;
        case 13:
          o->residual_blocks_for_subset_preconditioner.clear();
          o->preconditioner_type = ceres::SUBSET;
          *text += " empty subset";
          break;
        case 14: Pick(o, &O::use_inner_iterations, {true, false}, "inner", text); break;
        case 15: Pick(o, &O::visibility_clustering_type, {ceres::CANONICAL_VIEWS, ceres::SINGLE_LINKAGE}, "clustering", text); break;
        case 16:
          o->trust_region_minimizer_iterations_to_dump = {500};
          o->trust_region_problem_dump_directory = sim::Chance(50) ? "" : "/nowhere";
          o->trust_region_problem_dump_format_type = sim::Chance(50) ? ceres::TEXTFILE : ceres::CONSOLE;
          *text += " dump";
          break;
        default: Pick(o, &O::check_gradients, {true, false}, "check", text); break;
      }
  }
}

enum Verdict { kAccept, kRefuse, kEither };

// An ordering: groups of blocks, with what is wrong with it.
struct Order {
  bool given = false;
  std::map<int, std::set<int>> groups;  // -1: a pointer which is not part of the problem
  int foreign = 0;
  std::string text;
};
Order DrawOrder(const Model& m) {
  Order r;
  r.given = true;
  const int kind = static_cast<int>(sim::Draw(6));
  const int ng = sim::Range(1, 3);
  for (int i = 0; i < static_cast<int>(m.pbs.size()); ++i) {
    int g = static_cast<int>(sim::Draw(ng));
    if (kind == 1) g = m.e_blocks.count(i) ? 0 : 1;
    if (kind == 2) g = i;
    r.groups[g].insert(i);
  }
  if (kind >= 4 || sim::Chance(15)) {
    // Leave some out.
    for (auto& g : r.groups)
      for (auto it = g.second.begin(); it != g.second.end();) it = sim::Chance(25) ? g.second.erase(it) : std::next(it);
  }
  if (kind == 5 || sim::Chance(10)) {
    r.foreign = sim::Range(1, 2);
    for (int i = 0; i < r.foreign; ++i) r.groups[static_cast<int>(sim::Draw(3))].insert(-1 - i);
  }
  for (auto it = r.groups.begin(); it != r.groups.end();) it = it->second.empty() ? r.groups.erase(it) : std::next(it);
  for (auto& g : r.groups) {
    r.text += " {";
    for (int i : g.second) r.text += " " + std::to_string(i);
    r.text += " }";
  }
  return r;
}
double g_foreign[2];
std::shared_ptr<ceres::ParameterBlockOrdering> Make(const Model& m, const Order& r) {
  auto o = std::make_shared<ceres::ParameterBlockOrdering>();
  for (auto& g : r.groups)
    for (int i : g.second) o->AddElementToGroup(i < 0 ? &g_foreign[-1 - i] : m.pbs[i].x, g.first);
  return o;
}
bool Independent(const Model& m, const std::vector<char>& fixed, const std::set<int>& group) {
  for (size_t r = 0; r < m.rbs.size(); ++r) {
    if (fixed[r]) continue;
    std::set<int> seen;
    for (int b : m.rbs[r].pb)
      if (Varying(m.pbs[b]) && group.count(b) && !seen.insert(b).second) continue;
    if (seen.size() > 1) return false;
  }
  return true;
}

void AnyOptions() {
  ModelOptions mo = AnyModel();
  mo.bounds = sim::Chance(20);
  World w(mo, sim::Chance(15));
  Model& m = w.m;
  Flavor f;
  if (w.ecb) f.inner = false;
  f.max_iterations = 5;
  SolveCfg cfg = DrawSolve(m, f);
  O& o = cfg.o;
  std::string text;
  for (int k = static_cast<int>(sim::Draw(4)); k > 0; --k) Mutate(&o, &text);
  if (o.max_solver_time_in_seconds == 1e-3 && sim::Chance(50)) o.max_solver_time_in_seconds = 0.3;
  if (o.num_threads > 8) sim::SetHardwareConcurrency(sim::Range(1, 4));

  // What of the problem takes part.
  std::vector<char> fixed(m.rbs.size(), 1);
  std::vector<char> used(m.pbs.size(), 0);
  bool any_fixed = false;
  for (size_t i = 0; i < m.rbs.size(); ++i) {
    for (int b : m.rbs[i].pb) fixed[i] = fixed[i] && !Varying(m.pbs[b]);
    any_fixed |= fixed[i];
    if (!fixed[i])
      for (int b : m.rbs[i].pb) used[b] = used[b] || Varying(m.pbs[b]);
  }
  int nused = 0;
  for (char u : used) nused += u;
  const bool tr = o.minimizer_type == ceres::TRUST_REGION;

  // Orderings.
  Order lin, inn;
  if (sim::Chance(30)) lin = DrawOrder(m);
  if (o.use_inner_iterations && sim::Chance(50)) inn = DrawOrder(m);
  cfg.tweak = [&](O* x) {
    if (lin.given) x->linear_solver_ordering = Make(m, lin);
    if (inn.given) x->inner_iteration_ordering = Make(m, inn);
    if (x->use_inner_iterations && !inn.given) x->inner_iteration_ordering = nullptr;
    if (!lin.given && o.linear_solver_type != ceres::DENSE_QR && text.find("solver=") != std::string::npos) x->linear_solver_ordering = nullptr;
  };

  // Something wrong with the problem.
  enum { kFine, kNonFinite, kEmptyBounds, kInfeasibleConstant, kBounds } wrong = kFine;
  int wb = -1, wk = 0;
  double keep = 0;
  if (sim::Chance(20)) {
    wb = static_cast<int>(sim::Draw(m.pbs.size()));
    PBlock& b = m.pbs[wb];
    wk = static_cast<int>(sim::Draw(b.size));
    const int what = static_cast<int>(sim::Draw(2));
    if (what == 0) {
      wrong = kNonFinite;
      keep = b.x[wk];
      b.x[wk] = sim::Chance(50) ? kNan : sim::Chance(50) ? kInf : -kInf;
      text += " nonfinite block " + std::to_string(wb);
    } else if (b.lo.empty()) {
      const double v = b.x[wk];
      wrong = Varying(b) ? sim::Chance(50) ? kEmptyBounds : kBounds : b.constant ? kInfeasibleConstant : kFine;
      if (wrong != kFine) {
        b.lo.assign(b.size, -std::numeric_limits<double>::max());
        b.hi.assign(b.size, std::numeric_limits<double>::max());
        b.lo[wk] = wrong == kInfeasibleConstant ? v + 1 : v - 10;
        w.problem->SetParameterLowerBound(b.x, wk, b.lo[wk]);
        if (wrong == kEmptyBounds) {
          b.hi[wk] = sim::Chance(50) ? b.lo[wk] : v - 11;
          w.problem->SetParameterUpperBound(b.x, wk, b.hi[wk]);
        }
        // A bound on a coordinate the block's manifold mixes with others is not
        // something the solver keeps.
        if (wrong == kBounds && tr && b.manifold) {
          w.problem->SetParameterLowerBound(b.x, wk, -std::numeric_limits<double>::max());
          b.lo.clear();
          b.hi.clear();
          wrong = kFine;
        } else {
          text += " bounds of block " + std::to_string(wb);
        }
      }
    }
  }
  bool bounds = false;
  for (auto& b : m.pbs)
    for (size_t k = 0; k < b.lo.size(); ++k) bounds |= Varying(b) && (b.lo[k] > -std::numeric_limits<double>::max() || b.hi[k] < std::numeric_limits<double>::max());

  // What should happen.
  Verdict want = kAccept;
  const char* why = "nothing";
  auto refuse = [&](const char* r) {
    if (want == kAccept || want == kEither) {
      want = kRefuse;
      why = r;
    }
  };
  O probe = o;
  cfg.tweak(&probe);
  const char* invalid = Invalid(o);
  {
    std::string err;
    const bool ok = probe.IsValid(&err);
    SIM_CHECK(ok == (invalid == nullptr), "validation", "IsValid says %s, the documented constraint %s is %s [%s; %s]", ok ? "valid" : err.c_str(), invalid ? invalid : "(all)", invalid ? "violated" : "met", text.c_str(), cfg.text.c_str());
    SIM_CHECK(ok == err.empty(), "validation", ok ? "IsValid says valid, and: %s" : "IsValid gives no reason%s [%s]", err.c_str(), text.c_str());
  }
  if (invalid) {
    refuse(invalid);
  } else {
    if (wrong == kNonFinite) refuse("non-finite parameter");
    if (tr && wrong == kEmptyBounds) refuse("empty bounds");
    if (tr && wrong == kInfeasibleConstant) refuse("infeasible constant");
    if (!tr && bounds) refuse("LINE_SEARCH with bounds");
  }
  if (want == kAccept && tr && nused > 0) {
    auto type = o.linear_solver_type;
    const bool schur = type == ceres::DENSE_SCHUR || type == ceres::SPARSE_SCHUR || type == ceres::ITERATIVE_SCHUR;
    if (lin.given) {
      int members = 0;
      std::vector<std::pair<int, std::set<int>>> left;
      for (auto& g : lin.groups) {
        std::set<int> s;
        for (int i : g.second)
          if (i < 0 || used[i]) s.insert(i);
        for (int i : s) members += i >= 0;
        if (!s.empty()) left.push_back({g.first, s});
      }
      const bool missing = members != nused, foreign = lin.foreign > 0;
      const bool fallback = schur && !left.empty() && left[0].first != lin.groups.begin()->first;
      const bool sparse = (type == ceres::SPARSE_NORMAL_CHOLESKY && !o.dynamic_sparsity) || (type == ceres::CGNR && o.preconditioner_type == ceres::SUBSET);
      if (schur && !fallback) {
        if (missing || foreign) refuse("linear ordering is not one of the parameter blocks");
        else if (left.size() > 1 && !Independent(m, fixed, left[0].second)) refuse("first group is not independent");
      } else if (sparse) {
        if (members + lin.foreign != nused) refuse("linear ordering of another size");
        else if (foreign) want = kEither;
      } else if (fallback && (missing || foreign)) {
        want = kEither;
      }
    }
    if (o.use_inner_iterations) {
      if (w.ecb) refuse("inner iterations with an evaluation callback");
      else if (nused > 1 && inn.given) {
        bool any = false;
        for (auto& g : inn.groups)
          for (int i : g.second) any |= i < 0 || used[i];
        if (any) {
          if (inn.foreign) refuse("inner ordering with a foreign pointer");
          for (auto& g : inn.groups)
            if (!Independent(m, fixed, g.second)) refuse("inner ordering with a dependent group");
        }
      }
    }
  }
  for (size_t r = 0; r < m.rbs.size(); ++r) {
    std::string t;
    for (int b : m.rbs[r].pb) t += " " + std::to_string(b) + (Varying(m.pbs[b]) ? "" : "c");
    sim::Event("residual block %zu:%s%s", r, t.c_str(), fixed[r] ? " fixed" : "");
  }
  sim::Event("options%s lin%s inn%s: %s (%s)", text.c_str(), lin.text.c_str(), inn.text.c_str(), want == kAccept ? "accept" : want == kRefuse ? "refuse" : "either", why);
  sim::Probe(want == kAccept ? "options.accepted" : want == kRefuse ? invalid ? "options.invalid" : "options.refused" : "options.either");
  sim::State(HashMix(cfg.Fingerprint(), std::hash<std::string>()(text) + std::hash<std::string>()(why)));
  if (want == kRefuse) sim::NonTrivial();
  const auto subset = o.residual_blocks_for_subset_preconditioner;

  if (want == kAccept) {
    if (sim::Chance(40)) ArmEvalFaults(0.01);
    if (o.check_gradients) {
      w.mon.checking = w.mon.wrong_gradients = true;
      sim::ArmFault("cost.partial", 0);  // the gradient checker starts from zeros
    }
    CbPlan plan;
    plan.count = sim::Range(0, 2);
    cfg.text += text;
    const Solved r = RunSolve(&m, w.problem.get(), &w.mon, cfg, plan);
    sim::FaultsOff();
    if (r.clean) SIM_CHECK(r.s.termination_type != ceres::FAILURE || !r.s.iterations.empty(), "refused-valid", "valid options and a valid problem were refused: %s [%s]", r.s.message.c_str(), cfg.text.c_str());
    if (r.s.iterations.size() > 1) sim::NonTrivial();
    r.s.FullReport();
    return;
  }

  // Refused, or perhaps.
  struct Never : ceres::IterationCallback {
    bool refuse;
    ceres::CallbackReturnType operator()(const ceres::IterationSummary&) override {
      SIM_CHECK(!refuse, "refused-callback", "an iteration callback ran although the solve cannot be done");
      return ceres::SOLVER_CONTINUE;
    }
  } never;
  never.refuse = want == kRefuse;
  probe.callbacks.push_back(&never);
  std::map<int, std::set<double*>> lin0, inn0;
  if (probe.linear_solver_ordering) lin0 = probe.linear_solver_ordering->group_to_elements();
  if (probe.inner_iteration_ordering) inn0 = probe.inner_iteration_ordering->group_to_elements();
  const State start = m.UserState();
  bool running = true;
  w.mon.fail = [&](const SimCost& c, const double* const*, bool want_jac) {
    if (running && want == kRefuse) SIM_CHECK(!invalid && fixed[c.id] && !want_jac, "refused-evaluation", "cost function %d was evaluated although the solve cannot be done (fixed %d, Jacobians %d; %s) [%s]", c.id, fixed[c.id], want_jac, why, text.c_str());
    return false;
  };
  const long prepared = w.ecb ? w.ecb->calls : 0;
  Solver::Summary s;
  s.message = "before";
  s.iterations.resize(3);
  ceres::Solve(probe, w.problem.get(), &s);
  running = false;
  sim::Quiet q;
  const State end = m.UserState();
  if (want == kRefuse) {
    SIM_CHECK(s.termination_type == ceres::FAILURE && !s.IsSolutionUsable(), "accepted-invalid", "the solve ended with %s although %s [%s; %s]", ceres::TerminationTypeToString(s.termination_type), why, text.c_str(), cfg.text.c_str());
    SIM_CHECK(!s.message.empty() && s.message != "before", "no-reason", "the solve was refused without a reason (%s)", why);
    SIM_CHECK(s.iterations.empty() && s.num_successful_steps <= 0 && s.num_unsuccessful_steps <= 0, "refused-iterations", "a refused solve reports %zu iterations", s.iterations.size());
    for (size_t i = 0; i < m.pbs.size(); ++i) SIM_CHECK(SameBits(start[i].data(), end[i].data(), m.pbs[i].size), "refused-modified", "a refused solve modified parameter block %zu", i);
    if (w.ecb) SIM_CHECK(w.ecb->calls - prepared <= (any_fixed && !invalid ? 1 : 0), "refused-evaluation", "PrepareForEvaluation was called %ld times by a refused solve", w.ecb->calls - prepared);
  }
  SIM_CHECK(!probe.linear_solver_ordering || probe.linear_solver_ordering->group_to_elements() == lin0, "options-changed", "the solve changed the caller's linear_solver_ordering");
  SIM_CHECK(!probe.inner_iteration_ordering || probe.inner_iteration_ordering->group_to_elements() == inn0, "options-changed", "the solve changed the caller's inner_iteration_ordering");
  SIM_CHECK(probe.residual_blocks_for_subset_preconditioner == subset && probe.callbacks.size() == 1, "options-changed", "the solve changed the caller's options");
  CheckProblemIntact(m, *w.problem);
  SIM_CHECK(!s.FullReport().empty() && !s.BriefReport().empty(), "report", "no report of a refused solve");
  if (!sim::Chance(40)) return;
  // Repair the problem, and solve it.
  if (wb >= 0) {
    PBlock& b = m.pbs[wb];
    if (wrong == kNonFinite) b.x[wk] = keep;
    if (wrong > kNonFinite) {
      w.problem->SetParameterLowerBound(b.x, wk, -std::numeric_limits<double>::max());
      w.problem->SetParameterUpperBound(b.x, wk, std::numeric_limits<double>::max());
      b.lo.clear();
      b.hi.clear();
    }
  }
  for (size_t i = 0; i < m.pbs.size(); ++i)
    if (want == kEither) std::copy(start[i].begin(), start[i].end(), m.pbs[i].x);
  if (wrong == kNonFinite) m.pbs[wb].x[wk] = keep;
  SolveCfg again = DrawSolve(m, f);
  CbPlan plan;
  const Solved r = RunSolve(&m, w.problem.get(), &w.mon, again, plan);
  SIM_CHECK(r.s.termination_type != ceres::FAILURE || !r.s.iterations.empty(), "refused-valid", "after a refused solve a valid one was refused: %s", r.s.message.c_str());
  sim::Probe("options.solved_after");
}

// The same for GradientProblemSolver.
using G = ceres::GradientProblemSolver::Options;
struct Bowl : ceres::FirstOrderFunction {
  int n = 2, calls = 0;
  bool refuse = false;
  std::string why;
  bool Evaluate(const double* x, double* cost, double* g) const override {
    sim::Quiet q;
    SIM_CHECK(!refuse, "refused-evaluation", "the function was evaluated although the solve cannot be done (%s)", why.c_str());
    const_cast<Bowl*>(this)->calls++;
    *cost = 0;
    for (int i = 0; i < n; ++i) {
      SIM_CHECK(std::isfinite(x[i]), "non-finite-point", "the function is evaluated at %g", x[i]);
      const double s = 1 + 3 * i, d = x[i] - i;
      *cost += s * d * d + 0.1 * std::sin(x[i]);
      if (g) g[i] = 2 * s * d + 0.1 * std::cos(x[i]);
    }
    return true;
  }
  int NumParameters() const override { return n; }
};
void GradientOptions() {
  G o;
  o.logging_type = ceres::SILENT;
  o.max_num_iterations = sim::Range(0, 8);
  o.line_search_direction_type = static_cast<ceres::LineSearchDirectionType>(sim::Draw(4));
  o.line_search_type = sim::Chance(40) ? ceres::ARMIJO : ceres::WOLFE;
  o.line_search_interpolation_type = static_cast<ceres::LineSearchInterpolationType>(sim::Draw(3));
  // The constraints are those of Solver::Options.
  std::string text;
  O full;
  full.minimizer_type = ceres::LINE_SEARCH;
  auto i32 = [&](const char* name, int G::*f, int O::*g) {
    for (auto& t : Ints())
      if (t.f == g && sim::Chance(12)) {
        o.*f = t.v[sim::Draw(t.v.size())];
        text += std::string(" ") + name + "=" + std::to_string(o.*f);
      }
    full.*g = o.*f;
  };
  auto f64 = [&](const char* name, double G::*f, double O::*g) {
    for (auto& t : Dbls())
      if (t.f == g && sim::Chance(12)) {
        char b[32];
        o.*f = t.v[sim::Draw(t.v.size())];
        snprintf(b, sizeof(b), "=%g", o.*f);
        text += std::string(" ") + name + b;
      }
    full.*g = o.*f;
  };
#define I32(x) i32(#x, &G::x, &O::x)
#define F64(x) f64(#x, &G::x, &O::x)
  I32(max_num_iterations);
  I32(max_lbfgs_rank);
  I32(max_num_line_search_step_size_iterations);
  I32(max_num_line_search_direction_restarts);
  F64(max_solver_time_in_seconds);
  F64(function_tolerance);
  F64(gradient_tolerance);
  F64(parameter_tolerance);
  F64(min_line_search_step_size);
  F64(line_search_sufficient_function_decrease);
  F64(max_line_search_step_contraction);
  F64(min_line_search_step_contraction);
  F64(line_search_sufficient_curvature_decrease);
  F64(max_line_search_step_expansion);
#undef I32
#undef F64
  full.line_search_direction_type = o.line_search_direction_type;
  full.line_search_type = o.line_search_type;
  const char* invalid = Invalid(full);
  std::string err;
  const bool ok = o.IsValid(&err);
  SIM_CHECK(ok == (invalid == nullptr), "validation", "IsValid says %s, the documented constraint %s is %s [%s]", ok ? "valid" : err.c_str(), invalid ? invalid : "(all)", invalid ? "violated" : "met", text.c_str());
  SIM_CHECK(ok == err.empty(), "validation", ok ? "IsValid says valid, and: %s" : "IsValid gives no reason%s", err.c_str());
  auto owned = std::make_unique<Bowl>();
  Bowl* f = owned.get();
  f->n = sim::Range(1, 3);
  ceres::GradientProblem problem(std::move(owned));
  std::vector<double> x(f->n), x0;
  for (double& v : x) v = sim::Range(-4, 4) * 0.75;
  x0 = x;
  double c0, c1;
  f->Evaluate(x0.data(), &c0, nullptr);
  struct Cb : ceres::IterationCallback {
    bool refuse = false;
    int calls = 0;
    ceres::CallbackReturnType operator()(const ceres::IterationSummary&) override {
      SIM_CHECK(!refuse, "refused-callback", "an iteration callback ran although the solve cannot be done");
      ++calls;
      return ceres::SOLVER_CONTINUE;
    }
  } cb;
  o.callbacks.push_back(&cb);
  f->refuse = cb.refuse = !ok;
  f->why = invalid ? invalid : "";
  ceres::GradientProblemSolver::Summary s;
  ceres::Solve(o, problem, x.data(), &s);
  f->refuse = false;
  sim::Quiet q;
  sim::Event("gradient options%s: %s %s", text.c_str(), ceres::TerminationTypeToString(s.termination_type), s.message.substr(0, 60).c_str());
  sim::State(std::hash<std::string>()(text));
  sim::NonTrivial();
  SIM_CHECK(!s.FullReport().empty() && !s.BriefReport().empty(), "report", "no report");
  if (!ok) {
    sim::Probe("options.gradient_invalid");
    SIM_CHECK(s.termination_type == ceres::FAILURE && !s.IsSolutionUsable(), "accepted-invalid", "the solve ended with %s although %s [%s]", ceres::TerminationTypeToString(s.termination_type), invalid, text.c_str());
    SIM_CHECK(s.message == err, "no-reason", "the solve was refused because of '%s', not '%s'", s.message.c_str(), err.c_str());
    SIM_CHECK(s.iterations.empty() && x == x0, "refused-modified", "a refused solve made %zu iterations or modified the parameters", s.iterations.size());
    return;
  }
  f->Evaluate(x.data(), &c1, nullptr);
  SIM_CHECK(s.iterations.empty() || s.iterations.back().iteration <= o.max_num_iterations, "iteration-limit", "%zu iterations were made, the limit is %d", s.iterations.size(), o.max_num_iterations);
  if (s.IsSolutionUsable()) {
    SIM_CHECK(Close(s.initial_cost, c0, 1e-12) && Close(s.final_cost, c1, 1e-9) && c1 <= c0 * (1 + 1e-12) + 1e-300, "final-cost", "the cost went from %.17g to %.17g, the summary says %.17g to %.17g [%s]", c0, c1, s.initial_cost, s.final_cost, text.c_str());
    sim::Probe("options.gradient_accepted");
  } else {
    SIM_CHECK(x == x0 && !s.iterations.empty(), "refused-valid", "a valid solve ended with: %s [%s]", s.message.c_str(), text.c_str());
  }
}

SIM_WORKLOAD(C22, options, 10) { AnyOptions(); }
SIM_WORKLOAD(C22, gradient_options, 3) { GradientOptions(); }

}  // namespace
}  // namespace wl
