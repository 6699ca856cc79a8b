// C17: files: dumps of trust region problems and the file helpers.
#include <cstdio>
#include <memory>
#include <random>
#include <sstream>

#include "ceres/block_sparse_matrix.h"
#include "ceres/compressed_row_sparse_matrix.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/file.h"
#include "ceres/linear_least_squares_problems.h"
#include "ceres/triplet_sparse_matrix.h"
#include "solve.h"

namespace {

using namespace wl;
using ceres::Solver;
using DMat = Eigen::MatrixXd;

const char* kDisk[] = {"disk.open", "disk.write", "disk.close"};

void ArmDisk(double rate) {
  const int which = static_cast<int>(sim::Draw(4));
  for (int i = 0; i < 3; ++i)
    if (which == 3 || which == i) sim::ArmFault(kDisk[i], rate);
}
void DisarmDisk() {
  for (const char* s : kDisk) sim::ArmFault(s, 0);
  sim::ArmFault("disk.read", 0);
  sim::ArmFault("disk.seek", 0);
}
double DrawRate() {
  static const double r[] = {1.0, 0.3, 0.1, 0.03};
  return r[sim::Draw(4)];
}

// What a dump says.
struct Dump {
  int rows = -1, cols = -1;
  DMat A;
  bool has_D = false, has_b = false, has_x = false;
  Vec D, b, x;
};

Vec ReadVector(const std::string& path) {
  SIM_CHECK(sim::DiskExists(path), "dump-incomplete", "the dump refers to %s, which does not exist", path.c_str());
  std::istringstream in(sim::DiskRead(path));
  std::vector<double> v;
  double d;
  while (in >> d) v.push_back(d);
  SIM_CHECK(in.eof(), "dump-garbled", "%s holds something that is not a number", path.c_str());
  return Eigen::Map<Vec>(v.data(), v.size());
}

Dump ReadDump(const std::string& base) {
  Dump r;
  const std::string m = base + ".m";
  SIM_CHECK(sim::DiskExists(m), "dump-incomplete", "there is no %s", m.c_str());
  const std::string text = sim::DiskRead(m);
  auto number = [&](const char* key) {
    const size_t p = text.find(key);
    SIM_CHECK(p != std::string::npos, "dump-garbled", "%s has no %s", m.c_str(), key);
    return atoi(text.c_str() + p + strlen(key));
  };
  r.rows = number("lsqp.num_rows = ");
  r.cols = number("lsqp.num_cols = ");
  SIM_CHECK(!text.empty() && text.back() == '\n', "dump-truncated", "%s ends in the middle of a line", m.c_str());
  auto loads = [&](const char* suffix) { return text.find("load('" + base + suffix + "'") != std::string::npos; };
  SIM_CHECK(loads("_A.txt"), "dump-garbled", "%s does not load the matrix", m.c_str());
  r.has_D = loads("_D.txt");
  r.has_b = loads("_b.txt");
  r.has_x = loads("_x.txt");
  const std::string a = sim::DiskRead(base + "_A.txt");
  SIM_CHECK(a.empty() || a.back() == '\n', "dump-truncated", "%s_A.txt ends in the middle of a line", base.c_str());
  r.A = DMat::Zero(r.rows, r.cols);
  std::istringstream in(a);
  int i, j;
  double v;
  while (in >> i) {
    SIM_CHECK(static_cast<bool>(in >> j >> v), "dump-truncated", "%s_A.txt ends in the middle of an entry", base.c_str());
    SIM_CHECK(i >= 0 && i < r.rows && j >= 0 && j < r.cols, "dump-garbled", "%s_A.txt has an entry (%d, %d), the matrix is %d x %d", base.c_str(), i, j, r.rows, r.cols);
    r.A(i, j) += v;
  }
  SIM_CHECK(in.eof(), "dump-garbled", "%s_A.txt holds something that is not a number", base.c_str());
  if (r.has_D) r.D = ReadVector(base + "_D.txt");
  if (r.has_b) r.b = ReadVector(base + "_b.txt");
  if (r.has_x) r.x = ReadVector(base + "_x.txt");
  SIM_CHECK((!r.has_D || r.D.size() == r.cols) && (!r.has_b || r.b.size() == r.rows) && (!r.has_x || r.x.size() == r.cols), "dump-truncated", "the dump of a %d x %d problem has vectors of sizes %d, %d and %d", r.rows, r.cols, (int)r.D.size(), (int)r.b.size(), (int)r.x.size());
  return r;
}

// ---------------------------------------------------------------------------
// Solves with dumps are the solves without.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C17, solve, 4) {
  ModelOptions mo = EasyModel();
  mo.losses = sim::Chance(25);
  mo.bounds = sim::Chance(15);
  World w(mo, false);
  Flavor f;
  f.line_search = sim::Chance(5);
  f.max_iterations = 8;
  SolveCfg cfg = DrawSolve(w.m, f);
  if (sim::Chance(75)) cfg.o.num_threads = 1;
  CbPlan plan;
  const State s0 = w.m.UserState();
  const Solved a = RunSolve(&w.m, w.problem.get(), &w.mon, cfg, plan);
  const int rounds = sim::Range(1, 2);
  for (int round = 0; round < rounds; ++round) {
    w.m.SetUserState(s0);
    SolveCfg d = cfg;
    std::string dir;
    std::set<int> its;
    {
      sim::Quiet q;
      static const char* dirs[] = {"/dump", "/dump/", "d"};
      dir = dirs[sim::Draw(3)];
      const int k = sim::Range(1, 5);
      for (int i = 0; i < k; ++i) d.o.trust_region_minimizer_iterations_to_dump.push_back(static_cast<int>(sim::Draw(9)));
      its.insert(d.o.trust_region_minimizer_iterations_to_dump.begin(), d.o.trust_region_minimizer_iterations_to_dump.end());
      d.o.trust_region_problem_dump_directory = dir;
      d.o.trust_region_problem_dump_format_type = sim::Chance(12) ? ceres::CONSOLE : ceres::TEXTFILE;
      for (const std::string& p : sim::DiskList()) sim::DiskWrite(p, "stale");
    }
    const bool faulty = sim::Chance(60);
    if (faulty) ArmDisk(DrawRate());
    const uint64_t d0 = sim::DiskFaults(), e0 = sim::LogCount(2);
    const Solved b = RunSolve(&w.m, w.problem.get(), &w.mon, d, plan);
    DisarmDisk();
    sim::Quiet q;
    const bool fired = sim::DiskFaults() != d0;
    SIM_CHECK(sim::DiskOpenHandles() == 0, "file-leaked", "%d files are still open after the solve", sim::DiskOpenHandles());
    if (fired) {
      sim::NonTrivial();
      sim::Probe("dump.failed");
      SIM_CHECK(sim::LogCount(2) > e0, "failure-swallowed", "a dump could not be written, and no error was logged");
    }
    std::string why;
    if (cfg.o.num_threads == 1) {
      SIM_CHECK(SameSolve(w.m, a, b, &why), "dump-changes-solve", "the solve that writes dumps differs from the one that does not: %s [%s]", why.c_str(), cfg.text.c_str());
      sim::Probe("dump.compared");
    }
    if (fired || cfg.o.minimizer_type != ceres::TRUST_REGION || d.o.trust_region_problem_dump_format_type == ceres::CONSOLE) continue;
    const bool lm = cfg.o.trust_region_strategy_type == ceres::LEVENBERG_MARQUARDT;
    const bool exact = lm && cfg.o.linear_solver_type != ceres::CGNR && cfg.o.linear_solver_type != ceres::ITERATIVE_SCHUR && !cfg.o.use_mixed_precision_solves;
    for (int i = 1; i < static_cast<int>(b.s.iterations.size()); ++i) {
      if (!its.count(i)) continue;
      char name[64];
      snprintf(name, sizeof(name), "ceres_solver_iteration_%03d", i);
      const std::string base = (dir.back() == '/' ? dir : dir + "/") + name;
      // Dogleg computes a step only when it needs a new one.
      if (!lm && (!sim::DiskExists(base + ".m") || sim::DiskRead(base + ".m") == "stale")) continue;
      const Dump p = ReadDump(base);
      sim::NonTrivial();
      sim::Probe("dump.checked");
      SIM_CHECK(p.rows == b.s.num_residuals_reduced && p.cols == b.s.num_effective_parameters_reduced, "dump-wrong", "the dump of iteration %d is %d x %d, the reduced problem %d x %d", i, p.rows, p.cols, b.s.num_residuals_reduced, b.s.num_effective_parameters_reduced);
      SIM_CHECK(p.has_b && p.has_x, "dump-wrong", "the dump of iteration %d lacks the residuals or the step", i);
      double cost = b.s.iterations[0].cost;
      for (int j = 1; j < i; ++j)
        if (b.s.iterations[j].step_is_successful) cost = b.s.iterations[j].cost;
      if (!mo.losses) {
        const double got = 0.5 * p.b.squaredNorm() + b.s.fixed_cost;
        SIM_CHECK(std::abs(got - cost) <= 2e-6 * (1 + p.b.lpNorm<1>()) + 1e-9 * cost, "dump-wrong", "the residuals dumped for iteration %d have cost %.12g, the iterate has %.12g [%s]", i, got, cost, cfg.text.c_str());
      }
      if (exact && b.s.iterations[i].step_is_valid) {
        SIM_CHECK(p.has_D, "dump-wrong", "the dump of iteration %d lacks the diagonal", i);
        const double an = 1 + p.A.norm(), xn = 1 + p.x.norm(), bn = 1 + p.b.norm(), dn = 1 + p.D.norm();
        const Vec r = p.A.transpose() * (p.A * p.x + p.b) + Vec(p.D.array().square() * p.x.array());
        SIM_CHECK(r.norm() <= 2e-5 * (an * an + dn * dn) * (xn + bn), "dump-wrong", "the step dumped for iteration %d does not solve the dumped problem: residual %g [%s]", i, r.norm(), cfg.text.c_str());
        sim::Probe("dump.solved");
      }
    }
  }
}

// ---------------------------------------------------------------------------
// DumpLinearLeastSquaresProblem by itself: true means complete.
// ---------------------------------------------------------------------------
SIM_WORKLOAD(C17, problem, 3) {
  using namespace ceres::internal;
  const int rounds = sim::Range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    std::unique_ptr<SparseMatrix> A;
    Vec D, b, x;
    DMat dense;
    bool wd, wb, wx;
    std::string base;
    {
      sim::Quiet q;
      std::mt19937 rng(static_cast<unsigned>(sim::Draw(1 << 20)));
      const int big = sim::Chance(15) ? 8 : 1;  // larger than stdio's buffers
      switch (sim::Draw(4)) {
        case 0: {
          BlockSparseMatrix::RandomMatrixOptions o;
          o.num_row_blocks = sim::Range(1, 5) * big;
          o.num_col_blocks = sim::Range(1, 4) * big;
          o.min_row_block_size = o.min_col_block_size = 1;
          o.max_row_block_size = o.max_col_block_size = 3;
          o.block_density = 0.5;
          A = BlockSparseMatrix::CreateRandomMatrix(o, rng);
          break;
        }
        case 1: {
          CompressedRowSparseMatrix::RandomMatrixOptions o;
          o.num_row_blocks = sim::Range(1, 5) * big;
          o.num_col_blocks = sim::Range(1, 4) * big;
          o.min_row_block_size = o.min_col_block_size = 1;
          o.max_row_block_size = o.max_col_block_size = 3;
          o.block_density = 0.5;
          A = CompressedRowSparseMatrix::CreateRandomMatrix(o, rng);
          break;
        }
        case 2: {
          TripletSparseMatrix::RandomMatrixOptions o;
          o.num_rows = sim::Range(1, 8) * big;
          o.num_cols = sim::Range(1, 8) * big;
          o.density = 0.4;
          A = TripletSparseMatrix::CreateRandomMatrix(o, rng);
          break;
        }
        default: {
          auto m = std::make_unique<DenseSparseMatrix>(sim::Range(1, 8) * big, sim::Range(1, 8) * big);
          for (int i = 0; i < m->num_rows(); ++i)
            for (int j = 0; j < m->num_cols(); ++j) (*m->mutable_matrix())(i, j) = sim::Uniform(-3, 3);
          A = std::move(m);
        }
      }
      ceres::Matrix t;
      A->ToDenseMatrix(&t);
      dense = t;
      auto vec = [](int n) {
        Vec v(n);
        for (int i = 0; i < n; ++i) v[i] = sim::Uniform(-1000, 1000);
        return v;
      };
      D = vec(A->num_cols());
      b = vec(A->num_rows());
      x = vec(A->num_cols());
      wd = sim::Chance(80);
      wb = sim::Chance(80);
      wx = sim::Chance(80);
      base = sim::Chance(50) ? "/t/p" : "q";
    }
    if (sim::Chance(65)) ArmDisk(DrawRate());
    const uint64_t d0 = sim::DiskFaults(), e0 = sim::LogCount(2);
    const bool ok = DumpLinearLeastSquaresProblem(base, ceres::TEXTFILE, A.get(), wd ? D.data() : nullptr, wb ? b.data() : nullptr, wx ? x.data() : nullptr, 0);
    DisarmDisk();
    sim::Quiet q;
    const bool fired = sim::DiskFaults() != d0;
    SIM_CHECK(sim::DiskOpenHandles() == 0, "file-leaked", "%d files are still open", sim::DiskOpenHandles());
    sim::NonTrivial();
    sim::State(HashMix(A->num_rows() * 100 + A->num_cols(), wd * 4 + wb * 2 + wx + 8 * fired));
    if (fired) {
      SIM_CHECK(!ok, "failure-swallowed", "a write failed, but DumpLinearLeastSquaresProblem returned true");
      SIM_CHECK(sim::LogCount(2) > e0, "failure-swallowed", "a write failed, but no error was logged");
      sim::Probe("problem.failed");
      continue;
    }
    SIM_CHECK(ok, "spurious-failure", "DumpLinearLeastSquaresProblem failed although every write succeeded");
    const Dump p = ReadDump(base);
    SIM_CHECK(p.rows == A->num_rows() && p.cols == A->num_cols() && p.has_D == wd && p.has_b == wb && p.has_x == wx, "dump-wrong", "the dump has the wrong size or parts");
    SIM_CHECK((p.A - dense).cwiseAbs().maxCoeff() <= 6e-6, "dump-wrong", "the dumped matrix differs from the matrix");
    if (wd) SIM_CHECK((p.D - D).cwiseAbs().maxCoeff() <= 1e-6, "dump-wrong", "the dumped diagonal differs");
    if (wb) SIM_CHECK((p.b - b).cwiseAbs().maxCoeff() <= 1e-6, "dump-wrong", "the dumped residuals differ");
    if (wx) SIM_CHECK((p.x - x).cwiseAbs().maxCoeff() <= 1e-6, "dump-wrong", "the dumped solution differs");
    sim::Probe("problem.checked");
  }
}

// ---------------------------------------------------------------------------
// WriteStringToFileOrDie and ReadFileToStringOrDie: all of it, or the end.
// ---------------------------------------------------------------------------
bool g_may_die = false;
const char* g_doing = "";
uint64_t g_faults0 = 0;
bool Died(const char* file, int line, const char* msg) {
  if (strcmp(file, "file.cc") != 0) return false;
  (void)line;
  if (!g_may_die && sim::DiskFaults() == g_faults0) sim::Violation("spurious-death", "%s ended the process although nothing failed: %s", g_doing, msg);
  sim::Probe("file.died");
  sim::NonTrivial();
  return true;
}

SIM_WORKLOAD(C17, files, 1) {
  using namespace ceres::internal;
  const int rounds = sim::Range(1, 4);
  for (int round = 0; round < rounds; ++round) {
    std::string data, name;
    {
      sim::Quiet q;
      static const int sizes[] = {0, 1, 17, 4096, 4097, 20000};
      data.resize(sizes[sim::Draw(6)]);
      const uint64_t k = sim::Draw(256);
      for (size_t i = 0; i < data.size(); ++i) data[i] = static_cast<char>(i * 7 + k);
      const bool abs = sim::Chance(30);
      name = JoinPath(sim::Chance(50) ? "/x" : sim::Chance(50) ? "/x/" : "", abs ? "/f" : "f");
    }
    const bool fault_write = sim::Chance(40), fault_read = sim::Chance(40), missing = sim::Chance(8);
    g_faults0 = sim::DiskFaults();
    g_may_die = false;
    sim::OnFatal(Died);
    if (fault_write) ArmDisk(DrawRate());
    g_doing = "WriteStringToFileOrDie";
    WriteStringToFileOrDie(data, name);
    DisarmDisk();
    {
      sim::Quiet q;
      SIM_CHECK(sim::DiskFaults() == g_faults0, "failure-swallowed", "a write failed, and WriteStringToFileOrDie returned");
      SIM_CHECK(sim::DiskRead(name) == data, "file-wrong", "%zu bytes were written, the file has %zu or others", data.size(), sim::DiskRead(name).size());
      SIM_CHECK(sim::DiskOpenHandles() == 0, "file-leaked", "the file is still open");
    }
    std::string back = "before";
    if (fault_read) {
      const int which = static_cast<int>(sim::Draw(4));
      static const char* sites[] = {"disk.open", "disk.read", "disk.seek"};
      const double rate = DrawRate();
      for (int i = 0; i < 3; ++i)
        if (which == i || which == 3) sim::ArmFault(sites[i], rate);
    }
    g_doing = "ReadFileToStringOrDie";
    g_may_die = missing;
    sim::OnFatal(Died);
    ReadFileToStringOrDie(missing ? "/no/such/file" : name, &back);
    DisarmDisk();
    sim::Quiet q;
    SIM_CHECK(!missing, "failure-swallowed", "ReadFileToStringOrDie returned from a file that does not exist");
    SIM_CHECK(back == data, "file-wrong", "%zu bytes were read of %zu, or others", back.size(), data.size());
    SIM_CHECK(sim::DiskOpenHandles() == 0, "file-leaked", "the file is still open");
    sim::Probe("file.roundtrip");
    sim::NonTrivial();
  }
}

}  // namespace
