// C15: covariance estimates.
#include <memory>
#include <system_error>
#include <thread>

#include "ceres/covariance.h"
#include "solve.h"

namespace {

using namespace wl;

struct CovMonitor : Monitor {
  Model* m = nullptr;
  bool failed = false;
  void OnEval(const SimCost& c, double const* const* p, bool) override {
    const RBlock& rb = m->rbs[c.id];
    for (size_t b = 0; b < rb.pb.size(); ++b) {
      const PBlock& k = m->pbs[rb.pb[b]];
      SIM_CHECK(sim::HeapOk(p[b], k.size * sizeof(double)), "bad-parameter-pointer", "cost function %d was given an invalid pointer for its parameter block %zu", c.id, b);
      SIM_CHECK(SameBits(p[b], k.x, k.size), "wrong-point", "cost function %d is evaluated away from the point whose covariance was asked for", c.id);
    }
  }
  void OnEvalDone(const SimCost&, bool ok) override { failed = failed || !ok; }
};

enum Expect { kEither, kTrue, kFalse };

// What the covariance is, by its definition, over the active tangent columns.
struct RefCov {
  Expect ok = kEither;
  bool compare = false;
  double tol = 0;
  Mat C;
  std::vector<int> col;  // per parameter block, -1 = identically zero
};

RefCov Reference(const Model& m, const ceres::Covariance::Options& o) {
  RefCov r;
  r.col.assign(m.pbs.size(), -1);
  std::vector<char> used(m.pbs.size(), 0);
  for (auto& rb : m.rbs)
    for (int i : rb.pb) used[i] = 1;
  std::vector<int> plist;
  int n = 0;
  for (size_t i = 0; i < m.pbs.size(); ++i)
    if (used[i] && !m.pbs[i].constant && m.pbs[i].tangent > 0) {
      plist.push_back(static_cast<int>(i));
      r.col[i] = n;
      n += m.pbs[i].tangent;
    }
  if (n == 0) {
    r.ok = kTrue;
    return r;
  }
  const RefEval e = m.Reference(m.UserState(), m.AllRb(), plist, o.apply_loss_function, true);
  const Mat& J = e.jacobian;
  const int rows = static_cast<int>(J.rows());
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(J, Eigen::ComputeThinU | Eigen::ComputeFullV);
  Vec s = Vec::Zero(n);  // eigenvalues of J'J are the squares of these
  for (int i = 0; i < std::min(rows, n); ++i) s[i] = svd.singularValues()[i];
  auto zero = [&](int i) { return s[i] <= 1e-13 * s[0]; };
  auto ratio = [&](int i) { return s[0] > 0 ? s[i] / s[0] : 0.0; };
  int keep = n;
  if (o.algorithm_type == ceres::SPARSE_QR) {
    if (s[0] == 0 || rows < n) {
      r.ok = kFalse;
    } else if (ratio(n - 1) > 1e-5) {
      r.ok = kTrue;
    } else {
      bool structural = false;  // a column that is exactly zero
      for (int c = 0; c < n; ++c) structural = structural || J.col(c).cwiseAbs().maxCoeff() == 0;
      if (structural) r.ok = kFalse;
    }
  } else {
    const double limit = std::sqrt(o.min_reciprocal_condition_number);
    auto near = [&](int i) { return ratio(i) > limit / 30 && ratio(i) < limit * 30; };
    if (o.null_space_rank >= 0) {
      keep = std::max(0, n - o.null_space_rank);
      r.ok = kTrue;
      for (int i = 0; i < keep; ++i) {
        if (near(i)) r.ok = r.ok == kFalse ? kFalse : kEither;
        else if (ratio(i) < limit) r.ok = kFalse;
      }
      // Which of equal singular values are dropped is anybody's choice.
      if (keep > 0 && keep < n && ratio(keep - 1) - ratio(keep) < 1e-3) r.ok = r.ok == kTrue ? kEither : r.ok;
      if (keep > 0 && keep < n && ratio(keep - 1) - ratio(keep) < 1e-3) return r;
    } else {
      r.ok = kTrue;
      keep = 0;
      for (int i = 0; i < n; ++i) {
        if (near(i)) return r;
        keep += ratio(i) >= limit;
      }
    }
  }
  for (int i = 0; i < keep; ++i)
    if (zero(i)) return r;
  if (keep > 0 && ratio(keep - 1) < 1e-5) return r;
  r.C = Mat::Zero(n, n);
  for (int i = 0; i < keep; ++i) r.C += svd.matrixV().col(i) * svd.matrixV().col(i).transpose() / (s[i] * s[i]);
  r.compare = true;
  const double cond = keep > 0 ? 1 / ratio(keep - 1) : 1;
  // Truncated spaces are only as stable as the gap that separates them.
  const double gap = keep > 0 && keep < n ? ratio(keep - 1) - ratio(keep) : 1;
  r.tol = 1e-11 * cond * cond / gap * (keep > 0 ? r.C.cwiseAbs().maxCoeff() : 1) + 1e-300;
  return r;
}

struct CovRun {
  Model m;
  CovMonitor mon;
  EvalCounters cnt;
  std::unique_ptr<ceres::Context> ctx;
  std::unique_ptr<ceres::Problem> problem;
};

Mat Expected(const Model& m, const RefCov& r, int a, int b, bool lift) {
  const PBlock &x = m.pbs[a], &y = m.pbs[b];
  Mat c = Mat::Zero(x.tangent, y.tangent);
  if (r.col[a] >= 0 && r.col[b] >= 0) c = r.C.block(r.col[a], r.col[b], x.tangent, y.tangent);
  if (!lift) return c;
  if (r.col[a] < 0 || r.col[b] < 0) return Mat::Zero(x.size, y.size);
  Mat P, Q;
  m.PlusJac(x, x.x, &P);
  m.PlusJac(y, y.x, &Q);
  return P * c * Q.transpose();
}

void CheckBlock(const Model& m, const RefCov& r, int a, int b, bool lift, const double* v, int ld, const char* what) {
  const Mat e = Expected(m, r, a, b, lift);
  for (int i = 0; i < e.rows(); ++i)
    for (int j = 0; j < e.cols(); ++j)
      SIM_CHECK(std::abs(v[i * ld + j] - e(i, j)) <= r.tol * 10, "covariance-value", "%s: covariance of blocks %d and %d%s: entry (%d, %d) is %.17g, the definition gives %.17g (tolerance %g)", what, a, b, lift ? "" : " in the tangent space", i, j, v[i * ld + j], e(i, j), r.tol * 10);
}

SIM_WORKLOAD(C15, covariance, 10) {
  CovRun w;
  Model& m = w.m;
  {
    sim::Quiet q;
    ModelOptions o;
    o.max_pb = 6;
    o.max_rb = 14;
    o.priors = sim::Chance(70);
    o.losses = sim::Chance(60);
    m.Draw(o);
    // Now and then derivatives that vanish.
    if (sim::Chance(10)) {
      const double k = 0;
      for (auto& rb : m.rbs) {
        rb.cost.A *= k;
        rb.cost.B *= k;
      }
    }
  }
  w.mon.m = &m;
  sim::State(m.shape);
  ceres::Problem::Options po;
  if (sim::Chance(50)) {
    w.ctx.reset(ceres::Context::Create());
    po.context = w.ctx.get();
  }
  w.problem = std::make_unique<ceres::Problem>(po);
  m.AddTo(w.problem.get(), &w.mon, &w.cnt);
  const int np = static_cast<int>(m.pbs.size());

  ceres::Covariance::Options co;
  co.algorithm_type = sim::Chance(50) ? ceres::DENSE_SVD : ceres::SPARSE_QR;
  co.sparse_linear_algebra_library_type = ceres::EIGEN_SPARSE;
  static const int kThreads[] = {1, 2, 3, 4, 8};
  co.num_threads = kThreads[sim::Draw(5)];
  co.apply_loss_function = !sim::Chance(25);
  if (sim::Chance(25)) co.null_space_rank = sim::Range(-1, 3);
  if (sim::Chance(15)) co.min_reciprocal_condition_number = sim::Chance(50) ? 1e-3 : 1e-8;
  const bool faulty = sim::Chance(45);
  const int hw = sim::Chance(30) ? sim::Range(1, 4) : 8;
  sim::SetHardwareConcurrency(hw);
  ceres::Covariance cov(co);
  const int rounds = sim::Range(1, 4);
  bool nontrivial = false;
  for (int round = 0; round < rounds; ++round) {
    const bool last = round + 1 == rounds;
    State st;
    std::vector<std::pair<int, int>> pairs;
    std::vector<const double*> blocks;
    std::vector<int> bl;
    std::vector<std::pair<const double*, const double*>> req;
    bool by_block;
    RefCov ref;
    std::set<std::pair<int, int>> have;
    {
      sim::Quiet q;
      st = m.UserState();
      if (round > 0) {
        for (size_t i = 0; i < m.pbs.size(); ++i)
          if (m.pbs[i].kind == kNone || m.pbs[i].kind == kLinear || m.pbs[i].kind == kSubset)
            for (auto& v : st[i]) v += sim::Uniform(-1, 1);
        m.SetUserState(st);
        for (auto& b : m.pbs)
          if (sim::Chance(20)) {
            b.constant = !b.constant;
            if (b.constant)
              w.problem->SetParameterBlockConstant(b.x);
            else
              w.problem->SetParameterBlockVariable(b.x);
          }
      }
      by_block = sim::Chance(50);
      if (by_block) {
        std::vector<int> pool(np);
        for (int i = 0; i < np; ++i) pool[i] = i;
        const int k = sim::Range(1, np);
        for (int i = 0; i < k; ++i) {
          const int j = static_cast<int>(sim::Draw(pool.size()));
          bl.push_back(pool[j]);
          pool.erase(pool.begin() + j);
        }
        for (int i : bl) blocks.push_back(m.pbs[i].x);
        for (size_t i = 0; i < bl.size(); ++i)
          for (size_t j = i; j < bl.size(); ++j) have.insert({std::min(bl[i], bl[j]), std::max(bl[i], bl[j])});
      } else {
        const int k = sim::Range(1, 6);
        for (int i = 0; i < k; ++i) {
          const int a = static_cast<int>(sim::Draw(np)), b = static_cast<int>(sim::Draw(np));
          if (!have.insert({std::min(a, b), std::max(a, b)}).second) continue;
          pairs.push_back({a, b});
          req.emplace_back(m.pbs[a].x, m.pbs[b].x);
        }
      }
      ref = Reference(m, co);
    }
    // The last round is always clean: earlier failures leave no trace.
    if (faulty && !last) {
      static const char* sites[] = {"cost.false", "cost.nan", "cost.jac_nan", "cost.partial", "manifold.jacobian"};
      sim::ArmFault(sites[sim::Draw(5)], sim::Chance(50) ? 0.05 : 0.4);
      if (sim::Chance(30)) sim::ArmFault("thread.create", 0.3);
    }
    w.mon.failed = false;
    w.cnt.threads.clear();
    const uint64_t mf0 = sim::FaultCount("manifold.jacobian");
    bool ok = false, threw = false;
    try {
      ok = by_block ? cov.Compute(blocks, w.problem.get()) : cov.Compute(req, w.problem.get());
    } catch (const std::system_error&) {
      threw = true;
    }
    const bool failed = w.mon.failed || sim::FaultCount("manifold.jacobian") != mf0;
    {
      sim::Quiet q;
      SIM_CHECK(w.cnt.active == 0, "evaluation-outlives-call", "Compute returned while %d cost functions are being evaluated", w.cnt.active);
      const State after = m.UserState();
      for (int i = 0; i < np; ++i) {
        SIM_CHECK(SameBits(st[i].data(), after[i].data(), m.pbs[i].size), "parameter-modified", "Compute modified parameter block %d", i);
        SIM_CHECK(w.problem->IsParameterBlockConstant(m.pbs[i].x) == (m.pbs[i].constant || m.pbs[i].tangent == 0), "constness-modified", "Compute changed whether parameter block %d is constant", i);
      }
      sim::Event("compute alg %d threads %d rank %d loss %d by_block %d pairs %zu -> ok %d threw %d failed %d expect %d", co.algorithm_type, co.num_threads, co.null_space_rank, co.apply_loss_function, by_block, have.size(), ok, threw, failed, ref.ok);
      if (w.cnt.threads.size() > 1) nontrivial = true;
      if (threw) {
        SIM_CHECK(sim::FaultCount("thread.create") > 0, "unexpected-exception", "Compute threw although no thread creation failed");
        sim::Probe("cov.threw");
      } else if (failed) {
        sim::Probe("cov.failed");
        nontrivial = true;
        // A manifold may also fail once the derivatives are known, which does no
        // harm: then the values below still have to be right.
        if (w.mon.failed) SIM_CHECK(!ok, "failure-swallowed", "a cost function failed, but Compute returned true");
      } else {
        // Nothing is factorised when only zero blocks are asked for.
        bool any = false;
        for (auto& pr : have) any = any || (ref.col[pr.first] >= 0 && ref.col[pr.second] >= 0);
        if (any) {
          SIM_CHECK(ref.ok != kTrue || ok, "spurious-failure", "Compute failed on a problem whose covariance exists");
          SIM_CHECK(ref.ok != kFalse || !ok, "deficient-accepted", "Compute succeeded although the Jacobian is rank deficient beyond what the options allow");
        } else {
          SIM_CHECK(ok, "spurious-failure", "Compute failed although only constant blocks were asked for");
        }
        sim::Probe(ok ? "cov.ok" : "cov.deficient");
      }
    }
    sim::ArmFault("thread.create", 0);
    if (ok && !threw) {
      const bool compare = ref.compare || ref.C.size() > 0;
      // Any number of readers may ask at the same time.
      const int readers = sim::Chance(25) ? sim::Range(2, 3) : 1;
      struct Get {
        int a, b;
        bool lift;
      };
      std::vector<std::vector<Get>> plan(readers);
      std::vector<int> whole(readers, 0);
      {
        sim::Quiet q;
        for (int r = 0; r < readers; ++r) {
          const int k = sim::Range(1, 4);
          for (int i = 0; i < k; ++i) plan[r].push_back({static_cast<int>(sim::Draw(np)), static_cast<int>(sim::Draw(np)), sim::Chance(60)});
          whole[r] = static_cast<int>(sim::Draw(3));
        }
      }
      auto read = [&](int r) {
        for (const Get& g : plan[r]) {
          std::vector<double> out;
          bool present, zero;
          {
            sim::Quiet q;
            const PBlock &x = m.pbs[g.a], &y = m.pbs[g.b];
            out.assign(g.lift ? x.size * y.size : x.tangent * y.tangent, 12345.0);
            if (out.empty()) continue;
            zero = ref.col[g.a] < 0 || ref.col[g.b] < 0;
            present = zero || have.count({std::min(g.a, g.b), std::max(g.a, g.b)});
          }
          const uint64_t f0 = sim::FaultCount("manifold.jacobian");
          const bool got = g.lift ? cov.GetCovarianceBlock(m.pbs[g.a].x, m.pbs[g.b].x, out.data()) : cov.GetCovarianceBlockInTangentSpace(m.pbs[g.a].x, m.pbs[g.b].x, out.data());
          sim::Quiet q;
          const bool bad = sim::FaultCount("manifold.jacobian") != f0;
          if (!present) {
            SIM_CHECK(!got, "unknown-block", "GetCovarianceBlock returned a block that was not computed");
            sim::Probe("get.absent");
          } else if (bad && readers == 1) {
            SIM_CHECK(!got, "failure-swallowed", "a manifold failed, but GetCovarianceBlock returned true");
            sim::Probe("get.failed");
          } else if (!bad) {
            SIM_CHECK(got, "spurious-failure", "GetCovarianceBlock failed for blocks %d and %d, which were computed", g.a, g.b);
            if (compare || zero) CheckBlock(m, ref, g.a, g.b, g.lift, out.data(), g.lift ? m.pbs[g.b].size : m.pbs[g.b].tangent, "GetCovarianceBlock");
            sim::Probe("get.block");
          }
        }
        if (whole[r] == 0) return;
        // A matrix over some of the blocks, which may not all have been computed.
        const bool lift = whole[r] == 1;
        std::vector<const double*> p;
        std::vector<int> ids, off;
        std::vector<double> out;
        bool present = true;
        int n = 0;
        {
          sim::Quiet q;
          if (by_block && sim::Chance(70)) {
            ids = bl;
          } else {
            for (int i = 0; i < np; ++i)
              if (sim::Chance(50)) ids.push_back(i);
          }
          if (ids.empty()) return;
          for (int i : ids) {
            off.push_back(n);
            p.push_back(m.pbs[i].x);
            n += lift ? m.pbs[i].size : m.pbs[i].tangent;
          }
          out.assign(n * n, 12345.0);
          for (int a : ids)
            for (int b : ids) present = present && (ref.col[a] < 0 || ref.col[b] < 0 || have.count({std::min(a, b), std::max(a, b)}));
        }
        if (n == 0) return;
        const uint64_t f0 = sim::FaultCount("manifold.jacobian");
        const bool got = lift ? cov.GetCovarianceMatrix(p, out.data()) : cov.GetCovarianceMatrixInTangentSpace(p, out.data());
        sim::Quiet q;
        const bool bad = sim::FaultCount("manifold.jacobian") != f0;
        if (!present) {
          SIM_CHECK(!got, "unknown-block", "GetCovarianceMatrix returned a matrix with a block that was not computed");
          sim::Probe("matrix.absent");
        } else if (bad && readers == 1) {
          SIM_CHECK(!got, "failure-swallowed", "a manifold failed, but GetCovarianceMatrix returned true");
          sim::Probe("matrix.failed");
        } else if (!bad) {
          SIM_CHECK(got, "spurious-failure", "GetCovarianceMatrix failed although every block was computed");
          for (size_t a = 0; a < ids.size(); ++a)
            for (size_t b = 0; b < ids.size(); ++b)
              if (compare || ref.col[ids[a]] < 0 || ref.col[ids[b]] < 0) CheckBlock(m, ref, ids[a], ids[b], lift, out.data() + off[a] * n + off[b], n, "GetCovarianceMatrix");
          sim::Probe("matrix.checked");
        }
      };
      if (readers == 1) {
        read(0);
      } else {
        sim::Probe("get.concurrent");
        std::vector<std::thread> th;
        for (int r = 0; r < readers; ++r) th.emplace_back(read, r);
        for (auto& t : th) t.join();
        nontrivial = true;
      }
    }
    sim::ArmFault("cost.false", 0);
    for (const char* s : {"cost.nan", "cost.jac_nan", "cost.partial", "manifold.jacobian"}) sim::ArmFault(s, 0);
  }
  if (nontrivial) sim::NonTrivial();
}

}  // namespace
