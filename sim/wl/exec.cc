// C01 parallel loops, C02 thread pool, C03 concurrent queue and thread tokens.
#include <atomic>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <system_error>
#include <thread>
#include <tuple>
#include <vector>

#include "ceres/concurrent_queue.h"
#include "ceres/context_impl.h"
#include "ceres/parallel_for.h"
#include "ceres/parallel_vector_ops.h"
#include "ceres/thread_pool.h"
#include "ceres/thread_token_provider.h"
#include "sim.h"

namespace {

using ceres::internal::ConcurrentQueue;
using ceres::internal::ContextImpl;
using ceres::internal::ParallelFor;
using ceres::internal::ThreadPool;
using ceres::internal::ThreadTokenProvider;

// ===========================================================================
// C01: parallel loops
// ===========================================================================
struct LoopSpec {
  int start, end, threads, variant, min_block;
  int child;  // index into specs, -1 = leaf
  std::vector<int> costs;
  std::vector<int> partition;
};

struct LoopTree {
  std::vector<LoopSpec> specs;
};

LoopSpec DrawLoop(bool nested) {
  LoopSpec s;
  static const int threads[] = {2, 1, 3, 4, 5, 8, 16};
  s.threads = threads[sim::Draw(7)];
  s.variant = static_cast<int>(sim::Draw(7));
  s.start = sim::Chance(30) ? sim::Range(1, 40) : 0;
  int n = nested ? static_cast<int>(sim::Draw(10)) : sim::Chance(10) ? sim::Range(0, 2) : static_cast<int>(sim::Draw(80));
  s.end = s.start + n;
  s.min_block = sim::Chance(25) ? sim::Range(2, 9) : 1;
  s.child = -1;
  if (s.variant == 5) {  // explicit partitions
    s.partition.push_back(s.start);
    while (s.partition.back() < s.end) {
      int left = s.end - s.partition.back();
      s.partition.push_back(s.partition.back() + 1 + static_cast<int>(sim::Draw(left < 7 ? left : 7)));
    }
    if (s.partition.size() == 1) s.partition.push_back(s.end);
  }
  if (s.variant == 6) {  // cumulative costs for [0, end)
    int c = 0;
    int style = static_cast<int>(sim::Draw(4));
    for (int i = 0; i < s.end; ++i) {
      int add = style == 0 ? 1 : style == 1 ? static_cast<int>(sim::Draw(4)) : style == 2 ? (sim::Draw(8) == 0 ? 100 : 0) : static_cast<int>(sim::Draw(50));
      c += add;
      s.costs.push_back(c);
    }
  }
  return s;
}

class LoopRunner {
 public:
  LoopRunner(ContextImpl* context, const std::vector<LoopSpec>* specs) : context_(context), specs_(specs) {}

  // Runs loop `k` and checks it; returns the sum over its body results.
  long Run(int k) {
    const LoopSpec& s = (*specs_)[k];
    const int n = s.end - s.start;
    const int caller = sim::Self();
    // Plain memory: any missing happens-before edge of the executor shows up as
    // a data race on these.
    std::vector<long> out(n > 0 ? n : 0, -1);
    std::vector<long> scratch(s.threads, 0);
    std::vector<int>* count;
    bool* finished;
    int* active;
    int* peak;
    {
      sim::Quiet q;
      count = new std::vector<int>(n > 0 ? n : 0, 0);
      finished = new bool(false);
      active = new int(0);
      peak = new int(0);
    }
    auto visit = [&, this](int tid, int i) {
      {
        sim::Quiet q;
        SIM_CHECK(!*finished, "loop-body-after-return", "loop body ran for index %d after the loop had returned", i);
        SIM_CHECK(i >= s.start && i < s.end, "loop-out-of-range", "loop over [%d,%d) visited index %d", s.start, s.end, i);
        SIM_CHECK(++(*count)[i - s.start] == 1, "loop-twice", "index %d of [%d,%d) with %d threads visited twice", i, s.start, s.end, s.threads);
        if (tid >= 0) SIM_CHECK(tid < s.threads, "loop-bad-thread-id", "thread id %d outside [0,%d)", tid, s.threads);
        if (s.threads == 1) SIM_CHECK(sim::Self() == caller, "loop-not-inline", "single-threaded loop ran off the calling thread");
        ++*active;
        if (*active > *peak) *peak = *active;
        SIM_CHECK(*active <= s.threads, "loop-too-parallel", "%d bodies active at once with num_threads=%d", *active, s.threads);
      }
      if (tid >= 0) scratch[tid] = 1000000L * (i + 1) + sim::Self();
      long v = i;
      if (s.child >= 0) v += Run(s.child);
      sim::Point();
      if (tid >= 0) {
        SIM_CHECK(scratch[tid] == 1000000L * (i + 1) + sim::Self(), "thread-id-shared", "thread id %d used by two bodies at once", tid);
      }
      out[i - s.start] = v;
      {
        sim::Quiet q;
        --*active;
      }
    };
    auto idx = [&](int i) { visit(-1, i); };
    auto tidx = [&](int tid, int i) { visit(tid, i); };
    auto rng = [&](std::tuple<int, int> r) {
      for (int i = std::get<0>(r); i < std::get<1>(r); ++i) visit(-1, i);
    };
    auto trng = [&](int tid, std::tuple<int, int> r) {
      SIM_CHECK(std::get<0>(r) < std::get<1>(r), "loop-empty-range", "empty range [%d,%d)", std::get<0>(r), std::get<1>(r));
      for (int i = std::get<0>(r); i < std::get<1>(r); ++i) visit(tid, i);
    };
    switch (s.variant) {
      case 0: ParallelFor(context_, s.start, s.end, s.threads, tidx, s.min_block); break;
      case 1: ParallelFor(context_, s.start, s.end, s.threads, idx, s.min_block); break;
      case 2: ParallelFor(context_, s.start, s.end, s.threads, rng, s.min_block); break;
      case 3: ParallelFor(context_, s.start, s.end, s.threads, trng, s.min_block); break;
      case 4: ParallelFor(context_, s.start, s.end, s.threads, tidx); break;
      case 5: ParallelFor(context_, s.start, s.end, s.threads, tidx, s.partition); break;
      default:
        ParallelFor(context_, s.start, s.end, s.threads, trng, s.costs.data(), [](const int& c) { return c; });
        break;
    }
    long sum = 0;
    for (int i = 0; i < n; ++i) {
      SIM_CHECK(out[i] >= 0, "loop-incomplete", "loop over [%d,%d) with %d threads returned before index %d was done", s.start, s.end, s.threads, s.start + i);
      sum += out[i];
    }
    {
      sim::Quiet q;
      *finished = true;
      for (int i = 0; i < n; ++i) SIM_CHECK((*count)[i] == 1, "loop-missed", "index %d of [%d,%d) visited %d times", s.start + i, s.start, s.end, (*count)[i]);
      SIM_CHECK(*active == 0, "loop-incomplete", "%d bodies still active after return", *active);
      if (*peak > 1) sim::Probe("loop.bodies_overlapped");
      if (*peak == s.threads && s.threads > 1) sim::Probe("loop.all_ids_busy");
      // The bookkeeping outlives the loop so that a late body is noticed.
      garbage_.emplace_back(count);
      flags_.emplace_back(finished);
      ints_.emplace_back(active);
      ints_.emplace_back(peak);
    }
    return sum;
  }

 private:
  ContextImpl* context_;
  const std::vector<LoopSpec>* specs_;
  std::vector<std::unique_ptr<std::vector<int>>> garbage_;
  std::vector<std::unique_ptr<bool>> flags_;
  std::vector<std::unique_ptr<int>> ints_;
};

long Expected(const std::vector<LoopSpec>& specs, int k) {
  const LoopSpec& s = specs[k];
  long child = s.child >= 0 ? Expected(specs, s.child) : 0;
  long sum = 0;
  for (int i = s.start; i < s.end; ++i) sum += i + child;
  return sum;
}

SIM_WORKLOAD(C01, loops, 8) {
  sim::SetHardwareConcurrency(sim::Chance(15) ? sim::Range(0, 2) : 1 << sim::Range(1, 4));
  const int pool = static_cast<int>(sim::Draw(7));
  const int callers = sim::Chance(40) ? sim::Range(2, 3) : 1;
  const int depth = sim::Chance(30) ? sim::Range(2, 3) : 1;
  const int hogs = sim::Chance(30) ? sim::Range(1, 4) : 0;
  const int grow = sim::Chance(20) ? sim::Range(1, 6) : 0;
  std::vector<std::vector<LoopSpec>> specs(callers);
  std::vector<int> loops(callers);
  for (int c = 0; c < callers; ++c) {
    loops[c] = sim::Range(1, depth > 1 ? 1 : 4);
    for (int l = 0; l < loops[c]; ++l) {
      for (int d = 0; d < depth; ++d) {
        LoopSpec s = DrawLoop(depth > 1);
        const int at = static_cast<int>(specs[c].size());
        s.child = d + 1 < depth ? at + 1 : -1;
        specs[c].push_back(s);
      }
    }
  }
  sim::Event("pool %d callers %d depth %d hogs %d grow %d", pool, callers, depth, hogs, grow);
  int hogs_run = 0;
  std::mutex hog_mutex;
  {
    ContextImpl context;
    context.EnsureMinimumThreads(pool);
    const int live_pool = context.thread_pool.Size();
    for (int h = 0; h < hogs; ++h) {
      context.thread_pool.AddTask([&hogs_run, &hog_mutex]() {
        for (int i = 0; i < 5; ++i) std::this_thread::yield();
        std::lock_guard<std::mutex> l(hog_mutex);
        ++hogs_run;
      });
    }
    std::vector<std::unique_ptr<LoopRunner>> runners;
    for (int c = 0; c < callers; ++c) runners.emplace_back(new LoopRunner(&context, &specs[c]));
    auto body = [&](int c) {
      for (int l = 0; l < loops[c]; ++l) {
        const int k = l * depth;
        const LoopSpec& s = specs[c][k];
        sim::Event("caller %d loop [%d,%d) threads %d variant %d min_block %d", c, s.start, s.end, s.threads, s.variant, s.min_block);
        const long got = runners[c]->Run(k);
        const long want = Expected(specs[c], k);
        SIM_CHECK(got == want, "loop-wrong-result", "loop result %ld, expected %ld", got, want);
        if (s.threads > 1 && s.end - s.start > 1 && live_pool > 0) sim::NonTrivial();
      }
    };
    std::vector<std::thread> threads;
    for (int c = 1; c < callers; ++c) threads.emplace_back(body, c);
    if (grow) threads.emplace_back([&]() { context.EnsureMinimumThreads(grow + pool); });
    body(0);
    for (auto& t : threads) t.join();
    if (context.thread_pool.Size() == 0) hogs_run = -1;
  }
  if (hogs_run >= 0) SIM_CHECK(hogs_run == hogs, "task-lost", "%d of %d other pool tasks ran", hogs_run, hogs);
}

// Library loops with their real minimum block size.
SIM_WORKLOAD(C01, vector_ops, 1) {
  sim::SetHardwareConcurrency(1 << sim::Range(1, 3));
  const int threads = sim::Range(2, 6);
  const int pool = sim::Range(0, 4);
  static const int sizes[] = {131072, 131071, 150001, 262145, 70000, 3};
  const int n = sizes[sim::Draw(6)];
  const int op = static_cast<int>(sim::Draw(2));
  sim::Event("vector op %d n %d threads %d pool %d", op, n, threads, pool);
  ContextImpl context;
  context.EnsureMinimumThreads(pool);
  Eigen::VectorXd x(n), y(n);
  {
    sim::Quiet q;
    for (int i = 0; i < n; ++i) {
      x[i] = i + 1;
      y[i] = -1.0;
    }
  }
  if (op == 0) {
    ceres::internal::ParallelAssign(&context, threads, y, 2.0 * x);
  } else {
    ceres::internal::ParallelSetZero(&context, threads, y);
  }
  if (n >= 131072 && pool > 0) sim::NonTrivial();
  // Instrumented reads at the ends and block borders, plain check elsewhere.
  volatile double sink = y[0] + y[n - 1] + y[n / 2];
  (void)sink;
  sim::Quiet q;
  for (int i = 0; i < n; ++i) {
    const double want = op == 0 ? 2.0 * (i + 1) : 0.0;
    SIM_CHECK(y[i] == want, "vector-op-wrong", "element %d of %d is %g, expected %g", i, n, y[i], want);
  }
}

// ===========================================================================
// C02: thread pool
// ===========================================================================
struct TaskBook {
  std::vector<int> runs;
  bool destroyed = false;
  int next = 0;
};

SIM_WORKLOAD(C02, pool, 1) {
  sim::SetHardwareConcurrency(sim::Chance(20) ? sim::Range(0, 1) : sim::Range(2, 8));
  const bool create_faults = sim::Chance(25);
  if (create_faults) sim::ArmFault("thread.create", 0.25);
  const int hw = ThreadPool::MaxNumThreadsAvailable();
  const int style = static_cast<int>(sim::Draw(3));  // how the pool starts
  const int initial = sim::Range(0, 4);
  const int users = sim::Range(1, 3);
  struct Op {
    int kind;
    int arg;
    int spawn;
  };
  std::vector<std::vector<Op>> ops(users);
  for (auto& v : ops) {
    const int n = sim::Range(1, 7);
    for (int i = 0; i < n; ++i) {
      Op o;
      o.kind = static_cast<int>(sim::Draw(10));
      o.arg = sim::Range(0, 6);
      o.spawn = sim::Chance(20) ? sim::Range(1, 2) : 0;
      v.push_back(o);
    }
  }
  sim::Event("pool style %d initial %d users %d hw %d create_faults %d", style, initial, users, hw, create_faults);

  std::unique_ptr<TaskBook> book;
  {
    sim::Quiet q;
    book.reset(new TaskBook);
    book->runs.assign(1000, 0);
  }
  // One plain cell per task, written by the task, read after destruction.
  std::vector<int> cells(1000, 0);
  int accepted = 0;
  int max_size_seen = 0;
  int max_requested = 0;
  bool any_failure = false;
  std::unique_ptr<ThreadPool> pool;
  try {
    if (style == 0) {
      pool = std::make_unique<ThreadPool>();
      pool->Resize(initial);
    } else if (style == 1) {
      pool = std::make_unique<ThreadPool>(initial);
    } else {
      pool = std::make_unique<ThreadPool>();
    }
  } catch (const std::system_error&) {
    any_failure = true;
    sim::Probe("pool.create_failed");
    if (!pool) pool = std::make_unique<ThreadPool>();
  }
  if (style != 2) max_requested = initial;
  auto clamp = [hw](int n) { return n < hw ? n : hw; };

  ThreadPool* const raw = pool.get();
  std::function<void(int, int)> submit = [&](int id, int spawn) {
    TaskBook* b = book.get();
    raw->AddTask([b, id, spawn, &cells, &submit]() {
      {
        sim::Quiet q;
        SIM_CHECK(!b->destroyed, "task-after-destruction", "task %d ran after the pool's destructor returned", id);
        SIM_CHECK(++b->runs[id] == 1, "task-twice", "task %d ran twice", id);
      }
      ++cells[id];
      for (int k = 0; k < spawn; ++k) {
        int nid;
        {
          sim::Quiet q;
          nid = b->next++;
        }
        submit(nid, 0);
        sim::Probe("pool.task_added_by_task");
      }
      sim::Point();
      ++cells[id];
    });
  };
  auto user = [&](int u) {
    for (const Op& o : ops[u]) {
      if (o.kind < 6) {
        int id;
        {
          sim::Quiet q;
          id = book->next++;
          ++accepted;
        }
        submit(id, o.spawn);
      } else if (o.kind < 9) {
        {
          sim::Quiet q;
          if (o.arg > max_requested) max_requested = o.arg;
        }
        try {
          raw->Resize(o.arg);
          const int size = raw->Size();
          SIM_CHECK(size >= clamp(o.arg), "resize-incomplete", "Resize(%d) returned with only %d workers (hardware limit %d)", o.arg, size, hw);
        } catch (const std::system_error&) {
          sim::Quiet q;
          any_failure = true;
          sim::Probe("pool.resize_failed");
        }
      } else {
        const int size = raw->Size();
        sim::Quiet q;
        SIM_CHECK(size >= max_size_seen || users > 1, "pool-shrunk", "pool size went from %d to %d", max_size_seen, size);
        if (size > max_size_seen) max_size_seen = size;
        SIM_CHECK(size <= clamp(max_requested), "pool-too-big", "pool has %d workers, at most %d requested (hardware limit %d)", size, max_requested, hw);
      }
    }
  };
  {
    std::vector<std::thread> threads;
    {
      sim::Quiet q;  // user threads themselves are always created
      for (int u = 1; u < users; ++u) threads.emplace_back(user, u);
    }
    user(0);
    for (auto& t : threads) t.join();
  }
  // With a worker, tasks run on their own, without any further call.
  const int final_size = raw->Size();
  if (!any_failure) {
    SIM_CHECK(final_size == clamp(max_requested), "pool-size", "pool has %d workers after requests up to %d (hardware limit %d)", final_size, max_requested, hw);
  }
  sim::Event("destroying pool of %d workers, %d tasks accepted", final_size, book->next);
  bool late_drain = sim::Draw(2);
  if (final_size > 0 && late_drain) {
    // Liveness without destruction: every accepted task is executed by the workers.
    for (;;) {
      bool done;
      {
        sim::Quiet q;
        done = true;
        for (int i = 0; i < book->next; ++i) done = done && book->runs[i] == 1;
      }
      if (done) break;
      std::this_thread::yield();
    }
  }
  pool.reset();
  {
    sim::Quiet q;
    book->destroyed = true;
  }
  const int total = book->next;
  for (int i = 0; i < total; ++i) {
    const int want = final_size > 0 ? 2 : 0;
    SIM_CHECK(cells[i] == want, "task-lost", "task %d of %d: %s when the destructor of a pool with %d workers returned", i, total, cells[i] == 0 ? "not executed" : "not completed", final_size);
  }
  if (total > 0 && final_size > 0) sim::NonTrivial();
  if (final_size == 0 && total > 0) sim::Probe("pool.zero_size_with_tasks");
}

// ===========================================================================
// C03: queue and tokens
// ===========================================================================
struct QOp {
  int kind;  // 0 push 1 pop 2 wait 3 stop 4 enable
  int arg;
  bool ok = false;
  int value = -1;
  uint64_t inv = 0, ret = 0;
};

// Searches for a linearization of `h` against the sequential queue model.
struct QCheck {
  const std::vector<QOp>& h;
  std::set<std::pair<uint32_t, std::vector<int>>> seen;
  explicit QCheck(const std::vector<QOp>& hh) : h(hh) {}
  bool Go(uint32_t done, const std::vector<int>& q, bool wait) {
    if (done == (1u << h.size()) - 1) return true;
    std::vector<int> key = q;
    key.push_back(wait ? -2 : -3);
    if (!seen.insert({done, key}).second) return false;
    uint64_t first_ret = ~0ull;
    for (size_t i = 0; i < h.size(); ++i)
      if (!(done >> i & 1) && h[i].ret < first_ret) first_ret = h[i].ret;
    for (size_t i = 0; i < h.size(); ++i) {
      if ((done >> i & 1) || h[i].inv > first_ret) continue;
      const QOp& o = h[i];
      std::vector<int> nq = q;
      bool nw = wait;
      bool legal = true;
      switch (o.kind) {
        case 0: nq.push_back(o.arg); break;
        case 1:
          if (o.ok) {
            legal = !nq.empty() && nq.front() == o.value;
            if (legal) nq.erase(nq.begin());
          } else {
            legal = nq.empty();
          }
          break;
        case 2:
          if (o.ok) {
            legal = !nq.empty() && nq.front() == o.value;
            if (legal) nq.erase(nq.begin());
          } else {
            legal = nq.empty() && !wait;
          }
          break;
        case 3: nw = false; break;
        default: nw = true; break;
      }
      if (legal && Go(done | (1u << i), nq, nw)) return true;
    }
    return false;
  }
};

SIM_WORKLOAD(C03, queue, 3) {
  const int phases = sim::Chance(30) ? 2 : 1;
  ConcurrentQueue<int> queue;
  std::vector<QOp> history;
  {
    sim::Quiet q;
    history.reserve(64);
  }
  int next_value = 0;
  auto run = [&](QOp o) {
    {
      sim::Quiet q;
      o.inv = sim::Seq();
    }
    switch (o.kind) {
      case 0: queue.Push(o.arg); break;
      case 1: o.ok = queue.Pop(&o.value); break;
      case 2: o.ok = queue.Wait(&o.value); break;
      case 3: queue.StopWaiters(); break;
      default: queue.EnableWaiters(); break;
    }
    sim::Quiet q;
    o.ret = sim::Seq();
    history.push_back(o);
    static const char* names[] = {"Push", "Pop", "Wait", "StopWaiters", "EnableWaiters"};
    sim::Event("T%d %s(%d) -> %s %d  [%llu,%llu]", sim::Self(), names[o.kind], o.arg, o.ok ? "true" : "false", o.value, (unsigned long long)o.inv, (unsigned long long)o.ret);
  };
  auto op = [](int kind, int arg) {
    QOp o;
    o.kind = kind;
    o.arg = arg;
    return o;
  };
  for (int phase = 0; phase < phases; ++phase) {
    const int threads = sim::Range(2, 4);
    const int limit = phases == 2 ? 7 : 12;
    // Consumers never starve: either a stopper ends the phase, or the controller
    // pushes as many elements as may be missing.
    const bool with_stop = phase + 1 < phases || sim::Chance(50);
    std::vector<std::vector<QOp>> plan(threads);
    int pushes = 0, takes = 0, total = 0, waits = 0;
    for (auto& p : plan) {
      const int n = sim::Range(1, 4);
      for (int i = 0; i < n && total < limit; ++i, ++total) {
        const int r = static_cast<int>(sim::Draw(10));
        if (r < 4) {
          p.push_back(op(0, next_value++));
          ++pushes;
        } else if (r < 8) {
          p.push_back(op(2, 0));
          ++takes;
          ++waits;
        } else if (r < 9 || !with_stop) {
          p.push_back(op(1, 0));
          ++takes;
        } else {
          p.push_back(op(3, 0));
        }
      }
    }
    // (a consumer's own pushes may come after its waits, so they do not count)
    const int missing = takes;
    sim::Event("phase %d: threads %d pushes %d takes %d stop %d", phase, threads, pushes, takes, with_stop);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) {
      ts.emplace_back([&, t]() {
        for (const QOp& o : plan[t]) run(o);
      });
    }
    if (with_stop) {
      run(op(3, 0));
    } else {
      for (int i = 0; i < missing; ++i) run(op(0, next_value++));
    }
    for (auto& t : ts) t.join();
    if (phase + 1 < phases) run(op(4, 0));
    if (waits > 0 && pushes > 0) sim::NonTrivial();
  }
  sim::Quiet q;
  QCheck check(history);
  SIM_CHECK(check.Go(0, {}, true), "queue-not-linearizable", "history of %zu queue operations has no sequential explanation", history.size());
  sim::Probe("queue.histories_checked");
  // Conservation: whatever was pushed and not taken is still there.
  std::multiset<int> in, out;
  for (auto& o : history) {
    if (o.kind == 0) in.insert(o.arg);
    if ((o.kind == 1 || o.kind == 2) && o.ok) out.insert(o.value);
  }
  int v;
  queue.StopWaiters();
  while (queue.Pop(&v)) out.insert(v);
  SIM_CHECK(in == out, "queue-lost", "queue lost or duplicated elements: %zu in, %zu out", in.size(), out.size());
}

SIM_WORKLOAD(C03, tokens, 2) {
  const int tokens = sim::Range(1, 5);
  const int users = sim::Range(1, 6);
  const int rounds = sim::Range(1, 5);
  sim::Event("tokens %d users %d rounds %d", tokens, users, rounds);
  ThreadTokenProvider provider(tokens);
  std::vector<long> scratch(tokens, 0);  // "preallocated resources" by token
  std::vector<int> holder(tokens, -1);
  auto body = [&](int u) {
    for (int r = 0; r < rounds; ++r) {
      const int t = provider.Acquire();
      {
        sim::Quiet q;
        SIM_CHECK(t >= 0 && t < tokens, "token-range", "token %d outside [0,%d)", t, tokens);
        SIM_CHECK(holder[t] == -1, "token-shared", "token %d held by users %d and %d at once", t, holder[t], u);
        holder[t] = u;
      }
      scratch[t] = u * 100 + r;
      sim::Point();
      SIM_CHECK(scratch[t] == u * 100 + r, "token-shared", "resource of token %d changed under its holder", t);
      {
        sim::Quiet q;
        holder[t] = -1;
      }
      provider.Release(t);
    }
  };
  std::vector<std::thread> ts;
  for (int u = 1; u < users; ++u) ts.emplace_back(body, u);
  body(0);
  for (auto& t : ts) t.join();
  if (users > 1) sim::NonTrivial();
  // All tokens are back.
  std::set<int> got;
  for (int i = 0; i < tokens; ++i) got.insert(provider.Acquire());
  SIM_CHECK(static_cast<int>(got.size()) == tokens, "token-lost", "only %zu of %d tokens came back", got.size(), tokens);
}

}  // namespace
