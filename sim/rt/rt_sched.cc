// Scheduler, thread primitives, clock, decision streams.
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <math.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include "rt.h"
#include "sim.h"

namespace simlog {
int vlog_level = 0;
}

namespace rt {

thread_local Thread* self __attribute__((tls_model("initial-exec"))) = nullptr;
Thread threads[kMaxThreads];
int num_threads = 0;
bool active = false;

Result* res = nullptr;
Trace* out_trace = nullptr;
const Trace* in_trace = nullptr;
Env env;
uptr watch_addr = 0;
u64 total_budget = 150ull * 1000 * 1000;
u64 clock_ns = 0;

static Rng rng_draw, rng_sched, rng_fault;
static u64 g_hash, g_sched_hash;
static u64 g_points = 0;
static u64 g_seq = 0;
static u64 g_block_seq = 0;
static u64 low_prio = 0;
static u64 victim_mask = 0;
static u32 n_draws = 0, draw_pos = 0;
constexpr u64 kFair = 200000;

void HashIn(u64 x) { g_hash = Mix(g_hash, x); }

// SIM_TRACE=1: every switch and event on file descriptor 3 (diagnosis only).
static const bool trace_fd = getenv("SIM_TRACE") != nullptr;

// ---------------------------------------------------------------------------
// Ending a run
// ---------------------------------------------------------------------------
static void Finalize() {
  if (self) g_points += self->points - self->base_pt;
  res->hash = Mix(g_hash, g_points);
  res->sched_hash = g_sched_hash;
  res->points = g_points;
  res->threads = num_threads;
  res->sim_ns = clock_ns;
}

[[noreturn]] void FinishRun() {
  Finalize();
  res->done = 1;
  _exit(0);
}

void Fail(const char* kind, const char* fmt, ...) {
  if (res->done == 0) {
    res->done = 2;
    snprintf(res->kind, sizeof(res->kind), "%s", kind);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(res->msg, sizeof(res->msg), fmt, ap);
    va_end(ap);
    Finalize();
  }
  _exit(0);
}

// ---------------------------------------------------------------------------
// Baton
// ---------------------------------------------------------------------------
static void FutexWait(std::atomic<int>* f) {
  while (f->exchange(0, std::memory_order_acquire) == 0) {
    syscall(SYS_futex, reinterpret_cast<int*>(f), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
}
static void FutexPost(std::atomic<int>* f) {
  f->store(1, std::memory_order_release);
  syscall(SYS_futex, reinterpret_cast<int*>(f), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void RecordSched(Thread* me, Thread* to) {
  if (out_trace) {
    if (out_trace->n_sched < kMaxSched) {
      out_trace->sched[out_trace->n_sched++] = SchedEntry{static_cast<u32>(me->id), static_cast<u32>(to->id), me->points};
    } else {
      out_trace->overflow = 1;
    }
  }
}

static void ScheduledIn(Thread* t) {
  t->fair_pt = t->points + kFair;
  t->base_pt = t->points;
  t->next_pt = t->preempt_pt < t->fair_pt ? t->preempt_pt : t->fair_pt;
}

static void SwitchTo(Thread* to) {
  Thread* me = self;
  if (to == me) return;
  g_points += me->points - me->base_pt;
  me->base_pt = me->points;
  ++res->switches;
  if (trace_fd) dprintf(3, "switch %u -> %u at %llu\n", (unsigned)me->id, (unsigned)to->id, (unsigned long long)me->points);
  g_hash = Mix(g_hash, (static_cast<u64>(me->id) << 40) ^ (static_cast<u64>(to->id) << 32) ^ me->points);
  g_sched_hash = Mix(g_sched_hash, (static_cast<u64>(me->id) << 40) ^ (static_cast<u64>(to->id) << 32) ^ me->points);
  ScheduledIn(to);
  FutexPost(&to->go);
  FutexWait(&me->go);
}

// Draws the distance to this thread's next memory-level preemption.
static void DrawPreempt(Thread* t) {
  if (in_trace) {
    while (t->trace_next < t->trace_end && in_trace->sched[t->trace_next].point <= t->points) ++t->trace_next;
    t->preempt_pt = t->trace_next < t->trace_end ? in_trace->sched[t->trace_next].point : ~0ull;
  } else if (env.mem_mean == 0) {
    t->preempt_pt = ~0ull;
  } else {
    double u = (static_cast<double>(rng_sched.Next() >> 11) + 1) * (1.0 / 9007199254740993.0);
    u64 d = 1 + static_cast<u64>(-log(u) * env.mem_mean);
    t->preempt_pt = t->points + d;
  }
  t->next_pt = t->preempt_pt < t->fair_pt ? t->preempt_pt : t->fair_pt;
}

static void CheckBudget() {
  if (g_points + (self->points - self->base_pt) > total_budget) {
    Fail("no-progress", "the run made no progress to completion within %llu scheduling points", (unsigned long long)total_budget);
  }
}

static Thread* NextRunnableAfter(Thread* me) {
  for (int i = 1; i <= num_threads; ++i) {
    Thread* t = &threads[(me->id + i) % num_threads];
    if (t->state == kRunnable && t != me) return t;
  }
  return nullptr;
}

// Picks one runnable thread other than `me` by strategy (record mode).
static Thread* PickOther(Thread* me) {
  int n = 0, nv = 0;
  for (int i = 0; i < num_threads; ++i) {
    if (threads[i].state == kRunnable && &threads[i] != me) {
      ++n;
      if (!((victim_mask >> (i & 63)) & 1)) ++nv;
    }
  }
  if (n == 0) return nullptr;
  if (env.strategy == 1) {  // PCT: highest priority
    Thread* best = nullptr;
    for (int i = 0; i < num_threads; ++i) {
      Thread* t = &threads[i];
      if (t->state == kRunnable && t != me && (!best || t->prio > best->prio)) best = t;
    }
    return best;
  }
  const bool starve = env.strategy == 3 && nv > 0;
  u64 k = rng_sched.Below(starve ? nv : n);
  for (int i = 0; i < num_threads; ++i) {
    Thread* t = &threads[i];
    if (t->state != kRunnable || t == me) continue;
    if (starve && ((victim_mask >> (i & 63)) & 1)) continue;
    if (k-- == 0) return t;
  }
  return nullptr;
}

// A decision point at which `me` could continue.
static void Decide(Thread* me, bool sync, bool yield) {
  Thread* to = me;
  if (in_trace) {
    while (me->trace_next < me->trace_end && in_trace->sched[me->trace_next].point < me->points) ++me->trace_next;
    if (me->trace_next < me->trace_end && in_trace->sched[me->trace_next].point == me->points) {
      Thread* t = &threads[in_trace->sched[me->trace_next].target % kMaxThreads];
      if (t->state == kRunnable) to = t;
      ++me->trace_next;
      DrawPreempt(me);
    }
  } else {
    bool want = !sync || yield || rng_sched.Below(1000) < env.sync_permil;
    if (env.strategy == 1) {
      if (yield) me->prio = --low_prio;
      else if (!sync) me->prio = --low_prio;
      else if (want && rng_sched.Below(16) == 0) me->prio = --low_prio;
      Thread* t = PickOther(me);
      if (t && t->prio > me->prio) to = t;
    } else if (env.strategy == 3) {
      bool victim = (victim_mask >> (me->id & 63)) & 1;
      if (victim || want) {
        Thread* t = PickOther(me);
        if (t && !(!want && ((victim_mask >> (t->id & 63)) & 1))) to = t;
      }
    } else if (want) {
      Thread* t = PickOther(me);
      if (t) to = t;
    }
  }
  if (to != me) {
    RecordSched(me, to);
    SwitchTo(to);
  }
}

void SyncPoint() {
  Thread* me = self;
  if (!me || me->quiet || !active) return;
  ++me->points;
  ++res->syncs;
  Decide(me, true, false);
}

void MemSlow(Thread* me) {
  if (me->points >= me->fair_pt) {
    CheckBudget();
    me->fair_pt = me->points + kFair;
    me->next_pt = me->preempt_pt < me->fair_pt ? me->preempt_pt : me->fair_pt;
    Thread* t = NextRunnableAfter(me);
    if (t) {
      if (env.strategy == 1 && !in_trace) me->prio = --low_prio;
      SwitchTo(t);
      return;
    }
  }
  if (me->points >= me->preempt_pt) {
    if (me->no_preempt) {
      DrawPreempt(me);
      return;
    }
    if (in_trace) {
      Decide(me, false, false);
    } else {
      DrawPreempt(me);
      Decide(me, false, false);
    }
  }
}

// `me` cannot continue (its state is no longer kRunnable): someone else must.
static void BlockNow(Thread* me) {
  ++me->points;
  ++res->syncs;
  CheckBudget();
  for (;;) {
    int n = 0;
    for (int i = 0; i < num_threads; ++i) n += threads[i].state == kRunnable;
    if (n > 0) break;
    // Nothing can run: time passes until the earliest deadline.
    Thread* first = nullptr;
    for (int i = 0; i < num_threads; ++i) {
      Thread* t = &threads[i];
      if (t->state == kBlocked && t->timed && (!first || t->deadline < first->deadline)) first = t;
    }
    if (!first) {
      char buf[2048];
      int k = 0;
      static const char* names[] = {"?", "mutex", "condition variable", "join", "sleep", "once", "rwlock", "semaphore"};
      for (int i = 0; i < num_threads && k < 1900; ++i) {
        if (threads[i].state == kBlocked) {
          k += snprintf(buf + k, sizeof(buf) - k, " T%d waits on %s;", i, names[threads[i].wait]);
        }
      }
      Fail("deadlock", "no thread can make progress:%s", buf);
    }
    if (first->deadline > clock_ns) clock_ns = first->deadline;
    first->timed_out = true;
    first->state = kRunnable;
  }
  Thread* to = nullptr;
  if (me->state == kRunnable && false) to = me;
  if (in_trace) {
    while (me->trace_next < me->trace_end && in_trace->sched[me->trace_next].point < me->points) ++me->trace_next;
    if (me->trace_next < me->trace_end && in_trace->sched[me->trace_next].point == me->points) {
      Thread* t = &threads[in_trace->sched[me->trace_next].target % kMaxThreads];
      if (t->state == kRunnable) to = t;
      ++me->trace_next;
      DrawPreempt(me);
    }
    if (!to) to = me->state == kRunnable ? me : nullptr;
    for (int i = 0; !to && i < num_threads; ++i)
      if (threads[i].state == kRunnable) to = &threads[i];
  } else {
    Thread* other = PickOther(me);
    if (me->state == kRunnable) {
      to = other && rng_sched.Below(2) ? other : me;
      if (!to) to = me;
    } else {
      to = other;
    }
    Thread* dflt = me->state == kRunnable ? me : nullptr;
    for (int i = 0; !dflt && i < num_threads; ++i)
      if (threads[i].state == kRunnable) dflt = &threads[i];
    if (to != dflt) RecordSched(me, to);
  }
  SwitchTo(to);
}

static void Block(WaitKind w, void* obj, bool timed, u64 deadline) {
  Thread* me = self;
  me->state = kBlocked;
  me->wait = w;
  me->wait_obj = obj;
  me->timed = timed;
  me->timed_out = false;
  me->deadline = deadline;
  me->block_seq = ++g_block_seq;
  BlockNow(me);
  me->wait = kWNone;
  me->wait_obj = nullptr;
}

static void WakeAll(WaitKind w, void* obj) {
  for (int i = 0; i < num_threads; ++i) {
    Thread* t = &threads[i];
    if (t->state == kBlocked && t->wait == w && t->wait_obj == obj) t->state = kRunnable;
  }
}

// ---------------------------------------------------------------------------
// Sync objects
// ---------------------------------------------------------------------------
constexpr u32 kBuckets = 1 << 14;
static SyncObj* buckets[kBuckets];
static SyncObj* free_sync = nullptr;
static VC* free_vc = nullptr;

static u32 Bucket(uptr a) { return static_cast<u32>((a * 0x9e3779b97f4a7c15ull) >> 50); }

SyncObj* FindSync(uptr addr, bool create) {
  SyncObj** b = &buckets[Bucket(addr)];
  for (SyncObj* o = *b; o; o = o->next)
    if (o->addr == addr) return o;
  if (!create) return nullptr;
  SyncObj* o = free_sync;
  if (o) free_sync = o->next; else o = static_cast<SyncObj*>(RtAlloc(sizeof(SyncObj)));
  memset(o, 0, sizeof(*o));
  o->addr = addr;
  o->next = *b;
  *b = o;
  uptr off;
  if (Offset(addr, &off)) *AsanOf(off) |= kSyncBit;
  return o;
}

void DropSync(uptr addr) {
  SyncObj** b = &buckets[Bucket(addr)];
  while (*b) {
    SyncObj* o = *b;
    if (o->addr == addr) {
      *b = o->next;
      if (o->vc) {
        *reinterpret_cast<VC**>(o->vc) = free_vc;
        free_vc = o->vc;
      }
      o->next = free_sync;
      free_sync = o;
      uptr off;
      if (Offset(addr, &off)) {
        bool other = false;
        for (int i = 0; i < 8; ++i) other |= FindSync((addr & ~7ull) + i, false) != nullptr;
        if (!other && *AsanOf(off) < 0x20) *AsanOf(off) &= static_cast<u8>(~kSyncBit);
      }
      return;
    }
    b = &o->next;
  }
}

void Acquire(Thread* t, SyncObj* o) {
  if (!o->vc) return;
  for (int i = 0; i < num_threads; ++i)
    if (o->vc->c[i] > t->vc.c[i]) t->vc.c[i] = o->vc->c[i];
}
static VC* NewVC() {
  VC* v = free_vc;
  if (v) free_vc = *reinterpret_cast<VC**>(v); else v = static_cast<VC*>(RtAlloc(sizeof(VC)));
  memset(v, 0, sizeof(VC));
  return v;
}
void Release(Thread* t, SyncObj* o, bool merge) {
  if (!o->vc) o->vc = NewVC();
  if (merge) {
    for (int i = 0; i < num_threads; ++i)
      if (t->vc.c[i] > o->vc->c[i]) o->vc->c[i] = t->vc.c[i];
  } else {
    memcpy(o->vc->c, t->vc.c, sizeof(u32) * num_threads);
    memset(o->vc->c + num_threads, 0, sizeof(u32) * (kMaxThreads - num_threads));
  }
  ++t->vc.c[t->id];
}

// ---------------------------------------------------------------------------
// Threads
// ---------------------------------------------------------------------------
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_once)(pthread_once_t*, void (*)(void));
static int (*real_clock_gettime)(clockid_t, struct timespec*);
static int (*real_mutex_lock)(pthread_mutex_t*);
static int (*real_mutex_unlock)(pthread_mutex_t*);

template <typename F>
static void Real(F* f, const char* name) {
  if (!*f) *f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

// The memory is allocated by the creator: RtAlloc is not thread-safe, and a new
// thread runs this concurrently with its creator.
static void* alt_stacks[kMaxThreads];
static void SetAltStack(int id) {
  stack_t ss;
  memset(&ss, 0, sizeof(ss));
  ss.ss_sp = alt_stacks[id];
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
}

static void RunDtors(Thread* t) {
  while (t->dtors) {
    Thread::Dtor* d = t->dtors;
    t->dtors = d->next;
    d->fn(d->arg);
  }
}

[[noreturn]] static void ParkForever() {
  for (;;) {
    int zero = 0;
    syscall(SYS_futex, &zero, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
}

[[noreturn]] static void ThreadDone(Thread* t) {
  RunDtors(t);
  SyncPoint();
  t->state = kDone;
  HashIn(0xd0e0 + t->id);
  for (int i = 0; i < num_threads; ++i) {
    Thread* o = &threads[i];
    if (o->state == kBlocked && o->wait == kWJoin && o->wait_obj == t) o->state = kRunnable;
  }
  BlockNow(t);  // never comes back
  ParkForever();
}

static void* Trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  self = t;
  SetAltStack(t->id);
  FutexWait(&t->go);
  t->ret = t->fn(t->arg);
  ThreadDone(t);
}

static Thread* NewThread(void* (*fn)(void*), void* arg, Thread* creator) {
  int id = -1;
  if (num_threads < kMaxThreads) {
    id = num_threads;
  } else {
    Fail("too-many-threads", "more than %d threads in one run", kMaxThreads);
  }
  Thread* t = &threads[id];
  memset(static_cast<void*>(t), 0, sizeof(*t));
  t->id = id;
  alt_stacks[id] = RtAlloc(65536);
  num_threads = id + 1;
  t->fn = fn;
  t->arg = arg;
  t->stack_lo = kStacks + kStackSize * id;
  t->stack_hi = t->stack_lo + kStackSize;
  mprotect(reinterpret_cast<void*>(t->stack_lo), 4096, PROT_NONE);
  if (creator) {
    memcpy(&t->vc, &creator->vc, sizeof(VC));
    ++creator->vc.c[creator->id];
  }
  t->vc.c[id] = 1;
  t->prio = (1ull << 62) + (rng_sched.Next() >> 3);
  t->fair_pt = kFair;
  if (in_trace) {
    // Entries are sorted by (tid, point) by the parent.
    u32 i = 0;
    while (i < in_trace->n_sched && in_trace->sched[i].tid < static_cast<u32>(id)) ++i;
    u32 j = i;
    while (j < in_trace->n_sched && in_trace->sched[j].tid == static_cast<u32>(id)) ++j;
    t->trace_next = i;
    t->trace_end = j;
    t->preempt_pt = i < j ? in_trace->sched[i].point : ~0ull;
  } else {
    DrawPreempt(t);
  }
  t->next_pt = t->preempt_pt < t->fair_pt ? t->preempt_pt : t->fair_pt;
  return t;
}

static int StartReal(Thread* t) {
  Real(&real_create, "pthread_create");
  if (env.fill) {
    // Fresh stack memory holds garbage too.
    const int v = env.fill == 1 ? 0xff : env.fill == 2 ? 0xa5 : env.fill == 3 ? 0x41 : 0xcb;
    constexpr u64 n = 96 << 10;
    memset(reinterpret_cast<void*>(t->stack_hi - n), v, n);
  }
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstack(&attr, reinterpret_cast<void*>(t->stack_lo + 4096), kStackSize - 4096);
  int rc = real_create(&t->real, &attr, Trampoline, t);
  pthread_attr_destroy(&attr);
  return rc;
}

static Thread* ByPthread(pthread_t p) {
  for (int i = 0; i < num_threads; ++i)
    if (threads[i].real == p) return &threads[i];
  return nullptr;
}

static void SigHandler(int sig, siginfo_t* si, void* uc_) {
  ucontext_t* uc = static_cast<ucontext_t*>(uc_);
  uptr pc = uc->uc_mcontext.gregs[REG_RIP];
  uptr fp = uc->uc_mcontext.gregs[REG_RBP];
  static char buf[8000];
  int n = snprintf(buf, sizeof(buf), "signal %d (%s), address %p, in T%d\n", sig, strsignal(sig), si->si_addr, self ? self->id : -1);
  DumpStack(buf + n, sizeof(buf) - n, pc, fp);
  Fail(sig == SIGABRT ? "abort" : "crash", "%s", buf);
}

static void (*run_body)() = nullptr;

static void* MainBody(void*) {
  run_body();
  QuietCheck:
  for (int i = 1; i < num_threads; ++i) {
    if (threads[i].state != kDone) {
      Fail("thread-leak", "T%d is still alive after the workload destroyed everything it created", i);
    }
  }
  (void)&&QuietCheck;
  res->live_end = sim::LiveBytes();
  LeakCheck();
  FinishRun();
}

static void ChooseEnv() {
  // Swarm knobs of the environment.
  memset(&env, 0, sizeof(env));
  Rng& r = rng_sched;
  env.salt = r.Below(2) ? r.Next() | 1 : 0;
  env.fill = static_cast<u32>(1 + r.Below(4));
  static const u32 ticks[] = {0, 1, 50, 1000, 100000};
  env.tick_ns = ticks[r.Below(5)];
  static const u32 procs[] = {4, 1, 2, 3, 8, 16, 64};
  env.nprocs = procs[r.Below(7)];
  env.strategy = static_cast<u32>(r.Below(10));
  static const u32 map[10] = {0, 0, 0, 0, 1, 1, 1, 2, 3, 3};
  env.strategy = map[env.strategy];
  static const u32 sp[] = {30, 100, 250, 500, 800};
  env.sync_permil = env.strategy == 2 ? 0 : sp[r.Below(5)];
  static const u32 mm[] = {0, 0, 20, 100, 700, 5000, 40000};
  env.mem_mean = env.strategy == 2 ? 0 : mm[r.Below(7)];
  env.vlog = r.Below(12) == 0 ? static_cast<u32>(1 + r.Below(4)) : 0;
}

static struct {
  const char* name;
  u64 hash;
  u32 rate;  // out of 2^20
  u32 calls, fired;
  int trace_site;
} sites[kMaxSites];
static int n_sites = 0;
static bool faults_on = true;

static int SiteIndex(const char* name) {
  for (int i = 0; i < n_sites; ++i)
    if (sites[i].name == name || strcmp(sites[i].name, name) == 0) return i;
  if (n_sites >= kMaxSites) Fail("sim-too-many-sites", "fault sites exhausted");
  sites[n_sites].name = name;
  sites[n_sites].trace_site = -1;
  if (in_trace) {
    for (u32 k = 0; k < in_trace->n_sites; ++k)
      if (strcmp(in_trace->sites[k], name) == 0) sites[n_sites].trace_site = static_cast<int>(k);
  } else if (out_trace && n_sites < kMaxSites) {
    snprintf(out_trace->sites[n_sites], sizeof(out_trace->sites[0]), "%s", name);
    out_trace->n_sites = n_sites + 1;
  }
  return n_sites++;
}

void RunChild(u64 seed, void (*body)()) {
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = SigHandler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  const int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT};
  for (int s : sigs) sigaction(s, &sa, nullptr);

  rng_draw.Seed(Mix(seed, 1));
  rng_sched.Seed(Mix(seed, 2));
  rng_fault.Seed(Mix(seed, 3));
  g_hash = g_sched_hash = 0;
  clock_ns = 1700000000ull * 1000000000ull;
  if (in_trace) {
    env = in_trace->env;
  } else {
    ChooseEnv();
    if (out_trace) {
      out_trace->env = env;
      out_trace->n_draws = out_trace->n_sched = out_trace->n_faults = out_trace->n_sites = 0;
      out_trace->overflow = 0;
    }
    victim_mask = 0;
    if (env.strategy == 3) {
      victim_mask = rng_sched.Next();
      if (rng_sched.Below(2)) victim_mask &= rng_sched.Next();
      if (rng_sched.Below(2)) victim_mask = 1ull << rng_sched.Below(4);
    }
  }
  simlog::vlog_level = static_cast<int>(env.vlog);
  low_prio = 1ull << 61;
  HeapBeginRun();
  DiskReset();
  run_body = body;
  Thread* t = NewThread(MainBody, nullptr, nullptr);
  active = true;
  t->state = kRunnable;
  auto arm = [](const char* s, u64 one_in, double rate) {
    if (in_trace || rng_sched.Below(one_in) == 0) sim::ArmFault(s, rate);
  };
  arm("cond.spurious", 3, 0.05);
  arm("cas.weak_spurious", 3, 0.2);
  arm("mutex.trylock", 3, 0.1);
  arm("clock.jump", 8, 0.02);
  t->base_pt = 0;
  if (StartReal(t) != 0) _exit(73);
  FutexPost(&t->go);
  ParkForever();
}

}  // namespace rt

using namespace rt;

// ---------------------------------------------------------------------------
// sim:: interface
// ---------------------------------------------------------------------------
namespace sim {

uint64_t Draw(uint64_t n) {
  u64 v;
  if (in_trace) {
    v = draw_pos < in_trace->n_draws ? in_trace->draws[draw_pos] : 0;
    ++draw_pos;
    if (n && v >= n) v = n - 1;
  } else {
    v = rng_draw.Below(n);
    if (out_trace) {
      if (out_trace->n_draws < kMaxDraws) out_trace->draws[out_trace->n_draws++] = v; else out_trace->overflow = 1;
    }
  }
  ++n_draws;
  HashIn(v + 0x1000);
  return v;
}

double Uniform(double lo, double hi) {
  return lo + (hi - lo) * (static_cast<double>(Draw(1 << 20)) / (1 << 20));
}

void ArmFault(const char* site, double rate) {
  int i = SiteIndex(site);
  sites[i].rate = static_cast<u32>(rate * (1 << 20));
}
void FaultsOff() { faults_on = false; }
void FaultsOn() { faults_on = true; }
uint64_t FaultCount(const char* site) { return sites[SiteIndex(site)].fired; }

static void CountFault(const char* site) {
  for (u32 k = 0; k < res->n_faultc; ++k)
    if (strcmp(res->faultc[k].name, site) == 0) {
      ++res->faultc[k].n;
      return;
    }
  if (res->n_faultc < kMaxSites) {
    snprintf(res->faultc[res->n_faultc].name, sizeof(res->faultc[0].name), "%s", site);
    res->faultc[res->n_faultc++].n = 1;
  }
}

static bool LookupFault(int site, u32 n, u64* v) {
  if (sites[site].trace_site < 0) return false;
  for (u32 k = 0; k < in_trace->n_faults; ++k) {
    if (in_trace->faults[k].site == static_cast<u32>(sites[site].trace_site) && in_trace->faults[k].n == n) {
      *v = in_trace->faults[k].value;
      return true;
    }
  }
  return false;
}
static void RecordFault(int site, u32 n, u64 v) {
  if (!out_trace) return;
  if (out_trace->n_faults < kMaxFaults) {
    out_trace->faults[out_trace->n_faults++] = FaultEntry{static_cast<u32>(site), n, v};
  } else {
    out_trace->overflow = 1;
  }
}

bool Fault(const char* site) {
  if (!active) return false;
  int i = SiteIndex(site);
  u32 n = ++sites[i].calls;
  if (!faults_on) return false;
  bool fire = false;
  if (in_trace) {
    u64 v;
    fire = sites[i].rate != 0 && LookupFault(i, n, &v);
  } else if (sites[i].rate) {
    fire = rng_fault.Below(1 << 20) < sites[i].rate;
    if (fire) RecordFault(i, n, 1);
  }
  if (fire) {
    ++sites[i].fired;
    HashIn(0xfa0000 ^ HashStr(site));
    CountFault(site);
  }
  return fire;
}

uint64_t FaultValue(const char* site, uint64_t m) {
  int i = SiteIndex(site);
  u32 n = ++sites[i].calls;
  u64 v = 0;
  if (in_trace) {
    if (!LookupFault(i, n, &v)) v = 0;
    if (m && v >= m) v = m - 1;
  } else {
    v = rng_fault.Below(m);
    if (v) RecordFault(i, n, v);
  }
  HashIn(0xfb0000 + v);
  return v;
}

uint64_t NowNs() { return clock_ns; }
void Advance(uint64_t ns) { clock_ns += ns; }
void JumpClock(int64_t ns) {
  if (ns < 0 && static_cast<u64>(-ns) > clock_ns) clock_ns = 0; else clock_ns += ns;
}
void SetTick(uint64_t ns) { env.tick_ns = static_cast<u32>(ns); }
void SetHardwareConcurrency(int n) { env.nprocs = n; }
void SetVlog(int l) { simlog::vlog_level = l; }

void Violation(const char* kind, const char* fmt, ...) {
  static char buf[15000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  Fail(kind, "%s", buf);
}

void Event(const char* fmt, ...) {
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n > 511) n = 511;
  if (trace_fd) dprintf(3, "event %s (%llu)\n", buf, self ? (unsigned long long)self->points : 0ull);
  HashIn(HashStr(buf));
  if (res->log_len + n + 2 < sizeof(res->log)) {
    memcpy(res->log + res->log_len, buf, n);
    res->log_len += n;
    res->log[res->log_len++] = '\n';
  }
}

void Probe(const char* name) {
  for (u32 k = 0; k < res->n_probec; ++k)
    if (strcmp(res->probec[k].name, name) == 0) {
      ++res->probec[k].n;
      return;
    }
  if (res->n_probec < kMaxCounters) {
    snprintf(res->probec[res->n_probec].name, sizeof(res->probec[0].name), "%s", name);
    res->probec[res->n_probec++].n = 1;
  }
}
void NonTrivial() { res->nontrivial = 1; }
void State(uint64_t h) {
  HashIn(h);
  if (res->n_states < kMaxStates) res->states[res->n_states++] = h;
}
uint64_t Seq() { return ++g_seq; }
int Self() { return self ? self->id : -1; }
void QuietBegin() { if (self) ++self->quiet; }
void QuietEnd() { if (self) --self->quiet; }
void Point() { SyncPoint(); }

static bool (*fatal_handler)(const char*, int, const char*) = nullptr;
void OnFatal(bool (*h)(const char*, int, const char*)) { fatal_handler = h; }
static u64 log_count[4];
u64 LogCount(int severity) { return log_count[severity & 3]; }

}  // namespace sim

namespace simlog {
void Emit(int severity, const char* file, int line, const char* text) {
  if (!active || !self) return;
  ++sim::log_count[severity & 3];
  if (res && res->log_len + 300 < sizeof(res->log) && severity >= 1) {
    const char* b = strrchr(file, '/');
    int n = snprintf(res->log + res->log_len, 300, "[log %d %s:%d] %.200s\n", severity, b ? b + 1 : file, line, text);
    res->log_len += n < 300 ? n : 299;
  }
}
void FatalImpl(const char* file, int line, const char* text) {
  if (!active) {
    fprintf(stderr, "fatal outside a run: %s:%d %s\n", file, line, text);
    _exit(74);
  }
  const char* b = strrchr(file, '/');
  b = b ? b + 1 : file;
  if (sim::fatal_handler) {
    auto h = sim::fatal_handler;
    sim::fatal_handler = nullptr;
    ++self->quiet;
    if (h(b, line, text)) FinishRun();
    --self->quiet;
  }
  static char buf[9000];
  int n = snprintf(buf, sizeof(buf), "%s:%d: %.3000s\n", b, line, text);
  DumpStack(buf + n, sizeof(buf) - n, 0, reinterpret_cast<uptr>(__builtin_frame_address(0)));
  Fail("abort", "process aborted by a failed CHECK: %s", buf);
}
}  // namespace simlog

// ---------------------------------------------------------------------------
// Interposed primitives
// ---------------------------------------------------------------------------
static inline bool Managed() { return self != nullptr && active; }

static u64 ReadClock() {
  if (!self->quiet) {
    clock_ns += env.tick_ns;
    if (sim::Fault("clock.jump")) {
      static const int64_t jumps[] = {1000000, 1000000000ll, 60000000000ll, -1000000ll, -1000000000ll, -60000000000ll};
      sim::JumpClock(jumps[sim::FaultValue("clock.jump#v", 6)]);
    }
  }
  return clock_ns;
}

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!Managed()) {
    Real(&real_create, "pthread_create");
    return real_create(out, attr, fn, arg);
  }
  SyncPoint();
  if (!self->quiet && sim::Fault("thread.create")) return EAGAIN;
  Thread* t = NewThread(fn, arg, self);
  t->state = kBlocked;
  int rc = StartReal(t);
  if (rc != 0) Fail("sim-thread", "real pthread_create failed: %d", rc);
  int ds = PTHREAD_CREATE_JOINABLE;
  if (attr) pthread_attr_getdetachstate(attr, &ds);
  t->detached = ds == PTHREAD_CREATE_DETACHED;
  *out = t->real;
  t->state = kRunnable;
  HashIn(0xc0e0 + t->id);
  SyncPoint();
  return 0;
}

int pthread_join(pthread_t p, void** ret) {
  if (!Managed()) return EINVAL;
  SyncPoint();
  Thread* t = ByPthread(p);
  if (!t || t->joined || t->detached) Fail("bad-join", "join of a thread that is not joinable");
  while (t->state != kDone) Block(kWJoin, t, false, 0);
  t->joined = true;
  for (int i = 0; i < num_threads; ++i)
    if (t->vc.c[i] > self->vc.c[i]) self->vc.c[i] = t->vc.c[i];
  if (ret) *ret = t->ret;
  return 0;
}

int pthread_detach(pthread_t p) {
  if (!Managed()) return 0;
  Thread* t = ByPthread(p);
  if (t) t->detached = true;
  return 0;
}

// ---- mutex ----
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* attr) {
  memset(m, 0, sizeof(*m));
  if (attr) {
    int type = 0;
    pthread_mutexattr_gettype(attr, &type);
    m->__data.__kind = type;
  }
  if (Managed()) DropSync((uptr)m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!Managed()) return 0;
  SyncObj* o = FindSync((uptr)m, false);
  if (o && o->owner) Fail("mutex-destroyed-locked", "a held mutex is destroyed");
  DropSync((uptr)m);
  return 0;
}
static void LockMutex(pthread_mutex_t* m) {
  SyncObj* o = FindSync((uptr)m, true);
  o->is_mutex = true;
  const int me = self->id + 1;
  if (o->owner == me) {
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) {
      ++o->recursion;
      return;
    }
    Fail("self-deadlock", "T%d locks a mutex it already holds", self->id);
  }
  while (o->owner) {
    Block(kWMutex, m, false, 0);
    o = FindSync((uptr)m, true);
    o->is_mutex = true;
  }
  o->owner = me;
  Acquire(self, o);
}
static void UnlockMutex(pthread_mutex_t* m) {
  SyncObj* o = FindSync((uptr)m, false);
  if (!o || o->owner != self->id + 1) Fail("bad-unlock", "T%d unlocks a mutex it does not hold", self->id);
  if (o->recursion) {
    --o->recursion;
    return;
  }
  Release(self, o, false);
  o->owner = 0;
  WakeAll(kWMutex, m);
}
static inline void TouchObj(void* p, uptr pc) {
  // Heap state check of the primitive's own memory.
  if (!self->quiet && !sim::HeapOk(p, 8)) {
    char buf[2000];
    DumpStack(buf, sizeof(buf), pc, (uptr)__builtin_frame_address(0));
    Fail("use-after-free", "T%d uses a synchronisation object at %p whose memory was freed\n%s", self->id, p, buf);
  }
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!Managed()) return 0;
  TouchObj(m, (uptr)__builtin_return_address(0));
  SyncPoint();
  LockMutex(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!Managed()) return 0;
  TouchObj(m, (uptr)__builtin_return_address(0));
  SyncPoint();
  SyncObj* o = FindSync((uptr)m, true);
  o->is_mutex = true;
  if (o->owner == self->id + 1 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) {
    ++o->recursion;
    return 0;
  }
  if (o->owner || (!self->quiet && sim::Fault("mutex.trylock"))) return EBUSY;
  o->owner = self->id + 1;
  Acquire(self, o);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!Managed()) return 0;
  TouchObj(m, (uptr)__builtin_return_address(0));
  UnlockMutex(m);
  SyncPoint();
  return 0;
}

// ---- condition variables ----
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof(*c));
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!Managed()) return 0;
  for (int i = 0; i < num_threads; ++i) {
    if (threads[i].state == kBlocked && threads[i].wait == kWCond && threads[i].wait_obj == c) {
      Fail("sync-destroyed-waited", "a condition variable is destroyed while T%d waits on it", i);
    }
  }
  return 0;
}
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 deadline) {
  TouchObj(c, (uptr)__builtin_return_address(0));
  SyncPoint();
  // The granule is marked so that freeing it while waited upon is noticed.
  SyncObj* co = FindSync((uptr)c, true);
  (void)co;
  UnlockMutex(m);
  bool timeout = false;
  if (!self->quiet && sim::Fault("cond.spurious")) {
    SyncPoint();
  } else {
    Block(kWCond, c, timed, deadline);
    timeout = self->timed_out;
  }
  LockMutex(m);
  return timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!Managed()) return 0;
  return CondWait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!Managed()) return ETIMEDOUT;
  return CondWait(c, m, true, ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
  if (!Managed()) return ETIMEDOUT;
  return CondWait(c, m, true, ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!Managed()) return 0;
  TouchObj(c, (uptr)__builtin_return_address(0));
  SyncPoint();
  Thread* w[kMaxThreads];
  int n = 0;
  for (int i = 0; i < num_threads; ++i)
    if (threads[i].state == kBlocked && threads[i].wait == kWCond && threads[i].wait_obj == c) w[n++] = &threads[i];
  if (n) {
    u64 k = sim::FaultValue("cond.signal#who", n);
    w[k]->state = kRunnable;
    w[k]->timed = false;
  }
  SyncPoint();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!Managed()) return 0;
  TouchObj(c, (uptr)__builtin_return_address(0));
  SyncPoint();
  WakeAll(kWCond, c);
  SyncPoint();
  return 0;
}

// ---- rwlock ----
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
  memset(l, 0, sizeof(*l));
  if (Managed()) DropSync((uptr)l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) {
  if (Managed()) DropSync((uptr)l);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!Managed()) return 0;
  SyncPoint();
  SyncObj* o = FindSync((uptr)l, true);
  if (o->owner) return EBUSY;
  ++o->readers;
  Acquire(self, o);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!Managed()) return 0;
  SyncPoint();
  SyncObj* o = FindSync((uptr)l, true);
  if (o->owner || o->readers) return EBUSY;
  o->owner = self->id + 1;
  Acquire(self, o);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!Managed()) return 0;
  SyncPoint();
  SyncObj* o;
  while ((o = FindSync((uptr)l, true))->owner) Block(kWRw, l, false, 0);
  ++o->readers;
  Acquire(self, o);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!Managed()) return 0;
  SyncPoint();
  SyncObj* o;
  while ((o = FindSync((uptr)l, true))->owner || o->readers) Block(kWRw, l, false, 0);
  o->owner = self->id + 1;
  Acquire(self, o);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!Managed()) return 0;
  SyncObj* o = FindSync((uptr)l, true);
  Release(self, o, true);
  if (o->owner == self->id + 1) o->owner = 0; else if (o->readers > 0) --o->readers;
  WakeAll(kWRw, l);
  SyncPoint();
  return 0;
}

// ---- semaphores ----
int sem_init(sem_t* s, int, unsigned v) {
  *reinterpret_cast<unsigned*>(s) = v;
  return 0;
}
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) {
  if (Managed()) SyncPoint();
  ++*reinterpret_cast<unsigned*>(s);
  if (Managed()) {
    Release(self, FindSync((uptr)s, true), true);
    WakeAll(kWSem, s);
    SyncPoint();
  }
  return 0;
}
int sem_wait(sem_t* s) {
  if (!Managed()) return 0;
  SyncPoint();
  unsigned* v = reinterpret_cast<unsigned*>(s);
  while (*v == 0) Block(kWSem, s, false, 0);
  --*v;
  Acquire(self, FindSync((uptr)s, true));
  return 0;
}
int sem_trywait(sem_t* s) {
  if (Managed()) SyncPoint();
  unsigned* v = reinterpret_cast<unsigned*>(s);
  if (*v == 0) {
    errno = EAGAIN;
    return -1;
  }
  --*v;
  if (Managed()) Acquire(self, FindSync((uptr)s, true));
  return 0;
}

// ---- once / static guards ----
int pthread_once(pthread_once_t* ctl, void (*fn)(void)) {
  if (!Managed()) {
    Real(&real_once, "pthread_once");
    return real_once(ctl, fn);
  }
  SyncPoint();
  volatile int* v = reinterpret_cast<volatile int*>(ctl);
  while (*v == 1) Block(kWOnce, ctl, false, 0);
  if (*v == 0) {
    *v = 1;
    try {
      fn();
    } catch (...) {
      *v = 0;
      WakeAll(kWOnce, ctl);
      throw;
    }
    Release(self, FindSync((uptr)ctl, true), true);
    *v = 2;
    WakeAll(kWOnce, ctl);
  }
  SyncObj* o = FindSync((uptr)ctl, false);
  if (o) Acquire(self, o);
  return 0;
}
int __cxa_guard_acquire(u64* g) {
  volatile u8* b = reinterpret_cast<volatile u8*>(g);
  if (!Managed()) {
    if (b[0]) return 0;
    return 1;
  }
  SyncPoint();
  while (!b[0] && b[1]) Block(kWOnce, g, false, 0);
  if (b[0]) {
    SyncObj* o = FindSync((uptr)g, false);
    if (o) Acquire(self, o);
    return 0;
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(u64* g) {
  volatile u8* b = reinterpret_cast<volatile u8*>(g);
  b[0] = 1;
  b[1] = 0;
  if (!Managed()) return;
  Release(self, FindSync((uptr)g, true), true);
  WakeAll(kWOnce, g);
  SyncPoint();
}
void __cxa_guard_abort(u64* g) {
  volatile u8* b = reinterpret_cast<volatile u8*>(g);
  b[1] = 0;
  if (!Managed()) return;
  WakeAll(kWOnce, g);
}
int __cxa_thread_atexit(void (*fn)(void*), void* arg, void*) {
  if (!Managed()) return 0;
  Thread::Dtor* d = static_cast<Thread::Dtor*>(RtAlloc(sizeof(Thread::Dtor)));
  d->fn = fn;
  d->arg = arg;
  d->next = self->dtors;
  self->dtors = d;
  return 0;
}

// ---- time ----
static void Sleep(u64 ns) {
  SyncPoint();
  Block(kWSleep, nullptr, true, clock_ns + ns);
}
int sched_yield() {
  if (!Managed()) return 0;
  if (self->quiet) return 0;
  ++self->points;
  ++res->syncs;
  CheckBudget();
  Decide(self, true, true);
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec*) {
  if (!Managed()) return 0;
  Sleep(ts->tv_sec * 1000000000ull + ts->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* ts, struct timespec*) {
  if (!Managed()) return 0;
  u64 t = ts->tv_sec * 1000000000ull + ts->tv_nsec;
  if (flags & TIMER_ABSTIME) t = t > clock_ns ? t - clock_ns : 0;
  Sleep(t);
  return 0;
}
int usleep(useconds_t us) {
  if (!Managed()) return 0;
  Sleep(us * 1000ull);
  return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!Managed()) {
    Real(&real_clock_gettime, "clock_gettime");
    return real_clock_gettime(id, ts);
  }
  u64 t = ReadClock();
  ts->tv_sec = static_cast<time_t>(t / 1000000000ull);
  ts->tv_nsec = static_cast<long>(t % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
int get_nprocs() noexcept {
  if (!Managed()) return 4;
  return static_cast<int>(env.nprocs);
}
int get_nprocs_conf() noexcept { return get_nprocs(); }

void exit(int code) {
  if (Managed()) Fail("abort", "the library called exit(%d)", code);
  fflush(nullptr);
  _exit(code);
}

}  // extern "C"
