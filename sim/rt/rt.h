// Internal runtime definitions shared by rt_*.cc (never instrumented).
#ifndef VERIF_SIM_RT_RT_H_
#define VERIF_SIM_RT_RT_H_

#include <pthread.h>

#include <atomic>
#include <cstddef>
#include <cstdint>

namespace rt {

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

// ---- address space ---------------------------------------------------------
constexpr uptr kArena = 0x10000000000ull;  // app heap, then thread stacks
constexpr uptr kHeapSize = 640ull << 20;
constexpr uptr kStartupHeap = 64ull << 20;  // allocations made before a run
constexpr uptr kStacks = kArena + kHeapSize;
constexpr uptr kStackSize = 2ull << 20;
constexpr int kMaxThreads = 128;
constexpr uptr kArenaSize = kHeapSize + kStackSize * kMaxThreads;
constexpr uptr kGlobalSize = 256ull << 20;  // non-PIE image lives below this
constexpr uptr kShadow = 0x20000000000ull;  // race shadow: 32 bytes / granule
constexpr uptr kAsan = 0x30000000000ull;    // 1 byte / granule
constexpr uptr kRtMem = 0x40000000000ull;   // runtime's own bump memory
constexpr uptr kRtMemSize = 2048ull << 20;

constexpr u8 kPoisonRedzone = 0xfa;
constexpr u8 kPoisonFreed = 0xfd;
constexpr u8 kSyncBit = 0x10;  // granule holds a sync object (mutex, atomic, ...)

inline bool Offset(uptr a, uptr* off) {
  if (a - kArena < kArenaSize) {
    *off = a - kArena;
    return true;
  }
  if (a < kGlobalSize) {
    *off = kArenaSize + a;
    return true;
  }
  return false;
}
inline u64* ShadowOf(uptr off) { return reinterpret_cast<u64*>(kShadow + (off >> 3) * 32); }
inline u8* AsanOf(uptr off) { return reinterpret_cast<u8*>(kAsan + (off >> 3)); }

void* RtAlloc(size_t n);  // zeroed, never freed

// ---- PRNG --------------------------------------------------------------------
struct Rng {
  u64 s[2];
  void Seed(u64 x) {
    for (int i = 0; i < 2; ++i) {
      x += 0x9e3779b97f4a7c15ull;
      u64 z = x;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      s[i] = z ^ (z >> 31);
    }
    if (!s[0] && !s[1]) s[0] = 1;
  }
  u64 Next() {
    u64 s1 = s[0];
    const u64 s0 = s[1];
    const u64 result = s0 + s1;
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return result;
  }
  u64 Below(u64 n) { return n <= 1 ? 0 : static_cast<u64>((static_cast<__uint128_t>(Next()) * n) >> 64); }
};

inline u64 Mix(u64 a, u64 b) {
  u64 h = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
  h ^= h >> 33;
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ull;
  h ^= h >> 33;
  return h;
}
inline u64 HashStr(const char* s) {
  u64 h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ static_cast<u8>(*s)) * 1099511628211ull;
  return h;
}

// ---- threads -------------------------------------------------------------------
struct VC {
  u32 c[kMaxThreads];
};
enum State { kFree = 0, kRunnable, kBlocked, kDone };
enum WaitKind { kWNone = 0, kWMutex, kWCond, kWJoin, kWSleep, kWOnce, kWRw, kWSem };

struct Thread {
  int id;
  State state;
  std::atomic<int> go;
  pthread_t real;
  VC vc;
  u64 points;      // local scheduling-point counter
  u64 next_pt;     // slow path when points reaches this
  u64 preempt_pt;  // record: next drawn memory preemption; replay: next trace entry
  u64 fair_pt;     // forced switch if others are runnable
  u64 base_pt;     // points already added to the global total
  int quiet;
  int in_rt;
  u64 prio;
  WaitKind wait;
  void* wait_obj;
  bool timed, timed_out, cond_signaled;
  u64 deadline;
  u64 block_seq;
  bool detached, joined, no_preempt;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  uptr stack_lo, stack_hi;
  struct Dtor {
    void (*fn)(void*);
    void* arg;
    Dtor* next;
  }* dtors;
  // replay: this thread's schedule entries
  u32 trace_next, trace_end;
};

extern thread_local Thread* self __attribute__((tls_model("initial-exec")));
extern Thread threads[kMaxThreads];
extern int num_threads;
extern bool active;  // inside a run

struct SyncObj {
  uptr addr;
  VC* vc;       // lazily allocated clock
  int owner;    // mutex / write lock: thread id + 1
  int readers;  // rwlock
  int recursion;
  bool is_mutex;
  SyncObj* next;
};
SyncObj* FindSync(uptr addr, bool create);
void DropSync(uptr addr);
void Acquire(Thread* t, SyncObj* o);
void Release(Thread* t, SyncObj* o, bool merge);

void SyncPoint();
void MemSlow(Thread* t);  // points reached next_pt
void AccessRange(uptr a, size_t n, bool write, uptr pc);

// ---- run configuration and result (shared memory with the parent) ---------------
struct SchedEntry {
  u32 tid, target;
  u64 point;
};
struct FaultEntry {
  u32 site, n;
  u64 value;
};
constexpr int kMaxSites = 96;
constexpr u32 kMaxDraws = 1u << 18;
constexpr u32 kMaxSched = 1u << 20;
constexpr u32 kMaxFaults = 1u << 16;
constexpr u32 kMaxStates = 256;

struct Env {
  u64 salt;       // heap layout
  u32 fill;       // pattern of fresh memory
  u32 tick_ns;    // clock read granularity
  u32 nprocs;     // hardware concurrency seen by the library
  u32 strategy, sync_permil, mem_mean;
  u32 vlog;
};

struct Trace {
  u32 n_draws, n_sched, n_faults, n_sites;
  u32 overflow;
  Env env;
  char sites[kMaxSites][40];
  u64 draws[kMaxDraws];
  SchedEntry sched[kMaxSched];
  FaultEntry faults[kMaxFaults];
};

struct Counter {
  char name[48];
  u64 n;
};
constexpr int kMaxCounters = 200;

struct Result {
  u32 done;        // 1 passed, 2 violation
  char kind[48];
  char msg[16384];
  u64 hash;
  u64 sched_hash;
  u64 points, syncs, switches, threads, accesses;
  u64 sim_ns;
  u64 nontrivial;
  u64 live_end;
  u32 n_states;
  u64 states[kMaxStates];
  u32 n_faultc, n_probec;
  Counter faultc[kMaxSites];
  Counter probec[kMaxCounters];
  u32 log_len;
  char log[1 << 18];
  uptr race_addr;
};

extern Result* res;
extern Trace* out_trace;       // record target (may be null)
extern const Trace* in_trace;  // replay source (null in record mode)
extern Env env;
extern uptr watch_addr;
extern u64 total_budget;
extern u64 clock_ns;

[[noreturn]] void Fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void FinishRun();
void DumpStack(char* out, size_t n, uptr pc, uptr fp);
void HashIn(u64 x);
int Unwind(uptr pc, uptr fp, uptr* out, int max);

void RunChild(u64 seed, void (*body)());  // never returns
void HeapBeginRun();
void LeakCheck();
void DiskReset();
void InitMemory();

}  // namespace rt

#endif
