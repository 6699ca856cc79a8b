// Application heap, heap shadow, race detector and the __tsan_* entry points.
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <new>

#include "rt.h"
#include "sim.h"

namespace rt {

static bool mem_ready = false;
static uptr startup_high = kArena;  // end of what static initialisers allocated
bool startup_frozen = false;
static uptr rt_next = kRtMem;

static void MapFixed(uptr at, uptr size) {
  void* p = mmap(reinterpret_cast<void*>(at), size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(at)) {
    static const char m[] = "sim: cannot map the arena\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(70);
  }
}

void InitMemory() {
  if (mem_ready) return;
  mem_ready = true;
  MapFixed(kArena, kArenaSize);
  MapFixed(kShadow, (kArenaSize + kGlobalSize) * 4);
  MapFixed(kAsan, (kArenaSize + kGlobalSize) / 8);
  MapFixed(kRtMem, kRtMemSize);
}

void* RtAlloc(size_t n) {
  InitMemory();
  n = (n + 63) & ~63ull;
  if (rt_next + n > kRtMem + kRtMemSize) {
    static const char m[] = "sim: runtime memory exhausted\n";
    (void)!write(2, m, sizeof(m) - 1);
    _exit(71);
  }
  void* p = reinterpret_cast<void*>(rt_next);
  rt_next += n;
  return p;
}

// ---------------------------------------------------------------------------
// Heap
// ---------------------------------------------------------------------------
struct Header {
  u32 total;
  u32 state;  // 1 live, 2 freed, 0 reusable
  u32 user_off;
  u32 pad;
  u64 size;
  u64 magic;
};
static_assert(sizeof(Header) == 32);
constexpr u64 kMagic = 0x51b1ce7e51b1ce7eull;
constexpr u64 kMagicAligned = 0xa119ed5b1a119ed5ull;
struct AlignedTag {
  u64 off;
  u64 magic;
};

static uptr heap_begin = kArena;
static uptr heap_next = kArena;
static uptr heap_end = kArena + kStartupHeap;
static uptr heap_high = kArena;
static u64 live_bytes = 0, live_chunks = 0, alloc_seq = 0;

// Size classes: multiples of 16 up to 1 KB, then powers of two.
static int ClassOf(size_t total) {
  if (total <= 1024) return static_cast<int>(total >> 4);
  int c = 64;
  size_t s = 1024;
  while (s < total) {
    s <<= 1;
    ++c;
  }
  return c;
}
static size_t ClassSize(size_t total) {
  if (total <= 1024) return (total + 15) & ~15ull;
  size_t s = 1024;
  while (s < total) s <<= 1;
  return s;
}
constexpr int kClasses = 96;
struct FreeNode {
  FreeNode* next;
};
static FreeNode* free_list[kClasses];
// FIFO quarantine.
constexpr int kQuarMax = 1 << 15;
static Header* quar[kQuarMax];
static u32 q_head = 0, q_tail = 0;
static u64 q_bytes = 0;
constexpr u64 kQuarBytes = 3ull << 20;

void HeapBeginRun() {
  memset(free_list, 0, sizeof(free_list));
  q_head = q_tail = 0;
  q_bytes = 0;
  heap_begin = heap_next = kArena + kStartupHeap;
  heap_high = heap_begin;
  heap_end = kArena + kHeapSize;
  live_bytes = live_chunks = 0;
  alloc_seq = 0;
}

static void Poison(uptr a, size_t n, u8 v) {
  uptr off = a - kArena;
  memset(AsanOf(off), v, (n + 7) >> 3);
}

static void ClearSyncIn(uptr a, size_t n) {
  u8* s = AsanOf(a - kArena);
  size_t g = (n + 7) >> 3;
  for (size_t i = 0; i < g; ++i) {
    if (__builtin_expect((s[i] & kSyncBit) && s[i] < 0x20, 0)) {
      for (int b = 0; b < 8; ++b) {
        uptr addr = a + i * 8 + b;
        SyncObj* o = FindSync(addr, false);
        if (o) {
          if (active && o->is_mutex && o->owner != 0 && self && self->state != kDone) {
            Fail("mutex-destroyed-locked", "memory of a held mutex is freed (owner T%d)", o->owner - 1);
          }
          if (active) {
            for (int t = 0; t < num_threads; ++t) {
              if (threads[t].state == kBlocked && threads[t].wait_obj == reinterpret_cast<void*>(addr) &&
                  (threads[t].wait == kWMutex || threads[t].wait == kWCond)) {
                Fail("sync-destroyed-waited", "memory of a mutex/condition variable is freed while T%d waits on it", t);
              }
            }
          }
          DropSync(addr);
        }
      }
    }
  }
}

static void* HeapAlloc(size_t size, size_t align) {
  InitMemory();
  if (size > (256ull << 20)) return nullptr;
  size_t extra = align > 16 ? align + 16 : 0;
  size_t pad = 0;
  if (active && env.salt && !extra) pad = 16 * (Mix(env.salt, alloc_seq) & 3);
  size_t need = sizeof(Header) + extra + size + 16 + pad;
  size_t total = ClassSize(need);
  int c = ClassOf(total);
  Header* h;
  bool fresh = false;
  if (free_list[c]) {
    h = reinterpret_cast<Header*>(free_list[c]);
    free_list[c] = free_list[c]->next;
  } else {
    if (heap_next + total > heap_end) {
      if (active) Fail("heap-exhausted", "the simulated heap is exhausted");
      static const char m[] = "sim: startup heap exhausted\n";
      (void)!write(2, m, sizeof(m) - 1);
      _exit(72);
    }
    h = reinterpret_cast<Header*>(heap_next);
    heap_next += total;
    if (heap_next > heap_high) {
      fresh = true;
      heap_high = heap_next;
    }
  }
  uptr base = reinterpret_cast<uptr>(h);
  uptr user = base + sizeof(Header) + pad;
  if (extra) user = (user + 16 + align - 1) & ~(align - 1);
  h->total = static_cast<u32>(total);
  h->state = 1;
  h->user_off = static_cast<u32>(user - base);
  h->size = size;
  h->magic = kMagic;
  if (user - base != sizeof(Header)) {
    AlignedTag* t = reinterpret_cast<AlignedTag*>(user - 16);
    t->off = user - base;
    t->magic = kMagicAligned;
  }
  Poison(base, total, kPoisonRedzone);
  u8* s = AsanOf(user - kArena);
  memset(s, 0, size >> 3);
  if (size & 7) s[size >> 3] = static_cast<u8>(size & 7);
  if (!fresh) memset(ShadowOf(user - kArena), 0, ((size + 7) >> 3) * 32);
  if (active) {
    // Fresh memory holds garbage, never a convenient zero.
    u32 f = env.fill;
    if (f) {
      u64 pat = f == 1 ? 0xffffffffffffffffull : f == 2 ? 0x7ff7a5a57ff7a5a5ull : f == 3 ? 0x41d2345678abcdefull : 0xcbcbcbcbcbcbcbcbull;
      size_t lim = size < 65536 ? size : 65536;
      u64* w = reinterpret_cast<u64*>(user);
      for (size_t i = 0; i < lim / 8; ++i) w[i] = pat;
      memset(reinterpret_cast<char*>(user) + (lim & ~7ull), static_cast<int>(pat & 0xff), lim & 7);
    }
  }
  ++alloc_seq;
  live_bytes += size;
  ++live_chunks;
  return reinterpret_cast<void*>(user);
}

static Header* HeaderOf(void* p) {
  uptr u = reinterpret_cast<uptr>(p);
  AlignedTag* t = reinterpret_cast<AlignedTag*>(u - 16);
  if (t->magic == kMagicAligned) return reinterpret_cast<Header*>(u - t->off);
  Header* h = reinterpret_cast<Header*>(u - sizeof(Header));
  if (h->magic == kMagic) return h;
  return nullptr;
}

static void HeapFree(void* p, uptr pc) {
  if (!p) return;
  uptr u = reinterpret_cast<uptr>(p);
  if (u - kArena >= kHeapSize) return;  // not ours (early ld.so)
  Header* h = HeaderOf(p);
  if (!h || h->state != 1 || reinterpret_cast<uptr>(h) + h->user_off != u) {
    if (active && self) Fail(h && h->state == 2 ? "double-free" : "invalid-free", "free of %p which is not a live allocation", p);
    return;
  }
  if (active && u < kArena + kStartupHeap) return;  // startup objects stay
  if (active && self && !self->quiet) AccessRange(u, h->size, true, pc);
  ClearSyncIn(u, h->size);
  h->state = 2;
  live_bytes -= h->size;
  --live_chunks;
  Poison(reinterpret_cast<uptr>(h), h->total, kPoisonFreed);
  if (h->size <= 4096 && active) memset(p, 0xdd, h->size);
  quar[q_tail++ % kQuarMax] = h;
  q_bytes += h->total;
  while (q_bytes > kQuarBytes || q_tail - q_head > kQuarMax - 2) {
    Header* o = quar[q_head++ % kQuarMax];
    q_bytes -= o->total;
    o->state = 0;
    int c = ClassOf(o->total);
    u32 total = o->total;
    FreeNode* n = reinterpret_cast<FreeNode*>(o);
    n->next = free_list[c];
    // Keep the chunk walkable: FreeNode overlays total/state, so use user_off area.
    (void)total;
    free_list[c] = n;
  }
}

// --- leak check: conservative mark from globals -----------------------------
struct Range {
  uptr lo, hi;
};
static Range roots[64];
static int n_roots = 0;
static int PhdrCb(struct dl_phdr_info* info, size_t, void*) {
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    const auto& ph = info->dlpi_phdr[i];
    if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
    if (n_roots < 64) {
      roots[n_roots].lo = (info->dlpi_addr + ph.p_vaddr + 7) & ~7ull;
      roots[n_roots].hi = (info->dlpi_addr + ph.p_vaddr + ph.p_memsz) & ~7ull;
      ++n_roots;
    }
  }
  return 0;
}

struct LiveChunk {
  uptr lo, hi;
  bool marked;
  u32 seq;
};
// Live chunks of this run are tracked for the walk in allocation order.
static LiveChunk* chunks;
static u32 n_chunks;
static u32* work;
static u32 n_work;

static void MarkRange(uptr lo, uptr hi) {
  for (uptr a = lo; a + 8 <= hi; a += 8) {
    uptr v = *reinterpret_cast<uptr*>(a);
    if (v < kArena + kStartupHeap || v >= heap_high) continue;
    u32 l = 0, r = n_chunks;
    while (l < r) {
      u32 m = (l + r) / 2;
      if (chunks[m].hi <= v) l = m + 1; else r = m;
    }
    if (l < n_chunks && chunks[l].lo <= v && !chunks[l].marked) {
      chunks[l].marked = true;
      work[n_work++] = l;
    }
  }
}

void LeakCheck() {
  // A pointer into a chunk is found by the asan shadow instead of headers: walk
  // the heap for live headers (freed and reusable chunks have poisoned shadow).
  u32 cap = static_cast<u32>(live_chunks + 16);
  chunks = static_cast<LiveChunk*>(RtAlloc(sizeof(LiveChunk) * cap));
  work = static_cast<u32*>(RtAlloc(sizeof(u32) * cap));
  n_chunks = n_work = 0;
  // Live chunks begin where the shadow turns from redzone to addressable.
  uptr a = heap_begin;
  while (a < heap_next && n_chunks < cap) {
    u8 s = *AsanOf(a - kArena);
    if (s == kPoisonFreed) {
      a += 8;
      continue;
    }
    Header* h = reinterpret_cast<Header*>(a);
    if (s == kPoisonRedzone && h->magic == kMagic && h->state == 1 && (a & 15) == 0) {
      chunks[n_chunks].lo = a + h->user_off;
      chunks[n_chunks].hi = a + h->user_off + (h->size ? h->size : 1);
      chunks[n_chunks].marked = false;
      ++n_chunks;
      a += h->total;
    } else {
      a += 8;
    }
  }
  n_roots = 0;
  dl_iterate_phdr(PhdrCb, nullptr);
  for (int i = 0; i < n_roots; ++i) MarkRange(roots[i].lo, roots[i].hi);
  // Startup heap (objects made before the run may own objects made in it).
  MarkRange(kArena, startup_high);
  // Thread control blocks / TLS live in the top of every stack region.
  for (int t = 0; t < num_threads; ++t) MarkRange(threads[t].stack_hi - 16384, threads[t].stack_hi);
  // The pool of pthread keys etc. lives in libc data, covered above.
  while (n_work) {
    u32 i = work[--n_work];
    MarkRange((chunks[i].lo + 7) & ~7ull, chunks[i].hi);
  }
  u64 leaked = 0, count = 0;
  uptr first = 0;
  u64 first_size = 0;
  for (u32 i = 0; i < n_chunks; ++i) {
    if (!chunks[i].marked) {
      leaked += chunks[i].hi - chunks[i].lo;
      ++count;
      if (!first) {
        first = chunks[i].lo;
        first_size = chunks[i].hi - chunks[i].lo;
      }
    }
  }
  if (count) {
    res->race_addr = first;
    Fail("leak", "%llu bytes in %llu allocations are unreachable after every object was destroyed (first: %llu bytes at 0x%llx)",
         (unsigned long long)leaked, (unsigned long long)count, (unsigned long long)first_size, (unsigned long long)first);
  }
}

// ---------------------------------------------------------------------------
// Race detector
// ---------------------------------------------------------------------------
// Slot: epoch(40) | tid(8) | mask(8) | atomic(1) | write(1)
static inline u64 MakeSlot(u32 epoch, int tid, u8 mask, bool write, bool atomic) {
  return (static_cast<u64>(epoch) << 24) | (static_cast<u64>(tid) << 16) | (static_cast<u64>(mask) << 8) |
         (atomic ? 2 : 0) | (write ? 1 : 0);
}

static char watch_log[24][1400];
static u32 watch_n = 0;

static void WatchNote(const char* what, uptr a, int size, uptr pc) {
  char* o = watch_log[watch_n % 24];
  int n = snprintf(o, 1400, "  T%d %s %d bytes at 0x%llx vc=%u\n", self->id, what, size, (unsigned long long)a, self->vc.c[self->id]);
  DumpStack(o + n, 1400 - n, pc, reinterpret_cast<uptr>(__builtin_frame_address(0)));
  ++watch_n;
}

static void AppendWatch(char* out, size_t n) {
  size_t k = strlen(out);
  u32 from = watch_n > 8 ? watch_n - 8 : 0;
  for (u32 i = from; i < watch_n; ++i) {
    int w = snprintf(out + k, n - k, "%s", watch_log[i % 24]);
    if (w < 0 || static_cast<size_t>(w) >= n - k) break;
    k += w;
  }
}

__attribute__((noinline, cold)) static void ReportRace(uptr a, int size, bool write, bool atomic, u64 old, uptr pc) {
  static char buf[12000];
  int n = snprintf(buf, sizeof(buf), "data race on %d bytes at 0x%llx: %s%s by T%d races with earlier %s%s by T%d\n", size,
                   (unsigned long long)a, atomic ? "atomic " : "", write ? "write" : "read", self->id, (old & 2) ? "atomic " : "",
                   (old & 1) ? "write" : "read", static_cast<int>((old >> 16) & 0xff));
  DumpStack(buf + n, sizeof(buf) - n, pc, reinterpret_cast<uptr>(__builtin_frame_address(0)));
  if (watch_addr) {
    strncat(buf, " recent accesses:\n", sizeof(buf) - strlen(buf) - 1);
    AppendWatch(buf, sizeof(buf));
  }
  res->race_addr = a;
  Fail("data-race", "%s", buf);
}

__attribute__((noinline, cold)) static void ReportBad(uptr a, int size, bool write, u8 shadow, uptr pc) {
  static char buf[12000];
  const char* what = shadow == kPoisonFreed ? "use-after-free" : "heap-out-of-bounds";
  int n = snprintf(buf, sizeof(buf), "%s of %d bytes at 0x%llx by T%d\n", write ? "write" : "read", size, (unsigned long long)a, self->id);
  DumpStack(buf + n, sizeof(buf) - n, pc, reinterpret_cast<uptr>(__builtin_frame_address(0)));
  if (watch_addr) {
    strncat(buf, " recent accesses:\n", sizeof(buf) - strlen(buf) - 1);
    AppendWatch(buf, sizeof(buf));
  }
  res->race_addr = a;
  Fail(what, "%s", buf);
}

static u32 evict = 0;

static inline void Granule(Thread* t, uptr off, uptr a, u8 mask, bool write, bool atomic, int size, uptr pc) {
  u64* s = ShadowOf(off);
  const u32 epoch = t->vc.c[t->id];
  const u64 cur = MakeSlot(epoch, t->id, mask, write, atomic);
  int place = -1;
  for (int i = 0; i < 4; ++i) {
    const u64 o = s[i];
    if (o == 0) {
      if (place < 0) place = i;
      break;
    }
    if (o == cur) return;
    const int otid = (o >> 16) & 0xff;
    const u8 omask = (o >> 8) & 0xff;
    if (otid == t->id) {
      // Same thread: an equal or weaker earlier access may be replaced; an equal
      // or stronger access in the same epoch makes this one redundant.
      if ((o >> 24) == epoch && (omask & mask) == mask && ((o & 1) || !write) && (!(o & 2) || atomic)) return;
      if ((mask & omask) == omask && (write || !(o & 1)) && (!atomic || (o & 2))) {
        place = i;
      }
      continue;
    }
    if (!(mask & omask)) continue;
    const u32 oepoch = static_cast<u32>(o >> 24);
    const bool hb = oepoch <= t->vc.c[otid];
    if (!hb && (write || (o & 1)) && !(atomic && (o & 2))) ReportRace(a, size, write, atomic, o, pc);
    if (hb && write && (mask & omask) == omask && place < 0) place = i;
  }
  if (place < 0) place = evict++ & 3;
  s[place] = cur;
}

static inline void Access(uptr a, int size, bool write, bool atomic, uptr pc) {
  Thread* t = self;
  if (!t || t->quiet) return;
  uptr off;
  if (!Offset(a, &off)) return;
  // Heap state.
  {
    int k = static_cast<int>(a & 7);
    int left = size;
    uptr o = off;
    while (true) {
      const u8 sh = *AsanOf(o);
      const u8 v = sh & 0xef;
      if (__builtin_expect(v != 0, 0)) {
        const int end = k + left < 8 ? k + left : 8;
        if (v >= 8 || end > v) ReportBad(a, size, write, sh, pc);
      }
      left -= 8 - k;
      if (left <= 0) break;
      k = 0;
      o = (o & ~7ull) + 8;
    }
  }
  if (__builtin_expect(watch_addr != 0, 0)) {
    if ((a & ~7ull) <= (watch_addr & ~7ull) && ((watch_addr & ~7ull)) < a + size) WatchNote(write ? (atomic ? "atomic write" : "write") : (atomic ? "atomic read" : "read"), a, size, pc);
  }
  if (__builtin_expect(++t->points >= t->next_pt, 0)) MemSlow(t);
  const int k = static_cast<int>(a & 7);
  if (k + size <= 8) {
    Granule(t, off, a, static_cast<u8>(((1u << size) - 1) << k), write, atomic, size, pc);
  } else {
    int left = size;
    uptr p = a;
    while (left > 0) {
      const int kk = static_cast<int>(p & 7);
      const int n = left < 8 - kk ? left : 8 - kk;
      uptr o2;
      if (Offset(p, &o2)) {
        Granule(t, o2, p, static_cast<u8>(((1u << n) - 1) << kk), write, atomic, size, pc);
      }
      p += n;
      left -= n;
    }
  }
}

void AccessRange(uptr a, size_t n, bool write, uptr pc) {
  if (!self || self->quiet || n == 0) return;
  while (n > 0) {
    const int k = static_cast<int>(a & 7);
    const size_t m = n < static_cast<size_t>(8 - k) ? n : static_cast<size_t>(8 - k);
    Access(a, static_cast<int>(m), write, false, pc);
    a += m;
    n -= m;
  }
}

int Unwind(uptr pc, uptr fp, uptr* out, int max) {
  int n = 0;
  if (pc) out[n++] = pc;
  Thread* t = self;
  uptr lo = t ? t->stack_lo : 0, hi = t ? t->stack_hi : 0;
  while (n < max && fp >= lo && fp + 16 <= hi && (fp & 7) == 0) {
    uptr ret = reinterpret_cast<uptr*>(fp)[1];
    uptr next = reinterpret_cast<uptr*>(fp)[0];
    if (ret && ret != pc) out[n++] = ret;
    if (next <= fp) break;
    fp = next;
  }
  return n;
}

void DumpStack(char* out, size_t n, uptr pc, uptr fp) {
  uptr pcs[14];
  int k = Unwind(pc, fp, pcs, 14);
  size_t w = 0;
  if (n) out[0] = 0;
  for (int i = 0; i < k; ++i) {
    int r = snprintf(out + w, n - w, "    #%d [0x%llx]\n", i, (unsigned long long)(pcs[i] - 1));
    if (r < 0 || static_cast<size_t>(r) >= n - w) break;
    w += r;
  }
}

}  // namespace rt

using namespace rt;

#define PC reinterpret_cast<uptr>(__builtin_return_address(0))

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() { if (self) ++self->quiet; }
void __tsan_ignore_thread_end() { if (self) --self->quiet; }

#define RW(n)                                                                          \
  void __tsan_read##n(void* a) { Access((uptr)a, n, false, false, PC); }               \
  void __tsan_write##n(void* a) { Access((uptr)a, n, true, false, PC); }               \
  void __tsan_unaligned_read##n(void* a) { Access((uptr)a, n, false, false, PC); }     \
  void __tsan_unaligned_write##n(void* a) { Access((uptr)a, n, true, false, PC); }     \
  void __tsan_read_write##n(void* a) { Access((uptr)a, n, false, false, PC); Access((uptr)a, n, true, false, PC); } \
  void __tsan_unaligned_read_write##n(void* a) { Access((uptr)a, n, false, false, PC); Access((uptr)a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { Access((uptr)a, n, false, false, PC); }      \
  void __tsan_volatile_write##n(void* a) { Access((uptr)a, n, true, false, PC); }      \
  void __tsan_unaligned_volatile_read##n(void* a) { Access((uptr)a, n, false, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { Access((uptr)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_vptr_update(void** a, void* v) {
  if (*a != v) {
    Access((uptr)a, 8, true, false, PC);
    return;
  }
  // The old value may be indeterminate: the step counts either way.
  Thread* t = self;
  uptr off;
  if (!t || t->quiet || !Offset((uptr)a, &off)) return;
  if (__builtin_expect(++t->points >= t->next_pt, 0)) MemSlow(t);
}
void __tsan_vptr_read(void** a) { Access((uptr)a, 8, false, false, PC); }
void __tsan_read_range(void* a, unsigned long n) { AccessRange((uptr)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { AccessRange((uptr)a, n, true, PC); }

void* __tsan_memcpy(void* d, const void* s, size_t n) {
  AccessRange((uptr)s, n, false, PC);
  AccessRange((uptr)d, n, true, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  AccessRange((uptr)s, n, false, PC);
  AccessRange((uptr)d, n, true, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  AccessRange((uptr)d, n, true, PC);
  return memset(d, c, n);
}

// ---- atomics ------------------------------------------------------------------
// Executed sequentially consistently; happens-before follows the stated orders.
enum { mo_relaxed = 0, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
static inline bool Acq(int mo) { return mo == mo_consume || mo == mo_acquire || mo == mo_acq_rel || mo == mo_seq_cst; }
static inline bool Rel(int mo) { return mo == mo_release || mo == mo_acq_rel || mo == mo_seq_cst; }

static inline bool AtomicPre(void* a, int size, bool write, uptr pc) {
  if (!self || !active) return false;
  if (!self->quiet) SyncPoint();
  Access((uptr)a, size, write, true, pc);
  return true;
}
static inline void AtomicHB(void* a, int mo, bool load, bool store) {
  uptr off;
  if (!Offset((uptr)a, &off)) return;
  SyncObj* o = nullptr;
  if (load && Acq(mo)) {
    o = FindSync((uptr)a, false);
    if (o) Acquire(self, o);
  }
  if (store && Rel(mo)) {
    o = FindSync((uptr)a, true);
    Release(self, o, /*merge=*/load);
  } else if (store && !load) {
    // A relaxed store ends the release sequence.
    o = FindSync((uptr)a, false);
    if (o && o->vc) memset(o->vc, 0, sizeof(VC));
  }
}

#define ATOMICS(bits, T)                                                                          \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                     \
    if (AtomicPre((void*)a, bits / 8, false, PC)) AtomicHB((void*)a, mo, true, false);            \
    return *a;                                                                                    \
  }                                                                                               \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                  \
    if (AtomicPre((void*)a, bits / 8, true, PC)) AtomicHB((void*)a, mo, false, true);             \
    *a = v;                                                                                       \
  }                                                                                               \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                  \
    if (AtomicPre((void*)a, bits / 8, true, PC)) AtomicHB((void*)a, mo, true, true);              \
    T o = *a;                                                                                     \
    *a = v;                                                                                       \
    return o;                                                                                     \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                 \
    if (AtomicPre((void*)a, bits / 8, true, PC)) AtomicHB((void*)a, mo, true, true);              \
    T o = *a;                                                                                     \
    *a = o + v;                                                                                   \
    return o;                                                                                     \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                 \
    if (AtomicPre((void*)a, bits / 8, true, PC)) AtomicHB((void*)a, mo, true, true);              \
    T o = *a;                                                                                     \
    *a = o - v;                                                                                   \
    return o;                                                                                     \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                 \
    if (AtomicPre((void*)a, bits / 8, true, PC)) AtomicHB((void*)a, mo, true, true);              \
    T o = *a;                                                                                     \
    *a = o & v;                                                                                   \
    return o;                                                                                     \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                  \
    if (AtomicPre((void*)a, bits / 8, true, PC)) AtomicHB((void*)a, mo, true, true);              \
    T o = *a;                                                                                     \
    *a = o | v;                                                                                   \
    return o;                                                                                     \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                 \
    if (AtomicPre((void*)a, bits / 8, true, PC)) AtomicHB((void*)a, mo, true, true);              \
    T o = *a;                                                                                     \
    *a = o ^ v;                                                                                   \
    return o;                                                                                     \
  }                                                                                               \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                                \
    if (AtomicPre((void*)a, bits / 8, true, PC)) AtomicHB((void*)a, mo, true, true);              \
    T o = *a;                                                                                     \
    *a = ~(o & v);                                                                                \
    return o;                                                                                     \
  }                                                                                               \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {  \
    bool m = AtomicPre((void*)a, bits / 8, true, PC);                                             \
    T o = *a;                                                                                     \
    if (o == *c) {                                                                                \
      if (m) AtomicHB((void*)a, mo, true, true);                                                  \
      *a = v;                                                                                     \
      return 1;                                                                                   \
    }                                                                                             \
    if (m) AtomicHB((void*)a, fmo, true, false);                                                  \
    *c = o;                                                                                       \
    return 0;                                                                                     \
  }                                                                                               \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {    \
    bool m = AtomicPre((void*)a, bits / 8, true, PC);                                             \
    T o = *a;                                                                                     \
    if (o == *c && !(m && !self->quiet && sim::Fault("cas.weak_spurious"))) {                                       \
      if (m) AtomicHB((void*)a, mo, true, true);                                                  \
      *a = v;                                                                                     \
      return 1;                                                                                   \
    }                                                                                             \
    if (m) AtomicHB((void*)a, fmo, true, false);                                                  \
    *c = o;                                                                                       \
    return 0;                                                                                     \
  }                                                                                               \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {        \
    bool m = AtomicPre((void*)a, bits / 8, true, PC);                                             \
    T o = *a;                                                                                     \
    if (o == c) {                                                                                 \
      if (m) AtomicHB((void*)a, mo, true, true);                                                  \
      *a = v;                                                                                     \
    } else if (m) {                                                                               \
      AtomicHB((void*)a, fmo, true, false);                                                       \
    }                                                                                             \
    return o;                                                                                     \
  }
ATOMICS(8, u8)
ATOMICS(16, uint16_t)
ATOMICS(32, u32)
ATOMICS(64, u64)
// Fences are modelled as a release+acquire on one global fence clock.
void __tsan_atomic_thread_fence(int mo) {
  if (!self || !active || self->quiet) return;
  SyncPoint();
  static u64 fence_obj;
  SyncObj* o = FindSync((uptr)&fence_obj, true);
  if (Acq(mo)) Acquire(self, o);
  if (Rel(mo)) Release(self, o, true);
}
void __tsan_atomic_signal_fence(int) {}

// ---- malloc family --------------------------------------------------------------
void* malloc(size_t n) {
  void* p = HeapAlloc(n, 16);
  if (!active && !startup_frozen && heap_next > startup_high) startup_high = heap_next;
  if (!p) errno = ENOMEM;
  return p;
}
void free(void* p) { HeapFree(p, PC); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void* p = malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) {
    free(p);
    return nullptr;
  }
  Header* h = HeaderOf(p);
  void* q = malloc(n);
  if (!q) return nullptr;
  size_t old = h ? h->size : 0;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void* memalign(size_t al, size_t n) {
  void* p = HeapAlloc(n, al < 16 ? 16 : al);
  if (!active && !startup_frozen && heap_next > startup_high) startup_high = heap_next;
  return p;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ull); }
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  Header* h = HeaderOf(p);
  return h ? h->size : 0;
}
}  // extern "C"

static void* NewImpl(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return NewImpl(n); }
void* operator new[](size_t n) { return NewImpl(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) {
  void* p = memalign((size_t)a, n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { HeapFree(p, PC); }
void operator delete[](void* p) noexcept { HeapFree(p, PC); }
void operator delete(void* p, size_t) noexcept { HeapFree(p, PC); }
void operator delete[](void* p, size_t) noexcept { HeapFree(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { HeapFree(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { HeapFree(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { HeapFree(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { HeapFree(p, PC); }

namespace sim {
uint64_t LiveBytes() { return live_bytes; }
uint64_t LiveChunks() { return live_chunks; }
bool HeapOk(const void* p, size_t n) {
  uptr a = (uptr)p;
  for (size_t i = 0; i < n; ++i) {
    uptr off;
    if (!Offset(a + i, &off)) return true;
    u8 v = *AsanOf(off) & 0xef;
    if (v && (v >= 8 || ((a + i) & 7) >= v)) return false;
  }
  return true;
}
}  // namespace sim
