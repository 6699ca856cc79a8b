// Parent of the simulated runs: forks one child per run, aggregates, confirms,
// minimises and replays violations.
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "rt.h"
#include "sim.h"

namespace rt {
extern u64 total_budget;
extern bool startup_frozen;
}
namespace sim {
static Workload workloads[256];
static int n_workloads = 0;
void Register(const Workload& w) {
  if (n_workloads < 256) workloads[n_workloads++] = w;
}
}  // namespace sim

using namespace rt;
using sim::Workload;

struct Shared {
  Result result;
  Trace out;
  Trace in;
};
static Shared* sh;

static double WallNow() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static int run_timeout = 25;

// Runs one child. Returns false if it died without a result (hang or loss).
enum Outcome { kPass, kViolation, kHang, kDied };
static Outcome RunOnce(const Workload& w, u64 seed, bool record, bool replay, uptr watch = 0) {
  Result* r = &sh->result;
  // Clear only what is read.
  r->done = 0;
  r->kind[0] = r->msg[0] = 0;
  r->hash = r->sched_hash = r->points = r->syncs = r->switches = r->threads = r->accesses = r->sim_ns = r->nontrivial = r->live_end = 0;
  r->n_states = r->n_faultc = r->n_probec = r->log_len = 0;
  r->race_addr = 0;
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(75);
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    // The limit is on processor time, so that a busy machine is no hang; the
    // one on wall time only catches a child that sleeps.
    signal(SIGALRM, SIG_DFL);
    signal(SIGPROF, SIG_DFL);
    struct itimerval limit = {};
    limit.it_value.tv_sec = run_timeout;
    setitimer(ITIMER_PROF, &limit, nullptr);
    alarm(run_timeout * 5);
    res = r;
    out_trace = record ? &sh->out : nullptr;
    in_trace = replay ? &sh->in : nullptr;
    watch_addr = watch;
    RunChild(seed, w.body);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (r->done == 1) return kPass;
  if (r->done == 2) return kViolation;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) {
    snprintf(r->kind, sizeof(r->kind), "hang");
    snprintf(r->msg, sizeof(r->msg), "the run did not finish within %d s of processor time (simulated runs take milliseconds)", run_timeout);
    return kHang;
  }
  snprintf(r->kind, sizeof(r->kind), "died");
  snprintf(r->msg, sizeof(r->msg), "the simulated process ended without finishing its run: wait status 0x%x", st);
  return kDied;
}

struct Case {
  Env env;
  std::vector<u64> draws;
  std::vector<SchedEntry> sched;
  std::vector<FaultEntry> faults;
  std::vector<std::string> sites;
};

static Case FromTrace(const Trace& t) {
  Case c;
  c.env = t.env;
  c.draws.assign(t.draws, t.draws + t.n_draws);
  c.sched.assign(t.sched, t.sched + t.n_sched);
  c.faults.assign(t.faults, t.faults + t.n_faults);
  for (u32 i = 0; i < t.n_sites; ++i) c.sites.push_back(t.sites[i]);
  std::stable_sort(c.sched.begin(), c.sched.end(), [](const SchedEntry& a, const SchedEntry& b) { return a.tid != b.tid ? a.tid < b.tid : a.point < b.point; });
  return c;
}
static void ToTrace(const Case& c, Trace* t) {
  t->env = c.env;
  t->overflow = 0;
  t->n_draws = std::min<size_t>(c.draws.size(), kMaxDraws);
  t->n_sched = std::min<size_t>(c.sched.size(), kMaxSched);
  t->n_faults = std::min<size_t>(c.faults.size(), kMaxFaults);
  t->n_sites = std::min<size_t>(c.sites.size(), kMaxSites);
  std::copy_n(c.draws.begin(), t->n_draws, t->draws);
  std::copy_n(c.sched.begin(), t->n_sched, t->sched);
  std::copy_n(c.faults.begin(), t->n_faults, t->faults);
  for (u32 i = 0; i < t->n_sites; ++i) snprintf(t->sites[i], sizeof(t->sites[i]), "%s", c.sites[i].c_str());
}
static Outcome RunCase(const Workload& w, const Case& c, uptr watch = 0) {
  ToTrace(c, &sh->in);
  return RunOnce(w, 0, false, true, watch);
}

static int min_runs = 0;
static bool Fails(const Workload& w, const Case& c, const std::string& kind) {
  ++min_runs;
  Outcome o = RunCase(w, c);
  return o == kViolation && kind == sh->result.kind;
}

// Delta debugging over a vector member: drop chunks while the violation persists.
template <typename T>
static void Ddmin(const Workload& w, Case* c, std::vector<T> Case::*m, const std::string& kind, double deadline, bool shift) {
  size_t chunk = std::max<size_t>(1, ((*c).*m).size());
  while (chunk >= 1 && WallNow() < deadline) {
    bool any = false;
    for (size_t i = 0; i < ((*c).*m).size() && WallNow() < deadline;) {
      Case t = *c;
      auto& v = t.*m;
      size_t e = std::min(v.size(), i + chunk);
      v.erase(v.begin() + i, v.begin() + e);
      if (Fails(w, t, kind)) {
        *c = t;
        any = true;
      } else {
        i += chunk;
      }
    }
    if (chunk == 1 && !any) break;
    if (!any || chunk > ((*c).*m).size()) chunk = chunk / 2;
    if (chunk == 0) break;
    if (chunk > 1 && any) chunk = std::max<size_t>(1, chunk / 2);
  }
  (void)shift;
}

static void Minimise(const Workload& w, Case* c, const std::string& kind, double deadline) {
  for (int round = 0; round < 3 && WallNow() < deadline; ++round) {
    size_t before = c->draws.size() + c->sched.size() + c->faults.size();
    // Environment to its plainest setting.
    {
      Case t = *c;
      t.env.salt = 0;
      t.env.vlog = 0;
      t.env.tick_ns = 0;
      if (memcmp(&t.env, &c->env, sizeof(Env)) != 0 && Fails(w, t, kind)) *c = t;
      t = *c;
      t.env.nprocs = 4;
      if (t.env.nprocs != c->env.nprocs && Fails(w, t, kind)) *c = t;
    }
    Ddmin(w, c, &Case::faults, kind, deadline, false);
    Ddmin(w, c, &Case::sched, kind, deadline, false);
    // Workload draws: truncate, then zero, then halve.
    for (size_t cut = c->draws.size() / 2; cut >= 1 && WallNow() < deadline; cut /= 2) {
      while (c->draws.size() >= cut && WallNow() < deadline) {
        Case t = *c;
        t.draws.resize(t.draws.size() - cut);
        if (!Fails(w, t, kind)) break;
        *c = t;
      }
    }
    size_t n = c->draws.size();
    for (size_t chunk = std::max<size_t>(1, n / 4); chunk >= 1 && WallNow() < deadline; chunk /= 2) {
      for (size_t i = 0; i < c->draws.size() && WallNow() < deadline; i += chunk) {
        Case t = *c;
        bool nz = false;
        for (size_t k = i; k < std::min(t.draws.size(), i + chunk); ++k) {
          nz |= t.draws[k] != 0;
          t.draws[k] = 0;
        }
        if (nz && Fails(w, t, kind)) *c = t;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < c->draws.size() && WallNow() < deadline; ++i) {
      while (c->draws[i] > 0 && WallNow() < deadline) {
        Case t = *c;
        t.draws[i] /= 2;
        if (!Fails(w, t, kind)) break;
        *c = t;
      }
    }
    if (c->draws.size() + c->sched.size() + c->faults.size() >= before) break;
  }
}

static bool WriteReplay(const char* path, const std::string& prop, const Workload& w, u64 seed, const Case& c, const Result& r, bool by_seed, const std::string& narrative) {
  FILE* f = fopen(path, "w");
  if (!f) return false;
  fprintf(f, "simceres-replay 1\nproperty %s\nworkload %s\nseed 0x%llx\nbyseed %d\nkind %s\nhash 0x%llx\n", prop.c_str(), w.name, (unsigned long long)seed,
          by_seed ? 1 : 0, r.kind, (unsigned long long)r.hash);
  fprintf(f, "env %llu %u %u %u %u %u %u %u\n", (unsigned long long)c.env.salt, c.env.fill, c.env.tick_ns, c.env.nprocs, c.env.strategy, c.env.sync_permil, c.env.mem_mean, c.env.vlog);
  fprintf(f, "sites %zu\n", c.sites.size());
  for (auto& s : c.sites) fprintf(f, "%s\n", s.c_str());
  fprintf(f, "draws %zu\n", c.draws.size());
  for (size_t i = 0; i < c.draws.size(); ++i) fprintf(f, "%llu%c", (unsigned long long)c.draws[i], (i % 24 == 23 || i + 1 == c.draws.size()) ? '\n' : ' ');
  fprintf(f, "sched %zu\n", c.sched.size());
  for (auto& e : c.sched) fprintf(f, "%u %llu %u\n", e.tid, (unsigned long long)e.point, e.target);
  fprintf(f, "faults %zu\n", c.faults.size());
  for (auto& e : c.faults) fprintf(f, "%u %u %llu\n", e.site, e.n, (unsigned long long)e.value);
  fprintf(f, "end\n--- %s\n%s\n--- history of the replayed run\n%.*s\n", r.kind, r.msg, (int)r.log_len, r.log);
  fprintf(f, "--- %s\n", narrative.c_str());
  fclose(f);
  return true;
}

static bool ReadReplay(const char* path, std::string* prop, std::string* wl, u64* seed, int* by_seed, std::string* kind, u64* hash, Case* c) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char a[256], b[256];
  unsigned long long s = 0, h = 0;
  bool ok = fscanf(f, "simceres-replay 1 property %255s workload %255s seed %llx byseed %d", a, b, &s, by_seed) == 4;
  *prop = a;
  *wl = b;
  *seed = s;
  ok = ok && fscanf(f, " kind %255s hash %llx", a, &h) == 2;
  *kind = a;
  *hash = h;
  unsigned long long salt = 0;
  ok = ok && fscanf(f, " env %llu %u %u %u %u %u %u %u", &salt, &c->env.fill, &c->env.tick_ns, &c->env.nprocs, &c->env.strategy, &c->env.sync_permil, &c->env.mem_mean, &c->env.vlog) == 8;
  c->env.salt = salt;
  size_t n = 0;
  ok = ok && fscanf(f, " sites %zu", &n) == 1;
  for (size_t i = 0; ok && i < n; ++i) {
    ok = fscanf(f, " %255s", a) == 1;
    c->sites.push_back(a);
  }
  ok = ok && fscanf(f, " draws %zu", &n) == 1;
  for (size_t i = 0; ok && i < n; ++i) {
    unsigned long long v;
    ok = fscanf(f, " %llu", &v) == 1;
    c->draws.push_back(v);
  }
  ok = ok && fscanf(f, " sched %zu", &n) == 1;
  for (size_t i = 0; ok && i < n; ++i) {
    SchedEntry e;
    unsigned long long p;
    ok = fscanf(f, " %u %llu %u", &e.tid, &p, &e.target) == 3;
    e.point = p;
    c->sched.push_back(e);
  }
  ok = ok && fscanf(f, " faults %zu", &n) == 1;
  for (size_t i = 0; ok && i < n; ++i) {
    FaultEntry e;
    unsigned long long v;
    ok = fscanf(f, " %u %u %llu", &e.site, &e.n, &v) == 3;
    e.value = v;
    c->faults.push_back(e);
  }
  fclose(f);
  return ok;
}

static std::string Esc(const std::string& s) {
  std::string o;
  for (char ch : s) {
    unsigned char c = ch;
    if (c == '"' || c == '\\') {
      o += '\\';
      o += ch;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += ch;
    }
  }
  return o;
}

struct Known {
  std::string prop, kind, text;
};

int main(int argc, char** argv) {
  rt::startup_frozen = true;
  std::string prop, json, states_file, replay, replay_out, known_file, only;
  u64 seed = 1, start = 0, stride = 1, count = 1;
  double deadline = 1e9, min_budget = 30;
  bool verbose = false, hashes = false, twice = false;
  int cpu = -1;
  std::string trace_check;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> const char* {
      if (i + 1 >= argc) {
        fprintf(stderr, "missing value for %s\n", a.c_str());
        exit(64);
      }
      return argv[++i];
    };
    if (a == "--prop") prop = next();
    else if (a == "--seed") seed = strtoull(next(), nullptr, 0);
    else if (a == "--start") start = strtoull(next(), nullptr, 0);
    else if (a == "--stride") stride = strtoull(next(), nullptr, 0);
    else if (a == "--count") count = strtoull(next(), nullptr, 0);
    else if (a == "--deadline") deadline = atof(next());
    else if (a == "--json") json = next();
    else if (a == "--states") states_file = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replay-out") replay_out = next();
    else if (a == "--known") known_file = next();
    else if (a == "--wl") only = next();
    else if (a == "--verbose") verbose = true;
    else if (a == "--hashes") hashes = true;
    else if (a == "--twice") twice = true;
    else if (a == "--cpu") cpu = atoi(next());
    else if (a == "--min-budget") min_budget = atof(next());
    else if (a == "--timeout") run_timeout = atoi(next());
    else if (a == "--list") {
      for (int k = 0; k < sim::n_workloads; ++k) printf("%s %s %d\n", sim::workloads[k].prop, sim::workloads[k].name, sim::workloads[k].weight);
      return 0;
    } else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 64;
    }
  }
  if (!getenv("SIM_NOASLR")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  {
    // One CPU per worker: only one simulated thread runs at a time anyway.
    cpu_set_t cur;
    CPU_ZERO(&cur);
    sched_getaffinity(0, sizeof(cur), &cur);
    std::vector<int> cpus;
    for (int i = 0; i < CPU_SETSIZE; ++i)
      if (CPU_ISSET(i, &cur)) cpus.push_back(i);
    if (!cpus.empty()) {
      cpu_set_t one;
      CPU_ZERO(&one);
      CPU_SET(cpus[(cpu >= 0 ? cpu : getpid()) % cpus.size()], &one);
      sched_setaffinity(0, sizeof(one), &one);
    }
  }
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (sh == MAP_FAILED) {
    perror("mmap");
    return 76;
  }

  auto find = [&](const std::string& p, const std::string& n) -> const Workload* {
    for (int k = 0; k < sim::n_workloads; ++k)
      if (p == sim::workloads[k].prop && n == sim::workloads[k].name) return &sim::workloads[k];
    return nullptr;
  };

  if (!replay.empty()) {
    std::string p, wl, kind;
    u64 s, h;
    int by_seed;
    Case c;
    if (!ReadReplay(replay.c_str(), &p, &wl, &s, &by_seed, &kind, &h, &c)) {
      fprintf(stderr, "cannot read replay file %s\n", replay.c_str());
      return 65;
    }
    const Workload* w = find(p, wl);
    if (!w) {
      fprintf(stderr, "unknown workload %s/%s\n", p.c_str(), wl.c_str());
      return 66;
    }
    Outcome o = by_seed ? RunOnce(*w, s, true, false) : RunCase(*w, c);
    if (o == kPass) {
      printf("REPLAY passed: property=%s workload=%s (expected %s)\n", p.c_str(), wl.c_str(), kind.c_str());
      return 0;
    }
    const bool same = kind == sh->result.kind && (o == kHang || h == sh->result.hash);
    printf("REPLAY %s: property=%s workload=%s kind=%s hash=0x%llx\n%s\n", same ? "reproduced" : "DIFFERS", p.c_str(), wl.c_str(), sh->result.kind, (unsigned long long)sh->result.hash, sh->result.msg);
    if (verbose) printf("%.*s", (int)sh->result.log_len, sh->result.log);
    return same ? 1 : 3;
  }

  std::vector<const Workload*> wls;
  std::vector<u64> cum;
  u64 total_w = 0;
  for (int k = 0; k < sim::n_workloads; ++k) {
    if (prop != sim::workloads[k].prop) continue;
    if (!only.empty() && only != sim::workloads[k].name) continue;
    wls.push_back(&sim::workloads[k]);
    total_w += sim::workloads[k].weight;
    cum.push_back(total_w);
  }
  if (wls.empty()) {
    fprintf(stderr, "no workload for property %s\n", prop.c_str());
    return 67;
  }
  std::vector<Known> known;
  if (!known_file.empty()) {
    FILE* f = fopen(known_file.c_str(), "r");
    char line[2048];
    while (f && fgets(line, sizeof(line), f)) {
      std::string l = line;
      while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
      size_t a = l.find('\t');
      size_t b = a == std::string::npos ? a : l.find('\t', a + 1);
      if (b == std::string::npos) continue;
      known.push_back({l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1)});
    }
    if (f) fclose(f);
  }
  std::map<std::string, u64> known_hits;

  const double t0 = WallNow();
  u64 runs = 0, nontrivial = 0, points = 0, syncs = 0, switches = 0, threads_total = 0, max_threads = 0, twice_ok = 0;
  double sim_s = 0;
  std::map<std::string, u64> faults, probes, strat, wlruns;
  std::unordered_set<u64> scheds, st, nts;
  u64 runs_with_fault = 0;
  std::vector<std::string> samples;
  std::string vjson;
  int rc = 0;
  bool unrepeated = false;  // something did not repeat: no answer, unless a violation that does is found
  u64 first_seed = 0, last_seed = 0;

  for (u64 n = 0; n < count && rc == 0; ++n) {
    if (WallNow() - t0 > deadline) break;
    const u64 index = start + n * stride;
    const u64 rs = Mix(Mix(seed, HashStr(prop.c_str())), index);
    // Workload by index, proportionally to weight.
    u64 pick = Mix(rs, 77) % total_w;
    size_t wi = 0;
    while (cum[wi] <= pick) ++wi;
    const Workload& w = *wls[wi];
    const bool record = n < 3 || verbose;
    Outcome o = RunOnce(w, rs, record, false);
    Result& r = sh->result;
    if (n == 0) first_seed = rs;
    last_seed = rs;
    if (hashes) printf("%llu %s 0x%llx %llu\n", (unsigned long long)index, w.name, (unsigned long long)r.hash, (unsigned long long)r.points);
    if (verbose) {
      printf("run %llu wl=%s outcome=%d kind=%s points=%llu syncs=%llu switches=%llu threads=%llu env{strategy %u sync %u mem %u procs %u tick %u vlog %u}\n%.*s%s\n", (unsigned long long)index, w.name, o, r.kind,
             (unsigned long long)r.points, (unsigned long long)r.syncs, (unsigned long long)r.switches, (unsigned long long)r.threads, sh->out.env.strategy, sh->out.env.sync_permil, sh->out.env.mem_mean, sh->out.env.nprocs,
             sh->out.env.tick_ns, sh->out.env.vlog, (int)r.log_len, r.log, r.msg);
      for (u32 k = 0; k < r.n_faultc; ++k) printf("  fault %s %llu\n", r.faultc[k].name, (unsigned long long)r.faultc[k].n);
      for (u32 k = 0; k < r.n_probec; ++k) printf("  probe %s %llu\n", r.probec[k].name, (unsigned long long)r.probec[k].n);
    }
    ++runs;
    ++wlruns[w.name];
    points += r.points;
    syncs += r.syncs;
    switches += r.switches;
    threads_total += r.threads;
    max_threads = std::max(max_threads, r.threads);
    if (r.sim_ns > 1700000000ull * 1000000000ull) sim_s += (r.sim_ns - 1700000000ull * 1000000000ull) * 1e-9;
    bool any_fault = false;
    for (u32 k = 0; k < r.n_faultc; ++k) {
      faults[r.faultc[k].name] += r.faultc[k].n;
      any_fault = true;
    }
    runs_with_fault += any_fault;
    for (u32 k = 0; k < r.n_probec; ++k) probes[r.probec[k].name] += r.probec[k].n;
    scheds.insert(r.sched_hash);
    for (u32 k = 0; k < r.n_states; ++k) st.insert(r.states[k]);
    if (r.nontrivial && nts.insert(r.hash).second) ++nontrivial;
    if (record && samples.size() < 3) {
      char b[400];
      snprintf(b, sizeof(b), "index %llu seed 0x%llx workload %s: %llu scheduling points, %llu sync ops, %llu switches, %llu threads, %u recorded schedule decisions, %u fault decisions, %u workload draws; ", (unsigned long long)index,
               (unsigned long long)rs, w.name, (unsigned long long)r.points, (unsigned long long)r.syncs, (unsigned long long)r.switches, (unsigned long long)r.threads, sh->out.n_sched, sh->out.n_faults, sh->out.n_draws);
      samples.push_back(std::string(b) + "history: " + std::string(r.log, std::min<u32>(r.log_len, 900)));
    }
    if (o == kPass) {
      if (twice || n % 64 == 0) {
        const u64 h = r.hash;
        const Outcome o2 = RunOnce(w, rs, true, false);
        if (o2 != o || r.hash != h) {
          fprintf(stderr, "NONDETERMINISM: property %s index %llu seed 0x%llx workload %s\n", prop.c_str(), (unsigned long long)index, (unsigned long long)rs, w.name);
          unrepeated = true;
        }
        // The recorded decisions alone must reproduce the run.
        if (!unrepeated && !sh->out.overflow) {
          Case c = FromTrace(sh->out);
          const Outcome o3 = RunCase(w, c);
          if (o3 != o || r.hash != h) {
            fprintf(stderr, "REPLAY-MISMATCH: property %s index %llu seed 0x%llx workload %s\n", prop.c_str(), (unsigned long long)index, (unsigned long long)rs, w.name);
            unrepeated = true;
          }
        }
        ++twice_ok;
      }
      continue;
    }
    if (strncmp(r.kind, "sim-", 4) == 0) {
      fprintf(stderr, "SIMULATOR LIMIT: %s: %s (index %llu seed 0x%llx workload %s)\n", r.kind, r.msg, (unsigned long long)index, (unsigned long long)rs, w.name);
      rc = 5;
      break;
    }
    // Known finding?
    bool is_known = false;
    for (auto& k : known) {
      if (k.prop == prop && k.kind == r.kind && strstr(r.msg, k.text.c_str())) {
        ++known_hits[k.text];
        is_known = true;
      }
    }
    if (is_known) continue;

    // Confirm: the same seed again must give the same violation.
    const std::string kind = r.kind;
    const u64 h = r.hash;
    std::string msg = r.msg;
    const uptr addr = r.race_addr;
    fprintf(stderr, "candidate violation: property %s index %llu workload %s: %s: %.3000s\n", prop.c_str(), (unsigned long long)index, w.name, kind.c_str(), msg.c_str());
    const int saved_timeout = run_timeout;
    if (o == kHang) run_timeout *= 2;
    Outcome o2 = RunOnce(w, rs, true, false, addr);
    if (o2 == kPass && o == kHang) {
      fprintf(stderr, "note: a slow run finished when it was given more time\n");
      run_timeout = saved_timeout;
      continue;
    }
    if (o2 == kPass) {
      run_timeout = saved_timeout;
      fprintf(stderr, "NONDETERMINISM: violation of %s at index %llu did not repeat (outcome %d kind %s hash 0x%llx vs kind %s hash 0x%llx)\n", prop.c_str(), (unsigned long long)index, o2, r.kind, (unsigned long long)r.hash, kind.c_str(), (unsigned long long)h);
      unrepeated = true;  // go on: another seed may show it in a way that repeats
      continue;
    }
    bool by_seed = sh->out.overflow || o != kViolation;
    bool unstable = false;
    if (o2 != o || kind != r.kind || (o == kViolation && r.hash != h)) {
      // The broken code reads something the simulator does not control (for
      // example indeterminate memory): both executions fail, so it is reported.
      fprintf(stderr, "note: the two executions of this seed fail differently (%s / %s)\n", kind.c_str(), r.kind);
      by_seed = unstable = true;
    }
    Case c = FromTrace(sh->out);
    std::string narrative = "not minimised";
    const size_t n_sched0 = c.sched.size(), n_fault0 = c.faults.size(), n_draw0 = c.draws.size();
    if (!by_seed) {
      Outcome o3 = RunCase(w, c);
      if (o3 != kViolation || kind != r.kind || r.hash != h) {
        fprintf(stderr, "REPLAY-MISMATCH: recorded decisions do not reproduce the violation; replaying by seed (kind %s)\n", r.kind);
        by_seed = true;
      } else {
        Minimise(w, &c, kind, WallNow() + min_budget);
        Outcome o4 = RunCase(w, c);
        const uptr addr2 = r.race_addr;
        if (o4 != kViolation || kind != r.kind) {
          fprintf(stderr, "NONDETERMINISM: minimised case does not repeat\n");
          rc = 4;
          break;
        }
        if (addr2) RunCase(w, c, addr2);
        char b[400];
        snprintf(b, sizeof(b), "minimised in %d runs: schedule decisions %zu -> %zu, fault decisions %zu -> %zu, workload draws %zu -> %zu", min_runs, n_sched0, c.sched.size(), n_fault0, c.faults.size(), n_draw0, c.draws.size());
        narrative = b;
      }
    }
    if (by_seed) {
      o2 = RunOnce(w, rs, true, false, addr);
      if (o2 == kPass || (!unstable && (o2 != o || kind != r.kind || (o == kViolation && r.hash != h)))) {
        fprintf(stderr, "NONDETERMINISM: violation of %s at index %llu did not repeat\n", prop.c_str(), (unsigned long long)index);
        rc = 4;
        break;
      }
    }
    run_timeout = saved_timeout;
    if (!replay_out.empty()) {
      if (!WriteReplay(replay_out.c_str(), prop, w, rs, c, r, by_seed, narrative)) {
        perror("replay file");
        rc = 6;
        break;
      }
    }
    vjson = "{\"kind\":\"" + Esc(r.kind) + "\",\"workload\":\"" + Esc(w.name) + "\",\"index\":" + std::to_string(index) + ",\"message\":\"" + Esc(std::string(r.msg).substr(0, 6000)) + "\",\"narrative\":\"" + Esc(narrative) + "\"}";
    rc = 1;
  }

  if (rc == 0 && unrepeated) rc = 4;
  const double wall = WallNow() - t0;
  if (!json.empty()) {
    FILE* f = fopen(json.c_str(), "w");
    if (!f) return 77;
    fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"points\":%llu,\"syncs\":%llu,\"switches\":%llu,\"threads\":%llu,\"max_threads\":%llu,\"sim_s\":%.6f,\"wall_s\":%.3f,\"twice\":%llu,\"runs_with_fault\":%llu,\"first_seed\":%llu,\"last_seed\":%llu",
            (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)points, (unsigned long long)syncs, (unsigned long long)switches, (unsigned long long)threads_total, (unsigned long long)max_threads, sim_s, wall, (unsigned long long)twice_ok,
            (unsigned long long)runs_with_fault, (unsigned long long)first_seed, (unsigned long long)last_seed);
    auto dump = [&](const char* name, const std::map<std::string, u64>& m) {
      fprintf(f, ",\"%s\":{", name);
      bool first = true;
      for (auto& kv : m) {
        fprintf(f, "%s\"%s\":%llu", first ? "" : ",", Esc(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
      }
      fprintf(f, "}");
    };
    dump("faults", faults);
    dump("probes", probes);
    dump("workloads", wlruns);
    dump("known", known_hits);
    fprintf(f, ",\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", Esc(samples[i]).c_str());
    fprintf(f, "],\"violation\":%s}\n", vjson.empty() ? "null" : vjson.c_str());
    fclose(f);
  }
  if (!states_file.empty()) {
    FILE* f = fopen(states_file.c_str(), "wb");
    if (f) {
      for (u64 x : scheds) {
        u64 rec[2] = {0, x};
        fwrite(rec, 16, 1, f);
      }
      for (u64 x : st) {
        u64 rec[2] = {1, x};
        fwrite(rec, 16, 1, f);
      }
      for (u64 x : nts) {
        u64 rec[2] = {2, x};
        fwrite(rec, 16, 1, f);
      }
      fclose(f);
    }
  }
  if (verbose || hashes) printf("runs %llu in %.2f s (%.1f/s), distinct schedules %zu, points/run %.0f\n", (unsigned long long)runs, wall, runs / wall, scheds.size(), runs ? points / (double)runs : 0.0);
  fflush(stdout);
  return rc;
}
