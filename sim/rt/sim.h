// The simulator's interface to workloads ("user programs" of the library).
//
// One run = one child process in which exactly one thread runs at a time; every
// pthread/C++ thread primitive, every instrumented memory access, the clock, the
// allocator, C stdio and the user callbacks are decided by the simulator, from
// three decision streams derived from the run's seed:
//   workload  - Draw(): what the user program does
//   schedule  - who runs next (recorded sparsely as (thread, local point, target))
//   fault     - Fault(): which call misbehaves (recorded as (site, n-th call, value))
#ifndef VERIF_SIM_RT_SIM_H_
#define VERIF_SIM_RT_SIM_H_

#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// ---- workload stream -------------------------------------------------------
uint64_t Draw(uint64_t n);                    // uniform in [0, n); 0 is "simplest"
inline int Range(int lo, int hi) { return lo + static_cast<int>(Draw(hi - lo + 1)); }
inline bool Chance(int percent) { return static_cast<int>(Draw(100)) >= 100 - percent; }
double Uniform(double lo, double hi);         // workload stream, 20-bit resolution

// ---- fault stream ----------------------------------------------------------
// True if the fault `site` fires at this call. A site is armed per run by
// ArmFault with a rate in 1/65536; unarmed sites never fire.
bool Fault(const char* site);
uint64_t FaultValue(const char* site, uint64_t n);  // extra parameter of a fault
void ArmFault(const char* site, double rate);
void FaultsOff();  // "faults stop": no site fires from here on
void FaultsOn();
uint64_t FaultCount(const char* site);  // how often it fired in this run

// ---- time ------------------------------------------------------------------
uint64_t NowNs();              // simulated clock, no tick
void Advance(uint64_t ns);     // the caller takes this long
void JumpClock(int64_t ns);    // the clock itself jumps (skew); never below 0
void SetTick(uint64_t ns);     // how far each clock read advances time

// ---- environment knobs -----------------------------------------------------
void SetHardwareConcurrency(int n);
void SetVlog(int level);

// ---- observations ----------------------------------------------------------
// Ends the run with a violation of class `kind`.
[[noreturn]] void Violation(const char* kind, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, kind, ...)                    \
  do {                                                \
    if (!(cond)) ::sim::Violation(kind, __VA_ARGS__); \
  } while (0)
void Event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // hashed history line
void Probe(const char* name);       // reach counter
void NonTrivial();                  // marks the run as non-trivial by the property's rule
void State(uint64_t h);             // counts a distinct state/case fingerprint
uint64_t Seq();                     // global event sequence number (advances per call)
int Self();                         // simulated thread id

// A CHECK failure / LOG(FATAL) in the library is a simulated process abort. By
// default that is a violation; with a handler installed the handler decides
// (return true = acceptable, the run ends as passed).
void OnFatal(bool (*handler)(const char* file, int line, const char* msg));

// Messages logged so far in this run: 1 warnings, 2 errors.
uint64_t LogCount(int severity);

// No preemption, race checks or heap checks in this scope: harness bookkeeping.
void QuietBegin();
void QuietEnd();
struct Quiet {
  Quiet() { QuietBegin(); }
  ~Quiet() { QuietEnd(); }
};
// Calls below this scope are still race-checked but never preempted.
void Point();  // an explicit scheduling point

// ---- heap ------------------------------------------------------------------
uint64_t LiveBytes();
uint64_t LiveChunks();
bool HeapOk(const void* p, size_t n);  // true if [p,p+n) is addressable app heap/stack/global

// ---- simulated disk --------------------------------------------------------
bool DiskExists(const std::string& path);
std::string DiskRead(const std::string& path);
void DiskWrite(const std::string& path, const std::string& data);
std::vector<std::string> DiskList();
void DiskClear();
// Facts about I/O faults so far.
uint64_t DiskFaults();
int DiskOpenHandles();

// ---- workload registry -----------------------------------------------------
struct Workload {
  const char* prop;   // property id
  const char* name;
  int weight;         // relative share of the property's runs
  void (*body)();
};
void Register(const Workload& w);
struct Registrar {
  Registrar(const char* p, const char* n, int weight, void (*b)()) {
    Register(Workload{p, n, weight, b});
  }
};
#define SIM_WORKLOAD(prop, name, weight)                                       \
  static void Body_##prop##_##name();                                         \
  static ::sim::Registrar reg_##prop##_##name(#prop, #name, weight,            \
                                              &Body_##prop##_##name);          \
  static void Body_##prop##_##name()
#define SIM_WORKLOAD_ALIAS(prop, name, weight, fn) \
  static ::sim::Registrar reg_##prop##_##name(#prop, #name, weight, &fn);

}  // namespace sim

#endif
