// Minimal absl/log: CHECK*, DCHECK*, LOG, VLOG. A failed CHECK or LOG(FATAL)
// goes to simlog::Fatal, which the simulator reports as a simulated process
// abort. VLOG verbosity is a swarm knob of the simulator (simlog::vlog_level).
#ifndef VERIF_SHIM_ABSL_LOG_SHIM_IMPL_H_
#define VERIF_SHIM_ABSL_LOG_SHIM_IMPL_H_

#include <memory>
#include <ostream>
#include <sstream>
#include <string>

namespace simlog {

enum Severity { kINFO = 0, kWARNING = 1, kERROR = 2, kFATAL = 3 };

extern int vlog_level;

// Records a log line (never draws from the simulator's PRNG).
void Emit(Severity severity, const char* file, int line, const std::string& text);
[[noreturn]] void Fatal(const char* file, int line, const std::string& text);

class Message {
 public:
  Message(Severity severity, const char* file, int line)
      : severity_(severity), file_(file), line_(line) {}
  ~Message() { Emit(severity_, file_, line_, stream_.str()); }
  std::ostream& stream() { return stream_; }

 private:
  Severity severity_;
  const char* file_;
  int line_;
  std::ostringstream stream_;
};

class FatalMessage {
 public:
  FatalMessage(const char* file, int line, const char* condition = nullptr)
      : file_(file), line_(line) {
    if (condition != nullptr) stream_ << "Check failed: " << condition << " ";
  }
  FatalMessage(const char* file, int line, const std::string* condition)
      : file_(file), line_(line) {
    stream_ << "Check failed: " << *condition << " ";
  }
  [[noreturn]] ~FatalMessage() noexcept(false) { Fatal(file_, line_, stream_.str()); }
  std::ostream& stream() { return stream_; }

 private:
  const char* file_;
  int line_;
  std::ostringstream stream_;
};

struct Voidify {
  void operator&&(std::ostream&) const {}
};

template <typename T>
void Print(std::ostream& os, const T& v) {
  if constexpr (std::is_null_pointer_v<T>) {
    os << "(null)";
  } else if constexpr (std::is_enum_v<T>) {
    os << static_cast<long long>(v);
  } else {
    os << v;
  }
}

template <typename A, typename B>
__attribute__((noinline, cold)) std::string* MakeCheckOp(const A& a, const B& b,
                                                         const char* expr) {
  std::ostringstream os;
  os << expr << " (";
  Print(os, a);
  os << " vs. ";
  Print(os, b);
  os << ")";
  return new std::string(os.str());
}

#define VERIF_SHIM_CHECK_OP_IMPL(name, op)                                   \
  template <typename A, typename B>                                          \
  inline std::string* name(const A& a, const B& b, const char* expr) {       \
    if (__builtin_expect(static_cast<bool>(a op b), 1)) return nullptr;      \
    return MakeCheckOp(a, b, expr);                                          \
  }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wsign-compare"
VERIF_SHIM_CHECK_OP_IMPL(CheckEQ, ==)
VERIF_SHIM_CHECK_OP_IMPL(CheckNE, !=)
VERIF_SHIM_CHECK_OP_IMPL(CheckLT, <)
VERIF_SHIM_CHECK_OP_IMPL(CheckLE, <=)
VERIF_SHIM_CHECK_OP_IMPL(CheckGT, >)
VERIF_SHIM_CHECK_OP_IMPL(CheckGE, >=)
#pragma GCC diagnostic pop

inline bool VlogOn(int n) { return n <= vlog_level; }

}  // namespace simlog

#define CHECK(cond)                                           \
  (__builtin_expect(static_cast<bool>(cond), 1))              \
      ? (void)0                                               \
      : ::simlog::Voidify() &&                                \
            ::simlog::FatalMessage(__FILE__, __LINE__, #cond).stream()

#define VERIF_SHIM_CHECK_OP(fn, op, a, b)                                     \
  while (std::string* verif_shim_msg = ::simlog::fn((a), (b), #a " " #op " " #b)) \
  ::simlog::FatalMessage(__FILE__, __LINE__, verif_shim_msg).stream()

#define CHECK_EQ(a, b) VERIF_SHIM_CHECK_OP(CheckEQ, ==, a, b)
#define CHECK_NE(a, b) VERIF_SHIM_CHECK_OP(CheckNE, !=, a, b)
#define CHECK_LT(a, b) VERIF_SHIM_CHECK_OP(CheckLT, <, a, b)
#define CHECK_LE(a, b) VERIF_SHIM_CHECK_OP(CheckLE, <=, a, b)
#define CHECK_GT(a, b) VERIF_SHIM_CHECK_OP(CheckGT, >, a, b)
#define CHECK_GE(a, b) VERIF_SHIM_CHECK_OP(CheckGE, >=, a, b)
#define CHECK_STREQ(a, b) CHECK(std::string(a) == std::string(b))
#define PCHECK(cond) CHECK(cond)
#define CHECK_NOTNULL(p) (p)

#ifdef VERIF_SHIM_DCHECKS
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#else
#define DCHECK(c) while (false) CHECK(c)
#define DCHECK_EQ(a, b) while (false) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) while (false) CHECK_NE(a, b)
#define DCHECK_LT(a, b) while (false) CHECK_LT(a, b)
#define DCHECK_LE(a, b) while (false) CHECK_LE(a, b)
#define DCHECK_GT(a, b) while (false) CHECK_GT(a, b)
#define DCHECK_GE(a, b) while (false) CHECK_GE(a, b)
#endif

#define VERIF_SHIM_LOG_INFO ::simlog::Message(::simlog::kINFO, __FILE__, __LINE__).stream()
#define VERIF_SHIM_LOG_WARNING ::simlog::Message(::simlog::kWARNING, __FILE__, __LINE__).stream()
#define VERIF_SHIM_LOG_ERROR ::simlog::Message(::simlog::kERROR, __FILE__, __LINE__).stream()
#define VERIF_SHIM_LOG_FATAL ::simlog::FatalMessage(__FILE__, __LINE__).stream()
#define VERIF_SHIM_LOG_DFATAL VERIF_SHIM_LOG_ERROR
#define LOG(severity) VERIF_SHIM_LOG_##severity
#define LOG_IF(severity, cond) \
  !(cond) ? (void)0 : ::simlog::Voidify() && LOG(severity)
#define VLOG_IS_ON(n) (::simlog::VlogOn(n))
#define VLOG(n) \
  !VLOG_IS_ON(n) ? (void)0 : ::simlog::Voidify() && LOG(INFO)
#define DLOG(severity) \
  true ? (void)0 : ::simlog::Voidify() && LOG(severity)
#define DVLOG(n) \
  true ? (void)0 : ::simlog::Voidify() && LOG(INFO)

#endif
