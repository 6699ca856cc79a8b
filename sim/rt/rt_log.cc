// Glue between the absl/log stand-in and the runtime.
#include "absl/log/log.h"
#include "sim.h"

namespace simlog {
void Emit(int severity, const char* file, int line, const char* text);
[[noreturn]] void FatalImpl(const char* file, int line, const char* text);

void Emit(Severity severity, const char* file, int line, const std::string& text) {
  Emit(static_cast<int>(severity), file, line, text.c_str());
}
void Fatal(const char* file, int line, const std::string& text) { FatalImpl(file, line, text.c_str()); }
}  // namespace simlog
