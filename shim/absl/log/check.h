// Stand-in for absl/log/check.h (the sandbox's Abseil predates absl/log).
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/shim_impl.h"
#endif
