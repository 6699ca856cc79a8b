#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include "absl/log/shim_impl.h"
#endif
