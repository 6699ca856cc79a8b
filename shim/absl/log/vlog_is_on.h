#ifndef VERIF_SHIM_ABSL_LOG_VLOG_IS_ON_H_
#define VERIF_SHIM_ABSL_LOG_VLOG_IS_ON_H_
#include "absl/log/shim_impl.h"
#endif
