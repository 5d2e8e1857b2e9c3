#pragma once
#include "absl/log/log_shim.h"
#define LOG(sev) ABSL_LOG_SHIM_##sev
#define ABSL_LOG(sev) ABSL_LOG_SHIM_##sev
#define LOG_IF(sev, c) !(c) ? (void)0 : ::absl::log_shim::Voidify() && ABSL_LOG_SHIM_##sev
#define LOG_FIRST_N(sev, n) ABSL_LOG_SHIM_##sev
#define LOG_EVERY_N_SEC(sev, n) ABSL_LOG_SHIM_##sev
#define LOG_EVERY_N(sev, n) ABSL_LOG_SHIM_##sev
#define DLOG(sev) ABSL_LOG_SHIM_##sev
#define VLOG(n) ::absl::log_shim::NullMessage()
