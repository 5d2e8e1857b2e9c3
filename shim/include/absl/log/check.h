#pragma once
#include "absl/log/log_shim.h"
#define ABSL_CHECK(c) ABSL_LOG_SHIM_CHECK_((c), #c)
#define CHECK(c) ABSL_LOG_SHIM_CHECK_((c), #c)
#define QCHECK(c) ABSL_LOG_SHIM_CHECK_((c), #c)
#define PCHECK(c) ABSL_LOG_SHIM_CHECK_((c), #c)
#define CHECK_EQ(a, b) ABSL_LOG_SHIM_CHECK_((a) == (b), #a "==" #b)
#define CHECK_NE(a, b) ABSL_LOG_SHIM_CHECK_((a) != (b), #a "!=" #b)
#define CHECK_LT(a, b) ABSL_LOG_SHIM_CHECK_((a) < (b), #a "<" #b)
#define CHECK_LE(a, b) ABSL_LOG_SHIM_CHECK_((a) <= (b), #a "<=" #b)
#define CHECK_GT(a, b) ABSL_LOG_SHIM_CHECK_((a) > (b), #a ">" #b)
#define CHECK_GE(a, b) ABSL_LOG_SHIM_CHECK_((a) >= (b), #a ">=" #b)
#define CHECK_OK(s) ABSL_LOG_SHIM_CHECK_(::absl::log_shim::AsStatus(s).ok(), #s)
#define QCHECK_OK(s) CHECK_OK(s)
#ifdef ABSL_LOG_SHIM_DEBUG
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#define DCHECK_OK CHECK_OK
#else
#define DCHECK(c) ABSL_LOG_SHIM_DCHECK_(c)
#define DCHECK_EQ(a, b) ABSL_LOG_SHIM_DCHECK_((a) == (b))
#define DCHECK_NE(a, b) ABSL_LOG_SHIM_DCHECK_((a) != (b))
#define DCHECK_LT(a, b) ABSL_LOG_SHIM_DCHECK_((a) < (b))
#define DCHECK_LE(a, b) ABSL_LOG_SHIM_DCHECK_((a) <= (b))
#define DCHECK_GT(a, b) ABSL_LOG_SHIM_DCHECK_((a) > (b))
#define DCHECK_GE(a, b) ABSL_LOG_SHIM_DCHECK_((a) >= (b))
#define DCHECK_OK(s) ABSL_LOG_SHIM_DCHECK_(::absl::log_shim::AsStatus(s).ok())
#endif
