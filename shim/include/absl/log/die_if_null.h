#pragma once
#include "absl/log/log_shim.h"
namespace absl { namespace log_shim {
template <typename T> T DieIfNull(T&& t) { if (t == nullptr) std::abort(); return std::forward<T>(t); }
}}
#define ABSL_DIE_IF_NULL(v) ::absl::log_shim::DieIfNull(v)
