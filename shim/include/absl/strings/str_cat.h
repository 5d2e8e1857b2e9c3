#pragma once
#include_next "absl/strings/str_cat.h"
#include "absl/strings/stringify_shim.h"
namespace absl {
template <typename... A, std::enable_if_t<(stringify_shim::Has<std::decay_t<A>>::value || ...), int> = 0>
std::string StrCat(A&&... a) { return ::absl::StrCat(::absl::AlphaNum(stringify_shim::Conv(a))...); }
template <typename... A, std::enable_if_t<(stringify_shim::Has<std::decay_t<A>>::value || ...), int> = 0>
void StrAppend(std::string* d, A&&... a) { ::absl::StrAppend(d, ::absl::AlphaNum(stringify_shim::Conv(a))...); }
}
