#pragma once
#define StrFormat StrFormatOldShim_
#include_next "absl/strings/str_format.h"
#undef StrFormat
#include "absl/strings/stringify_shim.h"
namespace absl {
namespace stringify_shim {
inline std::string FixV(absl::string_view f) { std::string r(f.data(), f.size()); for (size_t i = 0; i + 1 < r.size(); ++i) if (r[i] == '%') { if (r[i+1] == 'v') r[i+1] = 's'; ++i; } return r; }
}
template <size_t N, typename... A, std::enable_if_t<(stringify_shim::Has<std::decay_t<A>>::value || ...), int> = 0>
std::string StrFormat(const char (&f)[N], const A&... a) {
  std::string out; std::string ff = stringify_shim::FixV(f);
  (void)::absl::FormatUntyped(&out, ::absl::UntypedFormatSpec(ff), {::absl::FormatArg(stringify_shim::Conv(a))...});
  return out;
}
template <typename... A, std::enable_if_t<!(stringify_shim::Has<std::decay_t<A>>::value || ...), int> = 0>
ABSL_MUST_USE_RESULT std::string StrFormat(const FormatSpec<A...>& f, const A&... a) { return ::absl::StrFormatOldShim_(f, a...); }
}
