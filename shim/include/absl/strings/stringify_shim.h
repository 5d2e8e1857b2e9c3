#pragma once
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl { namespace stringify_shim {
struct Sink {
  std::string out;
  void Append(absl::string_view s) { out.append(s.data(), s.size()); }
  void Append(size_t n, char c) { out.append(n, c); }
  friend void AbslFormatFlush(Sink* s, absl::string_view v) { s->Append(v); }
};
template <typename T, typename = void> struct Has : std::false_type {};
template <typename T>
struct Has<T, std::void_t<decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))>> : std::true_type {};
template <typename T> decltype(auto) Conv(const T& v) {
  if constexpr (Has<T>::value) { Sink s; AbslStringify(s, v); return std::move(s.out); }
  else { return (v); }
}
}}
