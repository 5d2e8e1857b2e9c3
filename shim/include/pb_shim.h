#pragma once
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace google::protobuf::internal {
template <typename T> decltype(auto) ShimStr(T&& t) {
  if constexpr (std::is_same_v<std::decay_t<T>, absl::string_view> || std::is_same_v<std::decay_t<T>, std::string_view>) return std::string(t.data(), t.size());
  else return std::forward<T>(t);
}
}
