#pragma once
#include_next "absl/algorithm/container.h"
namespace absl {
template <typename C, typename T> bool c_contains(const C& c, const T& v) { return absl::c_find(c, v) != std::end(c); }
}
