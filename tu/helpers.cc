// Searching, dispatching and printing helpers.
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include "absl/container/flat_hash_map.h"
#include "absl/types/span.h"
#include "arolla/jagged_shape/util/repr.cc"
#include "arolla/jagged_shape/util/repr.h"
#include "arolla/util/algorithms.h"
#include "arolla/util/map.h"
#include "arolla/util/switch_index.h"

namespace witness {

struct Item {
  int id;
};

// Uninterpreted.
bool before(const Item& a, const Item& b);
int chosen(int k);

const Item* l_search(const Item* first, const Item* last, const Item& value) {
  return arolla::exp_lower_bound(
      first, last, value,
      [](const Item& a, const Item& b) { return before(a, b); });
}
const int64_t* l_default(const int64_t* first, const int64_t* last,
                         int64_t value) {
  return arolla::exp_lower_bound(first, last, value);
}

struct Choose {
  template <int k>
  int operator()(std::integral_constant<int, k>) const {
    return chosen(k);
  }
};
int s_32(int n) { return arolla::switch_index_32(n, Choose()); }
int s_64(int n) { return arolla::switch_index_64(n, Choose()); }
int s_n32(int n) { return arolla::switch_index<32>(n, Choose()); }
int s_n64(int n) { return arolla::switch_index<64>(n, Choose()); }

std::vector<int64_t> m_flat(const absl::flat_hash_map<int64_t, int>& m) {
  return arolla::SortedMapKeys(m);
}
std::vector<int64_t> m_unordered(const std::unordered_map<int64_t, int>& m) {
  return arolla::SortedMapKeys(m);
}

std::string r_sizes(absl::Span<const int64_t> points, size_t part) {
  return arolla::CompactSplitPointsAsSizesRepr(points, part);
}

}  // namespace witness
