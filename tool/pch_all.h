#include "absl/algorithm/container.h"
#include "absl/base/attributes.h"
#include "absl/base/call_once.h"
#include "absl/base/const_init.h"
#include "absl/base/dynamic_annotations.h"
#include "absl/base/macros.h"
#include "absl/base/no_destructor.h"
#include "absl/base/no_destructor.h"  // IWYU pragma: keep
#include "absl/base/no_destructor.h"  // IWYU pragma: keep, macro definition
#include "absl/base/no_destructor.h"  // IWYU pragma: keep, used in macro specialization.
#include "absl/base/nullability.h"
#include "absl/base/optimization.h"
#include "absl/base/thread_annotations.h"
#include "absl/cleanup/cleanup.h"
#include "absl/container/btree_map.h"
#include "absl/container/btree_set.h"
#include "absl/container/fixed_array.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/container/inlined_vector.h"
#include "absl/flags/declare.h"
#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "absl/functional/any_invocable.h"
#include "absl/functional/bind_front.h"
#include "absl/functional/function_ref.h"
#include "absl/hash/hash.h"
#include "absl/log/check.h"
#include "absl/log/die_if_null.h"
#include "absl/log/log.h"
#include "absl/memory/memory.h"
#include "absl/meta/type_traits.h"
#include "absl/numeric/int128.h"
#include "absl/random/random.h"
#include "absl/status/status.h"
#include "absl/status/status.h"       // IWYU pragma: keep
#include "absl/status/status.h"  // IWYU pragma: keep, macro definition
#include "absl/status/status_macros.h"  // IWYU pragma: keep
#include "absl/status/status_matchers.h"
#include "absl/status/statusor.h"
#include "absl/status/statusor.h"       // IWYU pragma: keep
#include "absl/status/statusor.h"  // IWYU pragma: keep, macro definition
#include "absl/strings/ascii.h"
#include "absl/strings/cord.h"
#include "absl/strings/escaping.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_cat.h"       // IWYU pragma: keep
#include "absl/strings/str_format.h"
#include "absl/strings/str_format.h"  // IWYU pragma: keep, macro definition
#include "absl/strings/str_join.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"
#include "absl/strings/string_view.h"
#include "absl/strings/string_view.h"   // IWYU pragma: keep
#include "absl/strings/string_view.h"  // IWYU pragma: keep, macro definition
#include "absl/strings/strip.h"
#include "absl/synchronization/barrier.h"
#include "absl/synchronization/mutex.h"
#include "absl/synchronization/notification.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "absl/types/source_location.h"
#include "absl/types/span.h"
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <functional>   // IWYU pragma: keep, macro definition
#include <initializer_list>
#include <iosfwd>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <memory>  // IWYU pragma: keep
#include <memory_resource>
#include <new>
#include <new>  // IWYU pragma: keep
#include <optional>
#include <ostream>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <thread>  // NOLINT
#include <thread>  // NOLINT(build/c++11)
#include <tuple>
#include <type_traits>
#include <type_traits>  // IWYU pragma: keep
#include <type_traits>  // IWYU pragma: keep, macro definition
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
