// Binary searches.
#include <cstddef>
#include <cstdint>

#include "absl/types/span.h"
#include "arolla/util/binary_search.cc"
#include "arolla/util/binary_search.h"

namespace witness {

size_t lo_f32(float v, absl::Span<const float> a) {
  return arolla::LowerBound(v, a);
}
size_t lo_f64(double v, absl::Span<const double> a) {
  return arolla::LowerBound(v, a);
}
size_t lo_i32(int32_t v, absl::Span<const int32_t> a) {
  return arolla::LowerBound(v, a);
}
size_t lo_i64(int64_t v, absl::Span<const int64_t> a) {
  return arolla::LowerBound(v, a);
}
size_t up_f32(float v, absl::Span<const float> a) {
  return arolla::UpperBound(v, a);
}
size_t up_f64(double v, absl::Span<const double> a) {
  return arolla::UpperBound(v, a);
}
size_t up_i32(int32_t v, absl::Span<const int32_t> a) {
  return arolla::UpperBound(v, a);
}
size_t up_i64(int64_t v, absl::Span<const int64_t> a) {
  return arolla::UpperBound(v, a);
}
const float* ga_f32(float v, const float* begin, const float* end) {
  return arolla::GallopingLowerBound(begin, end, v);
}
const int64_t* ga_i64(int64_t v, const int64_t* begin, const int64_t* end) {
  return arolla::GallopingLowerBound(begin, end, v);
}

}  // namespace witness
