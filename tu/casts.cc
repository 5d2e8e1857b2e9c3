// Witness functions, analysed (never executed) by checks/Q05 and Q06: numeric
// casts and bitwise operators.
#include <cstdint>
#include <type_traits>
#include "arolla/qexpr/operators/bitwise/bitwise.h"
#include "arolla/qexpr/operators/core/cast_operator.h"

namespace witness {
// A conversion every source value survives (the result is exact, or rounded
// for floating-point destinations).
#define TOTAL(S, D) \
  D impl_cast_##S##_to_##D(S x) { return arolla::CastOp<D>()(x); } \
  D ref_cast_##S##_to_##D(S x) { return static_cast<D>(x); }
// A conversion defined exactly for lo <= x <= hi.
#define PARTIAL(S, D, GOOD) \
  absl::StatusOr<D> impl_cast_##S##_to_##D(S x) { return arolla::CastOp<D>()(x); } \
  absl::StatusOr<D> ref_cast_##S##_to_##D(S x) { \
    if (GOOD) return static_cast<D>(x); \
    return absl::InvalidArgumentError(""); \
  }

TOTAL(bool, int32_t) TOTAL(bool, int64_t) TOTAL(bool, uint64_t) TOTAL(bool, float) TOTAL(bool, double)
TOTAL(int32_t, int64_t) TOTAL(int32_t, float) TOTAL(int32_t, double)
TOTAL(int64_t, float) TOTAL(int64_t, double)
TOTAL(uint64_t, float) TOTAL(uint64_t, double)
TOTAL(float, double) TOTAL(double, float)
TOTAL(bool, bool) TOTAL(int32_t, int32_t) TOTAL(int64_t, int64_t) TOTAL(uint64_t, uint64_t) TOTAL(float, float) TOTAL(double, double)
PARTIAL(int32_t, bool, x >= 0 && x <= 1) PARTIAL(int64_t, bool, x >= 0 && x <= 1) PARTIAL(uint64_t, bool, x <= 1)
PARTIAL(int32_t, uint64_t, x >= 0)
PARTIAL(int64_t, int32_t, x >= -2147483648ll && x <= 2147483647ll)
PARTIAL(int64_t, uint64_t, x >= 0)
PARTIAL(uint64_t, int32_t, x <= 2147483647ull)
PARTIAL(uint64_t, int64_t, x <= 9223372036854775807ull)
PARTIAL(float, int32_t, x >= -0x1p31f && x < 0x1p31f)
PARTIAL(float, int64_t, x >= -0x1p63f && x < 0x1p63f)
PARTIAL(float, uint64_t, x >= 0.0f && x < 0x1p64f)
PARTIAL(double, int32_t, x > -0x1.00000002p31 && x < 0x1p31)
PARTIAL(double, int64_t, x >= -0x1p63 && x < 0x1p63)
PARTIAL(double, uint64_t, x >= 0.0 && x < 0x1p64)

#define BITS(T, U) \
  T impl_bit_and_##T(T x, T y) { return arolla::BitwiseAndOp()(x, y); } \
  T ref_bit_and_##T(T x, T y) { return x & y; } \
  T impl_bit_or_##T(T x, T y) { return arolla::BitwiseOrOp()(x, y); } \
  T ref_bit_or_##T(T x, T y) { return x | y; } \
  T impl_bit_xor_##T(T x, T y) { return arolla::BitwiseXorOp()(x, y); } \
  T ref_bit_xor_##T(T x, T y) { return x ^ y; } \
  T impl_bit_invert_##T(T x) { return arolla::InvertOp()(x); } \
  T ref_bit_invert_##T(T x) { return ~x; } \
  int impl_bit_count_##T(T x) { return arolla::BitwiseCountOp()(x); } \
  int ref_bit_count_##T(T x) { return __builtin_popcountll(static_cast<U>(x)); }
BITS(int32_t, uint32_t)
BITS(int64_t, uint64_t)
}  // namespace witness
