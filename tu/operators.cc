// Witness functions, analysed (never executed) by checks/Q01, Q02 and Q03: for
// every operator an `impl_` function calling it and a `ref_` function stating
// the documented meaning.
#include <cmath>
#include <cstdint>
#include <limits>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/qexpr/operators/bool/comparison.h"
#include "arolla/qexpr/operators/math/arithmetic.h"
#include "arolla/qexpr/operators/math/math.h"

namespace witness {
using arolla::OptionalUnit;

#define UNARY(G, T, NAME, OP, REF) \
  auto impl_##G##_##NAME##_##T(T x) { return arolla::OP()(x); } \
  T ref_##G##_##NAME##_##T(T x) { return REF; }
#define BINARY(G, T, NAME, OP, R, REF) \
  auto impl_##G##_##NAME##_##T(T x, T y) { return arolla::OP()(x, y); } \
  R ref_##G##_##NAME##_##T(T x, T y) { return REF; }

// ---- comparisons ----------------------------------------------------------
#define COMPARISONS(T) \
  BINARY(cmp, T, equal, EqualOp, bool, x == y) \
  BINARY(cmp, T, not_equal, NotEqualOp, bool, x != y) \
  BINARY(cmp, T, less, LessOp, bool, x < y) \
  BINARY(cmp, T, less_equal, LessEqualOp, bool, x <= y)
COMPARISONS(float)
COMPARISONS(double)
COMPARISONS(int32_t)
COMPARISONS(int64_t)
COMPARISONS(uint64_t)
COMPARISONS(bool)

// The maximum / minimum is a NaN whenever one of the operands is a NaN.
#define EXTREMA_F(T) \
  BINARY(cmp, T, max, MaxOp, T, (x != x) ? x : (y != y) ? y : (x >= y) ? x : y) \
  BINARY(cmp, T, min, MinOp, T, (x != x) ? x : (y != y) ? y : (x <= y) ? x : y)
EXTREMA_F(float)
EXTREMA_F(double)
#define EXTREMA_I(T) \
  BINARY(cmp, T, max, MaxOp, T, (x >= y) ? x : y) \
  BINARY(cmp, T, min, MinOp, T, (x <= y) ? x : y)
EXTREMA_I(int32_t)
EXTREMA_I(int64_t)
EXTREMA_I(uint64_t)
#define SIGN_F(T) UNARY(cmp, T, sign, SignOp, (x != x) ? x : (x > 0) ? T(1) : (x < 0) ? T(-1) : T(0))
SIGN_F(float)
SIGN_F(double)
#define SIGN_I(T) UNARY(cmp, T, sign, SignOp, (x > 0) ? T(1) : (x < 0) ? T(-1) : T(0))
SIGN_I(int32_t)
SIGN_I(int64_t)

// ---- integer arithmetic -----------------------------------------------------
#define INTS(T, U) \
  BINARY(int, T, add, AddOp, T, T(U(x) + U(y))) \
  BINARY(int, T, subtract, SubtractOp, T, T(U(x) - U(y))) \
  BINARY(int, T, multiply, MultiplyOp, T, T(U(x) * U(y))) \
  UNARY(int, T, neg, NegOp, T(U(0) - U(x))) \
  UNARY(int, T, pos, PosOp, x) \
  UNARY(int, T, abs, AbsOp, x < 0 ? T(U(0) - U(x)) : x) \
  auto impl_int_floordiv_##T(T x, T y) { return arolla::FloorDivOp()(x, y); } \
  absl::StatusOr<T> ref_int_floordiv_##T(T x, T y) { \
    if (y == 0) return absl::InvalidArgumentError(""); \
    if (y == -1) return T(U(0) - U(x)); \
    if (x % y != 0 && (x < 0) != (y < 0)) return T(x / y - 1); \
    return T(x / y); \
  } \
  auto impl_int_mod_##T(T x, T y) { return arolla::ModOp()(x, y); } \
  absl::StatusOr<T> ref_int_mod_##T(T x, T y) { \
    if (y == 0) return absl::InvalidArgumentError(""); \
    if (y == -1) return T(0); \
    if (x % y != 0 && (x < 0) != (y < 0)) return T(x % y + y); \
    return T(x % y); \
  }
INTS(int32_t, uint32_t)
INTS(int64_t, uint64_t)
auto impl_int_add3_int64_t(int64_t x, int64_t y) { return arolla::AddOp()(x, y, x); }
int64_t ref_int_add3_int64_t(int64_t x, int64_t y) { return int64_t(uint64_t(x) + uint64_t(y) + uint64_t(x)); }
auto impl_int_floordiv_uint64_t(uint64_t x, uint64_t y) { return arolla::FloorDivOp()(x, y); }
absl::StatusOr<uint64_t> ref_int_floordiv_uint64_t(uint64_t x, uint64_t y) {
  if (y == 0) return absl::InvalidArgumentError("");
  return x / y;
}
auto impl_int_mod_uint64_t(uint64_t x, uint64_t y) { return arolla::ModOp()(x, y); }
absl::StatusOr<uint64_t> ref_int_mod_uint64_t(uint64_t x, uint64_t y) {
  if (y == 0) return absl::InvalidArgumentError("");
  return x % y;
}

// ---- floating-point functions ---------------------------------------------------
#define FLOATS(T) \
  UNARY(flt, T, log, LogOp, std::log(x)) \
  UNARY(flt, T, log2, Log2Op, std::log2(x)) \
  UNARY(flt, T, log10, Log10Op, std::log10(x)) \
  UNARY(flt, T, log1p, Log1pOp, std::log1p(x)) \
  UNARY(flt, T, sqrt, SqrtOp, std::sqrt(x)) \
  UNARY(flt, T, exp, ExpOp, std::exp(x)) \
  UNARY(flt, T, expm1, Expm1Op, std::expm1(x)) \
  UNARY(flt, T, sin, SinOp, std::sin(x)) \
  UNARY(flt, T, cos, CosOp, std::cos(x)) \
  UNARY(flt, T, sinh, SinhOp, std::sinh(x)) \
  UNARY(flt, T, atan, AtanOp, std::atan(x)) \
  UNARY(flt, T, floor, FloorOp, std::floor(x)) \
  UNARY(flt, T, ceil, CeilOp, std::ceil(x)) \
  UNARY(flt, T, round, RoundOp, std::round(x)) \
  UNARY(flt, T, neg, NegOp, -x) \
  UNARY(flt, T, pos, PosOp, x) \
  UNARY(flt, T, abs, AbsOp, std::fabs(x)) \
  UNARY(flt, T, symlog1p, Symlog1pOp, x >= 0 ? std::log1p(x) : -std::log1p(-x)) \
  UNARY(flt, T, logit, LogitOp, std::log(x) - std::log1p(-x)) \
  UNARY(flt, T, log_sigmoid, LogSigmoidOp, x >= 0 ? -std::log1p(std::exp(-x)) : x - std::log1p(std::exp(x))) \
  auto impl_flt_sigmoid_##T(T x, T half, T slope) { return arolla::SigmoidOp()(x, half, slope); } \
  T ref_flt_sigmoid_##T(T x, T half, T slope) { return T(1) / (T(1) + std::exp(slope * (half - x))); } \
  BINARY(flt, T, pow, PowOp, T, std::pow(x, y)) \
  BINARY(flt, T, add, AddOp, T, x + y) \
  BINARY(flt, T, subtract, SubtractOp, T, x - y) \
  BINARY(flt, T, multiply, MultiplyOp, T, x * y) \
  BINARY(flt, T, divide, DivideOp, T, x / y) \
  BINARY(flt, T, fmod, FmodOp, T, std::fmod(x, y)) \
  auto impl_flt_floordiv_##T(T x, T y) { return arolla::FloorDivOp()(x, y); } \
  absl::StatusOr<T> ref_flt_floordiv_##T(T x, T y) { \
    if (y == 0) return absl::InvalidArgumentError(""); \
    T d = x / y; \
    if (d == 0) return (x != 0 && std::signbit(d)) ? T(-1) : d; \
    if (!std::isfinite(d)) return std::numeric_limits<T>::quiet_NaN(); \
    return std::floor(d); \
  } \
  auto impl_flt_mod_##T(T x, T y) { return arolla::ModOp()(x, y); } \
  absl::StatusOr<T> ref_flt_mod_##T(T x, T y) { \
    if (y == 0) return absl::InvalidArgumentError(""); \
    T d = x / y; \
    if (!std::isfinite(d)) return std::numeric_limits<T>::quiet_NaN(); \
    if (d != 0) return std::copysign(x - std::floor(d) * y, y); \
    if (x == 0 || (x > 0) == (y > 0)) return std::copysign(x, y); \
    return std::copysign(std::numeric_limits<T>::infinity(), y); \
  }
FLOATS(float)
FLOATS(double)

OptionalUnit impl_flt_is_nan(double x) { return arolla::IsNanOp()(x); }
OptionalUnit ref_flt_is_nan(double x) { return OptionalUnit{x != x}; }
OptionalUnit impl_flt_is_inf(double x) { return arolla::IsInfOp()(x); }
OptionalUnit ref_flt_is_inf(double x) { return OptionalUnit{std::isinf(x)}; }
OptionalUnit impl_flt_is_finite(double x) { return arolla::IsFiniteOp()(x); }
OptionalUnit ref_flt_is_finite(double x) { return OptionalUnit{std::isfinite(x)}; }
}  // namespace witness
