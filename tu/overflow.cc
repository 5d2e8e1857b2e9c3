// Witness functions, analysed (never executed) by checks/U07.py: every use
// of the overflow-checked helpers against the exact result in a wider type.
#include <cstdint>
#include "arolla/util/overflow.h"

namespace witness {
struct R {
  bool overflow;
  int64_t value;
};
struct RU {
  bool overflow;
  uint64_t value;
};

R impl_flag_add_int64_int64_int64(int64_t a, int64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_add<int64_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_add_int64_int64_int64(int64_t a, int64_t b, bool o) {
  int64_t v = 0;
  bool f = __builtin_add_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_add_int64_int64_int64(int64_t a, int64_t b) {
  return arolla::SafeAdd<int64_t>(a, b);
}
absl::StatusOr<int64_t> ref_status_add_int64_int64_int64(int64_t a, int64_t b) {
  int64_t v = 0;
  if (__builtin_add_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_mul_int64_int64_int64(int64_t a, int64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_mul<int64_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_mul_int64_int64_int64(int64_t a, int64_t b, bool o) {
  int64_t v = 0;
  bool f = __builtin_mul_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_mul_int64_int64_int64(int64_t a, int64_t b) {
  return arolla::SafeMul<int64_t>(a, b);
}
absl::StatusOr<int64_t> ref_status_mul_int64_int64_int64(int64_t a, int64_t b) {
  int64_t v = 0;
  if (__builtin_mul_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_add_int64_uint64_uint64(uint64_t a, uint64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_add<int64_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_add_int64_uint64_uint64(uint64_t a, uint64_t b, bool o) {
  int64_t v = 0;
  bool f = __builtin_add_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_add_int64_uint64_uint64(uint64_t a, uint64_t b) {
  return arolla::SafeAdd<int64_t>(a, b);
}
absl::StatusOr<int64_t> ref_status_add_int64_uint64_uint64(uint64_t a, uint64_t b) {
  int64_t v = 0;
  if (__builtin_add_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_mul_int64_uint64_uint64(uint64_t a, uint64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_mul<int64_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_mul_int64_uint64_uint64(uint64_t a, uint64_t b, bool o) {
  int64_t v = 0;
  bool f = __builtin_mul_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_mul_int64_uint64_uint64(uint64_t a, uint64_t b) {
  return arolla::SafeMul<int64_t>(a, b);
}
absl::StatusOr<int64_t> ref_status_mul_int64_uint64_uint64(uint64_t a, uint64_t b) {
  int64_t v = 0;
  if (__builtin_mul_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_add_int64_int64_uint64(int64_t a, uint64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_add<int64_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_add_int64_int64_uint64(int64_t a, uint64_t b, bool o) {
  int64_t v = 0;
  bool f = __builtin_add_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_add_int64_int64_uint64(int64_t a, uint64_t b) {
  return arolla::SafeAdd<int64_t>(a, b);
}
absl::StatusOr<int64_t> ref_status_add_int64_int64_uint64(int64_t a, uint64_t b) {
  int64_t v = 0;
  if (__builtin_add_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_mul_int64_int64_uint64(int64_t a, uint64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_mul<int64_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_mul_int64_int64_uint64(int64_t a, uint64_t b, bool o) {
  int64_t v = 0;
  bool f = __builtin_mul_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_mul_int64_int64_uint64(int64_t a, uint64_t b) {
  return arolla::SafeMul<int64_t>(a, b);
}
absl::StatusOr<int64_t> ref_status_mul_int64_int64_uint64(int64_t a, uint64_t b) {
  int64_t v = 0;
  if (__builtin_mul_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

RU impl_flag_add_uint64_uint64_uint64(uint64_t a, uint64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_add<uint64_t>(a, b, &overflow);
  if (overflow) return RU{true, 0};
  return RU{false, v};
}
RU ref_flag_add_uint64_uint64_uint64(uint64_t a, uint64_t b, bool o) {
  uint64_t v = 0;
  bool f = __builtin_add_overflow(a, b, &v);
  if (o) return RU{true, 0};
  if (f) return RU{true, 0};
  return RU{false, v};
}

absl::StatusOr<uint64_t> impl_status_add_uint64_uint64_uint64(uint64_t a, uint64_t b) {
  return arolla::SafeAdd<uint64_t>(a, b);
}
absl::StatusOr<uint64_t> ref_status_add_uint64_uint64_uint64(uint64_t a, uint64_t b) {
  uint64_t v = 0;
  if (__builtin_add_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

RU impl_flag_mul_uint64_uint64_uint64(uint64_t a, uint64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_mul<uint64_t>(a, b, &overflow);
  if (overflow) return RU{true, 0};
  return RU{false, v};
}
RU ref_flag_mul_uint64_uint64_uint64(uint64_t a, uint64_t b, bool o) {
  uint64_t v = 0;
  bool f = __builtin_mul_overflow(a, b, &v);
  if (o) return RU{true, 0};
  if (f) return RU{true, 0};
  return RU{false, v};
}

absl::StatusOr<uint64_t> impl_status_mul_uint64_uint64_uint64(uint64_t a, uint64_t b) {
  return arolla::SafeMul<uint64_t>(a, b);
}
absl::StatusOr<uint64_t> ref_status_mul_uint64_uint64_uint64(uint64_t a, uint64_t b) {
  uint64_t v = 0;
  if (__builtin_mul_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

RU impl_flag_add_uint64_int64_int64(int64_t a, int64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_add<uint64_t>(a, b, &overflow);
  if (overflow) return RU{true, 0};
  return RU{false, v};
}
RU ref_flag_add_uint64_int64_int64(int64_t a, int64_t b, bool o) {
  uint64_t v = 0;
  bool f = __builtin_add_overflow(a, b, &v);
  if (o) return RU{true, 0};
  if (f) return RU{true, 0};
  return RU{false, v};
}

absl::StatusOr<uint64_t> impl_status_add_uint64_int64_int64(int64_t a, int64_t b) {
  return arolla::SafeAdd<uint64_t>(a, b);
}
absl::StatusOr<uint64_t> ref_status_add_uint64_int64_int64(int64_t a, int64_t b) {
  uint64_t v = 0;
  if (__builtin_add_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

RU impl_flag_mul_uint64_int64_int64(int64_t a, int64_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_mul<uint64_t>(a, b, &overflow);
  if (overflow) return RU{true, 0};
  return RU{false, v};
}
RU ref_flag_mul_uint64_int64_int64(int64_t a, int64_t b, bool o) {
  uint64_t v = 0;
  bool f = __builtin_mul_overflow(a, b, &v);
  if (o) return RU{true, 0};
  if (f) return RU{true, 0};
  return RU{false, v};
}

absl::StatusOr<uint64_t> impl_status_mul_uint64_int64_int64(int64_t a, int64_t b) {
  return arolla::SafeMul<uint64_t>(a, b);
}
absl::StatusOr<uint64_t> ref_status_mul_uint64_int64_int64(int64_t a, int64_t b) {
  uint64_t v = 0;
  if (__builtin_mul_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_add_int32_int64_int32(int64_t a, int32_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_add<int32_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_add_int32_int64_int32(int64_t a, int32_t b, bool o) {
  int32_t v = 0;
  bool f = __builtin_add_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int32_t> impl_status_add_int32_int64_int32(int64_t a, int32_t b) {
  return arolla::SafeAdd<int32_t>(a, b);
}
absl::StatusOr<int32_t> ref_status_add_int32_int64_int32(int64_t a, int32_t b) {
  int32_t v = 0;
  if (__builtin_add_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_mul_int32_int64_int32(int64_t a, int32_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_mul<int32_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_mul_int32_int64_int32(int64_t a, int32_t b, bool o) {
  int32_t v = 0;
  bool f = __builtin_mul_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int32_t> impl_status_mul_int32_int64_int32(int64_t a, int32_t b) {
  return arolla::SafeMul<int32_t>(a, b);
}
absl::StatusOr<int32_t> ref_status_mul_int32_int64_int32(int64_t a, int32_t b) {
  int32_t v = 0;
  if (__builtin_mul_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_add_int64_int32_int32(int32_t a, int32_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_add<int64_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_add_int64_int32_int32(int32_t a, int32_t b, bool o) {
  int64_t v = 0;
  bool f = __builtin_add_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_add_int64_int32_int32(int32_t a, int32_t b) {
  return arolla::SafeAdd<int64_t>(a, b);
}
absl::StatusOr<int64_t> ref_status_add_int64_int32_int32(int32_t a, int32_t b) {
  int64_t v = 0;
  if (__builtin_add_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_mul_int64_int32_int32(int32_t a, int32_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_mul<int64_t>(a, b, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_mul_int64_int32_int32(int32_t a, int32_t b, bool o) {
  int64_t v = 0;
  bool f = __builtin_mul_overflow(a, b, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_mul_int64_int32_int32(int32_t a, int32_t b) {
  return arolla::SafeMul<int64_t>(a, b);
}
absl::StatusOr<int64_t> ref_status_mul_int64_int32_int32(int32_t a, int32_t b) {
  int64_t v = 0;
  if (__builtin_mul_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

RU impl_flag_add_uint32_int32_uint32(int32_t a, uint32_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_add<uint32_t>(a, b, &overflow);
  if (overflow) return RU{true, 0};
  return RU{false, v};
}
RU ref_flag_add_uint32_int32_uint32(int32_t a, uint32_t b, bool o) {
  uint32_t v = 0;
  bool f = __builtin_add_overflow(a, b, &v);
  if (o) return RU{true, 0};
  if (f) return RU{true, 0};
  return RU{false, v};
}

absl::StatusOr<uint32_t> impl_status_add_uint32_int32_uint32(int32_t a, uint32_t b) {
  return arolla::SafeAdd<uint32_t>(a, b);
}
absl::StatusOr<uint32_t> ref_status_add_uint32_int32_uint32(int32_t a, uint32_t b) {
  uint32_t v = 0;
  if (__builtin_add_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

RU impl_flag_mul_uint32_int32_uint32(int32_t a, uint32_t b, bool o) {
  bool overflow = o;
  auto v = arolla::safe_mul<uint32_t>(a, b, &overflow);
  if (overflow) return RU{true, 0};
  return RU{false, v};
}
RU ref_flag_mul_uint32_int32_uint32(int32_t a, uint32_t b, bool o) {
  uint32_t v = 0;
  bool f = __builtin_mul_overflow(a, b, &v);
  if (o) return RU{true, 0};
  if (f) return RU{true, 0};
  return RU{false, v};
}

absl::StatusOr<uint32_t> impl_status_mul_uint32_int32_uint32(int32_t a, uint32_t b) {
  return arolla::SafeMul<uint32_t>(a, b);
}
absl::StatusOr<uint32_t> ref_status_mul_uint32_int32_uint32(int32_t a, uint32_t b) {
  uint32_t v = 0;
  if (__builtin_mul_overflow(a, b, &v)) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_abs_int64_int64(int64_t a, bool o) {
  bool overflow = o;
  auto v = arolla::safe_abs<int64_t>(a, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_abs_int64_int64(int64_t a, bool o) {
  int64_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_abs_int64_int64(int64_t a) {
  return arolla::SafeAbs<int64_t>(a);
}
absl::StatusOr<int64_t> ref_status_abs_int64_int64(int64_t a) {
  int64_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (f) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_abs_int64_uint64(uint64_t a, bool o) {
  bool overflow = o;
  auto v = arolla::safe_abs<int64_t>(a, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_abs_int64_uint64(uint64_t a, bool o) {
  int64_t v = 0;
  bool f = __builtin_add_overflow(a, int64_t{0}, &v);
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_abs_int64_uint64(uint64_t a) {
  return arolla::SafeAbs<int64_t>(a);
}
absl::StatusOr<int64_t> ref_status_abs_int64_uint64(uint64_t a) {
  int64_t v = 0;
  bool f = __builtin_add_overflow(a, int64_t{0}, &v);
  if (f) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_abs_int32_int64(int64_t a, bool o) {
  bool overflow = o;
  auto v = arolla::safe_abs<int32_t>(a, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_abs_int32_int64(int64_t a, bool o) {
  int32_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int32_t> impl_status_abs_int32_int64(int64_t a) {
  return arolla::SafeAbs<int32_t>(a);
}
absl::StatusOr<int32_t> ref_status_abs_int32_int64(int64_t a) {
  int32_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (f) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_abs_int32_int32(int32_t a, bool o) {
  bool overflow = o;
  auto v = arolla::safe_abs<int32_t>(a, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_abs_int32_int32(int32_t a, bool o) {
  int32_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int32_t> impl_status_abs_int32_int32(int32_t a) {
  return arolla::SafeAbs<int32_t>(a);
}
absl::StatusOr<int32_t> ref_status_abs_int32_int32(int32_t a) {
  int32_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (f) return absl::InvalidArgumentError("");
  return v;
}

RU impl_flag_abs_uint64_int64(int64_t a, bool o) {
  bool overflow = o;
  auto v = arolla::safe_abs<uint64_t>(a, &overflow);
  if (overflow) return RU{true, 0};
  return RU{false, v};
}
RU ref_flag_abs_uint64_int64(int64_t a, bool o) {
  uint64_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (o) return RU{true, 0};
  if (f) return RU{true, 0};
  return RU{false, v};
}

absl::StatusOr<uint64_t> impl_status_abs_uint64_int64(int64_t a) {
  return arolla::SafeAbs<uint64_t>(a);
}
absl::StatusOr<uint64_t> ref_status_abs_uint64_int64(int64_t a) {
  uint64_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (f) return absl::InvalidArgumentError("");
  return v;
}

RU impl_flag_abs_uint32_int32(int32_t a, bool o) {
  bool overflow = o;
  auto v = arolla::safe_abs<uint32_t>(a, &overflow);
  if (overflow) return RU{true, 0};
  return RU{false, v};
}
RU ref_flag_abs_uint32_int32(int32_t a, bool o) {
  uint32_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (o) return RU{true, 0};
  if (f) return RU{true, 0};
  return RU{false, v};
}

absl::StatusOr<uint32_t> impl_status_abs_uint32_int32(int32_t a) {
  return arolla::SafeAbs<uint32_t>(a);
}
absl::StatusOr<uint32_t> ref_status_abs_uint32_int32(int32_t a) {
  uint32_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (f) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_abs_int64_int32(int32_t a, bool o) {
  bool overflow = o;
  auto v = arolla::safe_abs<int64_t>(a, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_abs_int64_int32(int32_t a, bool o) {
  int64_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_abs_int64_int32(int32_t a) {
  return arolla::SafeAbs<int64_t>(a);
}
absl::StatusOr<int64_t> ref_status_abs_int64_int32(int32_t a) {
  int64_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (f) return absl::InvalidArgumentError("");
  return v;
}

R impl_flag_abs_int64_int8(int8_t a, bool o) {
  bool overflow = o;
  auto v = arolla::safe_abs<int64_t>(a, &overflow);
  if (overflow) return R{true, 0};
  return R{false, v};
}
R ref_flag_abs_int64_int8(int8_t a, bool o) {
  int64_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (o) return R{true, 0};
  if (f) return R{true, 0};
  return R{false, v};
}

absl::StatusOr<int64_t> impl_status_abs_int64_int8(int8_t a) {
  return arolla::SafeAbs<int64_t>(a);
}
absl::StatusOr<int64_t> ref_status_abs_int64_int8(int8_t a) {
  int64_t v = 0;
  bool f = false;
  if (a < 0) {
    f = __builtin_sub_overflow(int64_t{0}, a, &v);
  } else {
    f = __builtin_add_overflow(a, int64_t{0}, &v);
  }
  if (f) return absl::InvalidArgumentError("");
  return v;
}

RU impl_flag_abs_uint64_uint64(uint64_t a, bool o) {
  bool overflow = o;
  auto v = arolla::safe_abs<uint64_t>(a, &overflow);
  if (overflow) return RU{true, 0};
  return RU{false, v};
}
RU ref_flag_abs_uint64_uint64(uint64_t a, bool o) {
  uint64_t v = 0;
  bool f = __builtin_add_overflow(a, int64_t{0}, &v);
  if (o) return RU{true, 0};
  if (f) return RU{true, 0};
  return RU{false, v};
}

absl::StatusOr<uint64_t> impl_status_abs_uint64_uint64(uint64_t a) {
  return arolla::SafeAbs<uint64_t>(a);
}
absl::StatusOr<uint64_t> ref_status_abs_uint64_uint64(uint64_t a) {
  uint64_t v = 0;
  bool f = __builtin_add_overflow(a, int64_t{0}, &v);
  if (f) return absl::InvalidArgumentError("");
  return v;
}

}  // namespace witness
