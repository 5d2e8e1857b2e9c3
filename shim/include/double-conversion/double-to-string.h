#pragma once
#include <charconv>
#include <cmath>
#include "double-conversion/utils.h"
namespace double_conversion {
class DoubleToStringConverter {
 public:
  enum Flags { NO_FLAGS = 0, EMIT_POSITIVE_EXPONENT_SIGN = 1, EMIT_TRAILING_DECIMAL_POINT = 2, EMIT_TRAILING_ZERO_AFTER_POINT = 4, UNIQUE_ZERO = 8 };
  DoubleToStringConverter(int flags, const char* inf, const char* nan, char e, int lo, int hi, int lead, int trail)
    : flags_(flags) { (void)inf; (void)nan; (void)e; (void)lo; (void)hi; (void)lead; (void)trail; }
  bool ToShortest(double v, StringBuilder* b) const { return Go(v, b); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return Go(v, b); }
 private:
  template <typename T> bool Go(T v, StringBuilder* b) const {
    if (std::isnan(v)) { b->AddString("nan"); return true; }
    if (std::isinf(v)) { b->AddString(v < 0 ? "-inf" : "inf"); return true; }
    char buf[64]; auto r = std::to_chars(buf, buf + 60, v); *r.ptr = 0; b->AddString(buf);
    if ((flags_ & EMIT_TRAILING_DECIMAL_POINT) && !std::strpbrk(buf, ".e")) b->AddString(".");
    return true;
  }
  int flags_;
};
}
