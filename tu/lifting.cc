// Witness functions, analysed (never executed) by checks/U05: every way of
// marking arguments as not lifted.  The function captured is built with the
// arguments a*, and called with b*: an argument must come from a* if it is marked
// DoNotLiftTag and from b* otherwise, in its own position.
#include <cmath>
#include "arolla/qexpr/lifting.h"

namespace witness {
template <class T>
using ConstRef = const T&;
template <class T>
using Value = T;
using arolla::DoNotLiftTag;
using arolla::LiftingTools;

struct F1 { float operator()(float x0) const { return x0; } };
struct F2 { float operator()(float x0, float x1) const { return std::fmod(x0, x1); } };
struct F3 { float operator()(float x0, float x1, float x2) const { return std::fmod(x0, std::fmod(x1, x2)); } };
struct F4 { float operator()(float x0, float x1, float x2, float x3) const { return std::fmod(x0, std::fmod(x1, std::fmod(x2, x3))); } };
struct F6 { float operator()(float x0, float x1, float x2, float x3, float x4, float x5) const { return std::fmod(x0, std::fmod(x1, std::fmod(x2, std::fmod(x3, std::fmod(x4, x5))))); } };
struct F36 { float operator()(float x0, float x1, float x2, float x3, float x4, float x5, float x6, float x7, float x8, float x9, float x10, float x11, float x12, float x13, float x14, float x15, float x16, float x17, float x18, float x19, float x20, float x21, float x22, float x23, float x24, float x25, float x26, float x27, float x28, float x29, float x30, float x31, float x32, float x33, float x34, float x35) const { return std::fmod(x0, std::fmod(x1, std::fmod(x2, std::fmod(x3, std::fmod(x4, std::fmod(x5, std::fmod(x6, std::fmod(x7, std::fmod(x8, std::fmod(x9, std::fmod(x10, std::fmod(x11, std::fmod(x12, std::fmod(x13, std::fmod(x14, std::fmod(x15, std::fmod(x16, std::fmod(x17, std::fmod(x18, std::fmod(x19, std::fmod(x20, std::fmod(x21, std::fmod(x22, std::fmod(x23, std::fmod(x24, std::fmod(x25, std::fmod(x26, std::fmod(x27, std::fmod(x28, std::fmod(x29, std::fmod(x30, std::fmod(x31, std::fmod(x32, std::fmod(x33, std::fmod(x34, x35))))))))))))))))))))))))))))))))))); } };
float impl_lift_1_0_ConstRef(float a0, float b0) {
  using Tools = LiftingTools<float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F1(), a0), b0);
}
float ref_lift_1_0_ConstRef(float a0, float b0) { return F1()(b0); }
float impl_lift_1_0_Value(float a0, float b0) {
  using Tools = LiftingTools<float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F1(), a0), b0);
}
float ref_lift_1_0_Value(float a0, float b0) { return F1()(b0); }
float impl_lift_1_1_ConstRef(float a0, float b0) {
  using Tools = LiftingTools<DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F1(), a0), b0);
}
float ref_lift_1_1_ConstRef(float a0, float b0) { return F1()(a0); }
float impl_lift_1_1_Value(float a0, float b0) {
  using Tools = LiftingTools<DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F1(), a0), b0);
}
float ref_lift_1_1_Value(float a0, float b0) { return F1()(a0); }
float impl_lift_2_00_ConstRef(float a0, float a1, float b0, float b1) {
  using Tools = LiftingTools<float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F2(), a0, a1), b0, b1);
}
float ref_lift_2_00_ConstRef(float a0, float a1, float b0, float b1) { return F2()(b0, b1); }
float impl_lift_2_00_Value(float a0, float a1, float b0, float b1) {
  using Tools = LiftingTools<float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F2(), a0, a1), b0, b1);
}
float ref_lift_2_00_Value(float a0, float a1, float b0, float b1) { return F2()(b0, b1); }
float impl_lift_2_01_ConstRef(float a0, float a1, float b0, float b1) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F2(), a0, a1), b0, b1);
}
float ref_lift_2_01_ConstRef(float a0, float a1, float b0, float b1) { return F2()(b0, a1); }
float impl_lift_2_01_Value(float a0, float a1, float b0, float b1) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F2(), a0, a1), b0, b1);
}
float ref_lift_2_01_Value(float a0, float a1, float b0, float b1) { return F2()(b0, a1); }
float impl_lift_2_10_ConstRef(float a0, float a1, float b0, float b1) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F2(), a0, a1), b0, b1);
}
float ref_lift_2_10_ConstRef(float a0, float a1, float b0, float b1) { return F2()(a0, b1); }
float impl_lift_2_10_Value(float a0, float a1, float b0, float b1) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F2(), a0, a1), b0, b1);
}
float ref_lift_2_10_Value(float a0, float a1, float b0, float b1) { return F2()(a0, b1); }
float impl_lift_2_11_ConstRef(float a0, float a1, float b0, float b1) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F2(), a0, a1), b0, b1);
}
float ref_lift_2_11_ConstRef(float a0, float a1, float b0, float b1) { return F2()(a0, a1); }
float impl_lift_2_11_Value(float a0, float a1, float b0, float b1) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F2(), a0, a1), b0, b1);
}
float ref_lift_2_11_Value(float a0, float a1, float b0, float b1) { return F2()(a0, a1); }
float impl_lift_3_000_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<float, float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_000_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(b0, b1, b2); }
float impl_lift_3_000_Value(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<float, float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_000_Value(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(b0, b1, b2); }
float impl_lift_3_001_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<float, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_001_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(b0, b1, a2); }
float impl_lift_3_001_Value(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<float, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_001_Value(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(b0, b1, a2); }
float impl_lift_3_010_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_010_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(b0, a1, b2); }
float impl_lift_3_010_Value(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_010_Value(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(b0, a1, b2); }
float impl_lift_3_011_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_011_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(b0, a1, a2); }
float impl_lift_3_011_Value(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_011_Value(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(b0, a1, a2); }
float impl_lift_3_100_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_100_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(a0, b1, b2); }
float impl_lift_3_100_Value(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_100_Value(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(a0, b1, b2); }
float impl_lift_3_101_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_101_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(a0, b1, a2); }
float impl_lift_3_101_Value(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_101_Value(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(a0, b1, a2); }
float impl_lift_3_110_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_110_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(a0, a1, b2); }
float impl_lift_3_110_Value(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_110_Value(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(a0, a1, b2); }
float impl_lift_3_111_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_111_ConstRef(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(a0, a1, a2); }
float impl_lift_3_111_Value(float a0, float a1, float a2, float b0, float b1, float b2) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<Value>(F3(), a0, a1, a2), b0, b1, b2);
}
float ref_lift_3_111_Value(float a0, float a1, float a2, float b0, float b1, float b2) { return F3()(a0, a1, a2); }
float impl_lift_4_0000_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<float, float, float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_0000_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(b0, b1, b2, b3); }
float impl_lift_4_0001_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<float, float, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_0001_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(b0, b1, b2, a3); }
float impl_lift_4_0010_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<float, float, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_0010_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(b0, b1, a2, b3); }
float impl_lift_4_0011_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<float, float, DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_0011_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(b0, b1, a2, a3); }
float impl_lift_4_0100_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_0100_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(b0, a1, b2, b3); }
float impl_lift_4_0101_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_0101_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(b0, a1, b2, a3); }
float impl_lift_4_0110_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_0110_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(b0, a1, a2, b3); }
float impl_lift_4_0111_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_0111_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(b0, a1, a2, a3); }
float impl_lift_4_1000_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float, float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_1000_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(a0, b1, b2, b3); }
float impl_lift_4_1001_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_1001_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(a0, b1, b2, a3); }
float impl_lift_4_1010_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_1010_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(a0, b1, a2, b3); }
float impl_lift_4_1011_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float, DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_1011_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(a0, b1, a2, a3); }
float impl_lift_4_1100_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>, float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_1100_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(a0, a1, b2, b3); }
float impl_lift_4_1101_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_1101_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(a0, a1, b2, a3); }
float impl_lift_4_1110_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_1110_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(a0, a1, a2, b3); }
float impl_lift_4_1111_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>, DoNotLiftTag<float>, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F4(), a0, a1, a2, a3), b0, b1, b2, b3);
}
float ref_lift_4_1111_ConstRef(float a0, float a1, float a2, float a3, float b0, float b1, float b2, float b3) { return F4()(a0, a1, a2, a3); }
float impl_lift_6_111110_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float b0, float b1, float b2, float b3, float b4, float b5) {
  using Tools = LiftingTools<DoNotLiftTag<float>, DoNotLiftTag<float>, DoNotLiftTag<float>, DoNotLiftTag<float>, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F6(), a0, a1, a2, a3, a4, a5), b0, b1, b2, b3, b4, b5);
}
float ref_lift_6_111110_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float b0, float b1, float b2, float b3, float b4, float b5) { return F6()(a0, a1, a2, a3, a4, b5); }
float impl_lift_6_000001_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float b0, float b1, float b2, float b3, float b4, float b5) {
  using Tools = LiftingTools<float, float, float, float, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F6(), a0, a1, a2, a3, a4, a5), b0, b1, b2, b3, b4, b5);
}
float ref_lift_6_000001_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float b0, float b1, float b2, float b3, float b4, float b5) { return F6()(b0, b1, b2, b3, b4, a5); }
float impl_lift_6_011010_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float b0, float b1, float b2, float b3, float b4, float b5) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, DoNotLiftTag<float>, float, DoNotLiftTag<float>, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F6(), a0, a1, a2, a3, a4, a5), b0, b1, b2, b3, b4, b5);
}
float ref_lift_6_011010_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float b0, float b1, float b2, float b3, float b4, float b5) { return F6()(b0, a1, a2, b3, a4, b5); }
float impl_lift_6_100101_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float b0, float b1, float b2, float b3, float b4, float b5) {
  using Tools = LiftingTools<DoNotLiftTag<float>, float, float, DoNotLiftTag<float>, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F6(), a0, a1, a2, a3, a4, a5), b0, b1, b2, b3, b4, b5);
}
float ref_lift_6_100101_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float b0, float b1, float b2, float b3, float b4, float b5) { return F6()(a0, b1, b2, a3, b4, a5); }
float impl_lift_36_33_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float a6, float a7, float a8, float a9, float a10, float a11, float a12, float a13, float a14, float a15, float a16, float a17, float a18, float a19, float a20, float a21, float a22, float a23, float a24, float a25, float a26, float a27, float a28, float a29, float a30, float a31, float a32, float a33, float a34, float a35, float b0, float b1, float b2, float b3, float b4, float b5, float b6, float b7, float b8, float b9, float b10, float b11, float b12, float b13, float b14, float b15, float b16, float b17, float b18, float b19, float b20, float b21, float b22, float b23, float b24, float b25, float b26, float b27, float b28, float b29, float b30, float b31, float b32, float b33, float b34, float b35) {
  using Tools = LiftingTools<float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, DoNotLiftTag<float>, float, float>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F36(), a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35), b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23, b24, b25, b26, b27, b28, b29, b30, b31, b32, b33, b34, b35);
}
float ref_lift_36_33_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float a6, float a7, float a8, float a9, float a10, float a11, float a12, float a13, float a14, float a15, float a16, float a17, float a18, float a19, float a20, float a21, float a22, float a23, float a24, float a25, float a26, float a27, float a28, float a29, float a30, float a31, float a32, float a33, float a34, float a35, float b0, float b1, float b2, float b3, float b4, float b5, float b6, float b7, float b8, float b9, float b10, float b11, float b12, float b13, float b14, float b15, float b16, float b17, float b18, float b19, float b20, float b21, float b22, float b23, float b24, float b25, float b26, float b27, float b28, float b29, float b30, float b31, float b32, float b33, float b34, float b35) { return F36()(b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23, b24, b25, b26, b27, b28, b29, b30, b31, b32, a33, b34, b35); }
float impl_lift_36_1_32_35_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float a6, float a7, float a8, float a9, float a10, float a11, float a12, float a13, float a14, float a15, float a16, float a17, float a18, float a19, float a20, float a21, float a22, float a23, float a24, float a25, float a26, float a27, float a28, float a29, float a30, float a31, float a32, float a33, float a34, float a35, float b0, float b1, float b2, float b3, float b4, float b5, float b6, float b7, float b8, float b9, float b10, float b11, float b12, float b13, float b14, float b15, float b16, float b17, float b18, float b19, float b20, float b21, float b22, float b23, float b24, float b25, float b26, float b27, float b28, float b29, float b30, float b31, float b32, float b33, float b34, float b35) {
  using Tools = LiftingTools<float, DoNotLiftTag<float>, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, DoNotLiftTag<float>, float, float, DoNotLiftTag<float>>;
  return Tools::CallOnLiftedArgs(Tools::CreateFnWithDontLiftCaptured<ConstRef>(F36(), a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31, a32, a33, a34, a35), b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23, b24, b25, b26, b27, b28, b29, b30, b31, b32, b33, b34, b35);
}
float ref_lift_36_1_32_35_ConstRef(float a0, float a1, float a2, float a3, float a4, float a5, float a6, float a7, float a8, float a9, float a10, float a11, float a12, float a13, float a14, float a15, float a16, float a17, float a18, float a19, float a20, float a21, float a22, float a23, float a24, float a25, float a26, float a27, float a28, float a29, float a30, float a31, float a32, float a33, float a34, float a35, float b0, float b1, float b2, float b3, float b4, float b5, float b6, float b7, float b8, float b9, float b10, float b11, float b12, float b13, float b14, float b15, float b16, float b17, float b18, float b19, float b20, float b21, float b22, float b23, float b24, float b25, float b26, float b27, float b28, float b29, float b30, float b31, float b32, float b33, float b34, float b35) { return F36()(b0, a1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23, b24, b25, b26, b27, b28, b29, b30, b31, a32, b33, b34, a35); }
}  // namespace witness
