// Witness functions, analysed (never executed) by checks/Q04: the presence
// semantics of optional values and of the operators over them.
#include <cstdint>
#include "arolla/memory/optional_value.h"
#include "arolla/qexpr/operators/bool/logic.h"
#include "arolla/qexpr/operators/core/cast_operator.h"
#include "arolla/qexpr/operators/core/logic_operators.h"

namespace witness {
using arolla::OptionalUnit;
using arolla::OptionalValue;
using arolla::Unit;
using OB = OptionalValue<bool>;
using OI = OptionalValue<int64_t>;
using OF = OptionalValue<float>;
using OU = OptionalUnit;

#define CASE(R, NAME, PARAMS, IMPL, REF) \
  R impl_opt_##NAME PARAMS { return IMPL; } \
  R ref_opt_##NAME PARAMS { return REF; }
#define LAW(R, NAME, PARAMS, IMPL, ...) \
  R impl_opt_##NAME PARAMS { return IMPL; } \
  R ref_opt_##NAME PARAMS { __VA_ARGS__ }

// ---- optional values themselves ------------------------------------------------
LAW(bool, eq, (const OF& a, const OF& b), a == b, if (a.present != b.present) return false; if (!a.present) return true; return a.value == b.value;)
LAW(bool, ne, (const OF& a, const OF& b), a != b, if (a.present != b.present) return true; if (!a.present) return false; return !(a.value == b.value);)
LAW(bool, eq_value, (const OF& a, const float& b), a == b, if (!a.present) return false; return a.value == b;)
LAW(bool, value_eq, (const float& a, const OF& b), a == b, if (!b.present) return false; return a == b.value;)
LAW(bool, ne_value, (const OF& a, const float& b), a != b, if (!a.present) return true; return !(a.value == b);)
LAW(bool, value_ne, (const float& a, const OF& b), a != b, if (!b.present) return true; return !(a == b.value);)
CASE(bool, eq_null, (const OF& a), a == std::nullopt, a.present ? false : true)
CASE(bool, ne_null, (const OF& a), a != std::nullopt, a.present ? true : false)
CASE(bool, null_eq, (const OF& a), std::nullopt == a, a.present ? false : true)
CASE(bool, null_ne, (const OF& a), std::nullopt != a, a.present ? true : false)
CASE(bool, unit_eq, (const OU& a, const OU& b), a == b, a.present == b.present)
CASE(bool, unit_eq_unit, (const OU& a, const Unit& b), a == b, a.present)
CASE(bool, truth, (const OF& a), static_cast<bool>(a), a.present)
CASE(bool, unit_truth, (const OU& a), static_cast<bool>(a), a.present)
CASE(bool, default_present, (const OF& a), OF().present, false)
CASE(bool, null_present, (const OF& a), OF(std::nullopt).present, false)
CASE(bool, value_present, (float v), OF(v).present, true)
CASE(float, value_value, (float v), OF(v).value, v)
CASE(bool, unit_from_bool, (bool p), OU(p).present, p)
CASE(bool, unit_default, (bool p), OU().present, false)
CASE(bool, unit_from_unit, (bool p), OU(Unit{}).present, true)
CASE(bool, unit_from_null, (bool p), OU(std::nullopt).present, false)
LAW(OF, assign, (float v), ([&] { OF x; x = v; return x; }()), return OF(true, v);)
CASE(OF, make, (float v), arolla::MakeOptionalValue(v), OF(true, v))
LAW(bool, present_const, (bool p), arolla::kPresent.present && !arolla::kMissing.present, return true;)

// ---- three-valued logic -----------------------------------------------------------
CASE(bool, and_bool, (bool a, bool b), arolla::LogicalAndOp()(a, b), a ? b : false)
CASE(bool, or_bool, (bool a, bool b), arolla::LogicalOrOp()(a, b), a ? true : b)
CASE(bool, not_bool, (bool a), arolla::LogicalNotOp()(a), a ? false : true)
LAW(OB, and_, (const OB& a, const OB& b), arolla::LogicalAndOp()(a, b),
    if (a.present && !a.value) return OB(true, false); if (b.present && !b.value) return OB(true, false);
    if (a.present && b.present) return OB(true, true); return OB();)
LAW(OB, or_, (const OB& a, const OB& b), arolla::LogicalOrOp()(a, b),
    if (a.present && a.value) return OB(true, true); if (b.present && b.value) return OB(true, true);
    if (a.present && b.present) return OB(true, false); return OB();)
LAW(float, if_, (const OB& c, const float& t, const float& f, const float& m), arolla::LogicalIfOp()(c, t, f, m),
    if (!c.present) return m; if (c.value) return t; return f;)
LAW(OF, if_opt, (const OB& c, const OF& t, const OF& f, const OF& m), arolla::LogicalIfOp()(c, t, f, m),
    if (!c.present) return m; if (c.value) return t; return f;)
LAW(float, if_lazy, (const OB& c, const float& t, const float& f, const float& m),
    arolla::LogicalIfOp()(c, [&] { return t; }, [&] { return f; }, [&] { return m; }),
    if (!c.present) return m; if (c.value) return t; return f;)

// ---- presence operators --------------------------------------------------------------
CASE(OU, has, (const OF& a), arolla::HasOp()(a), OU(a.present))
CASE(OU, not_, (const OF& a), arolla::PresenceNotOp()(a), OU(!a.present))
CASE(float, or_value, (const OF& a, const float& b), arolla::PresenceOrOp()(a, b), a.present ? a.value : b)
LAW(OF, or_opt, (const OF& a, const OF& b), arolla::PresenceOrOp()(a, b), if (a.present) return a; return b;)
CASE(float, value_or_opt, (const float& a, const OF& b), arolla::PresenceOrOp()(a, b), a)
CASE(float, value_or_value, (const float& a, const float& b), arolla::PresenceOrOp()(a, b), a)
CASE(float, or_lazy, (const OF& a, const float& b), arolla::PresenceOrOp()(a, [&] { return b; }), a.present ? a.value : b)
LAW(OF, or_lazy_opt, (const OF& a, const OF& b), arolla::PresenceOrOp()(a, [&] { return b; }), if (a.present) return a; return b;)
CASE(float, and_unit, (const float& a), arolla::PresenceAndOp()(a, Unit{}), a)
LAW(OF, and_value, (const float& a, OU b), arolla::PresenceAndOp()(a, b), if (b.present) return OF(true, a); return OF();)
LAW(OF, and_opt, (const OF& a, OU b), arolla::PresenceAndOp()(a, b), if (b.present) return a; return OF();)
LAW(OF, and_lazy, (const float& a, OU b), arolla::PresenceAndOp()([&] { return a; }, b), if (b.present) return OF(true, a); return OF();)
LAW(OF, and_lazy_opt, (const OF& a, OU b), arolla::PresenceAndOp()([&] { return a; }, b), if (b.present) return a; return OF();)
CASE(float, where, (OU c, const float& a, const float& b), arolla::WhereOp()(c, a, b), c.present ? a : b)
LAW(OF, where_opt, (OU c, const OF& a, const OF& b), arolla::WhereOp()(c, a, b), if (c.present) return a; return b;)
LAW(float, where_lazy2, (OU c, const float& a, const float& b), arolla::WhereOp()(c, [&] { return a; }, [&] { return b; }), if (c.present) return a; return b;)
LAW(float, where_lazy_a, (OU c, const float& a, const float& b), arolla::WhereOp()(c, [&] { return a; }, b), if (c.present) return a; return b;)
LAW(float, where_lazy_b, (OU c, const float& a, const float& b), arolla::WhereOp()(c, a, [&] { return b; }), if (c.present) return a; return b;)
LAW(OF, and_or, (const OF& a, OU b, const OF& d), arolla::PresenceAndOrOp()(a, b, d), if (b.present && a.present) return a; return d;)
LAW(float, and_or_value, (const OF& a, OU b, const float& d), arolla::PresenceAndOrOp()(a, b, d), if (b.present && a.present) return a.value; return d;)
LAW(OF, value_and_or, (const float& a, OU b, const OF& d), arolla::PresenceAndOrOp()(a, b, d), if (b.present) return OF(true, a); return d;)
LAW(float, value_and_or_value, (const float& a, OU b, const float& d), arolla::PresenceAndOrOp()(a, b, d), if (b.present) return a; return d;)
LAW(float, and_or_lazy, (const OF& a, OU b, const float& d), arolla::PresenceAndOrOp()(a, b, [&] { return d; }), if (b.present && a.present) return a.value; return d;)
LAW(OF, and_or_lazy_opt, (const OF& a, OU b, const OF& d), arolla::PresenceAndOrOp()(a, b, [&] { return d; }), if (b.present && a.present) return a; return d;)
CASE(OU, mask_equal, (const float& a, const float& b), arolla::MaskEqualOp()(a, b), OU(a == b))
CASE(OU, mask_not_equal, (const float& a, const float& b), arolla::MaskNotEqualOp()(a, b), OU(a != b))
CASE(OU, mask_less, (const float& a, const float& b), arolla::MaskLessOp()(a, b), OU(a < b))
CASE(OU, mask_less_equal, (const float& a, const float& b), arolla::MaskLessEqualOp()(a, b), OU(a <= b))
CASE(OU, mask_equal_int, (const int64_t& a, const int64_t& b), arolla::MaskEqualOp()(a, b), OU(a == b))
CASE(OU, mask_less_int, (const int64_t& a, const int64_t& b), arolla::MaskLessOp()(a, b), OU(a < b))
CASE(OU, mask_less_equal_int, (const int64_t& a, const int64_t& b), arolla::MaskLessEqualOp()(a, b), OU(a <= b))
CASE(bool, to_bool, (const float& a), arolla::ToBoolOp()(a), a != 0)
CASE(bool, to_bool_int, (const int64_t& a), arolla::ToBoolOp()(a), a != 0)
CASE(OF, to_optional, (const float& a), arolla::ToOptionalOp()(a), OF(true, a))
absl::StatusOr<float> impl_opt_get_value(const OF& a) { return arolla::GetOptionalValueOp()(a); }
absl::StatusOr<float> ref_opt_get_value(const OF& a) {
  if (!a.present) return absl::FailedPreconditionError("");
  return a.value;
}

// ---- lifting of functions to optional arguments ---------------------------------------
struct Sub { float operator()(float a, float b) const { return a - b; } };
struct SubOpt { OF operator()(float a, float b) const { return OF(a < b, a - b); } };
LAW(OF, lift2, (const OF& a, const OF& b), arolla::WrapFnToAcceptOptionalArgs(Sub())(a, b),
    if (a.present && b.present) return OF(true, a.value - b.value); return OF();)
LAW(OF, lift_mixed, (const OF& a, const float& b), arolla::WrapFnToAcceptOptionalArgs(Sub())(a, b),
    if (a.present) return OF(true, a.value - b); return OF();)
LAW(OF, lift_opt_result, (const OF& a, const OF& b), arolla::WrapFnToAcceptOptionalArgs(SubOpt())(a, b),
    if (a.present && b.present) return OF(a.value < b.value, a.value - b.value); return OF();)
}  // namespace witness
