// Typed values: uses of every operation of a handle, and of the typed access
// functions, for a concrete type.
#include <cstddef>
#include <tuple>
#include <utility>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/qtype/qtype.cc"
#include "arolla/qtype/qtype_traits.h"
#include "arolla/qtype/typed_ref.cc"
#include "arolla/qtype/typed_slot.cc"
#include "arolla/qtype/typed_value.cc"

namespace witness {

struct T {
  T() {}
  T(const T& o) : x(o.x) {}
  T(T&& o) : x(o.x) {}
  ~T() {}
  int x = 0;
};

}  // namespace witness

namespace arolla {
template <>
struct QTypeTraits<witness::T> {
  static QTypePtr type();
};
}  // namespace arolla

namespace witness {

using arolla::ConstFramePtr;
using arolla::FrameLayout;
using arolla::FramePtr;
using arolla::QTypePtr;
using arolla::TypedRef;
using arolla::TypedSlot;
using arolla::TypedValue;

void copy(const TypedValue& b) { TypedValue a(b); }
void move(TypedValue& b) { TypedValue a(std::move(b)); }
void assign(TypedValue& a, const TypedValue& b) { a = b; }
void move_assign(TypedValue& a, TypedValue& b) { a = std::move(b); }
void copy_of_copy(TypedValue& a, const TypedValue& b) { a = TypedValue(b); }
void swap(TypedValue& a, TypedValue& b) {
  TypedValue c = std::move(a);
  a = std::move(b);
  b = std::move(c);
}

TypedValue from_value(const T& t) { return TypedValue::FromValue(t); }
TypedValue from_rvalue(T& t) { return TypedValue::FromValue(std::move(t)); }
absl::StatusOr<TypedValue> from_value_with(const T& t, QTypePtr q) {
  return TypedValue::FromValueWithQType(t, q);
}
absl::StatusOr<TypedValue> from_rvalue_with(T& t, QTypePtr q) {
  return TypedValue::FromValueWithQType(std::move(t), q);
}
TypedValue from_ref(TypedRef r) { return TypedValue(r); }
TypedValue from_slot(TypedSlot s, ConstFramePtr f) {
  return TypedValue::FromSlot(s, f);
}
TypedValue default_constructed(QTypePtr q) {
  return TypedValue::UnsafeFromTypeDefaultConstructed(q);
}

absl::StatusOr<const T&> value_as(const TypedValue& v) { return v.As<T>(); }
absl::StatusOr<const T&> ref_as(TypedRef v) { return v.As<T>(); }
absl::StatusOr<TypedRef> ref_with(const T& t, QTypePtr q) {
  return TypedRef::FromValueWithQType(t, q);
}
absl::StatusOr<FrameLayout::Slot<T>> to_slot(TypedSlot s) {
  return s.ToSlot<T>();
}
absl::Status ref_to_slot(TypedRef r, TypedSlot s, FramePtr f) {
  return r.CopyToSlot(s, f);
}
absl::Status value_to_slot(const TypedValue& r, TypedSlot s, FramePtr f) {
  return r.CopyToSlot(s, f);
}
void slot_copy(TypedSlot s, ConstFramePtr f, TypedSlot d, FramePtr g) {
  s.CopyTo(f, d, g);
}
void slot_reset(TypedSlot s, FramePtr f) { s.Reset(f); }
TypedSlot sub_slot(TypedSlot s, int64_t i) { return s.SubSlot(i); }
TypedRef ref_field(TypedRef r, int64_t i) { return r.GetField(i); }
TypedRef value_field(const TypedValue& r, int64_t i) { return r.GetField(i); }
TypedRef value_ref(const TypedValue& r) { return r.AsRef(); }
TypedRef slot_ref(TypedSlot s, ConstFramePtr f) {
  return TypedRef::FromSlot(s, f);
}
TypedSlot typed_slot(FrameLayout::Slot<T> s) { return TypedSlot::FromSlot(s); }
absl::StatusOr<std::tuple<FrameLayout::Slot<T>, FrameLayout::Slot<T>>> to_slots(
    absl::Span<const TypedSlot> s) {
  return TypedSlot::ToSlots<T, T>(s);
}

}  // namespace witness
