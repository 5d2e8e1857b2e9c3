// Instances of the frame layout templates for one type of every kind: trivial,
// constructed, destroyed, both, odd sized, strongly aligned.
#include <cstddef>
#include <cstdint>
#include <memory>
#include <utility>

#include "arolla/memory/frame.cc"
#include "arolla/memory/memory_allocation.h"

namespace witness {

struct Both {
  Both() : p(nullptr) {}
  ~Both() {}
  void* p;
};
struct CtorOnly {
  CtorOnly() : v(1) {}
  short v;
};
struct DtorOnly {
  ~DtorOnly() {}
  int v;
};
struct Odd {
  char c[3];
};
struct alignas(16) Wide {
  Wide() {}
  ~Wide() {}
  double d[2];
};

}  // namespace witness

template <>
struct arolla::is_bzero_constructible<witness::DtorOnly> : std::true_type {};

namespace witness {

arolla::FrameLayout::Slot<char> add_char(arolla::FrameLayout::Builder& b) { return b.AddSlot<char>(); }
arolla::FrameLayout::Slot<int16_t> add_int16_t(arolla::FrameLayout::Builder& b) { return b.AddSlot<int16_t>(); }
arolla::FrameLayout::Slot<float> add_float(arolla::FrameLayout::Builder& b) { return b.AddSlot<float>(); }
arolla::FrameLayout::Slot<double> add_double(arolla::FrameLayout::Builder& b) { return b.AddSlot<double>(); }
arolla::FrameLayout::Slot<Both> add_Both(arolla::FrameLayout::Builder& b) { return b.AddSlot<Both>(); }
arolla::FrameLayout::Slot<CtorOnly> add_CtorOnly(arolla::FrameLayout::Builder& b) { return b.AddSlot<CtorOnly>(); }
arolla::FrameLayout::Slot<DtorOnly> add_DtorOnly(arolla::FrameLayout::Builder& b) { return b.AddSlot<DtorOnly>(); }
arolla::FrameLayout::Slot<Odd> add_Odd(arolla::FrameLayout::Builder& b) { return b.AddSlot<Odd>(); }
arolla::FrameLayout::Slot<Wide> add_Wide(arolla::FrameLayout::Builder& b) { return b.AddSlot<Wide>(); }

arolla::FrameLayout build(arolla::FrameLayout::Builder& b) { return std::move(b).Build(); }
void* mutable_field(arolla::FramePtr f, arolla::FrameLayout::Slot<Odd> s) { return f.GetMutable(s); }
const void* field(arolla::ConstFramePtr f, arolla::FrameLayout::Slot<Odd> s) { return &f.Get(s); }
void* raw(arolla::FramePtr f, size_t o) { return f.GetRawPointer(o); }
const void* craw(arolla::ConstFramePtr f, size_t o) { return f.GetRawPointer(o); }
void init(const arolla::FrameLayout& l, void* p) { l.InitializeAlignedAlloc(p); }
void destroy(const arolla::FrameLayout& l, void* p) { l.DestroyAlloc(p); }
void init_n(const arolla::FrameLayout& l, void* p, size_t n) { l.InitializeAlignedAllocN(p, n); }
void destroy_n(const arolla::FrameLayout& l, void* p, size_t n) { l.DestroyAllocN(p, n); }
void life(const arolla::FrameLayout* l) { arolla::MemoryAllocation m(l); }
void moved(const arolla::FrameLayout* l) {
  arolla::MemoryAllocation m(l);
  arolla::MemoryAllocation n(std::move(m));
}
void assigned(const arolla::FrameLayout* l, const arolla::FrameLayout* k) {
  arolla::MemoryAllocation m(l);
  arolla::MemoryAllocation n(k);
  n = std::move(m);
}
void assigned_to_empty(const arolla::FrameLayout* l) {
  arolla::MemoryAllocation m(l);
  arolla::MemoryAllocation n;
  n = std::move(m);
}
void assigned_empty(const arolla::FrameLayout* l) {
  arolla::MemoryAllocation m(l);
  arolla::MemoryAllocation n;
  m = std::move(n);
}

}  // namespace witness
