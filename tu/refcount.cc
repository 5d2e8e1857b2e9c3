// Witness functions, analysed (never executed) by checks/U02.py.
#include <cstddef>
#include <memory>
#include <utility>
#include "arolla/util/refcount.h"
#include "arolla/util/refcount_ptr.h"
namespace witness {
struct Node;
using P = arolla::RefcountPtr<Node>;
struct Node : arolla::RefcountedBase {
  int payload;
};
void inc(arolla::Refcount& c) { c.increment(); }
bool dec(arolla::Refcount& c) { return c.decrement(); }
bool sdec(arolla::Refcount& c) { return c.skewed_decrement(); }
void fresh() { arolla::Refcount c; (void)c; }

void copy_ctor(P& lhs, P& rhs) { P t(rhs); (void)t; }           // net effect: none
void copy_ctor_keep(P& lhs, P& rhs, void* raw) { ::new (raw) P(rhs); }
void move_ctor_keep(P& lhs, P& rhs, void* raw) { ::new (raw) P(std::move(rhs)); }
void copy_assign(P& lhs, P& rhs) { lhs = rhs; }
void move_assign(P& lhs, P& rhs) { lhs = std::move(rhs); }
void reset(P& lhs, P& rhs) { lhs.reset(); }
void destroy(P& lhs, P& rhs) { lhs.~P(); }
void swap_(P& lhs, P& rhs) { swap(lhs, rhs); }
void new_ref_keep(P& lhs, P& rhs, void* raw, Node* n) { ::new (raw) P(P::NewRef(n)); }
void own_keep(P& lhs, P& rhs, void* raw) { ::new (raw) P(P::Own(std::make_unique<Node>())); }
void make_keep(P& lhs, P& rhs, void* raw) { ::new (raw) P(P::Make()); }
void null_keep(P& lhs, P& rhs, void* raw) { ::new (raw) P(nullptr); }
void dflt_keep(P& lhs, P& rhs, void* raw) { ::new (raw) P(); }
Node* get(P& lhs, P& rhs) { return lhs.get(); }
Node* arrow(P& lhs, P& rhs) { return lhs.operator->(); }
Node* deref(P& lhs, P& rhs) { return &*lhs; }
bool eq(P& lhs, P& rhs) { return lhs == rhs; }
bool eq_null(P& lhs, P& rhs) { return lhs == nullptr; }
}  // namespace witness
