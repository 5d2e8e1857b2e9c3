// Analysed together: the cancellation context and its instantiations.
#include "arolla/util/cancellation.cc"
#include "arolla/qexpr/bound_operators.cc"

namespace witness {
using arolla::CancellationContext;
using Subscription = CancellationContext::Subscription;
void cancel(CancellationContext* c, absl::Status s) { c->Cancel(std::move(s)); }
absl::Status status(CancellationContext* c) { return c->GetStatus(); }
void subscribe(CancellationContext* c, absl::AnyInvocable<void() &&>&& cb, Subscription* out) { new (out) Subscription(c->Subscribe(std::move(cb))); }
void drop(Subscription* s) { s->~Subscription(); }
void move(Subscription* to, Subscription& from) { new (to) Subscription(std::move(from)); }
void assign(Subscription& to, Subscription& from) { to = std::move(from); }
void detach(Subscription& s) { std::move(s).Detach(); }
bool cancelled() { return arolla::Cancelled(); }
absl::Status check() { return arolla::CheckCancellation(); }
bool cancelled_of(CancellationContext* c) { return c->Cancelled(); }
CancellationContext* current() { return CancellationContext::ScopeGuard::current_cancellation_context(); }
}  // namespace witness
