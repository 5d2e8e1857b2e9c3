// Uses of the helpers that combine statuses.
#include <initializer_list>
#include <tuple>
#include <utility>
#include <vector>

#include "arolla/util/status.cc"

namespace witness {

template <class T>
using Or = absl::StatusOr<T>;
using absl::Status;

Status check3(const Status& a, const Or<int>& b, const int& c, const Or<int>& d) {
  return arolla::CheckInputStatus(a, b, c, d);
}
Status check0() { return arolla::CheckInputStatus(); }
Status first3(const Status& a, const Status& b, const Status& c) {
  return arolla::FirstErrorStatus({a, b, c});
}
Status first0() { return arolla::FirstErrorStatus({}); }
Or<std::tuple<int, int, int>> lift3(const Or<int>& a, const Or<int>& b,
                                    const Or<int>& c) {
  return arolla::LiftStatusUp(a, b, c);
}
Or<std::vector<int>> lift_vector(std::vector<Or<int>>& v) {
  return arolla::LiftStatusUp(std::move(v));
}
Or<std::vector<int>> lift_span(absl::Span<const Or<int>> v) {
  return arolla::LiftStatusUp(v);
}
Or<absl::flat_hash_map<int, int>> lift_map(
    const absl::flat_hash_map<int, Or<int>>& m) {
  return arolla::LiftStatusUp(m);
}
Or<absl::flat_hash_map<int, int>> lift_pairs(const Or<int>& k, const Or<int>& v,
                                             const Or<int>& l,
                                             const Or<int>& w) {
  return arolla::LiftStatusUp({std::pair<Or<int>, Or<int>>(k, v),
                               std::pair<Or<int>, Or<int>>(l, w)});
}
bool ok_status(const Status& s) { return arolla::IsOkStatus(s); }
bool ok_or(const Or<int>& s) { return arolla::IsOkStatus(s); }
bool ok_int(const int& s) { return arolla::IsOkStatus(s); }
Status get_status(const Status& s) { return arolla::GetStatusOrOk(s); }
Status get_or(const Or<int>& s) { return arolla::GetStatusOrOk(s); }
Status get_int(const int& s) { return arolla::GetStatusOrOk(s); }

int called(int a, int b, int c);
Or<int> called_or(int a, int b, int c);
struct Plain {
  int operator()(int a, int b, int c) const { return called(a, b, c); }
};
struct Fallible {
  Or<int> operator()(int a, int b, int c) const { return called_or(a, b, c); }
};
Or<int> call_plain(const Or<int>& a, const int& b, const Or<int>& c) {
  return arolla::UnStatusCaller<Plain>{}(a, b, c);
}
Or<int> call_fallible(const Or<int>& a, const int& b, const Or<int>& c) {
  return arolla::UnStatusCaller<Fallible>{}(a, b, c);
}
Or<int> call_made(const Or<int>& a, const int& b, const Or<int>& c) {
  return arolla::MakeUnStatusCaller(Plain{})(a, b, c);
}
struct Wide {
  template <class... Ts>
  int operator()(const Ts&... a) const {
    return called((a, ...), 0, 0);
  }
};
#define TEN(x) x, x, x, x, x, x, x, x, x, x
Or<int> call_wide(const Or<int>& a, const int& b, const Or<int>& c,
                  const Or<int>& d) {
  return arolla::UnStatusCaller<Wide>{}(a, TEN(b), TEN(b), c, TEN(b), d);
}

Status with_cause(Status s, Status c) {
  return arolla::WithCause(std::move(s), std::move(c));
}
Status with_payload(Status s, int p) {
  return arolla::WithPayload(std::move(s), std::any(p));
}
Status with_both(Status s, int p, Status c) {
  return arolla::WithPayloadAndCause(std::move(s), std::any(p), std::move(c));
}
Status with_message(const Status& s, absl::string_view m) {
  return arolla::WithUpdatedMessage(s, m);
}
Status with_note(Status s, std::string n) {
  return arolla::WithNote(std::move(s), std::move(n));
}
Status with_location(Status s, arolla::SourceLocationPayload l) {
  return arolla::WithSourceLocation(std::move(s), std::move(l));
}
const Status* cause(const Status& s) { return arolla::GetCause(s); }
const std::any* payload(const Status& s) { return arolla::GetPayload(s); }

}  // namespace witness
