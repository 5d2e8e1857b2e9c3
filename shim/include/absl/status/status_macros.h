#pragma once
#include <sstream>
#include <string>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/base/optimization.h"
#include "absl/strings/str_cat.h"
#include "absl/types/source_location.h"
namespace absl {
class StatusBuilder {
 public:
  explicit StatusBuilder(const ::absl::Status& s, ::absl::SourceLocation loc = ::absl::SourceLocation::current()) : status_(s), loc_(loc) {}
  explicit StatusBuilder(::absl::Status&& s, ::absl::SourceLocation loc = ::absl::SourceLocation::current()) : status_(std::move(s)), loc_(loc) {}
  explicit StatusBuilder(::absl::StatusCode c, ::absl::SourceLocation loc = ::absl::SourceLocation::current()) : status_(c, ""), loc_(loc) {}
  bool ok() const { return status_.ok(); }
  ::absl::SourceLocation source_location() const { return loc_; }
  template <typename T> StatusBuilder& operator<<(const T& v) & { std::ostringstream o; o << v; append_ += o.str(); return *this; }
  template <typename T> StatusBuilder&& operator<<(const T& v) && { std::ostringstream o; o << v; append_ += o.str(); return std::move(*this); }
  StatusBuilder& SetPrepend() & { return *this; }
  StatusBuilder&& SetPrepend() && { return std::move(*this); }
  StatusBuilder& SetAppend() & { return *this; }
  StatusBuilder&& SetAppend() && { return std::move(*this); }
  template <typename F> auto With(F&& f) & -> decltype(std::forward<F>(f)(*this)) { return std::forward<F>(f)(*this); }
  template <typename F> auto With(F&& f) && -> decltype(std::forward<F>(f)(std::move(*this))) { return std::forward<F>(f)(std::move(*this)); }
  operator ::absl::Status() const & {
    if (append_.empty() || status_.ok()) return status_;
    ::absl::Status r(status_.code(), status_.message().empty() ? append_ : ::absl::StrCat(status_.message(), "; ", append_));
    status_.ForEachPayload([&](::absl::string_view u, const ::absl::Cord& c) { r.SetPayload(u, c); });
    return r;
  }
  operator ::absl::Status() && { return static_cast<const StatusBuilder&>(*this).operator ::absl::Status(); }
 private:
  ::absl::Status status_;
  std::string append_;
  ::absl::SourceLocation loc_;
};
namespace status_macro_shim {
class Adaptor {
 public:
  explicit Adaptor(const ::absl::Status& s) : b_(s) {}
  explicit Adaptor(::absl::Status&& s) : b_(std::move(s)) {}
  explicit Adaptor(const StatusBuilder& s) : b_(s) {}
  explicit operator bool() const { return ABSL_PREDICT_TRUE(b_.ok()); }
  StatusBuilder&& Consume() { return std::move(b_); }
 private:
  StatusBuilder b_;
};
}
}
#define ABSL_SHIM_ELSE_BLOCKER_ switch (0) case 0: default:
#define RETURN_IF_ERROR(expr)                                        \
  ABSL_SHIM_ELSE_BLOCKER_                                            \
  if (::absl::status_macro_shim::Adaptor status_macro_adaptor{expr}) {} \
  else return status_macro_adaptor.Consume()
#define ABSL_SHIM_CONCAT_(a, b) ABSL_SHIM_CONCAT2_(a, b)
#define ABSL_SHIM_CONCAT2_(a, b) a##b
#define ABSL_SHIM_REMOVE_PARENS_(...) ABSL_SHIM_RP1_(ABSL_SHIM_RP0_ __VA_ARGS__)
#define ABSL_SHIM_RP0_(...) ABSL_SHIM_RP0_ __VA_ARGS__
#define ABSL_SHIM_RP1_(...) ABSL_SHIM_RP2_(__VA_ARGS__)
#define ABSL_SHIM_RP2_(...) ABSL_SHIM_VAN_##__VA_ARGS__
#define ABSL_SHIM_VAN_ABSL_SHIM_RP0_
#define ASSIGN_OR_RETURN(...) \
  ABSL_SHIM_AOR_GET_((__VA_ARGS__, ABSL_SHIM_AOR3_, ABSL_SHIM_AOR2_))(__VA_ARGS__)
#define ABSL_SHIM_AOR_GET_(args) ABSL_SHIM_AOR_PICK_ args
#define ABSL_SHIM_AOR_PICK_(_1, _2, _3, NAME, ...) NAME
#define ABSL_SHIM_AOR2_(lhs, rexpr) ABSL_SHIM_AOR3_(lhs, rexpr, std::move(_))
#define ABSL_SHIM_AOR3_(lhs, rexpr, err) \
  ABSL_SHIM_AOR_(ABSL_SHIM_CONCAT_(_status_or_value, __COUNTER__), lhs, rexpr, err)
#define ABSL_SHIM_AOR_(so, lhs, rexpr, err)                              \
  auto so = (rexpr);                                                      \
  if (ABSL_PREDICT_FALSE(!so.ok())) {                                     \
    ::absl::StatusBuilder _(std::move(so).status());                      \
    (void)_;                                                              \
    return (err);                                                         \
  }                                                                       \
  ABSL_SHIM_REMOVE_PARENS_(lhs) = std::move(so).value()
