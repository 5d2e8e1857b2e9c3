#pragma once
#include <cstdlib>
#include <iostream>
#include <ostream>
#include "absl/base/attributes.h"
#include "absl/base/optimization.h"
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
namespace absl { namespace log_shim {
class Message {
 public:
  Message(const char* file, int line) { std::cerr << file << ":" << line << " "; }
  ~Message() { std::cerr << std::endl; }
  template <typename T> Message& operator<<(const T& v) { std::cerr << v; return *this; }
  Message& operator<<(std::ostream& (*f)(std::ostream&)) { std::cerr << f; return *this; }
  template <typename... A> Message& WithVerbosity(A&&...) { return *this; }
};
class FatalMessage {
 public:
  FatalMessage(const char* file, int line, const char* e = "") { std::cerr << file << ":" << line << " " << e << " "; }
  [[noreturn]] ~FatalMessage() { std::cerr << std::endl; std::abort(); }
  template <typename T> FatalMessage& operator<<(const T&) { return *this; }
  FatalMessage& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
class NullMessage {
 public:
  template <typename T> NullMessage& operator<<(const T&) { return *this; }
  NullMessage& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
struct Voidify { template <typename T> void operator&&(T&&) const {} };
template <typename T> inline const ::absl::Status& AsStatus(const T& s) { return s.status(); }
inline const ::absl::Status& AsStatus(const ::absl::Status& s) { return s; }
}}
#define ABSL_LOG_SHIM_INFO ::absl::log_shim::Message(__FILE__, __LINE__)
#define ABSL_LOG_SHIM_WARNING ::absl::log_shim::Message(__FILE__, __LINE__)
#define ABSL_LOG_SHIM_ERROR ::absl::log_shim::Message(__FILE__, __LINE__)
#define ABSL_LOG_SHIM_FATAL ::absl::log_shim::FatalMessage(__FILE__, __LINE__)
#define ABSL_LOG_SHIM_DFATAL ::absl::log_shim::Message(__FILE__, __LINE__)
#define ABSL_LOG_SHIM_CHECK_(cond, text) \
  (ABSL_PREDICT_TRUE(cond)) ? (void)0 : ::absl::log_shim::Voidify() && ::absl::log_shim::FatalMessage(__FILE__, __LINE__, text)
#define ABSL_LOG_SHIM_DCHECK_(cond) \
  (true || (cond)) ? (void)0 : ::absl::log_shim::Voidify() && ::absl::log_shim::NullMessage()
