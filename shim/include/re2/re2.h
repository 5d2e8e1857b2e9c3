#pragma once
#include <string>
#include "absl/strings/string_view.h"
class RE2 {
 public:
  enum CannedOptions { Quiet };
  class Arg { public: Arg() = default; template <typename T> explicit Arg(T*) {} };
  RE2(absl::string_view pattern, CannedOptions);
  bool ok() const; const std::string& error() const; const std::string& pattern() const;
  int NumberOfCapturingGroups() const;
  static bool PartialMatch(absl::string_view text, const RE2& re);
  static bool PartialMatch(absl::string_view text, const RE2& re, std::string* m);
  static bool FindAndConsumeN(absl::string_view* in, const RE2& re, const Arg* const a[], int n);
  static int GlobalReplace(std::string* s, const RE2& re, absl::string_view rewrite);
};
