#pragma once
#include <string>
#include <string_view>
#include <cstring>
namespace double_conversion {
class StringBuilder {
 public:
  StringBuilder(char* buf, int n) : buf_(buf), n_(n), pos_(0) {}
  void AddString(const char* s) { while (*s && pos_ + 1 < n_) buf_[pos_++] = *s++; }
  void AddCharacter(char c) { if (pos_ + 1 < n_) buf_[pos_++] = c; }
  int position() const { return pos_; }
  int size() const { return n_; }
  char* Finalize() { buf_[pos_] = 0; return buf_; }
 private:
  char* buf_; int n_; int pos_;
};
}
