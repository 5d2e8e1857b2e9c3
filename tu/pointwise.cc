// Pointwise operations over dense arrays: every implementation the library
// chooses between, for opaque functions of the rows.
#include <cstddef>
#include <cstdint>
#include <utility>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/dense_array/bitmap.cc"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/ops/dense_ops.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"

namespace witness {

int f1(int a);
int f2(int a, int b);
int f3(int a, int b, int c);
bool p1(int a);
bool p2(int a, int b);
absl::Status s1(int a);
absl::Status s2(int a, int b);
void seen(int64_t id, bool valid, bool pa, int a, bool pb, int b);

using Values = arolla::Buffer<int>;
using Bitmap = arolla::bitmap::Bitmap;
using Word = arolla::bitmap::Word;
using Array = arolla::DenseArray<int>;
using Factory = arolla::RawBufferFactory;
using Opt = arolla::OptionalValue<int>;
using Flags = arolla::DenseOpFlags;

Values b_make(arolla::RawBufferPtr p, absl::Span<const int> s) {
  return Values(std::move(p), s);
}
const int* b_begin(const Values& b) { return b.begin(); }
int64_t b_len(const Values& b) { return b.size(); }
absl::Span<int> b_span(int* p, size_t n) { return absl::Span<int>(p, n); }
Bitmap m_make(arolla::RawBufferPtr p, absl::Span<const Word> s) {
  return Bitmap(std::move(p), s);
}
absl::Span<Word> m_span(Word* p, size_t n) { return absl::Span<Word>(p, n); }
const Word* m_begin(const Bitmap& b) { return b.begin(); }
int64_t m_len(const Bitmap& b) { return b.size(); }
Array a_make(const Values& v, const Bitmap& m, int o) { return Array{v, m, o}; }

Array x_unary(const Array& a, Factory* f) {
  return arolla::CreateDenseOp<Flags::kRunOnMissing>(
      [](int a) { return f1(a); }, f)(a);
}
Array x_unary_skip(const Array& a, Factory* f) {
  return arolla::CreateDenseOp([](int a) { return f1(a); }, f)(a);
}
absl::StatusOr<Array> x_binary(const Array& a, const Array& b, Factory* f) {
  return arolla::CreateDenseOp<Flags::kRunOnMissing>(
      [](int a, int b) { return f2(a, b); }, f)(a, b);
}
absl::StatusOr<Array> x_binary_aligned(const Array& a, const Array& b,
                                       Factory* f) {
  return arolla::CreateDenseOp<Flags::kRunOnMissing | Flags::kNoBitmapOffset>(
      [](int a, int b) { return f2(a, b); }, f)(a, b);
}
absl::StatusOr<Array> x_binary_skip(const Array& a, const Array& b,
                                    Factory* f) {
  return arolla::CreateDenseOp([](int a, int b) { return f2(a, b); }, f)(a, b);
}
Array x_binary_skip_aligned(const Array& a, const Array& b, Factory* f) {
  return arolla::CreateDenseOp<Flags::kNoSizeValidation |
                               Flags::kNoBitmapOffset>(
      [](int a, int b) { return f2(a, b); }, f)(a, b);
}
absl::StatusOr<Array> x_ternary(const Array& a, const Array& b, const Array& c,
                                Factory* f) {
  return arolla::CreateDenseOp<Flags::kRunOnMissing>(
      [](int a, int b, int c) { return f3(a, b, c); }, f)(a, b, c);
}
absl::StatusOr<Array> x_ternary_aligned(const Array& a, const Array& b,
                                        const Array& c, Factory* f) {
  return arolla::CreateDenseOp<Flags::kRunOnMissing | Flags::kNoBitmapOffset>(
      [](int a, int b, int c) { return f3(a, b, c); }, f)(a, b, c);
}
Array x_partial(const Array& a, Factory* f) {
  return arolla::CreateDenseOp([](int a) { return Opt(p1(a), f1(a)); }, f)(a);
}
Array x_partial_all(const Array& a, Factory* f) {
  return arolla::CreateDenseOp<Flags::kRunOnMissing>(
      [](int a) { return Opt(p1(a), f1(a)); }, f)(a);
}
absl::StatusOr<Array> x_status(const Array& a, Factory* f) {
  return arolla::CreateDenseOp(
      [](int a) -> absl::StatusOr<int> {
        if (auto s = s1(a); !s.ok()) return s;
        return f1(a);
      },
      f)(a);
}
absl::StatusOr<Array> x_status_all(const Array& a, const Array& b,
                                   Factory* f) {
  return arolla::CreateDenseOp<Flags::kRunOnMissing>(
      [](int a, int b) -> absl::StatusOr<Opt> {
        if (auto s = s2(a, b); !s.ok()) return s;
        return Opt(p2(a, b), f2(a, b));
      },
      f)(a, b);
}
absl::StatusOr<Array> x_first(const Array& a, const Array& b, Factory* f) {
  return arolla::CreateDenseOp(
      [](Opt a, Opt b) { return a.present ? a : b; }, f)(a, b);
}
absl::StatusOr<Array> x_mixed(const Array& a, const Array& b, Factory* f) {
  return arolla::CreateDenseOp(
      [](Opt a, int b) { return a.present ? f2(a.value, b) : f1(b); },
      f)(a, b);
}
absl::Status x_each(const Array& a, const Array& b) {
  return arolla::DenseArraysForEach(
      [](int64_t id, bool valid, int a, int b) {
        seen(id, valid, true, a, true, b);
      },
      a, b);
}
absl::Status x_each_optional(const Array& a, const Array& b) {
  return arolla::DenseArraysForEach(
      [](int64_t id, bool valid, int a, Opt b) {
        seen(id, valid, true, a, b.present, b.value);
      },
      a, b);
}
absl::Status x_each_present(const Array& a, const Array& b) {
  return arolla::DenseArraysForEachPresent(
      [](int64_t id, int a, int b) { seen(id, true, true, a, true, b); }, a, b);
}
void x_range(int64_t from, int64_t to, const Array& a, const Array& b) {
  arolla::dense_ops_internal::DenseOpsUtil<arolla::meta::type_list<int, Opt>>::
      Iterate(
          [](int64_t id, bool valid, int a, Opt b) {
            seen(id, valid, true, a, b.present, b.value);
          },
          from, to, a, b);
}
void x_range_aligned(int64_t from, int64_t to, const Array& a,
                     const Array& b) {
  arolla::dense_ops_internal::DenseOpsUtil<
      arolla::meta::type_list<Opt, int>,
      false>::Iterate([](int64_t id, bool valid, Opt a, int b) {
                        seen(id, valid, a.present, a.value, true, b);
                      },
                      from, to, a, b);
}

}  // namespace witness
