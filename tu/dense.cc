// Uses of buffers of a plain type and of dense arrays over them.
#include <cstddef>
#include <cstdint>
#include <optional>
#include <utility>

#include "arolla/dense_array/bitmap.cc"
#include "arolla/dense_array/dense_array.h"
#include "arolla/memory/buffer.h"

namespace witness {

void seen(int64_t id, bool present, int value);
int value(int64_t i);
bool input(int64_t i);
int64_t order(int64_t i);

using Values = arolla::Buffer<int>;
using Bitmap = arolla::bitmap::Bitmap;
using Word = arolla::bitmap::Word;
using Array = arolla::DenseArray<int>;
using Factory = arolla::RawBufferFactory;

// --- buffers ---
Values b_make(arolla::RawBufferPtr p, absl::Span<const int> s) {
  return Values(std::move(p), s);
}
const int* b_begin(const Values& b) { return b.begin(); }
const int* b_end(const Values& b) { return b.end(); }
int64_t b_len(const Values& b) { return b.size(); }
absl::Span<int> b_span(int* p, size_t n) { return absl::Span<int>(p, n); }
absl::Span<const int> b_span_of(const Values& b) { return b.span(); }
const int* b_span_data(absl::Span<const int> s) { return s.data(); }
int64_t b_span_size(absl::Span<const int> s) { return s.size(); }
bool b_is_owner(const Values& b) { return b.is_owner(); }
bool b_is_empty(const Values& b) { return b.empty(); }
size_t b_usage(const Values& b) { return b.memory_usage(); }
int b_at(const Values& b, int64_t i) { return b[i]; }
int b_front(const Values& b) { return b.front(); }
int b_back(const Values& b) { return b.back(); }
bool b_equal(const Values& a, const Values& b) { return a == b; }
bool b_differ(const Values& a, const Values& b) { return a != b; }
Values b_slice(const Values& b, size_t o, size_t n) { return b.Slice(o, n); }
Values b_slice_moved(Values& b, size_t o, size_t n) {
  return std::move(b).Slice(o, n);
}
Values b_tail(const Values& b, size_t o) { return b.Slice(o); }
Values b_tail_moved(Values& b, size_t o) { return std::move(b).Slice(o); }
Values b_slice_twice(const Values& b, size_t o, size_t n, size_t p, size_t m) {
  return b.Slice(o, n).Slice(p, m);
}
Values b_shallow(const Values& b) { return b.ShallowCopy(); }
Values b_deep(const Values& b, Factory* f) { return b.DeepCopy(f); }
Values b_uninit(size_t n, Factory* f) {
  return Values::CreateUninitialized(n, f);
}
Values b_create(const int* p, const int* q, Factory* f) {
  return Values::Create(p, q, f);
}
Values b_build(int64_t n, int64_t m, Factory* f) {
  Values::Builder b(n, f);
  for (int64_t i = 0; i < m; ++i) b.Set(i, value(i));
  return std::move(b).Build(m);
}
Values b_build_all(int64_t n, Factory* f) {
  Values::Builder b(n, f);
  for (int64_t i = n; i > 0; --i) b.Set(i - 1, value(i - 1));
  return std::move(b).Build();
}
Values b_build_late(int64_t n, Factory* f) {
  Values::Builder b;
  b = Values::Builder(n, f);
  for (int64_t i = 0; i < n; ++i) b.Set(i, value(i));
  Values::Builder c(std::move(b));
  return std::move(c).Build();
}
Values b_insert(int64_t n, int64_t a, int64_t skip, int64_t c, Factory* f) {
  Values::Builder b(n, f);
  auto ins = b.GetInserter();
  for (int64_t i = 0; i < a; ++i) ins.Add(value(i));
  ins.SkipN(skip);
  for (int64_t i = 0; i < c; ++i) ins.Add(value(a + skip + i));
  return std::move(b).Build(ins);
}
Values b_insert_at(int64_t n, int64_t o, int64_t c, Factory* f) {
  Values::Builder b(n, f);
  auto ins = b.GetInserter(o);
  for (int64_t i = 0; i < c; ++i) ins.Add(value(o + i));
  return std::move(b).Build(ins);
}
Values b_setn(int64_t n, int64_t o, int64_t c, Factory* f) {
  Values::Builder b(n, f);
  for (int64_t i = 0; i < n; ++i) b.Set(i, value(i));
  b.SetN(o, c, [i = int64_t{1000}]() mutable { return value(i++); });
  return std::move(b).Build();
}
Values b_setconst(int64_t n, int64_t o, int64_t c, Factory* f) {
  Values::Builder b(n, f);
  for (int64_t i = 0; i < n; ++i) b.Set(i, value(i));
  b.SetNConst(o, c, value(1000));
  return std::move(b).Build();
}
Values b_copy(int64_t n, int64_t from, int64_t to, Factory* f) {
  Values::Builder b(n, f);
  for (int64_t i = 0; i < n; ++i) b.Set(i, value(i));
  b.Copy(from, to);
  return std::move(b).Build();
}
Values b_reshuffle(const Values& src, int64_t n, bool has_default,
                   int64_t copies, int64_t from, int64_t to, int64_t which,
                   int64_t m, Factory* f) {
  Values::ReshuffleBuilder b(
      n, src, arolla::OptionalValue<int>(has_default, value(1000)), f);
  for (int64_t i = 0; i < copies; ++i) b.CopyValue(i, order(i));
  b.CopyValueToRange(from, to, which);
  if (m == n) return std::move(b).Build();
  return std::move(b).Build(m);
}

// --- arrays ---
Bitmap m_make(arolla::RawBufferPtr p, absl::Span<const Word> s) {
  return Bitmap(std::move(p), s);
}
absl::Span<Word> m_span(Word* p, size_t n) { return absl::Span<Word>(p, n); }
const Word* m_begin(const Bitmap& b) { return b.begin(); }
int64_t m_len(const Bitmap& b) { return b.size(); }
Array a_make(const Values& v, const Bitmap& m, int o) { return Array{v, m, o}; }
int64_t a_size(const Array& a) { return a.size(); }
bool a_empty(const Array& a) { return a.empty(); }
bool a_full(const Array& a) { return a.IsFull(); }
int64_t a_count(const Array& a) { return a.PresentCount(); }
bool a_all_missing(const Array& a) { return a.IsAllMissing(); }
bool a_all_present(const Array& a) { return a.IsAllPresent(); }
bool a_present(const Array& a, int64_t i) { return a.present(i); }
bool a_is_owned(const Array& a) { return a.is_owned(); }
void a_at(const Array& a, int64_t i) {
  auto v = a[i];
  seen(i, v.present, v.value);
}
Array a_owned(const Array& a, Factory* f) { return a.MakeOwned(f); }
Array a_unowned(const Array& a) { return a.MakeUnowned(); }
Array a_slice(const Array& a, int64_t s, int64_t n) { return a.Slice(s, n); }
Array a_slice_twice(const Array& a, int64_t s, int64_t n, int64_t t,
                    int64_t m) {
  return a.Slice(s, n).Slice(t, m);
}
Array a_aligned(const Array& a, Factory* f) {
  return a.ForceNoBitmapBitOffset(f);
}
Array a_aligned_moved(Array& a, Factory* f) {
  return std::move(a).ForceNoBitmapBitOffset(f);
}
int64_t a_mask_size(const Array& a) { return a.ToMask().size(); }
bool a_mask_present(const Array& a, int64_t i) { return a.ToMask().present(i); }
void a_each(const Array& a) {
  a.ForEach([](int64_t id, bool p, int v) { seen(id, p, v); });
}
void a_each_present(const Array& a) {
  a.ForEachPresent([](int64_t id, int v) { seen(id, true, v); });
}
void a_each_group(const Array& a) {
  a.ForEachByGroups([](int64_t offset) {
    return [](int64_t id, bool p, int v) { seen(id, p, v); };
  });
}
void a_iterate(const Array& a) {
  int64_t i = 0;
  for (auto it = a.begin(); it != a.end(); ++it) {
    auto v = *it;
    seen(i++, v.present, v.value);
  }
}
bool a_equal(const Array& a, const Array& b) {
  return arolla::ArraysAreEquivalent(a, b);
}
Array a_build(int64_t n, int64_t k, Factory* f) {
  arolla::DenseArrayBuilder<int> b(n, f);
  for (int64_t i = 0; i < k; ++i) {
    b.Set(order(i), arolla::OptionalValue<int>(input(i), value(i)));
  }
  return std::move(b).Build();
}
Array a_build_cut(int64_t n, int64_t m, Factory* f) {
  arolla::DenseArrayBuilder<int> b(n, f);
  for (int64_t i = m; i > 0; i -= 2) b.Add(i - 1, value(i - 1));
  if (n) b.Set(0, std::nullopt);
  return std::move(b).Build(m);
}
Array a_build_range(int64_t n, int64_t a, int64_t c, int64_t d, int64_t e,
                    Factory* f) {
  arolla::DenseArrayBuilder<int> b(n, f);
  b.SetNConst(a, c, value(1));
  b.SetNConst(0, n, std::nullopt);
  b.SetNConst(0, n, arolla::OptionalValue<int>());
  b.SetNConst(d, e, arolla::OptionalValue<int>(value(2)));
  return std::move(b).Build();
}
Array a_build_std(int64_t n, int64_t i, bool p, Factory* f) {
  arolla::DenseArrayBuilder<int> b(n, f);
  std::optional<int> v;
  if (p) v = value(i);
  b.Set(i, v);
  b.SetNConst(n - 1, 1, v);
  return std::move(b).Build();
}
Array a_create(absl::Span<const arolla::OptionalValue<int>> s, Factory* f) {
  return arolla::CreateDenseArray<int>(s, f);
}
Array a_create_full(const int* p, const int* q, Factory* f) {
  return arolla::CreateFullDenseArray<int>(p, q, f);
}
Array a_const(int64_t n, Factory* f) {
  return arolla::CreateConstDenseArray<int>(n, value(1), f);
}
Array a_none(int64_t n, Factory* f) {
  return arolla::CreateEmptyDenseArray<int>(n, f);
}

}  // namespace witness
