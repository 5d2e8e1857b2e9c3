// Instances of the bit-range helpers for both word sizes, and of the bitmap
// functions.
#include <cstddef>
#include <cstdint>
#include <utility>

#include "arolla/dense_array/bitmap.cc"
#include "arolla/util/algorithms.h"
#include "arolla/util/bits.h"

namespace witness {

void log(int64_t i, bool v);
bool input(int64_t i);

#define WITNESS(W, S)                                                         \
  bool get_bit_##S(const W* m, size_t i) { return arolla::GetBit(m, i); }     \
  void set_bit_##S(W* m, size_t i) { arolla::SetBit(m, i); }                  \
  void set_range_##S(W* m, size_t b, size_t e) {                              \
    arolla::SetBitsInRange(m, b, e);                                          \
  }                                                                           \
  size_t ones_##S(W w) { return arolla::CountOnes(w); }                       \
  size_t ones_range_##S(const W* m, size_t b, size_t e) {                     \
    return arolla::GetOnesCountInRange(m, b, e);                              \
  }                                                                           \
  size_t next_##S(const W* m, size_t b, size_t e) {                           \
    return arolla::FindNextSetBitInVector(m, b, e);                           \
  }                                                                           \
  int high_##S(W w) { return arolla::BitScanReverse(w); }                     \
  int low_##S(W w) { return arolla::FindLSBSetNonZero(w); }                   \
  void and_##S(const W* a, const W* b, W* r, size_t n) {                      \
    arolla::LogicalAnd(a, b, r, n);                                           \
  }                                                                           \
  void and_in_place_##S(const W* a, W* r, size_t n) {                         \
    arolla::InPlaceLogicalAnd(a, r, n);                                       \
  }                                                                           \
  void and_offsets_##S(size_t n, const W* a, int sa, W* r, int sr) {          \
    arolla::InplaceLogicalAndWithOffsets(n, a, sa, r, sr);                    \
  }                                                                           \
  void copy_##S(size_t n, const W* a, int sa, W* r, int sr) {                 \
    arolla::CopyBits(n, a, sa, r, sr);                                        \
  }
WITNESS(uint32_t, 32)
WITNESS(uint64_t, 64)

namespace bm = arolla::bitmap;
using bm::Bitmap;
using bm::Word;

Bitmap bm_make(arolla::RawBufferPtr p, absl::Span<const Word> s) {
  return Bitmap(std::move(p), s);
}
const Word* bm_begin(const Bitmap& b) { return b.begin(); }
int64_t bm_len(const Bitmap& b) { return b.size(); }
absl::Span<Word> bm_span(Word* p, size_t n) { return absl::Span<Word>(p, n); }

int64_t bm_size(int64_t n) { return bm::BitmapSize(n); }
Word bm_word(const Bitmap& b, int64_t i) { return bm::GetWord(b, i); }
Word bm_word_at(const Bitmap& b, int64_t i, int o) {
  return bm::GetWordWithOffset(b, i, o);
}
bool bm_all(const Word* b, int64_t n) { return bm::AreAllBitsSet(b, n); }
bool bm_none(const Word* b, int64_t n) { return bm::AreAllBitsUnset(b, n); }
void bm_and(const Bitmap& a, const Bitmap& b, absl::Span<Word> r) {
  bm::Intersect(a, b, r);
}
void bm_and_at(const Bitmap& a, const Bitmap& b, int x, int y,
               absl::Span<Word> r) {
  bm::Intersect(a, b, x, y, r);
}
bool bm_get_word(Word w, int i) { return bm::GetBit(w, i); }
bool bm_get_raw(const Word* b, int64_t i) { return bm::GetBit(b, i); }
bool bm_get(const Bitmap& b, int64_t i) { return bm::GetBit(b, i); }
void bm_set(Word* b, int64_t i) { bm::SetBit(b, i); }
void bm_unset(Word* b, int64_t i) { bm::UnsetBit(b, i); }
int64_t bm_count(const Bitmap& b, int64_t o, int64_t n) {
  return bm::CountBits(b, o, n);
}
void bm_iterate_word(Word w, int n) {
  bm::IterateWord(w, [](int i, bool v) { log(i, v); }, n);
}
void bm_groups(const Word* b, int64_t o, int64_t n) {
  bm::IterateByGroups(b, o, n, [](int64_t g) {
    return [g](int i, bool v) { log(g + i, v); };
  });
}
void bm_iterate(const Bitmap& b, int64_t o, int64_t n) {
  int64_t i = 0;
  bm::Iterate(b, o, n, [&i](bool v) { log(i++, v); });
}
Bitmap bm_empty(int64_t n) { return bm::CreateEmptyBitmap(n); }
Bitmap bm_almost_full(int64_t n, int64_t a, int64_t b) {
  bm::AlmostFullBuilder r(n);
  r.AddMissed(a);
  r.AddMissed(b);
  return std::move(r).Build();
}
Bitmap bm_full(int64_t n) {
  bm::AlmostFullBuilder r(n);
  return std::move(r).Build();
}
Bitmap bm_almost_full_cut(int64_t n, int64_t a, int64_t m) {
  bm::AlmostFullBuilder r(n);
  r.AddMissed(a);
  return std::move(r).Build(m);
}
Bitmap bm_build(int64_t n, int64_t a, int64_t b, int64_t c) {
  bm::Builder r(n);
  r.AddByGroups(a, [](int64_t g) { return [g](int i) { return input(g + i); }; });
  r.AddByGroups(
      b, [a](int64_t g) { return [g, a](int i) { return input(a + g + i); }; });
  r.AddByGroups(c, [a, b](int64_t g) {
    return [g, a, b](int i) { return input(a + b + g + i); };
  });
  return std::move(r).Build();
}
struct InputIter {
  int64_t at;
  int64_t operator[](int64_t i) const { return at + i; }
  InputIter operator+(int64_t d) const { return InputIter{at + d}; }
  int64_t operator-(InputIter o) const { return at - o.at; }
};
Bitmap bm_build_each(int64_t n, int64_t a, int64_t b, int64_t c) {
  bm::Builder r(n);
  auto f = [](int64_t i) { return input(i); };
  r.AddForEach(InputIter{0}, InputIter{a}, f);
  r.AddForEach(InputIter{a}, InputIter{a + b}, f);
  r.AddForEach(InputIter{a + b}, InputIter{a + b + c}, f);
  return std::move(r).Build();
}

}  // namespace witness
