// Edges between dense arrays: how they are built, converted and composed.
#include <cstddef>
#include <cstdint>
#include <utility>

#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/dense_array/bitmap.cc"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.cc"
#include "arolla/dense_array/edge.h"
#include "arolla/memory/buffer.h"
#include "arolla/util/overflow.h"

namespace witness {

using Bitmap = arolla::bitmap::Bitmap;
using Word = arolla::bitmap::Word;
using Factory = arolla::RawBufferFactory;
using Long = arolla::DenseArray<int64_t>;
using Edge = arolla::DenseArrayEdge;

Bitmap m_make(arolla::RawBufferPtr p, absl::Span<const Word> s) {
  return Bitmap(std::move(p), s);
}
absl::Span<Word> m_span(Word* p, size_t n) { return absl::Span<Word>(p, n); }
const Word* m_begin(const Bitmap& b) { return b.begin(); }
int64_t m_len(const Bitmap& b) { return b.size(); }
arolla::Buffer<int64_t> l_make(arolla::RawBufferPtr p,
                               absl::Span<const int64_t> s) {
  return arolla::Buffer<int64_t>(std::move(p), s);
}
absl::Span<int64_t> l_span(int64_t* p, size_t n) {
  return absl::Span<int64_t>(p, n);
}
const int64_t* l_begin(const arolla::Buffer<int64_t>& b) { return b.begin(); }
int64_t l_len(const arolla::Buffer<int64_t>& b) { return b.size(); }
Long l_array(const arolla::Buffer<int64_t>& v, const Bitmap& m, int o) {
  return Long{v, m, o};
}
Edge e_split(const Long& a) { return Edge::UnsafeFromSplitPoints(a); }
Edge e_mapping(const Long& a, int64_t n) {
  return Edge::UnsafeFromMapping(a, n);
}
int e_type(const Edge& e) { return e.edge_type(); }
int64_t e_parents(const Edge& e) { return e.parent_size(); }
int64_t e_children(const Edge& e) { return e.child_size(); }
const arolla::Buffer<int64_t>& e_values(const Edge& e) {
  return e.edge_values().values;
}
const Bitmap& e_bitmap(const Edge& e) { return e.edge_values().bitmap; }
int e_offset(const Edge& e) { return e.edge_values().bitmap_bit_offset; }

absl::StatusOr<Edge> x_split(const Long& a) { return Edge::FromSplitPoints(a); }
absl::StatusOr<Edge> x_mapping(const Long& a, int64_t n) {
  return Edge::FromMapping(a, n);
}
absl::StatusOr<Edge> x_uniform(int64_t n, int64_t k, Factory* f) {
  return Edge::FromUniformGroups(n, k, *f);
}
absl::StatusOr<Edge> x_to_split(const Edge& e, Factory* f) {
  return e.ToSplitPointsEdge(*f);
}
Edge x_to_mapping(const Edge& e, Factory* f) { return e.ToMappingEdge(*f); }
bool x_same(const Edge& a, const Edge& b) { return a.IsEquivalentTo(b); }
int64_t x_size(const Edge& e, int64_t i) { return e.split_size(i); }
absl::StatusOr<Edge> x_compose(absl::Span<const Edge> e, Factory* f) {
  return Edge::ComposeEdges(e, *f);
}
Edge x_empty() { return Edge(); }

}  // namespace witness
