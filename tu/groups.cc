// Grouped operations over dense arrays for accumulators that record what they
// are given.
#include <cstddef>
#include <cstdint>
#include <utility>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "arolla/dense_array/bitmap.cc"
#include "arolla/dense_array/dense_array.h"
#include "arolla/dense_array/edge.cc"
#include "arolla/dense_array/edge.h"
#include "arolla/dense_array/ops/dense_group_ops.h"
#include "arolla/memory/buffer.h"
#include "arolla/memory/optional_value.h"
#include "arolla/util/meta.h"

namespace witness {

// Uninterpreted.
int start();
int reset(int state, int group);
int add(int state, int row);
int add_pair(int state, int row, bool present, int other);
int add_id(int state, int64_t id, int row);
int finish(int state);
int next(int state);
int result(int state);
absl::Status check(int row);
absl::Status worse(absl::Status before, absl::Status now);

using Values = arolla::Buffer<int>;
using Bitmap = arolla::bitmap::Bitmap;
using Word = arolla::bitmap::Word;
using Array = arolla::DenseArray<int>;
using Factory = arolla::RawBufferFactory;
using Opt = arolla::OptionalValue<int>;
using Long = arolla::DenseArray<int64_t>;
using Edge = arolla::DenseArrayEdge;
using arolla::meta::type_list;

Values b_make(arolla::RawBufferPtr p, absl::Span<const int> s) {
  return Values(std::move(p), s);
}
const int* b_begin(const Values& b) { return b.begin(); }
int64_t b_len(const Values& b) { return b.size(); }
absl::Span<int> b_span(int* p, size_t n) { return absl::Span<int>(p, n); }
Bitmap m_make(arolla::RawBufferPtr p, absl::Span<const Word> s) {
  return Bitmap(std::move(p), s);
}
absl::Span<Word> m_span(Word* p, size_t n) { return absl::Span<Word>(p, n); }
const Word* m_begin(const Bitmap& b) { return b.begin(); }
int64_t m_len(const Bitmap& b) { return b.size(); }
Array a_make(const Values& v, const Bitmap& m, int o) { return Array{v, m, o}; }
arolla::Buffer<int64_t> l_make(arolla::RawBufferPtr p,
                               absl::Span<const int64_t> s) {
  return arolla::Buffer<int64_t>(std::move(p), s);
}
absl::Span<int64_t> l_span(int64_t* p, size_t n) {
  return absl::Span<int64_t>(p, n);
}
const int64_t* l_begin(const arolla::Buffer<int64_t>& b) { return b.begin(); }
int64_t l_len(const arolla::Buffer<int64_t>& b) { return b.size(); }
Long l_array(const arolla::Buffer<int64_t>& v, const Bitmap& m, int o) {
  return Long{v, m, o};
}
Edge e_split(const Long& a) { return Edge::UnsafeFromSplitPoints(a); }
Edge e_mapping(const Long& a, int64_t n) {
  return Edge::UnsafeFromMapping(a, n);
}
arolla::DenseArrayGroupScalarEdge e_scalar(int64_t n) {
  return arolla::DenseArrayGroupScalarEdge(n);
}

enum Kind { kAggregator, kPartial, kFull };

template <Kind kind, class Parents, class Children>
struct Base {
  using parent_types = Parents;
  using child_types = Children;
  using result_type = Opt;
  static constexpr bool IsAggregator() { return kind == kAggregator; }
  static constexpr bool IsPartial() { return kind == kPartial; }
  static constexpr bool IsFull() { return kind == kFull; }
  Base() : state(start()), status(absl::OkStatus()) {}
  int state;
  absl::Status status;
  void FinalizeFullGroup() { state = finish(state); }
  Opt GetResult() {
    int res = result(state);
    state = next(state);
    return res;
  }
  absl::Status GetStatus() { return status; }
};

template <Kind kind>
struct Plain : Base<kind, type_list<>, type_list<int>> {
  void Reset() { this->state = reset(this->state, 0); }
  void Add(int row) {
    this->state = add(this->state, row);
    this->status = worse(this->status, check(row));
  }
};

template <Kind kind>
struct Mixed : Base<kind, type_list<int>, type_list<int, Opt>> {
  void Reset(int group) { this->state = reset(this->state, group); }
  void Add(int row, Opt other) {
    this->state = add_pair(this->state, row, other.present, other.value);
    this->status = worse(this->status, check(row));
  }
};

template <Kind kind>
struct Ided : Base<kind, type_list<>, type_list<int64_t, int>> {
  void Reset() { this->state = reset(this->state, 0); }
  void Add(int64_t id, int row) {
    this->state = add_id(this->state, id, row);
    this->status = worse(this->status, check(row));
  }
};

template <class Acc>
using Op = arolla::DenseGroupOps<Acc>;

absl::StatusOr<Array> g_agg(const Edge& e, const Array& c, Factory* f) {
  return Op<Plain<kAggregator>>(f).Apply(e, c);
}
absl::StatusOr<Array> g_partial(const Edge& e, const Array& c, Factory* f) {
  return Op<Plain<kPartial>>(f).Apply(e, c);
}
absl::StatusOr<Array> g_full(const Edge& e, const Array& c, Factory* f) {
  return Op<Plain<kFull>>(f).Apply(e, c);
}
absl::StatusOr<Array> g_agg_mixed(const Edge& e, const Array& p,
                                  const Array& c, const Array& d, Factory* f) {
  return Op<Mixed<kAggregator>>(f).Apply(e, p, c, d);
}
absl::StatusOr<Array> g_partial_mixed(const Edge& e, const Array& p,
                                      const Array& c, const Array& d,
                                      Factory* f) {
  return Op<Mixed<kPartial>>(f).Apply(e, p, c, d);
}
absl::StatusOr<Array> g_full_mixed(const Edge& e, const Array& p,
                                   const Array& c, const Array& d,
                                   Factory* f) {
  return Op<Mixed<kFull>>(f).Apply(e, p, c, d);
}
absl::StatusOr<Array> g_agg_id(const Edge& e, const Array& c, Factory* f) {
  return arolla::DenseGroupOpsWithId<Ided<kAggregator>>(f).Apply(e, c);
}
using Scalar = arolla::DenseArrayGroupScalarEdge;
absl::StatusOr<Opt> h_agg(const Scalar& e, const Array& c, Factory* f) {
  return Op<Plain<kAggregator>>(f).Apply(e, c);
}
absl::StatusOr<Array> h_partial(const Scalar& e, const Array& c, Factory* f) {
  return Op<Plain<kPartial>>(f).Apply(e, c);
}
absl::StatusOr<Array> h_full(const Scalar& e, const Array& c, Factory* f) {
  return Op<Plain<kFull>>(f).Apply(e, c);
}
absl::StatusOr<Opt> h_agg_mixed(const Scalar& e, int p, const Array& c,
                                const Array& d, Factory* f) {
  return Op<Mixed<kAggregator>>(f).Apply(e, p, c, d);
}

}  // namespace witness
