// Control flow graphs and their dominators.
#include <cstdint>
#include <memory>
#include <utility>
#include <vector>

#include "absl/container/flat_hash_set.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "arolla/algorithm/control_flow_graph.cc"
#include "arolla/algorithm/control_flow_graph.h"

namespace witness {

using Graph = arolla::AcyclicCFG;
using Tree = arolla::DominatorTree;

absl::StatusOr<std::unique_ptr<Graph>> c_create(
    std::vector<std::vector<int64_t>> deps) {
  return Graph::Create(std::move(deps));
}
int64_t c_nodes(const Graph& g) { return g.num_nodes(); }
absl::Span<const int64_t> c_deps(const Graph& g, int64_t i) {
  return g.deps(i);
}
absl::Span<const int64_t> c_reverse(const Graph& g, int64_t i) {
  return g.reverse_deps(i);
}
Tree d_make(const Graph& g) { return Tree(g); }
int64_t d_nodes(const Tree& t) { return t.num_nodes(); }
int64_t d_parent(const Tree& t, int64_t i) { return t.parent(i); }
int64_t d_depth(const Tree& t, int64_t i) { return t.depth(i); }
std::vector<int64_t> d_parents(const Tree& t) { return t.parents(); }
absl::Span<const int64_t> d_children(const Tree& t, int64_t i) {
  return t.children(i);
}
absl::StatusOr<std::unique_ptr<Graph>> x_externalize(
    const Graph& g, const Tree& t, const absl::flat_hash_set<int64_t>& nodes) {
  return arolla::ExternalizeNodes(g, t, nodes);
}
std::vector<bool> f_empty(const Graph& g, const Tree& t) {
  return arolla::FindVerticesWithEmptyDominanceFrontier(g, t);
}

}  // namespace witness
