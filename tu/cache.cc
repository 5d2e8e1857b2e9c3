// The least recently used cache.
#include <cstddef>
#include <utility>

#include "arolla/util/lru_cache.h"

namespace witness {

struct Key {
  int id;
};
struct Value {
  int id;
};
struct Hash {
  using is_transparent = void;
  size_t operator()(const Key& key) const;
};
struct Eq {
  using is_transparent = void;
  bool operator()(const Key& a, const Key& b) const;
};
using Cache = arolla::LruCache<Key, Value, Hash, Eq>;

void c_make(size_t capacity) { Cache cache(capacity); }
const Value* c_lookup(Cache& cache, const Key& key) {
  return cache.LookupOrNull(key);
}
const Value* c_put(Cache& cache, const Key& key, Value value, size_t weight) {
  return cache.Put(key, std::move(value), weight);
}
const Value* c_put1(Cache& cache, const Key& key, Value value) {
  return cache.Put(key, std::move(value));
}
void c_clear(Cache& cache) { cache.Clear(); }

}  // namespace witness
