#pragma once
#include "absl/container/vmap_internal.h"
namespace absl {
template <class K, class V, class H = void, class E = void, class A = void>
class flat_hash_map : public vmap::Map<K, V, true> {
 public:
  using vmap::Map<K, V, true>::Map;
  flat_hash_map() = default;
  flat_hash_map(std::initializer_list<std::pair<const K, V>> l) : vmap::Map<K, V, true>(l) {}
};
template <class K, class V, class P>
size_t erase_if(flat_hash_map<K, V>& m, P p) {
  size_t n = 0;
  for (auto it = m.begin(); it != m.end();) { auto c = it++; if (p(*c)) { m.erase(c); ++n; } }
  return n;
}
}
