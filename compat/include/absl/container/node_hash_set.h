#pragma once
#include "absl/container/vmap_internal.h"
namespace absl {
template <class K, class H = void, class E = void, class A = void>
class node_hash_set : public vmap::Set<K, false> {
 public:
  using vmap::Set<K, false>::Set;
  node_hash_set() = default;
  node_hash_set(std::initializer_list<K> l) : vmap::Set<K, false>(l) {}
};
template <class K, class P>
size_t erase_if(node_hash_set<K>& m, P p) {
  size_t n = 0;
  for (auto it = m.begin(); it != m.end();) { auto c = it++; if (p(*c)) { m.erase(c); ++n; } }
  return n;
}
}
