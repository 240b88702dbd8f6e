#pragma once
#include "absl/container/vmap_internal.h"
namespace absl {
template <class K, class H = void, class E = void, class A = void>
class flat_hash_set : public vmap::Set<K, true> {
 public:
  using vmap::Set<K, true>::Set;
  flat_hash_set() = default;
  flat_hash_set(std::initializer_list<K> l) : vmap::Set<K, true>(l) {}
};
template <class K, class P>
size_t erase_if(flat_hash_set<K>& m, P p) {
  size_t n = 0;
  for (auto it = m.begin(); it != m.end();) { auto c = it++; if (p(*c)) { m.erase(c); ++n; } }
  return n;
}
}
