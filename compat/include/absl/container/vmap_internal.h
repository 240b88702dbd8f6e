// Own hash containers. They keep the contract of absl's and nothing more, and
// take the two things absl leaves open away from chance:
//  * iteration order is chosen by the harness (g_order: insertion order,
//    reverse insertion order), never by hash seeds or addresses;
//  * flat containers relocate every element on every insertion that may rehash
//    (beyond what reserve() promised), so a pointer kept across one dangles.
#pragma once
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <list>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace vmap {
inline int g_order = 0;  // 0: insertion order, 1: reverse insertion order.

template <class V, class KeyOf, bool kFlat>
class Table {
 public:
  using value_type = V;
  using list_type = std::list<V>;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  using reference = V&;
  using const_reference = const V&;
  using iterator = typename list_type::iterator;
  using const_iterator = typename list_type::const_iterator;
  using key_type = typename KeyOf::key_type;

  Table() = default;
  explicit Table(size_t) {}
  Table(std::initializer_list<V> l) { for (const auto& v : l) insert(v); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  Table(It a, It b) { for (; a != b; ++a) insert(*a); }
  Table(const Table& o) : l_(o.l_) {}
  Table(Table&& o) noexcept : l_(std::move(o.l_)), reserved_(o.reserved_) { o.l_.clear(); o.reserved_ = 0; }
  Table& operator=(const Table& o) { if (this != &o) { list_type n(o.l_); l_.swap(n); reserved_ = 0; } return *this; }
  Table& operator=(Table&& o) noexcept { if (this != &o) { l_.clear(); l_.swap(o.l_); reserved_ = o.reserved_; o.reserved_ = 0; } return *this; }
  Table& operator=(std::initializer_list<V> l) { clear(); for (const auto& v : l) insert(v); return *this; }

  iterator begin() { return l_.begin(); }
  iterator end() { return l_.end(); }
  const_iterator begin() const { return l_.begin(); }
  const_iterator end() const { return l_.end(); }
  const_iterator cbegin() const { return l_.begin(); }
  const_iterator cend() const { return l_.end(); }
  bool empty() const { return l_.empty(); }
  size_t size() const { return l_.size(); }
  size_t capacity() const { return l_.size(); }
  void reserve(size_t n) { if (n > reserved_) reserved_ = n; }
  void rehash(size_t n) { reserve(n); }
  void clear() { l_.clear(); reserved_ = 0; }
  void swap(Table& o) { l_.swap(o.l_); std::swap(reserved_, o.reserved_); }

  template <class K = key_type> iterator find(const K& k) {
    for (auto it = l_.begin(); it != l_.end(); ++it) if (KeyOf::get(*it) == k) return it;
    return l_.end();
  }
  template <class K = key_type> const_iterator find(const K& k) const {
    for (auto it = l_.begin(); it != l_.end(); ++it) if (KeyOf::get(*it) == k) return it;
    return l_.end();
  }
  iterator find(const key_type& k) { return find<key_type>(k); }
  const_iterator find(const key_type& k) const { return find<key_type>(k); }
  template <class K = key_type> bool contains(const K& k) const { return find(k) != end(); }
  template <class K = key_type> size_t count(const K& k) const { return contains(k) ? 1 : 0; }

  std::pair<iterator, bool> insert(const V& v) { auto it = find(KeyOf::get(v)); if (it != end()) return {it, false}; return {add(V(v)), true}; }
  std::pair<iterator, bool> insert(V&& v) { auto it = find(KeyOf::get(v)); if (it != end()) return {it, false}; return {add(std::move(v)), true}; }
  iterator insert(const_iterator, const V& v) { return insert(v).first; }
  iterator insert(const_iterator, V&& v) { return insert(std::move(v)).first; }
  void insert(std::initializer_list<V> l) { for (const auto& v : l) insert(v); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category>
  void insert(It a, It b) { for (; a != b; ++a) insert(*a); }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) {
    std::list<V> n; n.emplace_back(std::forward<A>(a)...);
    auto it = find(KeyOf::get(n.front()));
    if (it != end()) return {it, false};
    relocate();
    return {splice(n), true};
  }
  template <class... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }
  void erase(const_iterator it) { l_.erase(it); }
  void erase(iterator it) { l_.erase(it); }
  iterator erase(const_iterator a, const_iterator b) { return l_.erase(a, b); }
  template <class K = key_type, class = std::enable_if_t<
      !std::is_convertible_v<K, const_iterator> && !std::is_convertible_v<K, iterator>>>
  size_t erase(const K& k) { auto it = find(k); if (it == end()) return 0; l_.erase(it); return 1; }
  template <class O> void merge(O& o) {
    for (auto it = o.begin(); it != o.end();) {
      auto cur = it++;
      if (!contains(KeyOf::get(*cur))) { insert(std::move(*cur)); o.erase(cur); }
    }
  }
  struct node_type {
    std::list<V> l;
    bool empty() const { return l.empty(); }
    explicit operator bool() const { return !l.empty(); }
    V& value() { return l.front(); }
    const auto& key() const { return KeyOf::get(l.front()); }
    auto& mapped() { return l.front().second; }
  };
  node_type extract(const_iterator it) { node_type n; n.l.splice(n.l.begin(), l_, it); return n; }
  template <class K = key_type, class = std::enable_if_t<
      !std::is_convertible_v<K, const_iterator>>>
  node_type extract(const K& k) { auto it = find(k); if (it == end()) return {}; return extract(const_iterator(it)); }
  std::pair<iterator, bool> insert(node_type&& n) {
    if (n.empty()) return {end(), false};
    auto it = find(KeyOf::get(n.l.front())); if (it != end()) return {it, false};
    relocate(); return {splice(n.l), true};
  }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.size() != b.size()) return false;
    for (const auto& v : a) { auto it = b.find(KeyOf::get(v)); if (it == b.end() || !(*it == v)) return false; }
    return true;
  }
  friend bool operator!=(const Table& a, const Table& b) { return !(a == b); }
  friend void swap(Table& a, Table& b) { a.swap(b); }

 protected:
  iterator splice(std::list<V>& n) {
    auto it = n.begin();
    l_.splice(g_order == 1 ? l_.begin() : l_.end(), n, it);
    return it;
  }
  iterator add(V&& v) { std::list<V> n; n.emplace_back(std::move(v)); relocate(); return splice(n); }
  void relocate() {
    if constexpr (kFlat) {
      if (l_.size() + 1 <= reserved_) return;
      list_type n;
      for (auto& v : l_) n.emplace_back(std::move(v));
      l_.swap(n);
    }
  }
  list_type l_;
  size_t reserved_ = 0;
};
template <class K, class T> struct PairKey {
  using key_type = K;
  static const K& get(const std::pair<const K, T>& p) { return p.first; }
  template <class P> static const auto& get(const P& p) { return p.first; }
};
template <class K> struct SelfKey {
  using key_type = K;
  static const K& get(const K& k) { return k; }
};
template <class K, class T, bool kFlat>
class Map : public Table<std::pair<const K, T>, PairKey<K, T>, kFlat> {
  using B = Table<std::pair<const K, T>, PairKey<K, T>, kFlat>;
 public:
  using mapped_type = T;
  using typename B::iterator;
  using typename B::const_iterator;
  using B::B;
  Map() = default;
  Map(std::initializer_list<std::pair<const K, T>> l) : B(l) {}
  Map& operator=(std::initializer_list<std::pair<const K, T>> l) { B::operator=(l); return *this; }
  template <class Q = K> T& at(const Q& k) { auto it = this->find(k); if (it == this->end()) __builtin_trap(); return it->second; }
  template <class Q = K> const T& at(const Q& k) const { auto it = this->find(k); if (it == this->end()) __builtin_trap(); return it->second; }
  template <class Q = K> T& operator[](const Q& k) { return try_emplace(k).first->second; }
  T& operator[](const K& k) { return try_emplace(k).first->second; }
  T& operator[](K&& k) { return try_emplace(std::move(k)).first->second; }
  template <class Q = K, class... A> std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) {
    auto it = this->find(k); if (it != this->end()) return {it, false};
    std::list<std::pair<const K, T>> n;
    n.emplace_back(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...));
    this->relocate();
    return {this->splice(n), true};
  }
  template <class... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
    return try_emplace<const K&, A...>(k, std::forward<A>(a)...);
  }
  using B::insert;
  template <class P, class = std::enable_if_t<std::is_constructible_v<std::pair<const K, T>, P&&> &&
      !std::is_same_v<std::decay_t<P>, std::pair<const K, T>> &&
      !std::is_same_v<std::decay_t<P>, typename B::node_type>>>
  std::pair<iterator, bool> insert(P&& p) { return this->emplace(std::forward<P>(p)); }
  template <class Q = K, class U = T> std::pair<iterator, bool> insert_or_assign(Q&& k, U&& u) {
    auto it = this->find(k); if (it != this->end()) { it->second = std::forward<U>(u); return {it, false}; }
    return try_emplace(std::forward<Q>(k), std::forward<U>(u));
  }
};
template <class K, bool kFlat>
class Set : public Table<K, SelfKey<K>, kFlat> {
  using B = Table<K, SelfKey<K>, kFlat>;
 public:
  using B::B;
  Set() = default;
  Set(std::initializer_list<K> l) : B(l) {}
  using iterator = typename B::const_iterator;
};
}  // namespace vmap
