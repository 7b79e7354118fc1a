// Engine-only stand-in for the third-party hash set: same observable set semantics, linear search, insertion order.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <utility>
#include <vector>
namespace ankerl { namespace unordered_dense {
template <class K> struct hash { uint64_t operator()(const K& k) const { return (uint64_t)k; } };
template <class K, class H = hash<K>, class E = std::equal_to<K>, class... R>
class set {
 public:
  using iterator = typename std::vector<K>::iterator;
  using const_iterator = typename std::vector<K>::const_iterator;
  using value_type = K;
  void clear() { v.clear(); }
  void reserve(size_t) {}
  void rehash(size_t) {}
  void max_load_factor(float) {}
  size_t size() const { return v.size(); }
  bool empty() const { return v.empty(); }
  iterator begin() { return v.begin(); }
  iterator end() { return v.end(); }
  const_iterator begin() const { return v.begin(); }
  const_iterator end() const { return v.end(); }
  iterator find(const K& k) { for (auto i = v.begin(); i != v.end(); ++i) if (*i == k) return i; return v.end(); }
  bool contains(const K& k) { return find(k) != v.end(); }
  size_t count(const K& k) { return contains(k); }
  std::pair<iterator, bool> insert(const K& k) { auto i = find(k); if (i != v.end()) return {i, false}; v.push_back(k); return {v.end() - 1, true}; }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
  size_t erase(const K& k) { auto i = find(k); if (i == v.end()) return 0; v.erase(i); return 1; }
 private:
  std::vector<K> v;
};
} }
