// Model of absl::flat_hash_set / flat_hash_map: same contents, some iteration order.
#pragma once
#include <initializer_list>
#include <utility>
#include <vector>
namespace absl {
template <typename K, typename... R>
class flat_hash_set {
  std::vector<K> v_;
 public:
  using value_type = K;
  using iterator = typename std::vector<K>::const_iterator;
  using const_iterator = iterator;
  flat_hash_set() {}
  explicit flat_hash_set(size_t) {}
  template <typename I>
  flat_hash_set(I a, I b) { for (; a != b; ++a) insert(*a); }
  flat_hash_set(std::initializer_list<K> l) { for (auto& x : l) insert(x); }
  std::pair<iterator, bool> insert(const K& k) {
    for (size_t i = 0; i < v_.size(); i++)
      if (v_[i] == k) return {v_.begin() + i, false};
    v_.push_back(k);
    return {v_.end() - 1, true};
  }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
  template <typename I>
  void insert(I a, I b) { for (; a != b; ++a) insert(*a); }
  bool contains(const K& k) const { return count(k); }
  size_t count(const K& k) const { return find(k) != end(); }
  iterator find(const K& k) const {
    for (auto i = v_.begin(); i != v_.end(); ++i)
      if (*i == k) return i;
    return v_.end();
  }
  size_t erase(const K& k) {
    for (auto i = v_.begin(); i != v_.end(); ++i)
      if (*i == k) { v_.erase(i); return 1; }
    return 0;
  }
  void clear() { v_.clear(); }
  void reserve(size_t) {}
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  iterator begin() const { return v_.begin(); }
  iterator end() const { return v_.end(); }
};
template <typename K, typename V, typename... R>
class flat_hash_map {
  std::vector<std::pair<K, V>> v_;
 public:
  using iterator = typename std::vector<std::pair<K, V>>::iterator;
  using const_iterator = typename std::vector<std::pair<K, V>>::const_iterator;
  V& operator[](const K& k) {
    for (auto& p : v_)
      if (p.first == k) return p.second;
    v_.push_back({k, V()});
    return v_.back().second;
  }
  iterator find(const K& k) {
    for (auto i = v_.begin(); i != v_.end(); ++i)
      if (i->first == k) return i;
    return v_.end();
  }
  size_t count(const K& k) { return find(k) != end(); }
  bool contains(const K& k) { return count(k); }
  V& at(const K& k) { return find(k)->second; }
  std::pair<iterator, bool> insert(const std::pair<K, V>& p) {
    auto i = find(p.first);
    if (i != end()) return {i, false};
    v_.push_back(p);
    return {v_.end() - 1, true};
  }
  template <typename... A>
  std::pair<iterator, bool> emplace(A&&... a) { return insert(std::pair<K, V>(std::forward<A>(a)...)); }
  size_t erase(const K& k) {
    auto i = find(k);
    if (i == end()) return 0;
    v_.erase(i);
    return 1;
  }
  void reserve(size_t) {}
  void clear() { v_.clear(); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  iterator begin() { return v_.begin(); }
  iterator end() { return v_.end(); }
};
}  // namespace absl
