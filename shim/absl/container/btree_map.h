#ifndef SHIM_BTREE_MAP_H_
#define SHIM_BTREE_MAP_H_
#include <functional>
#include <map>
#include <type_traits>
#include <string>
namespace absl {
namespace shim { template <typename K> using less_for = std::less<>; }
template <typename K, typename V, typename C = shim::less_for<K>> class btree_map : public std::map<K, V, C> {
 public: using std::map<K, V, C>::map;
  using B = std::map<K, V, C>; using B::erase;
  template <typename Q, typename = std::enable_if_t<!std::is_convertible_v<const Q&, typename B::const_iterator> && !std::is_convertible_v<const Q&, K>>> size_t erase(const Q& k) { size_t n = 0; auto i = this->find(k); while (i != this->end()) { this->B::erase(i); n++; i = this->find(k); } return n; }
  template <typename Q> bool contains(const Q& k) const { return this->find(k) != this->end(); } };
template <typename K, typename V, typename C = shim::less_for<K>> class btree_multimap : public std::multimap<K, V, C> {
 public: using std::multimap<K, V, C>::multimap;
  using B = std::multimap<K, V, C>; using B::erase;
  template <typename Q, typename = std::enable_if_t<!std::is_convertible_v<const Q&, typename B::const_iterator> && !std::is_convertible_v<const Q&, K>>> size_t erase(const Q& k) { size_t n = 0; auto i = this->find(k); while (i != this->end()) { this->B::erase(i); n++; i = this->find(k); } return n; }
  template <typename Q> bool contains(const Q& k) const { return this->find(k) != this->end(); } };
}
#endif
