#ifndef SHIM_BTREE_SET_H_
#define SHIM_BTREE_SET_H_
#include <functional>
#include <set>
#include <string>
#include <type_traits>
namespace absl {
template <typename K, typename C = std::less<>> class btree_set : public std::set<K, C> {
 public: using std::set<K, C>::set;
  using B = std::set<K, C>; using B::erase;
  template <typename Q, typename = std::enable_if_t<!std::is_convertible_v<const Q&, typename B::const_iterator> && !std::is_convertible_v<const Q&, K>>> size_t erase(const Q& k) { size_t n = 0; auto i = this->find(k); while (i != this->end()) { this->B::erase(i); n++; i = this->find(k); } return n; }
  template <typename Q> bool contains(const Q& k) const { return this->find(k) != this->end(); } };
template <typename K, typename C = std::less<>> class btree_multiset : public std::multiset<K, C> {
 public: using std::multiset<K, C>::multiset;
  using B = std::multiset<K, C>; using B::erase;
  template <typename Q, typename = std::enable_if_t<!std::is_convertible_v<const Q&, typename B::const_iterator> && !std::is_convertible_v<const Q&, K>>> size_t erase(const Q& k) { size_t n = 0; auto i = this->find(k); while (i != this->end()) { this->B::erase(i); n++; i = this->find(k); } return n; }
  template <typename Q> bool contains(const Q& k) const { return this->find(k) != this->end(); } };
}
#endif
