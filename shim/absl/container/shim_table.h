// Order-of-insertion hash table stand-in: lookups compare keys linearly with
// operator== so that symbolic keys need no hashing.  Elements are node based.
#ifndef SHIM_ABSL_TABLE_H_
#define SHIM_ABSL_TABLE_H_
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <tuple>
#include <type_traits>
#include <utility>
namespace absl {
namespace shim {
template <typename V> struct Node { V v; Node* next = nullptr; Node* prev = nullptr; template <typename... A> explicit Node(A&&... a) : v(std::forward<A>(a)...) {} };
template <typename V, typename N> struct Iter {
  using iterator_category = std::forward_iterator_tag; using value_type = std::remove_const_t<V>; using difference_type = long; using pointer = V*; using reference = V&;
  N* n = nullptr;
  Iter() = default;
  explicit Iter(N* x) : n(x) {}
  template <typename V2, typename = std::enable_if_t<std::is_convertible_v<V2*, V*>>> Iter(const Iter<V2, N>& o) : n(o.n) {}
  V& operator*() const { return n->v; }
  V* operator->() const { return &n->v; }
  Iter& operator++() { n = n->next; return *this; }
  Iter operator++(int) { Iter t = *this; n = n->next; return t; }
  friend bool operator==(const Iter& a, const Iter& b) { return a.n == b.n; }
  friend bool operator!=(const Iter& a, const Iter& b) { return a.n != b.n; }
};
template <typename K, typename V, typename KeyOf, typename Eq>
class Table {
 public:
  using key_type = K; using value_type = V; using size_type = size_t; using difference_type = long;
  using reference = V&; using const_reference = const V&;
  using N = Node<V>;
  using const_iterator = Iter<const V, N>;
  using iterator = std::conditional_t<std::is_same_v<K, V>, const_iterator, Iter<V, N>>;
  Table() = default;
  Table(std::initializer_list<V> l) { for (auto& x : l) insert(x); }
  template <typename It> Table(It a, It b) { for (; a != b; ++a) insert(*a); }
  Table(const Table& o) { for (auto& x : o) insert(x); }
  Table(Table&& o) noexcept : h_(o.h_), t_(o.t_), n_(o.n_) { o.h_ = o.t_ = nullptr; o.n_ = 0; }
  Table& operator=(const Table& o) { if (this != &o) { clear(); for (auto& x : o) insert(x); } return *this; }
  Table& operator=(Table&& o) noexcept { if (this != &o) { clear(); h_ = o.h_; t_ = o.t_; n_ = o.n_; o.h_ = o.t_ = nullptr; o.n_ = 0; } return *this; }
  ~Table() { clear(); }
  iterator begin() { return iterator(h_); }
  iterator end() { return iterator(nullptr); }
  const_iterator begin() const { return const_iterator(h_); }
  const_iterator end() const { return const_iterator(nullptr); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  void reserve(size_t) {}
  void rehash(size_t) {}
  void clear() { while (h_) { N* x = h_->next; delete h_; h_ = x; } t_ = nullptr; n_ = 0; }
  template <typename Q> iterator find(const Q& k) { return iterator(look(k)); }
  template <typename Q> const_iterator find(const Q& k) const { return const_iterator(look(k)); }
  iterator find(const K& k) { return iterator(look(k)); }
  const_iterator find(const K& k) const { return const_iterator(look(k)); }
  template <typename Q> bool contains(const Q& k) const { return look(k) != nullptr; }
  bool contains(const K& k) const { return look(k) != nullptr; }
  template <typename Q> size_t count(const Q& k) const { return look(k) != nullptr; }
  size_t count(const K& k) const { return look(k) != nullptr; }
  std::pair<iterator, bool> insert(const V& v) { return ins(v); }
  std::pair<iterator, bool> insert(V&& v) { return ins(std::move(v)); }
  template <typename It> void insert(It a, It b) { for (; a != b; ++a) insert(*a); }
  void insert(std::initializer_list<V> l) { for (auto& x : l) insert(x); }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) {
    N* x = new N(std::forward<A>(a)...);
    if (N* o = look(KeyOf()(x->v))) { delete x; return {iterator(o), false}; }
    link(x); return {iterator(x), true};
  }
  template <typename Q> size_t erase(const Q& k) { if (N* x = look(k)) { unlink(x); return 1; } return 0; }
  size_t erase(const K& k) { if (N* x = look(k)) { unlink(x); return 1; } return 0; }
  void erase(iterator it) { unlink(it.n); }
  template <typename I, typename = std::enable_if_t<std::is_same_v<I, const_iterator> && !std::is_same_v<I, iterator>>, typename = void> void erase(I it) { unlink(it.n); }
  void swap(Table& o) { std::swap(h_, o.h_); std::swap(t_, o.t_); std::swap(n_, o.n_); }
  template <typename Q> std::pair<iterator, iterator> equal_range(const Q& k) { N* x = look(k); return x ? std::pair<iterator, iterator>(iterator(x), iterator(x->next)) : std::pair<iterator, iterator>(end(), end()); }
  template <typename... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }
  void erase(iterator a, iterator b) { while (a != b) { auto n = a; ++a; unlink(n.n); } }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.n_ != b.n_) return false;
    for (auto& x : a) { auto* o = b.look(KeyOf()(x)); if (!o || !(o->v == x)) return false; }
    return true;
  }
  friend bool operator!=(const Table& a, const Table& b) { return !(a == b); }
 protected:
  template <typename Q> N* look(const Q& k) const { Eq eq; for (N* x = h_; x; x = x->next) if (eq(KeyOf()(x->v), k)) return x; return nullptr; }
  template <typename U> std::pair<iterator, bool> ins(U&& v) {
    if (N* o = look(KeyOf()(v))) return {iterator(o), false};
    N* x = new N(std::forward<U>(v)); link(x); return {iterator(x), true};
  }
  void link(N* x) { x->prev = t_; x->next = nullptr; if (t_) t_->next = x; else h_ = x; t_ = x; n_++; }
  void unlink(N* x) { if (x->prev) x->prev->next = x->next; else h_ = x->next; if (x->next) x->next->prev = x->prev; else t_ = x->prev; n_--; delete x; }
  N *h_ = nullptr, *t_ = nullptr; size_t n_ = 0;
};
struct Fst { template <typename P> const auto& operator()(const P& p) const { return p.first; } };
struct Idn { template <typename P> const P& operator()(const P& p) const { return p; } };
}  // namespace shim
template <typename K, typename T, typename H = void, typename Eq = std::equal_to<>, typename A = void>
class flat_hash_map : public shim::Table<K, std::pair<const K, T>, shim::Fst, Eq> {
  using B = shim::Table<K, std::pair<const K, T>, shim::Fst, Eq>;
 public:
  using B::B; using mapped_type = T;
  using typename B::iterator; using typename B::N;
  template <typename Q, typename... AA> std::pair<iterator, bool> try_emplace(Q&& k, AA&&... a) {
    if (N* o = this->look(k)) return {iterator(o), false};
    N* x = new N(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<AA>(a)...));
    this->link(x); return {iterator(x), true};
  }
  template <typename Q> T& operator[](Q&& k) { return try_emplace(std::forward<Q>(k)).first->second; }
  T& operator[](const K& k) { return try_emplace(k).first->second; }
  template <typename Q, typename U> std::pair<iterator, bool> insert_or_assign(Q&& k, U&& v) {
    if (N* o = this->look(k)) { o->v.second = std::forward<U>(v); return {iterator(o), false}; }
    return try_emplace(std::forward<Q>(k), std::forward<U>(v));
  }
  template <typename Q> T& at(const Q& k) { if (N* o = this->look(k)) return o->v.second; ::abort(); }
  template <typename Q> const T& at(const Q& k) const { if (N* o = this->look(k)) return o->v.second; ::abort(); }
};
template <typename K, typename H = void, typename Eq = std::equal_to<>, typename A = void>
class flat_hash_set : public shim::Table<K, K, shim::Idn, Eq> { public: using shim::Table<K, K, shim::Idn, Eq>::Table; };
template <typename K, typename T, typename H = void, typename Eq = std::equal_to<>, typename A = void> using node_hash_map = flat_hash_map<K, T, H, Eq, A>;
template <typename K, typename H = void, typename Eq = std::equal_to<>, typename A = void> using node_hash_set = flat_hash_set<K, H, Eq, A>;
template <typename K, typename V, typename F, typename Eq, typename P> size_t erase_if(shim::Table<K, V, F, Eq>& c, P p) {
  size_t n = 0; for (auto i = c.begin(); i != c.end();) { auto j = i; ++i; if (p(*j)) { c.erase(j); n++; } } return n;
}
}  // namespace absl
#endif
