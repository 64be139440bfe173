// Models of the out-of-line libstdc++ / libc / libc++abi pieces the code under
// test links against (symbolic build only).
#include <bits/stl_tree.h>
#include <cstddef>
#include <cstdint>
#include <list>
#include <string>
#include <typeinfo>
#include <unordered_map>


namespace std {
// --- red-black tree: an unbalanced binary search tree with the same interface.
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  // The header is red and is its own grandparent.
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (insert_left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* y;
  auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
    _Rb_tree_node_base* p = o->_M_parent;
    if (h._M_parent == o) h._M_parent = n;
    else if (p->_M_left == o) p->_M_left = n;
    else p->_M_right = n;
    if (n) n->_M_parent = p;
  };
  // leftmost / rightmost
  if (h._M_left == z) {
    if (z->_M_right) { y = z->_M_right; while (y->_M_left) y = y->_M_left; h._M_left = y; }
    else h._M_left = z->_M_parent;
  }
  if (h._M_right == z) {
    if (z->_M_left) { y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; }
    else h._M_right = z->_M_parent;
  }
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}

// --- std::list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t;
      t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t;
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
// --- unordered containers: keep one bucket, so every lookup is a linear scan.
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}  // namespace __detail
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
}  // namespace std

// --- std::string: the explicit instantiation that normally lives in libstdc++.
#include <string>
template class std::basic_string<char>;
