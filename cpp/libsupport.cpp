// What the encoded code needs from the compiled part of libstdc++ (used by the executor only; native
// replays use the real one).  Trees are kept unbalanced: the order of their elements is the same.
#include <bits/stl_tree.h>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <list>
#include <unordered_map>
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept
{
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) x = y, y = y->_M_parent;
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    x = x->_M_right;
  else if (x->_M_left) {
    _Rb_tree_node_base *y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) x = y, y = y->_M_parent;
    x = y;
  }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) noexcept
{
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left)
      header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) noexcept
{
  auto replace = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) {
    if (header._M_parent == u)
      header._M_parent = v;
    else if (u->_M_parent->_M_left == u)
      u->_M_parent->_M_left = v;
    else
      u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left)
    replace(z, z->_M_right);
  else if (!z->_M_right)
    replace(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  _Rb_tree_node_base *r = header._M_parent;
  if (!r) {
    header._M_left = header._M_right = &header;
  } else {
    _Rb_tree_node_base *a = r, *b = r;
    while (a->_M_left) a = a->_M_left;
    while (b->_M_right) b = b->_M_right;
    header._M_left = a;
    header._M_right = b;
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
  _M_prev->_M_next = _M_next;
  _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *const t = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
  }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  static const unsigned char small[] = { 2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13 };
  size_t r = n < 14 ? small[n] : n | 1;
  _M_next_resize = r;
  return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
  if (n_elt + n_ins > _M_next_resize) {
    size_t want = n_elt + n_ins;
    if (want < n_bkt) {
      _M_next_resize = n_bkt;
      return { false, 0 };
    }
    size_t g = 2 * n_bkt;
    if (want + 1 > g) g = want + 1;
    return { true, _M_next_bkt(g) };
  }
  return { false, 0 };
}
}// namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
  const unsigned char *c = static_cast<const unsigned char *>(p);
  size_t h = seed;
  for (size_t i = 0; i < n; ++i) h = h * 131 + c[i];
  return h;
}
}// namespace std
