// Search trees of std::map and std::set: the library functions that are not in
// its headers, without the rebalancing (which does not change the order).
#ifndef VC_NATIVE
#include <map>
namespace std {
typedef _Rb_tree_node_base N;
static N *next(N *x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    N *y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static N *previous(N *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) {
    x = x->_M_right;
  } else if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
  } else {
    N *y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
N *_Rb_tree_increment(N *x) noexcept { return next(x); }
const N *_Rb_tree_increment(const N *x) noexcept { return next(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) noexcept { return previous(x); }
const N *_Rb_tree_decrement(const N *x) noexcept { return previous(const_cast<N *>(x)); }
// all nodes are black; only the header is red
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &header) noexcept {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &header) noexcept {
  if (header._M_left == z) header._M_left = next(z);
  if (header._M_right == z) header._M_right = previous(z);
  N *with;
  if (!z->_M_left) {
    with = z->_M_right;
  } else if (!z->_M_right) {
    with = z->_M_left;
  } else {
    with = z->_M_right;
    while (with->_M_left) with = with->_M_left;
    if (with != z->_M_right) {
      with->_M_parent->_M_left = with->_M_right;
      if (with->_M_right) with->_M_right->_M_parent = with->_M_parent;
      with->_M_right = z->_M_right;
      z->_M_right->_M_parent = with;
    }
    with->_M_left = z->_M_left;
    z->_M_left->_M_parent = with;
  }
  if (with) with->_M_parent = z->_M_parent;
  if (z == header._M_parent) header._M_parent = with;
  else if (z == z->_M_parent->_M_left) z->_M_parent->_M_left = with;
  else z->_M_parent->_M_right = with;
  return z;
}
}  // namespace std
#endif
