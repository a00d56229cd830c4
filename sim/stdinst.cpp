// Instrumented definitions of the parts of std::list and std::map / std::set that live in libstdc++.so.
// This file is compiled with the memory access instrumentation, so that the scheduler can preempt inside these
// operations as well; the definitions of the executable take precedence over those of the shared library.
#include <list>
#include <map>

namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base * const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base * n = _M_next, * p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base * const first, _List_node_base * const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this;
  first->_M_prev->_M_next = last;
  _M_prev->_M_next = first;
  _List_node_base * t = _M_prev;
  _M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = t;
}
} // namespace __detail

namespace {
using N = _Rb_tree_node_base;
N * next(N * x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N * y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
N * prev(N * x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // end()
  if (x->_M_left) { N * y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N * y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
void rotateLeft(N * x, N * & root) {
  N * y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
void rotateRight(N * x, N * & root) {
  N * y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
} // namespace

N * _Rb_tree_increment(N * x) noexcept { return next(x); }
const N * _Rb_tree_increment(const N * x) noexcept { return next(const_cast<N *>(x)); }
N * _Rb_tree_decrement(N * x) noexcept { return prev(x); }
const N * _Rb_tree_decrement(const N * x) noexcept { return prev(const_cast<N *>(x)); }

void _Rb_tree_insert_and_rebalance(const bool left, N * x, N * p, N & h) noexcept {
  N * & root = h._M_parent;
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N * const g = x->_M_parent->_M_parent;
    const bool onLeft = x->_M_parent == g->_M_left;
    N * const u = onLeft ? g->_M_right : g->_M_left;
    if (u && u->_M_color == _S_red) {
      x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g;
    } else if (onLeft) {
      if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotateLeft(x, root); }
      x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotateRight(g, root);
    } else {
      if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotateRight(x, root); }
      x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotateLeft(g, root);
    }
  }
  root->_M_color = _S_black;
}

N * _Rb_tree_rebalance_for_erase(N * const z, N & h) noexcept {
  N * & root = h._M_parent; N * & leftmost = h._M_left; N * & rightmost = h._M_right;
  N * y = z, * x = nullptr, * xp = nullptr;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { // z has two children: its successor y takes its place
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { N * m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { N * m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) {
        N * w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotateLeft(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotateRight(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotateLeft(xp, root); break;
        }
      } else {
        N * w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotateRight(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotateLeft(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotateRight(xp, root); break;
        }
      }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
} // namespace std
