// Definitions of the libstdc++ helpers that live in the shared library, so
// that the symbolic engine executes them like any other code.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <list>
#include <new>
#include <string>
#include <system_error>
#include <unordered_map>

namespace std {
const nothrow_t nothrow{};

static _Rb_tree_node_base* Inc(_Rb_tree_node_base* x) {
  if (x->_M_right != 0) {
    x = x->_M_right;
    while (x->_M_left != 0) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base* Dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    x = x->_M_right;
  else if (x->_M_left != 0) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right != 0) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return Inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return Inc(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return Dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return Dec(const_cast<_Rb_tree_node_base*>(x));
}
static void RotL(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left != 0) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void RotR(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right != 0) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root = header._M_parent;
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_red;
  if (insert_left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left)
      header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_right) {
          x = x->_M_parent;
          RotL(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        RotR(xpp, root);
      }
    } else {
      _Rb_tree_node_base* const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_left) {
          x = x->_M_parent;
          RotR(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        RotL(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,
                                                 _Rb_tree_node_base& header) throw() {
  // Balance is irrelevant for the engine; keep the order and the links.
  _Rb_tree_node_base*& root = header._M_parent;
  _Rb_tree_node_base*& leftmost = header._M_left;
  _Rb_tree_node_base*& rightmost = header._M_right;
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = 0;
  _Rb_tree_node_base* xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left != 0) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else
      xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == 0) leftmost = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (z->_M_left == 0) rightmost = z->_M_parent;
      else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  }
  if (root) root->_M_color = _S_black;
  (void)xp;
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _List_node_base* const n = this->_M_next;
  _List_node_base* const p = this->_M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t r = n < 13 ? 13 : n | 1;
  _M_next_resize = r;
  return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > nb) return {true, _M_next_bkt((ne + ni) * 2)};
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  const unsigned char* b = (const unsigned char*)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 131 + b[i];
  return h;
}
}  // namespace std
extern "C" char* strerror(int) noexcept {
  static char text[] = "error";
  return text;
}
