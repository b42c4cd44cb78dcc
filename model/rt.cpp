// Environment model for the symbolic executor: the parts of libstdc++/the C library that the encoded
// code calls and that exist only in binary form.  Not linked into native replays.
#include <cstddef>
#include <cstdint>
#include <bits/stl_tree.h>
#include <list>
#include "vsx.h"
extern "C" int vsx_alive(void);
extern "C" void vsx_join(void) { while (vsx_alive()) vsx_yield(); }
namespace ovxx { namespace chrono { struct high_resolution_clock { static float tics_per_nanosecond; static void init(); };
float high_resolution_clock::tics_per_nanosecond; void high_resolution_clock::init() { tics_per_nanosecond = 1; } } }
extern "C" void _ZSt21ios_base_library_initv() {}
namespace std {
// red-black tree: an (unbalanced) search tree satisfies every contract callers rely on except complexity
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  // plain binary-search-tree removal
  _Rb_tree_node_base *succ = 0; if (&h != z) { }
  _Rb_tree_node_base *parent = z->_M_parent; bool isroot = h._M_parent == z;
  _Rb_tree_node_base *repl;
  if (!z->_M_left) repl = z->_M_right; else if (!z->_M_right) repl = z->_M_left;
  else { succ = z->_M_right; while (succ->_M_left) succ = succ->_M_left;
    if (succ->_M_parent != z) { succ->_M_parent->_M_left = succ->_M_right; if (succ->_M_right) succ->_M_right->_M_parent = succ->_M_parent; succ->_M_right = z->_M_right; z->_M_right->_M_parent = succ; }
    succ->_M_left = z->_M_left; z->_M_left->_M_parent = succ; repl = succ; }
  if (repl) repl->_M_parent = parent;
  if (isroot) h._M_parent = repl; else if (parent->_M_left == z) parent->_M_left = repl; else parent->_M_right = repl;
  _Rb_tree_node_base *r = h._M_parent;
  if (!r) { h._M_left = &h; h._M_right = &h; } else { _Rb_tree_node_base *l = r; while (l->_M_left) l = l->_M_left; h._M_left = l; l = r; while (l->_M_right) l = l->_M_right; h._M_right = l; }
  return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
}
extern "C" float hypotf(float, float); extern "C" double hypot(double, double);
extern "C" float cabsf(float _Complex z) { return hypotf(__real__ z, __imag__ z); }
extern "C" double cabs(double _Complex z) { return hypot(__real__ z, __imag__ z); }
