// Trusted models, for the verifier only, of libstdc++ runtime functions that have no source here:
// the red-black tree entry points, as a plain (unbalanced) binary search tree, and list hooks.
#include <bits/stl_tree.h>
#include <list>
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; }
  else { _Rb_tree_node_base* y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; }
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color==_S_red && x->_M_parent && x->_M_parent->_M_parent==x) x=x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y=x->_M_left; while (y->_M_right) y=y->_M_right; x=y; }
  else { _Rb_tree_node_base* y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } x=y; }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
  if (left) {
    p->_M_left=x;
    if (p==&h) { h._M_parent=x; h._M_right=x; }
    else if (p==h._M_left) h._M_left=x;
  } else { p->_M_right=x; if (p==h._M_right) h._M_right=x; }
  h._M_color=_S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *repl=0, *nl=h._M_left, *nr=h._M_right;
  if (z==h._M_left) nl=inc(z);
  if (z==h._M_right) nr=dec(z);
  if (z->_M_left==0) repl=z->_M_right;
  else if (z->_M_right==0) repl=z->_M_left;
  else {
    _Rb_tree_node_base* y=z->_M_right; while (y->_M_left) y=y->_M_left;
    if (y->_M_parent!=z) {
      y->_M_parent->_M_left=y->_M_right; if (y->_M_right) y->_M_right->_M_parent=y->_M_parent;
      y->_M_right=z->_M_right; z->_M_right->_M_parent=y;
    }
    y->_M_left=z->_M_left; z->_M_left->_M_parent=y; repl=y;
  }
  _Rb_tree_node_base* p=z->_M_parent;
  if (repl) repl->_M_parent=p;
  if (h._M_parent==z) h._M_parent=repl;
  else if (p->_M_left==z) p->_M_left=repl; else p->_M_right=repl;
  if (h._M_parent==0) { h._M_left=&h; h._M_right=&h; }
  else { if (z==h._M_left) h._M_left=nl; if (z==h._M_right) h._M_right=nr; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n=_M_next; _List_node_base* p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::swap(_List_node_base& a, _List_node_base& b) noexcept {
  if (a._M_next!=&a) { if (b._M_next!=&b) { auto* n=a._M_next; a._M_next=b._M_next; b._M_next=n; n=a._M_prev; a._M_prev=b._M_prev; b._M_prev=n; a._M_next->_M_prev=a._M_prev->_M_next=&a; b._M_next->_M_prev=b._M_prev->_M_next=&b; }
    else { b._M_next=a._M_next; b._M_prev=a._M_prev; b._M_next->_M_prev=b._M_prev->_M_next=&b; a._M_next=a._M_prev=&a; } }
  else if (b._M_next!=&b) { a._M_next=b._M_next; a._M_prev=b._M_prev; a._M_next->_M_prev=a._M_prev->_M_next=&a; b._M_next=b._M_prev=&b; } }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this!=last) { last->_M_prev->_M_next=this; first->_M_prev->_M_next=last; this->_M_prev->_M_next=first;
    _List_node_base* const t=this->_M_prev; this->_M_prev=last->_M_prev; last->_M_prev=first->_M_prev; first->_M_prev=t; }
}
}
}
