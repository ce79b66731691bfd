// Pieces of libstdc++ that live in the shared library, given as code for the symbolic executor only (-DVP_IR).
// Same contracts as libstdc++-v3/src/c++98/{list,tree}.cc and src/c++11/hashtable_c++0x.cc (trees are kept unbalanced, which no
// caller can observe; the bucket counts differ).
#pragma once
#ifdef VP_IR
#include <list>
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <string>
template class std::basic_string<char>;
namespace std {
namespace __detail {
inline __attribute__((used)) void vp_dummy_list() {}
__attribute__((weak)) void _List_node_base::_M_hook(_List_node_base * const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
__attribute__((weak)) void _List_node_base::_M_unhook() noexcept { auto*n=_M_next; auto*p=_M_prev; p->_M_next=n; n->_M_prev=p; }
__attribute__((weak)) void _List_node_base::_M_transfer(_List_node_base * const first,_List_node_base * const last) noexcept { if (this!=last) { last->_M_prev->_M_next=this; first->_M_prev->_M_next=last; _M_prev->_M_next=first; auto*t=_M_prev; _M_prev=last->_M_prev; last->_M_prev=first->_M_prev; first->_M_prev=t; } }
__attribute__((weak)) pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt,size_t elt,size_t ins) const { if (elt+ins<=bkt && bkt>1) return {false,0}; size_t n=bkt<4?5:bkt*2+1; while (n<elt+ins) n=n*2+1; return {true,n}; }
__attribute__((weak)) size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n<5?5:n|1; }
}
__attribute__((weak)) _Rb_tree_node_base * _Rb_tree_increment(_Rb_tree_node_base * x) throw() {
  if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; } else { auto*y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; } return x; }
__attribute__((weak)) const _Rb_tree_node_base * _Rb_tree_increment(const _Rb_tree_node_base * x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((weak)) _Rb_tree_node_base * _Rb_tree_decrement(_Rb_tree_node_base * x) throw() {
  if (x->_M_color==_S_red && x->_M_parent && x->_M_parent->_M_parent==x) x=x->_M_right; else if (x->_M_left) { auto*y=x->_M_left; while (y->_M_right) y=y->_M_right; x=y; } else { auto*y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } x=y; } return x; }
__attribute__((weak)) const _Rb_tree_node_base * _Rb_tree_decrement(const _Rb_tree_node_base * x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((weak)) void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h) throw() {
  x->_M_parent=p; x->_M_left=nullptr; x->_M_right=nullptr; x->_M_color=_S_black;
  if (left) { p->_M_left=x; if (p==&h) { h._M_parent=x; h._M_right=x; } else if (p==h._M_left) h._M_left=x; }
  else { p->_M_right=x; if (p==h._M_right) h._M_right=x; } }
__attribute__((weak)) _Rb_tree_node_base * _Rb_tree_rebalance_for_erase(_Rb_tree_node_base * const z,_Rb_tree_node_base & h) throw() {
  auto repl=[&](_Rb_tree_node_base*o,_Rb_tree_node_base*n){ if (h._M_parent==o) h._M_parent=n; else if (o->_M_parent->_M_left==o) o->_M_parent->_M_left=n; else o->_M_parent->_M_right=n; if (n) n->_M_parent=o->_M_parent; };
  auto mn=[](_Rb_tree_node_base*x){ while (x->_M_left) x=x->_M_left; return x; }; auto mx=[](_Rb_tree_node_base*x){ while (x->_M_right) x=x->_M_right; return x; };
  if (h._M_left==z) h._M_left= z->_M_right ? mn(z->_M_right) : z->_M_parent; if (h._M_right==z) h._M_right= z->_M_left ? mx(z->_M_left) : z->_M_parent;
  if (!z->_M_left) repl(z,z->_M_right); else if (!z->_M_right) repl(z,z->_M_left); else { auto*y=mn(z->_M_right); if (y->_M_parent!=z) { repl(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } repl(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
  return z; }
}
#endif
