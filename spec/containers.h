// The parts of the C++ library that are linked, not compiled, written out for the engine (symbolic build only): list hooks, and
// ordered trees without the balancing (what a set or map holds does not depend on it).
#ifndef LCV_NATIVE
#include <list>
#include <set>
typedef std::_Rb_tree_node_base RB;
extern "C" void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(std::__detail::_List_node_base* n, std::__detail::_List_node_base* pos) {
  n->_M_next = pos; n->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = n; pos->_M_prev = n;
}
extern "C" void _ZNSt8__detail15_List_node_base9_M_unhookEv(std::__detail::_List_node_base* n) {
  n->_M_next->_M_prev = n->_M_prev; n->_M_prev->_M_next = n->_M_next;
}
extern "C" void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(std::__detail::_List_node_base* pos, std::__detail::_List_node_base* first, std::__detail::_List_node_base* last) {
  if (pos == last) return;
  last->_M_prev->_M_next = pos; first->_M_prev->_M_next = last; pos->_M_prev->_M_next = first;
  std::__detail::_List_node_base* t = pos->_M_prev;
  pos->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
extern "C" void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, RB* x, RB* p, RB& h) {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = std::_S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
// the header is the only red node
static RB* rbprev(RB* x) {
  if (x->_M_color == std::_S_red) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  RB* y = x->_M_parent;
  while (x == y->_M_left && y->_M_color != std::_S_red) { x = y; y = y->_M_parent; }
  return y;
}
static RB* rbnext(RB* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  RB* y = x->_M_parent;
  while (y->_M_color != std::_S_red && x == y->_M_right) { x = y; y = y->_M_parent; }
  return y;
}
extern "C" RB* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(RB* x) { return rbprev(x); }
extern "C" const RB* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const RB* x) { return rbprev(const_cast<RB*>(x)); }
extern "C" RB* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(RB* x) { return rbnext(x); }
extern "C" const RB* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const RB* x) { return rbnext(const_cast<RB*>(x)); }
static void rbput(RB* z, RB* c, RB& h) {   // c in the place of z
  RB* p = z->_M_parent;
  if (p == &h) h._M_parent = c; else if (p->_M_left == z) p->_M_left = c; else p->_M_right = c;
  if (c) c->_M_parent = p;
}
extern "C" RB* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RB* z, RB& h) {
  if (!z->_M_left) rbput(z, z->_M_right, h);
  else if (!z->_M_right) rbput(z, z->_M_left, h);
  else {
    RB* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    rbput(y, y->_M_right, h);
    y->_M_left = z->_M_left; y->_M_right = z->_M_right;
    y->_M_left->_M_parent = y; if (y->_M_right) y->_M_right->_M_parent = y;
    rbput(z, y, h);
  }
  RB* r = h._M_parent;
  if (!r) { h._M_left = h._M_right = &h; return z; }
  RB* a = r; while (a->_M_left) a = a->_M_left; h._M_left = a;
  a = r; while (a->_M_right) a = a->_M_right; h._M_right = a;
  return z;
}
#endif
