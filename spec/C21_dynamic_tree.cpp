// Contracts on the dynamic AABB trees of the broad phase: traversal (recursive contracts over a ghost pair of objects, boxes
// symbolic) and the operations on the tree itself (bounded).
// LCV-REPLACE: dynamic_AABB_tree16collisionRecurseIdEEbPN.*DynamicAABBNodeES7_Pv => stub_c2
// LCV-REPLACE: dynamic_AABB_tree16collisionRecurseIdEEbPN.*DynamicAABBNodeEPNS_15CollisionObject => stub_cq
// LCV-REPLACE: dynamic_AABB_tree20selfCollisionRecurse => stub_cs
// LCV-REPLACE: dynamic_AABB_tree15distanceRecurseIdEEbPN.*DynamicAABBNodeES7_Pv => stub_d2
// LCV-REPLACE: dynamic_AABB_tree15distanceRecurseIdEEbPN.*DynamicAABBNodeEPNS_15CollisionObject => stub_dq
// LCV-REPLACE: dynamic_AABB_tree19selfDistanceRecurse => stub_ds
// LCV-REPLACE: dynamic_AABB_tree_array16collisionRecurseIdEEbPN.*mS.*_mPvPFb => stub_ac2
// LCV-REPLACE: dynamic_AABB_tree_array16collisionRecurseIdEEbPN.*mPNS_15CollisionObject => stub_acq
// LCV-REPLACE: dynamic_AABB_tree_array20selfCollisionRecurse => stub_acs
// LCV-REPLACE: dynamic_AABB_tree_array15distanceRecurseIdEEbPN.*mS.*_mPvPFb => stub_ad2
// LCV-REPLACE: dynamic_AABB_tree_array15distanceRecurseIdEEbPN.*mPNS_15CollisionObject => stub_adq
// LCV-REPLACE: dynamic_AABB_tree_array19selfDistanceRecurse => stub_ads
// LCV-REPLACE: 4AABBIdE8distanceERKS1_$ => stub_boxdist
// LCV-REPLACE: 4AABBIdE4sizeEv$ => stub_size
// LCV-REPLACE: 4AABBIdE5equalERKS1_$ => stub_equal
// LCV-REPLACE: 4AABBIdE7containERKS1_$ => stub_contain
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "broadphase/detail/morton.cpp"
#include "fcl/geometry/shape/sphere.h"
#include <unordered_map>
#include "lcv.h"
using namespace lcv;
typedef fcl::AABB<double> AB;
typedef fcl::CollisionObject<double> Obj;
typedef fcl::DynamicAABBTreeCollisionManager<double> TreeMgr;
typedef fcl::DynamicAABBTreeCollisionManager_Array<double> ArrMgr;
typedef fcl::detail::NodeBase<AB> PN;
typedef fcl::detail::implementation_array::NodeBase<AB> AN;
typedef fcl::detail::HierarchyTree<AB> HT;
namespace pt = fcl::detail::dynamic_AABB_tree;
namespace at = fcl::detail::dynamic_AABB_tree_array;

static AB box(const char* n) {
  AB b;
  for (int i = 0; i < 3; i++) { b.min_[i] = real(n); b.max_[i] = real(n); assume(b.min_[i] <= b.max_[i]); }
  return b;
}
static bool within(const AB& a, const AB& b) {
  bool r = true;
  for (int i = 0; i < 3; i++) r = r & (b.min_[i] <= a.min_[i]) & (a.max_[i] <= b.max_[i]);
  return r;
}
static bool meet(const AB& a, const AB& b) {
  bool r = true;
  for (int i = 0; i < 3; i++) r = r & (a.min_[i] <= b.max_[i]) & (b.min_[i] <= a.max_[i]);
  return r;
}
static bool same(const AB& a, const AB& b) { return within(a, b) & within(b, a); }

#ifndef LCV_NATIVE
// ---- ghost state: x1 (x2) is any object that may be in the first (second) tree
static void leafNode(PN& m, void* d) { m.data = d; m.children[1] = nullptr; }
static void leafNode(AN& m, void* d) { m.data = d; m.children[1] = (size_t)-1; }
static void inner(PN* m) { m[0].children[0] = &m[1]; m[0].children[1] = &m[2]; m[1].parent = m[2].parent = &m[0]; }
static void inner(AN* m) { m[0].children[0] = 1; m[0].children[1] = 2; m[1].parent = m[2].parent = 0; }
template <class N> struct Tree { N n[3]; bool leaf; };   // root and children
template <class N> struct Side {
  Tree<N>* t; bool in, left; AB x;      // x is in the tree, under the first child; its box
  void place(Tree<N>* u) {
    t = u; in = boolean("in"); left = boolean("left"); x = box("x");
    assume(imp(in, within(x, t->n[0].bv)));
    if (t->leaf) assume(imp(in, same(x, t->n[0].bv)));
    else { assume(imp(in & left, within(x, t->n[1].bv))); assume(imp(in & !left, within(x, t->n[2].bv))); }
  }
  bool under(const N* p) const {
    if (p == &t->n[0]) return in;
    check(!t->leaf & ((p == &t->n[1]) | (p == &t->n[2])), "a node at hand");
    return in & (p == &t->n[1] ? left : !left);
  }
};
struct Ghost {
  AB x1, x2; Obj *o1, *o2; double dist, least; void* cdata; void* cb;
  int called; bool stop;
};
static Ghost g;
static bool cback(Obj* a, Obj* b, void* cdata) {
  check(cdata == g.cdata, "the caller's data are handed on");
  check(!g.stop, "nothing after the callback asked to stop");
  if ((a == g.o1) & (b == g.o2)) { g.called++; check(meet(g.x1, g.x2), "only pairs whose boxes overlap"); }
  g.stop = split(__lcv_havoc_bool("stop"));
  return g.stop;
}
static void lower(double& d) {
  check(d == g.least, "the distance found so far is handed on");
  d = __lcv_havoc_real("least");
  assume(d <= g.least);
  g.least = d;
}
static bool dback(Obj* a, Obj* b, void* cdata, double& d) {
  check(cdata == g.cdata, "the caller's data are handed on");
  check(!g.stop, "nothing after the callback asked to stop");
  if ((a == g.o1) & (b == g.o2)) g.called++;
  lower(d);
  g.stop = split(__lcv_havoc_bool("stop"));
  return g.stop;
}
// AABB::distance by its contract (C01): no more than the distance of boxes within
extern "C" double stub_boxdist(const AB* a, const AB& b) {
  double d = __lcv_havoc_real("boxdist");
  assume(d >= 0);
  assume(imp((within(g.x1, *a) & within(g.x2, b)) | (within(g.x2, *a) & within(g.x1, b)), d <= g.dist));
  return d;
}
// equal boxes: taken as exactly equal (the code allows 1e-14 relative, the size of rounding errors)
extern "C" bool stub_equal(const AB* a, const AB& b) { return split(same(*a, b)); }
extern "C" bool stub_contain(const AB* a, const AB& b) { return split(within(b, *a)); }
extern "C" double stub_size(const AB*) { return __lcv_havoc_real("size"); }
alignas(16) static char omem[3][sizeof(Obj)];
static Obj* object(int i) { return reinterpret_cast<Obj*>(omem[i]); }
static void start() {
  g.cdata = omem[2] + 1; g.called = 0; g.stop = false;
  g.o1 = object(0); g.o2 = object(1);
  g.dist = real("D"); g.least = real("least");
  assume(g.dist >= 0);
}
// what a recursive call does for the ghost pair
static bool ccall(bool u) {
  check(!g.stop, "nothing after the callback asked to stop");
  bool s = split(__lcv_havoc_bool("stop")), t = __lcv_havoc_bool("called");
  assume(imp(t, u & meet(g.x1, g.x2))); assume(imp(u & !s & meet(g.x1, g.x2), t));
  g.called += t; g.stop = s;
  return s;
}
static bool dcall(bool u, double& d) {
  check(!g.stop, "nothing after the callback asked to stop");
  lower(d);
  bool s = split(__lcv_havoc_bool("stop")), t = __lcv_havoc_bool("called");
  assume(imp(t, u)); assume(imp(u & !s, t | (g.dist >= g.least)));
  g.called += t; g.stop = s;
  return s;
}
static void cpost(bool u, bool r) {
  cover("run");
  check(r == g.stop, "says whether the callback asked to stop");
  check(imp(u & meet(g.x1, g.x2) & !g.stop, g.called == 1), "every pair of objects whose boxes overlap is handed to the callback");
  check(g.called <= 1, "at most once");
  check(imp(!u, g.called == 0), "only objects of the given trees");
}
static void dpost(bool u, bool r) {
  cover("run");
  check(r == g.stop, "says whether the callback asked to stop");
  check(imp(u & !g.stop, (g.called == 1) | (g.dist >= g.least)), "every pair of objects is handed to the callback unless their boxes are no nearer than the distance found");
  check(g.called <= 1, "at most once");
  check(imp(!u, g.called == 0), "only objects of the given trees");
}
typedef bool (*CB)(Obj*, Obj*, void*);
typedef bool (*DB)(Obj*, Obj*, void*, double&);
template <class N> struct World {
  static Tree<N> t1, t2; static Side<N> s1, s2;
  static Obj* other() { return object(2); }
  static void tree(Tree<N>& t) {
    t.leaf = split(boolean("leaf"));
    for (int i = 0; i < 3; i++) t.n[i].bv = box("bv");
    if (!t.leaf) inner(t.n);
  }
  static void make(bool two) {
    tree(t1); s1.place(&t1);
    if (t1.leaf) leafNode(t1.n[0], split(s1.in) ? g.o1 : other());
    if (two) {
      tree(t2); s2.place(&t2);
      if (t2.leaf) leafNode(t2.n[0], split(s2.in) ? g.o2 : other());
    }
    else s2.x = box("query");
    g.x1 = s1.x; g.x2 = s2.x;
  }
  static void makeSelf() {
    tree(t1); s1.place(&t1); s2.place(&t1);
    assume(imp(t1.leaf, !(s1.in & s2.in)));
    assume(imp(s1.in & s2.in, !(!s1.left & s2.left)));      // x1 is to the left of x2
    if (t1.leaf) leafNode(t1.n[0], split(s1.in) ? g.o1 : split(s2.in) ? g.o2 : other());
    g.x1 = s1.x; g.x2 = s2.x;
  }
};
template <class N> Tree<N> World<N>::t1; template <class N> Tree<N> World<N>::t2;
template <class N> Side<N> World<N>::s1; template <class N> Side<N> World<N>::s2;
static bool outside;  // the calls looked at are those of the manager, not of the recursion
static bool args(void* cdata, CB cb) { return (cdata == g.cdata) & (cb == &cback); }
static bool args(void* cdata, DB cb) { return (cdata == g.cdata) & (cb == &dback); }
#define LCV_CALL(root) check(args(cdata, cb), "callback and data are handed on"); check(outside == (root), "recursion descends, starting from the root")
extern "C" bool stub_c2(PN* a, PN* b, void* cdata, CB cb) {
  typedef World<PN> W;
  
  LCV_CALL((a == W::s1.t->n) & (b == W::s2.t->n));
  return ccall(W::s1.under(a) & W::s2.under(b));
}
extern "C" bool stub_cq(PN* a, Obj* q, void* cdata, CB cb) {
  typedef World<PN> W;
   check(q == g.o2, "the object asked about");
  LCV_CALL(a == W::s1.t->n);
  return ccall(W::s1.under(a));
}
extern "C" bool stub_cs(PN* a, void* cdata, CB cb) {
  typedef World<PN> W;
  
  LCV_CALL(a == W::s1.t->n);
  return ccall(W::s1.under(a) & W::s2.under(a));
}
extern "C" bool stub_d2(PN* a, PN* b, void* cdata, DB cb, double& d) {
  typedef World<PN> W;
  
  LCV_CALL((a == W::s1.t->n) & (b == W::s2.t->n));
  return dcall(W::s1.under(a) & W::s2.under(b), d);
}
extern "C" bool stub_dq(PN* a, Obj* q, void* cdata, DB cb, double& d) {
  typedef World<PN> W;
   check(q == g.o2, "the object asked about");
  LCV_CALL(a == W::s1.t->n);
  return dcall(W::s1.under(a), d);
}
extern "C" bool stub_ds(PN* a, void* cdata, DB cb, double& d) {
  typedef World<PN> W;
  
  LCV_CALL(a == W::s1.t->n);
  return dcall(W::s1.under(a) & W::s2.under(a), d);
}
extern "C" bool stub_ac2(AN* n1, size_t i1, AN* n2, size_t i2, void* cdata, CB cb) {
  typedef World<AN> W;
  AN *a = n1 + i1, *b = n2 + i2;
  LCV_CALL((a == W::s1.t->n) & (b == W::s2.t->n));
  return ccall(W::s1.under(a) & W::s2.under(b));
}
extern "C" bool stub_acq(AN* n1, size_t i1, Obj* q, void* cdata, CB cb) {
  typedef World<AN> W;
  AN* a = n1 + i1; check(q == g.o2, "the object asked about");
  LCV_CALL(a == W::s1.t->n);
  return ccall(W::s1.under(a));
}
extern "C" bool stub_acs(AN* n1, size_t i1, void* cdata, CB cb) {
  typedef World<AN> W;
  AN* a = n1 + i1;
  LCV_CALL(a == W::s1.t->n);
  return ccall(W::s1.under(a) & W::s2.under(a));
}
extern "C" bool stub_ad2(AN* n1, size_t i1, AN* n2, size_t i2, void* cdata, DB cb, double& d) {
  typedef World<AN> W;
  AN *a = n1 + i1, *b = n2 + i2;
  LCV_CALL((a == W::s1.t->n) & (b == W::s2.t->n));
  return dcall(W::s1.under(a) & W::s2.under(b), d);
}
extern "C" bool stub_adq(AN* n1, size_t i1, Obj* q, void* cdata, DB cb, double& d) {
  typedef World<AN> W;
  AN* a = n1 + i1; check(q == g.o2, "the object asked about");
  LCV_CALL(a == W::s1.t->n);
  return dcall(W::s1.under(a), d);
}
extern "C" bool stub_ads(AN* n1, size_t i1, void* cdata, DB cb, double& d) {
  typedef World<AN> W;
  AN* a = n1 + i1;
  LCV_CALL(a == W::s1.t->n);
  return dcall(W::s1.under(a) & W::s2.under(a), d);
}
LCV_HARNESS(C21_tree_c2, "nest=stub_c2") {
  start(); World<PN>::make(true); outside = false; 
  bool r = pt::collisionRecurse<double>(World<PN>::t1.n, World<PN>::t2.n, g.cdata, &cback);
  cpost(World<PN>::s1.in & World<PN>::s2.in, r);
}
LCV_HARNESS(C21_tree_cq, "nest=stub_cq") {
  start(); World<PN>::make(false); outside = false; 
  g.o2->aabb = g.x2;
  bool r = pt::collisionRecurse<double>(World<PN>::t1.n, g.o2, g.cdata, &cback);
  cpost(World<PN>::s1.in, r);
}
LCV_HARNESS(C21_tree_cs, "nest=stub_cs") {
  start(); World<PN>::makeSelf(); outside = false; 
  bool r = pt::selfCollisionRecurse<double>(World<PN>::t1.n, g.cdata, &cback);
  cpost(World<PN>::s1.in & World<PN>::s2.in, r);
}
LCV_HARNESS(C21_tree_d2, "nest=stub_d2") {
  start(); World<PN>::make(true); outside = false; double d = g.least; 
  bool r = pt::distanceRecurse<double>(World<PN>::t1.n, World<PN>::t2.n, g.cdata, &dback, d);
  dpost(World<PN>::s1.in & World<PN>::s2.in, r);
}
LCV_HARNESS(C21_tree_dq, "nest=stub_dq") {
  start(); World<PN>::make(false); outside = false; double d = g.least; 
  g.o2->aabb = g.x2;
  bool r = pt::distanceRecurse<double>(World<PN>::t1.n, g.o2, g.cdata, &dback, d);
  dpost(World<PN>::s1.in, r);
}
LCV_HARNESS(C21_tree_ds, "nest=stub_ds") {
  start(); World<PN>::makeSelf(); outside = false; double d = g.least; 
  bool r = pt::selfDistanceRecurse<double>(World<PN>::t1.n, g.cdata, &dback, d);
  dpost(World<PN>::s1.in & World<PN>::s2.in, r);
}
LCV_HARNESS(C21_array_c2, "nest=stub_ac2") {
  start(); World<AN>::make(true); outside = false; 
  bool r = at::collisionRecurse<double>(World<AN>::t1.n, 0, World<AN>::t2.n, 0, g.cdata, &cback);
  cpost(World<AN>::s1.in & World<AN>::s2.in, r);
}
LCV_HARNESS(C21_array_cq, "nest=stub_acq") {
  start(); World<AN>::make(false); outside = false; 
  g.o2->aabb = g.x2;
  bool r = at::collisionRecurse<double>(World<AN>::t1.n, 0, g.o2, g.cdata, &cback);
  cpost(World<AN>::s1.in, r);
}
LCV_HARNESS(C21_array_cs, "nest=stub_acs") {
  start(); World<AN>::makeSelf(); outside = false; 
  bool r = at::selfCollisionRecurse<double>(World<AN>::t1.n, 0, g.cdata, &cback);
  cpost(World<AN>::s1.in & World<AN>::s2.in, r);
}
LCV_HARNESS(C21_array_d2, "nest=stub_ad2") {
  start(); World<AN>::make(true); outside = false; double d = g.least; 
  bool r = at::distanceRecurse<double>(World<AN>::t1.n, 0, World<AN>::t2.n, 0, g.cdata, &dback, d);
  dpost(World<AN>::s1.in & World<AN>::s2.in, r);
}
LCV_HARNESS(C21_array_dq, "nest=stub_adq") {
  start(); World<AN>::make(false); outside = false; double d = g.least; 
  g.o2->aabb = g.x2;
  bool r = at::distanceRecurse<double>(World<AN>::t1.n, 0, g.o2, g.cdata, &dback, d);
  dpost(World<AN>::s1.in, r);
}
LCV_HARNESS(C21_array_ds, "nest=stub_ads") {
  start(); World<AN>::makeSelf(); outside = false; double d = g.least; 
  bool r = at::selfDistanceRecurse<double>(World<AN>::t1.n, 0, g.cdata, &dback, d);
  dpost(World<AN>::s1.in & World<AN>::s2.in, r);
}
struct Mock : fcl::Sphere<double> {
  bool tree;
  Mock() : fcl::Sphere<double>(1.0), tree(split(boolean("octree"))) {}
  fcl::NODE_TYPE getNodeType() const override { return tree ? fcl::GEOM_OCTREE : fcl::GEOM_SPHERE; }
};
static void giveShape(Obj* o) {
  typedef fcl::CollisionGeometry<double> G;
  Mock* m = new Mock;
  ::new (&o->cgeom) std::shared_ptr<G>(std::shared_ptr<G>(), m);
  ::new (&o->cgeom_const) std::shared_ptr<const G>(std::shared_ptr<const G>(), m);
}
// ---- the manager: hands the roots of its trees to the recursion; nothing is reported of an empty one
template <class M> struct Hold;
template <> struct Hold<TreeMgr> {
  TreeMgr m;
  Hold(Tree<PN>& t, bool empty) { m.dtree.root_node = empty ? nullptr : t.n; m.dtree.n_leaves = empty ? 0 : 1; }
  ~Hold() { m.dtree.root_node = nullptr; }
};
template <> struct Hold<ArrMgr> {
  ArrMgr m; AN* mine;
  Hold(Tree<AN>& t, bool empty) {
    mine = m.dtree.nodes;
    m.dtree.nodes = t.n; m.dtree.root_node = empty ? (size_t)-1 : 0; m.dtree.n_leaves = empty ? 0 : 1;
  }
  ~Hold() { m.dtree.nodes = mine; }
};
LCV_HARNESS(C21_manager_tree_c2, "") {
  start(); World<PN>::make(true); outside = true;
  bool e1 = split(boolean("empty")), e2 = split(boolean("empty"));
  Hold<TreeMgr> m1(World<PN>::t1, e1); Hold<TreeMgr> m2(World<PN>::t2, e2);
  const TreeMgr& m = m1.m;
  m.collide(&m2.m, g.cdata, &cback);
  cpost(World<PN>::s1.in & World<PN>::s2.in & !e1 & !e2, g.stop);
}
LCV_HARNESS(C21_manager_tree_cq, "") {
  start(); World<PN>::make(false); outside = true;
  bool e1 = split(boolean("empty"));
  Hold<TreeMgr> m1(World<PN>::t1, e1);
  giveShape(g.o2); g.o2->aabb = g.x2; m1.m.octree_as_geometry_collide = m1.m.octree_as_geometry_distance = true;
  const TreeMgr& m = m1.m;
  m.collide(g.o2, g.cdata, &cback);
  cpost(World<PN>::s1.in & !e1, g.stop);
}
LCV_HARNESS(C21_manager_tree_cs, "") {
  start(); World<PN>::makeSelf(); outside = true;
  bool e1 = split(boolean("empty"));
  Hold<TreeMgr> m1(World<PN>::t1, e1);
  const TreeMgr& m = m1.m;
  m.collide(g.cdata, &cback);
  cpost(World<PN>::s1.in & World<PN>::s2.in & !e1, g.stop);
}
LCV_HARNESS(C21_manager_tree_d2, "") {
  start(); World<PN>::make(true); outside = true;
  bool e1 = split(boolean("empty")), e2 = split(boolean("empty"));
  Hold<TreeMgr> m1(World<PN>::t1, e1); Hold<TreeMgr> m2(World<PN>::t2, e2);
  g.least = std::numeric_limits<double>::max();
  const TreeMgr& m = m1.m;
  m.distance(&m2.m, g.cdata, &dback);
  dpost(World<PN>::s1.in & World<PN>::s2.in & !e1 & !e2, g.stop);
}
LCV_HARNESS(C21_manager_tree_dq, "") {
  start(); World<PN>::make(false); outside = true;
  bool e1 = split(boolean("empty"));
  Hold<TreeMgr> m1(World<PN>::t1, e1);
  giveShape(g.o2); g.o2->aabb = g.x2; m1.m.octree_as_geometry_collide = m1.m.octree_as_geometry_distance = true;
  g.least = std::numeric_limits<double>::max();
  const TreeMgr& m = m1.m;
  m.distance(g.o2, g.cdata, &dback);
  dpost(World<PN>::s1.in & !e1, g.stop);
}
LCV_HARNESS(C21_manager_tree_ds, "") {
  start(); World<PN>::makeSelf(); outside = true;
  bool e1 = split(boolean("empty"));
  Hold<TreeMgr> m1(World<PN>::t1, e1);
  g.least = std::numeric_limits<double>::max();
  const TreeMgr& m = m1.m;
  m.distance(g.cdata, &dback);
  dpost(World<PN>::s1.in & World<PN>::s2.in & !e1, g.stop);
}
LCV_HARNESS(C21_manager_array_c2, "") {
  start(); World<AN>::make(true); outside = true;
  bool e1 = split(boolean("empty")), e2 = split(boolean("empty"));
  Hold<ArrMgr> m1(World<AN>::t1, e1); Hold<ArrMgr> m2(World<AN>::t2, e2);
  const ArrMgr& m = m1.m;
  m.collide(&m2.m, g.cdata, &cback);
  cpost(World<AN>::s1.in & World<AN>::s2.in & !e1 & !e2, g.stop);
}
LCV_HARNESS(C21_manager_array_cq, "") {
  start(); World<AN>::make(false); outside = true;
  bool e1 = split(boolean("empty"));
  Hold<ArrMgr> m1(World<AN>::t1, e1);
  giveShape(g.o2); g.o2->aabb = g.x2; m1.m.octree_as_geometry_collide = m1.m.octree_as_geometry_distance = true;
  const ArrMgr& m = m1.m;
  m.collide(g.o2, g.cdata, &cback);
  cpost(World<AN>::s1.in & !e1, g.stop);
}
LCV_HARNESS(C21_manager_array_cs, "") {
  start(); World<AN>::makeSelf(); outside = true;
  bool e1 = split(boolean("empty"));
  Hold<ArrMgr> m1(World<AN>::t1, e1);
  const ArrMgr& m = m1.m;
  m.collide(g.cdata, &cback);
  cpost(World<AN>::s1.in & World<AN>::s2.in & !e1, g.stop);
}
LCV_HARNESS(C21_manager_array_d2, "") {
  start(); World<AN>::make(true); outside = true;
  bool e1 = split(boolean("empty")), e2 = split(boolean("empty"));
  Hold<ArrMgr> m1(World<AN>::t1, e1); Hold<ArrMgr> m2(World<AN>::t2, e2);
  g.least = std::numeric_limits<double>::max();
  const ArrMgr& m = m1.m;
  m.distance(&m2.m, g.cdata, &dback);
  dpost(World<AN>::s1.in & World<AN>::s2.in & !e1 & !e2, g.stop);
}
LCV_HARNESS(C21_manager_array_dq, "") {
  start(); World<AN>::make(false); outside = true;
  bool e1 = split(boolean("empty"));
  Hold<ArrMgr> m1(World<AN>::t1, e1);
  giveShape(g.o2); g.o2->aabb = g.x2; m1.m.octree_as_geometry_collide = m1.m.octree_as_geometry_distance = true;
  g.least = std::numeric_limits<double>::max();
  const ArrMgr& m = m1.m;
  m.distance(g.o2, g.cdata, &dback);
  dpost(World<AN>::s1.in & !e1, g.stop);
}
LCV_HARNESS(C21_manager_array_ds, "") {
  start(); World<AN>::makeSelf(); outside = true;
  bool e1 = split(boolean("empty"));
  Hold<ArrMgr> m1(World<AN>::t1, e1);
  g.least = std::numeric_limits<double>::max();
  const ArrMgr& m = m1.m;
  m.distance(g.cdata, &dback);
  dpost(World<AN>::s1.in & World<AN>::s2.in & !e1, g.stop);
}
// ---- objects come, move and go.  Hash tables of a single bucket (the number of buckets is the only thing taken out of the library)
extern "C" size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const void*, size_t) { return 1; }
extern "C" std::pair<bool, size_t> _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void*, size_t, size_t, size_t) { return {false, 0}; }
static int leavesBelow(PN* k, Obj* o, const AB& x, int& n) {
  if (k->isLeaf()) { n++; bool e = k->data == o; if (e) check(within(x, k->bv), "the leaf of an object holds its box"); return e; }
  check(within(k->children[0]->bv, k->bv) & within(k->children[1]->bv, k->bv), "the box of a node encloses those of its children");
  return leavesBelow(k->children[0], o, x, n) + leavesBelow(k->children[1], o, x, n);
}
static int leavesBelow(AN* m, size_t i, Obj* o, const AB& x, int& n) {
  AN* k = m + i;
  if (k->isLeaf()) { n++; bool e = k->data == o; if (e) check(within(x, k->bv), "the leaf of an object holds its box"); return e; }
  check(within(m[k->children[0]].bv, k->bv) & within(m[k->children[1]].bv, k->bv), "the box of a node encloses those of its children");
  return leavesBelow(m, k->children[0], o, x, n) + leavesBelow(m, k->children[1], o, x, n);
}
static int find(TreeMgr& m, Obj* o, int& n) { n = 0; return m.empty() ? 0 : leavesBelow(m.dtree.root_node, o, o->aabb, n); }
static int find(ArrMgr& m, Obj* o, int& n) { n = 0; return m.empty() ? 0 : leavesBelow(m.dtree.nodes, m.dtree.root_node, o, o->aabb, n); }
template <class M> static void history(int n) {
  M m; bool in[3];
  for (int i = 0; i < n; i++) { object(i)->aabb = box("x"); in[i] = true; }
  m.tree_init_level = 0; m.tree_incremental_balance_pass = 1;
  if (split(boolean("together"))) {
    std::vector<Obj*> v;
    for (int i = 0; i < n; i++) v.push_back(object(i));
    m.registerObjects(v);
  } else for (int i = 0; i < n; i++) m.registerObject(object(i));
  int what = __lcv_choice("what", 5), k = __lcv_choice("which", n);
  if (what == 1) { object(k)->aabb = box("moved"); m.update(object(k)); }
  else if (what == 2) { for (int i = 0; i < n; i++) object(i)->aabb = box("moved"); m.update(); }
  else if (what == 3) { m.unregisterObject(object(k)); in[k] = false; }
  else if (what == 4) { m.clear(); for (int i = 0; i < n; i++) in[i] = false; }
  cover("run");
  int c = 0, l;
  for (int i = 0; i < n; i++) { c += in[i]; check(find(m, object(i), l) == in[i], "the tree has one leaf for each object registered"); }
  find(m, object(0), l);
  check(l == c, "and no others"); check((int)m.size() == c, "size is the number of objects"); check(m.empty() == (c == 0), "empty iff there are none");
  std::vector<Obj*> got; m.getObjects(got);
  check((int)got.size() == c, "getObjects gives as many objects as there are");
  for (int i = 0; i < n; i++) { int t = 0; for (Obj* o : got) t += o == object(i); check(t == in[i], "getObjects gives the objects registered"); }
}
LCV_HARNESS(C21_history_tree, "merge=0 bounded=histories_of_one_operation_on_up_to_2_objects") { history<TreeMgr>(1 + __lcv_choice("n", 2)); }
LCV_HARNESS(C21_history_array, "merge=0 bounded=histories_of_one_operation_on_up_to_2_objects") { history<ArrMgr>(1 + __lcv_choice("n", 2)); }
#else
// natively: the real managers on random objects, against all pairs
#include <memory>
#include <set>
namespace {
typedef std::shared_ptr<fcl::CollisionGeometry<double>> Geo;
struct Seen { std::multiset<std::pair<Obj*, Obj*>> pairs; double least; void* self; int stopAfter; bool bad; };
std::pair<Obj*, Obj*> key(Obj* a, Obj* b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
bool ncb(Obj* a, Obj* b, void* d) {
  Seen* s = static_cast<Seen*>(d);
  s->pairs.insert(key(a, b));
  return s->stopAfter && (int)s->pairs.size() >= s->stopAfter;
}
bool ndb(Obj* a, Obj* b, void* d, double& dist) {
  Seen* s = static_cast<Seen*>(d);
  s->pairs.insert(key(a, b));
  dist = std::min(dist, a->getAABB().distance(b->getAABB()));
  s->least = dist;
  return s->stopAfter && (int)s->pairs.size() >= s->stopAfter;
}
template <class M> void nat(char op, char q) {
  M m1, m2; std::vector<std::unique_ptr<Obj>> own; std::vector<Obj*> a, b;
  m1.tree_init_level = __lcv_choice("init", 4);
  m1.tree_topdown_level = __lcv_choice("level", 2);
  if (boolean("flat")) m1.max_tree_nonbalanced_level = -5;
  for (int k = 0; k < 2; k++) {
    int n = __lcv_choice("n", 7);
    for (int i = 0; i < n; i++) {
      fcl::Vector3d t(real("t"), real("t"), real("t"));
      fcl::Transform3d tf(Eigen::Translation3d(3 * t.x(), 3 * t.y(), 3 * t.z()));
      own.emplace_back(new Obj(Geo(new fcl::Sphere<double>(0.2 + std::fabs(real("r")))), tf));
      (k ? b : a).push_back(own.back().get());
    }
  }
  if (boolean("together")) m1.registerObjects(a); else for (Obj* o : a) m1.registerObject(o);
  m2.registerObjects(b);
  m1.setup(); m2.setup();
  Obj query(Geo(new fcl::Sphere<double>(1.5)), fcl::Transform3d(Eigen::Translation3d(real("t"), real("t"), real("t"))));
  if (boolean("move"))
    for (Obj* o : a) { o->setTranslation(fcl::Vector3d(real("t"), real("t"), real("t"))); o->computeAABB(); if (boolean("one")) m1.update(o); }
  if (boolean("drop") && !a.empty()) { int k = __lcv_choice("gone", 6) % a.size(); m1.unregisterObject(a[k]); a.erase(a.begin() + k); }
  m1.update();
  std::vector<std::pair<Obj*, Obj*>> all;
  if (q == 's') { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < i; j++) all.push_back(key(a[i], a[j])); }
  else if (q == 'q') { for (Obj* o : a) all.push_back(key(o, &query)); }
  else { for (Obj* o : a) for (Obj* p : b) all.push_back(key(o, p)); }
  Seen s; s.least = std::numeric_limits<double>::max(); s.stopAfter = __lcv_choice("stop", 4);
  if (op == 'c') { if (q == 's') m1.collide(&s, ncb); else if (q == 'q') m1.collide(&query, &s, ncb); else m1.collide(&m2, &s, ncb); }
  else { if (q == 's') m1.distance(&s, ndb); else if (q == 'q') m1.distance(&query, &s, ndb); else m1.distance(&m2, &s, ndb); }
  cover("run");
  bool stopped = s.stopAfter && (int)s.pairs.size() >= s.stopAfter;
  check(imp(s.stopAfter > 0, (int)s.pairs.size() <= s.stopAfter), "nothing after the callback asked to stop");
  for (auto& p : all) {
    size_t n = s.pairs.count(p);
    check(n <= 1, "at most once");
    if (op == 'c') {
      bool o = p.first->getAABB().overlap(p.second->getAABB());
      check(stopped || !o || n == 1, "every pair of objects whose boxes overlap is handed to the callback");
      check(o || n == 0, "only pairs whose boxes overlap");
    } else
      check(stopped || n == 1 || p.first->getAABB().distance(p.second->getAABB()) >= s.least - 1e-9, "every pair of objects is handed to the callback unless their boxes are no nearer than the distance found");
  }
  size_t in = 0; for (auto& p : all) in += s.pairs.count(p);
  check(in == s.pairs.size(), "only objects of the given trees");
}
}
LCV_HARNESS(C21_history_tree, "") { nat<TreeMgr>('c', 's'); }
LCV_HARNESS(C21_history_array, "") { nat<ArrMgr>('c', 's'); }
LCV_HARNESS(C21_tree_c2, "") { nat<TreeMgr>('c', '2'); }
LCV_HARNESS(C21_manager_tree_c2, "") { nat<TreeMgr>('c', '2'); }
LCV_HARNESS(C21_tree_cq, "") { nat<TreeMgr>('c', 'q'); }
LCV_HARNESS(C21_manager_tree_cq, "") { nat<TreeMgr>('c', 'q'); }
LCV_HARNESS(C21_tree_cs, "") { nat<TreeMgr>('c', 's'); }
LCV_HARNESS(C21_manager_tree_cs, "") { nat<TreeMgr>('c', 's'); }
LCV_HARNESS(C21_tree_d2, "") { nat<TreeMgr>('d', '2'); }
LCV_HARNESS(C21_manager_tree_d2, "") { nat<TreeMgr>('d', '2'); }
LCV_HARNESS(C21_tree_dq, "") { nat<TreeMgr>('d', 'q'); }
LCV_HARNESS(C21_manager_tree_dq, "") { nat<TreeMgr>('d', 'q'); }
LCV_HARNESS(C21_tree_ds, "") { nat<TreeMgr>('d', 's'); }
LCV_HARNESS(C21_manager_tree_ds, "") { nat<TreeMgr>('d', 's'); }
LCV_HARNESS(C21_array_c2, "") { nat<ArrMgr>('c', '2'); }
LCV_HARNESS(C21_manager_array_c2, "") { nat<ArrMgr>('c', '2'); }
LCV_HARNESS(C21_array_cq, "") { nat<ArrMgr>('c', 'q'); }
LCV_HARNESS(C21_manager_array_cq, "") { nat<ArrMgr>('c', 'q'); }
LCV_HARNESS(C21_array_cs, "") { nat<ArrMgr>('c', 's'); }
LCV_HARNESS(C21_manager_array_cs, "") { nat<ArrMgr>('c', 's'); }
LCV_HARNESS(C21_array_d2, "") { nat<ArrMgr>('d', '2'); }
LCV_HARNESS(C21_manager_array_d2, "") { nat<ArrMgr>('d', '2'); }
LCV_HARNESS(C21_array_dq, "") { nat<ArrMgr>('d', 'q'); }
LCV_HARNESS(C21_manager_array_dq, "") { nat<ArrMgr>('d', 'q'); }
LCV_HARNESS(C21_array_ds, "") { nat<ArrMgr>('d', 's'); }
LCV_HARNESS(C21_manager_array_ds, "") { nat<ArrMgr>('d', 's'); }
#endif
