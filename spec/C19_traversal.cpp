// Contracts on the traversal of bounding volume hierarchies (narrowphase/detail/traversal/traversal_recurse-inl.h).
// A ghost pair of primitives (x1, x2) stands for any pair.  The contract of a recursive call is assumed for the calls a function
// makes and proved for the function itself (the trees are finite), with the node interface answering arbitrarily.
// LCV-REPLACE: 16collisionRecurseIdEEvPNS0_26CollisionTraversalNodeBase => stub_collision2
// LCV-REPLACE: 16collisionRecurseIdEEvPNS0_29MeshCollisionTraversalNodeOBB => stub_obb
// LCV-REPLACE: 29MeshCollisionTraversalNodeOBBIdE9BVTestingEiiRKN5Eigen6Matrix => stub_obb_bv
// LCV-REPLACE: 29MeshCollisionTraversalNodeOBBIdE11leafTestingEiiRKN5Eigen6Matrix => stub_obb_leaf
// LCV-REPLACE: 20selfCollisionRecurse => stub_self
// LCV-REPLACE: 15distanceRecurse => stub_distance
// LCV-REPLACE: updateFrontList => stub_front
#include "fcl/narrowphase/detail/traversal/collision_node.h"
#include "fcl/narrowphase/detail/traversal/collision/bvh_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/bvh_distance_traversal_node.h"
#include "geometry/bvh/BV_node_base.cpp"
#include "geometry/bvh/detail/BVH_front.cpp"
#include "shapes.h"
using namespace lcv;
using fcl::detail::BVHFrontList;
typedef fcl::detail::CollisionTraversalNodeBase<double> CNode;
typedef fcl::detail::DistanceTraversalNodeBase<double> DNode;

#ifndef LCV_NATIVE
// ---- the ghost state
struct Ghost {
  int b1, b2, L1, R1, L2, R2;   // the pair of nodes and their children
  bool l1, l2, first;           // leaves; descend in the first tree
  bool in1, in2, left1, left2;  // x1 (x2) is under b1 (b2), and under its left child
  const void* node; BVHFrontList* front;
  int tested, fronts;           // how often the pair was tested / put on the front
  bool pruned, stopped, halted; // a bounding volume test excluded it; canStop said yes; and nothing may follow
};
static Ghost g;
// is x1 under a, x2 under b, for the pairs of nodes that matter here
static bool under1(int a, bool& known) {
  if (a == g.b1) { known = true; return g.in1; }
  if (a == g.L1) { known = !g.l1; return g.in1 & g.left1; }
  if (a == g.R1) { known = !g.l1; return g.in1 & !g.left1; }
  known = false;
  return false;
}
static bool under2(int a, bool& known) {
  if (a == g.b2) { known = true; return g.in2; }
  if (a == g.L2) { known = !g.l2; return g.in2 & g.left2; }
  if (a == g.R2) { known = !g.l2; return g.in2 & !g.left2; }
  known = false;
  return false;
}
static bool under(int a, int b) {
  bool k1, k2, u1 = under1(a, k1), u2 = under2(b, k2);
  check(k1 & k2, "a pair of the nodes at hand");
  return u1 & u2;
}
static void active() { check(!g.halted, "nothing more is tested once the search may stop"); }
struct Node : CNode {
  bool isFirstNodeLeaf(int b) const override { check(b == g.b1, "asks about the nodes at hand"); return g.l1; }
  bool isSecondNodeLeaf(int b) const override { check(b == g.b2, "asks about the nodes at hand"); return g.l2; }
  bool firstOverSecond(int a, int b) const override { check((a == g.b1) & (b == g.b2), "asks about the nodes at hand"); return g.first; }
  int getFirstLeftChild(int b) const override { check((b == g.b1) & !g.l1, "children of inner nodes"); return g.L1; }
  int getFirstRightChild(int b) const override { check((b == g.b1) & !g.l1, "children of inner nodes"); return g.R1; }
  int getSecondLeftChild(int b) const override { check((b == g.b2) & !g.l2, "children of inner nodes"); return g.L2; }
  int getSecondRightChild(int b) const override { check((b == g.b2) & !g.l2, "children of inner nodes"); return g.R2; }
  bool BVTesting(int a, int b) const override {
    active();
    bool u = under(a, b), r = __lcv_havoc_bool("bv");
    if (r & u) g.pruned = true;
    return r;
  }
  void leafTesting(int a, int b) const override {
    active();
    bool u = under(a, b);
    check((a == g.b1) & (b == g.b2) & g.l1 & g.l2, "leaves are tested");
    if (u) g.tested++;
  }
  bool canStop() const override {
    bool r = split(__lcv_havoc_bool("stop"));
    if (r) { g.stopped = true; if (!g.front) g.halted = true; }
    return r;
  }
  void enableStatistics(bool) {}
};
static bool fmode;
extern "C" void stub_front(BVHFrontList* front, int a, int b) {
  if (fmode) return;
  check(front == g.front, "the front list is handed on");
  if (under(a, b)) g.fronts++;
}
// the contract of a recursive call
extern "C" void stub_collision(CNode* n, int a, int b, BVHFrontList* front) {
  check((n == g.node) & (front == g.front), "the node and front list are handed on");
  active();
  bool u = under(a, b);
  check(!((a == g.b1) & (b == g.b2)), "recursion descends");
  bool t = __lcv_havoc_bool("tested"), p = __lcv_havoc_bool("pruned"), s = __lcv_havoc_bool("stopped");
  assume(imp(t, u)); assume(imp(p, u & !t));
  assume(imp(u, t | p | (s & !g.front)));
  g.tested += t; g.pruned |= p; g.stopped |= s;
  if (g.front) g.fronts += u;
}
static void setup(Node& n) {
  g.b1 = __lcv_i32("b1"); g.b2 = __lcv_i32("b2"); g.L1 = __lcv_i32("L1"); g.R1 = __lcv_i32("R1"); g.L2 = __lcv_i32("L2"); g.R2 = __lcv_i32("R2");
  assume((g.b1 != g.L1) & (g.b1 != g.R1) & (g.L1 != g.R1)); assume((g.b2 != g.L2) & (g.b2 != g.R2) & (g.L2 != g.R2));
  g.l1 = split(boolean("l1")); g.l2 = split(boolean("l2")); g.first = split(boolean("first"));
  assume(imp(g.l1 & !g.l2, !g.first)); assume(imp(g.l2 & !g.l1, g.first));   // C19_order
  g.in1 = boolean("in1"); g.in2 = boolean("in2"); g.left1 = boolean("left1"); g.left2 = boolean("left2");
  g.tested = g.fronts = 0; g.pruned = g.stopped = g.halted = false;
  g.node = &n;
}
LCV_HARNESS(C19_collision, "nest=stub_collision2") {
  Node n;
  setup(n);
  char mem;
  g.front = split(boolean("front")) ? (BVHFrontList*)&mem : nullptr;
  fcl::detail::collisionRecurse<double>(&n, g.b1, g.b2, g.front);
  cover("run");
  bool u = g.in1 & g.in2;
  check(imp(u, (g.tested == 1) | g.pruned | (g.stopped & !g.front)), "every pair of leaves is tested unless a bounding volume test excludes it or the search may stop");
  check(g.tested <= 1, "at most once");
  check(imp(!u, (g.tested == 0) & (g.fronts == 0)), "only pairs under the given nodes");
  check(imp(g.pruned, g.tested == 0), "an excluded pair is not tested");
  check(imp(g.front != nullptr, g.fronts == (u ? 1 : 0)), "with a front list every pair is under exactly one entry");
}
// pairs x1 left of x2 of one tree
extern "C" void stub_self(CNode* n, int a, BVHFrontList* front) {
  check((n == g.node) & (front == g.front), "the node and front list are handed on");
  active();
  bool k1, k2, u = under1(a, k1) & under2(a, k2);
  check((a == g.L1) | (a == g.R1), "the children");
  bool t = __lcv_havoc_bool("tested"), p = __lcv_havoc_bool("pruned"), s = __lcv_havoc_bool("stopped");
  assume(imp(t, u)); assume(imp(p, u & !t)); assume(imp(u, t | p | (s & !g.front)));
  g.tested += t; g.pruned |= p; g.stopped |= s;
  if (g.front) g.fronts += u;
}
LCV_HARNESS(C19_self, "nest=stub_self") {
  Node n;
  setup(n);
  char mem;
  g.front = split(boolean("front")) ? (BVHFrontList*)&mem : nullptr;
  g.b2 = g.b1; g.L2 = g.L1; g.R2 = g.R1; g.l2 = g.l1;
  assume(imp(g.l1, !(g.in1 & g.in2)));                       // two different primitives are not under one leaf
  assume(imp(g.in1 & g.in2, !(!g.left1 & g.left2)));         // x1 is to the left of x2
  fcl::detail::selfCollisionRecurse<double>(&n, g.b1, g.front);
  cover("run");
  bool u = g.in1 & g.in2;
  check(imp(u, (g.tested == 1) | g.pruned | (g.stopped & !g.front)), "every pair of leaves of the tree is tested unless a bounding volume test excludes it or the search may stop");
  check(g.tested <= 1, "at most once");
  check(imp(!u, (g.tested == 0) & (g.fronts == 0)), "only pairs under the given node");
  check(imp(g.pruned, g.tested == 0), "an excluded pair is not tested");
  check(imp(g.front != nullptr, g.fronts == (u ? 1 : 0)), "with a front list every pair is under exactly one entry");
}

// ---- distance: BVTesting bounds the distance of every pair of leaves below from below (Dx for the ghost pair), canStop(d) says
// that the search need not look at pairs of distance d or more
static double Dx;
static bool dknown;   // some canStop(d) with d <= Dx was answered yes
struct DN : DNode {
  bool isFirstNodeLeaf(int b) const override { check(b == g.b1, "asks about the nodes at hand"); return g.l1; }
  bool isSecondNodeLeaf(int b) const override { check(b == g.b2, "asks about the nodes at hand"); return g.l2; }
  bool firstOverSecond(int a, int b) const override { check((a == g.b1) & (b == g.b2), "asks about the nodes at hand"); return g.first; }
  int getFirstLeftChild(int b) const override { check((b == g.b1) & !g.l1, "children of inner nodes"); return g.L1; }
  int getFirstRightChild(int b) const override { check((b == g.b1) & !g.l1, "children of inner nodes"); return g.R1; }
  int getSecondLeftChild(int b) const override { check((b == g.b2) & !g.l2, "children of inner nodes"); return g.L2; }
  int getSecondRightChild(int b) const override { check((b == g.b2) & !g.l2, "children of inner nodes"); return g.R2; }
  double BVTesting(int a, int b) const override {
    double d = __lcv_havoc_real("bv");
    assume(imp(under(a, b), d <= Dx));
    return d;
  }
  void leafTesting(int a, int b) const override {
    check((a == g.b1) & (b == g.b2) & g.l1 & g.l2, "leaves are tested");
    if (under(a, b)) g.tested++;
  }
  bool canStop(double d) const override {
    bool r = split(__lcv_havoc_bool("stop"));
    if (r) dknown = dknown | (d <= Dx);
    return r;
  }
  void enableStatistics(bool) {}
};
extern "C" void stub_distance(DNode* n, int a, int b, BVHFrontList* front) {
  check((n == g.node) & (front == g.front), "the node and front list are handed on");
  check(!((a == g.b1) & (b == g.b2)), "recursion descends");
  bool u = under(a, b), t = __lcv_havoc_bool("tested"), k = __lcv_havoc_bool("known");
  assume(imp(t, u)); assume(imp(u, t | k));
  g.tested += t; dknown |= k;
  if (g.front) g.fronts += u;
}
LCV_HARNESS(C19_distance, "nest=stub_distance") {
  Node dummy;
  setup(dummy);
  DN n;
  g.node = &n;
  Dx = real("D"); dknown = false;
  char mem;
  g.front = split(boolean("front")) ? (BVHFrontList*)&mem : nullptr;
  fcl::detail::distanceRecurse<double>(&n, g.b1, g.b2, g.front);
  cover("run");
  bool u = g.in1 & g.in2;
  check(imp(u, (g.tested == 1) | dknown), "every pair of leaves is tested unless the search need not look at pairs as far apart");
  check(g.tested <= 1, "at most once");
  check(imp(!u, (g.tested == 0) & (g.fronts == 0)), "only pairs under the given nodes");
  check(imp(g.front != nullptr, g.fronts == (u ? 1 : 0)), "with a front list every pair is under exactly one entry");
}
// ---- entry points
static int ndist, npre, npost;
struct EN : DN { void preprocess() override { check(ndist + npost == 0, "before"); npre++; } void postprocess() override { npost++; } };
struct EC : Node {};
static int roots;
LCV_HARNESS(C19_entry, "") {
  Node dummy;
  setup(dummy);
  char mem;
  int k = __lcv_choice("k", 3);
  g.front = nullptr;
  g.b1 = g.b2 = -7; g.L1 = g.L2 = 0; g.l1 = g.l2 = false; g.left1 = g.left2 = true;   // 0 is the root of either tree
  npre = npost = ndist = 0;
  Dx = real("D"); dknown = false;
  cover("run");
  bool u = g.in1 & g.in2;
  if (k == 0) {
    EC n; g.node = &n;
    fcl::detail::collide<double>(&n, g.front);
  } else if (k == 1) {
    EC n; g.node = &n; 
    fcl::detail::selfCollide<double>(&n, g.front);
  } else {
    EN n; g.node = &n;
    fcl::detail::distance<double>(&n, g.front, 2);
    check((npre == 1) & (npost == 1), "with preparation and conclusion");
    check(imp(u, (g.tested == 1) | dknown), "distance starts at the roots");
    return;
  }
  check(imp(u, (g.tested == 1) | g.pruned | g.stopped), "collision starts at the roots");
}
// ---- the node interface of two hierarchies
template <class BV> struct Model {
  alignas(16) char mem[sizeof(fcl::BVHModel<BV>)];
  fcl::BVNode<BV> nodes[2];
  fcl::BVHModel<BV>* get() {
    fcl::BVHModel<BV>* m = reinterpret_cast<fcl::BVHModel<BV>*>(mem);
    m->bvs = nodes; m->num_bvs = 2;
    for (int i = 0; i < 2; i++) { nodes[i].first_child = __lcv_i32("child"); nodes[i].bv.min_ = vec3("min"); nodes[i].bv.max_ = vec3("max"); }
    return m;
  }
};
typedef fcl::AABB<double> AB;
template <class N> static void interface(N& n, fcl::BVNode<AB>* A, fcl::BVNode<AB>* B) {
  int a = __lcv_choice("a", 2), b = __lcv_choice("b", 2);
  cover("run");
  bool l1 = A[a].first_child < 0, l2 = B[b].first_child < 0;
  check((n.isFirstNodeLeaf(a) == l1) & (n.isSecondNodeLeaf(b) == l2), "leaves");
  if (!l1) check((n.getFirstLeftChild(a) == A[a].first_child) & (n.getFirstRightChild(a) == A[a].first_child + 1), "children in the first tree");
  if (!l2) check((n.getSecondLeftChild(b) == B[b].first_child) & (n.getSecondRightChild(b) == B[b].first_child + 1), "children in the second tree");
  bool f = n.firstOverSecond(a, b);
  check(imp(l1 & !l2, !f) & imp(l2 & !l1, f), "never descends below a leaf");
}
LCV_HARNESS(C19_order, "") {
  Model<AB> M1, M2;
  bool d = split(boolean("distance"));
  if (d) {
    struct N : fcl::detail::BVHDistanceTraversalNode<AB> {} n;
    n.model1 = M1.get(); n.model2 = M2.get();
    interface(n, M1.nodes, M2.nodes);
    double dd = n.BVTesting(0, 1);
    check(dd == M1.nodes[0].bv.distance(M2.nodes[1].bv), "distance of the bounding volumes");
  } else {
    struct N : fcl::detail::BVHCollisionTraversalNode<AB> {} n;
    n.model1 = M1.get(); n.model2 = M2.get();
    interface(n, M1.nodes, M2.nodes);
    bool r = n.BVTesting(0, 1), o = M1.nodes[0].bv.overlap(M2.nodes[1].bv);
    check(r == !o, "excludes exactly the pairs whose bounding volumes do not overlap");
  }
}
// ---- the recursion that carries the relative pose of the two boxes along (boxes stored relative to their parents)
static Matrix3d oR, oA1, oA2; static Vector3d oT, oc1, oc2;
static bool opose(int a, int b, const Matrix3d& R, const Vector3d& T) {
  Matrix3d X = oR; Vector3d t = oT;
  if (a != g.b1) { t = oA1.transpose() * (t - oc1); X = oA1.transpose() * X; }
  if (b != g.b2) { t = X * oc2 + t; X = X * oA2; }
  bool r = veq(t, T);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r = r & eq(X(i, j), R(i, j));
  return r;
}
struct ON : fcl::detail::MeshCollisionTraversalNodeOBB<double> {
  bool isFirstNodeLeaf(int b) const override { check(b == g.b1, "asks about the nodes at hand"); return g.l1; }
  bool isSecondNodeLeaf(int b) const override { check(b == g.b2, "asks about the nodes at hand"); return g.l2; }
  bool firstOverSecond(int a, int b) const override { check((a == g.b1) & (b == g.b2), "asks about the nodes at hand"); return g.first; }
  int getFirstLeftChild(int b) const override { check((b == g.b1) & !g.l1, "children of inner nodes"); return g.L1; }
  int getFirstRightChild(int b) const override { check((b == g.b1) & !g.l1, "children of inner nodes"); return g.R1; }
  int getSecondLeftChild(int b) const override { check((b == g.b2) & !g.l2, "children of inner nodes"); return g.L2; }
  int getSecondRightChild(int b) const override { check((b == g.b2) & !g.l2, "children of inner nodes"); return g.R2; }
  bool canStop() const override {
    bool r = split(__lcv_havoc_bool("stop"));
    if (r) { g.stopped = true; if (!g.front) g.halted = true; }
    return r;
  }
};
extern "C" bool stub_obb_bv(const void*, int a, int b, const Matrix3d& R, const Vector3d& T) {
  active();
  bool u = under(a, b), r = __lcv_havoc_bool("bv");
  check(opose(a, b, R, T), "the pose of the second box relative to the first");
  if (r & u) g.pruned = true;
  return r;
}
extern "C" void stub_obb_leaf(const void*, int a, int b, const Matrix3d& R, const Vector3d& T) {
  active();
  check((a == g.b1) & (b == g.b2) & g.l1 & g.l2, "leaves are tested");
  check(opose(a, b, R, T), "the pose of the second box relative to the first");
  if (under(a, b)) g.tested++;
}
extern "C" void stub_obb(fcl::detail::MeshCollisionTraversalNodeOBB<double>* n, int a, int b, const Matrix3d& R, const Vector3d& T, BVHFrontList* front) {
  check(opose(a, b, R, T), "the pose of the second box relative to the first is passed on");
  stub_collision((CNode*)g.node, a, b, front);
}
LCV_HARNESS(C19_oriented, "nest=stub_obb$") {
  Node dummy;
  setup(dummy);
  struct OBBModel {
    alignas(16) char mem[sizeof(fcl::BVHModel<fcl::OBB<double>>)];
    fcl::BVNode<fcl::OBB<double>> nodes[3];
  } M[2];
  g.b1 = g.b2 = 0; g.L1 = g.L2 = 1; g.R1 = g.R2 = 2;
  ON n;
  g.node = (CNode*)&n;
  // whichever child is visited: the pose of the other is not used
  bool right = split(boolean("right"));
  oR = rot3("R"); oT = vec3("T");
  Matrix3d A = rot3("A");
  Vector3d c = vec3("c");
  oA1 = oA2 = A; oc1 = oc2 = c;
  for (int m = 0; m < 2; m++) for (int i = 0; i < 3; i++) { M[m].nodes[i].bv.axis = A; M[m].nodes[i].bv.To = c; }
  fcl::BVHModel<fcl::OBB<double>>* m1 = reinterpret_cast<fcl::BVHModel<fcl::OBB<double>>*>(M[0].mem), *m2 = reinterpret_cast<fcl::BVHModel<fcl::OBB<double>>*>(M[1].mem);
  m1->bvs = M[0].nodes; m1->num_bvs = 3; m2->bvs = M[1].nodes; m2->num_bvs = 3;
  n.model1 = m1; n.model2 = m2;
  char mem;
  g.front = split(boolean("front")) ? (BVHFrontList*)&mem : nullptr;
  fcl::detail::collisionRecurse<double>(&n, 0, 0, oR, oT, g.front);
  cover("run");
  bool u = g.in1 & g.in2;
  check(imp(u, (g.tested == 1) | g.pruned | (g.stopped & !g.front)), "every pair of leaves is tested unless a bounding volume test excludes it or the search may stop");
  check(g.tested <= 1, "at most once");
  check(imp(!u, (g.tested == 0) & (g.fronts == 0)), "only pairs under the given nodes");
  check(imp(g.front != nullptr, g.fronts == (u ? 1 : 0)), "with a front list every pair is under exactly one entry");
}
// ---- continuing from a front list (bounded: two entries; each is processed on its own)
static Ghost gs[2];
static const int FX = 100;
static int fk(int b) { return b >= 10 ? 1 : 0; }
static bool funder(int a, int b) {
  Ghost& k = gs[fk(a)];
  check((a < 20) & (b < 20) & (a >= 0) & (b >= 0) & (fk(a) == fk(b)), "a pair of the nodes at hand");
  g = k;
  return under(a, b);
}
struct FN : CNode {
  bool isFirstNodeLeaf(int b) const override { check((b == 0) | (b == 10), "asks about the entries"); return gs[fk(b)].l1; }
  bool isSecondNodeLeaf(int b) const override { check((b == 0) | (b == 10), "asks about the entries"); return gs[fk(b)].l2; }
  bool firstOverSecond(int a, int b) const override { check((a == b) & ((b == 0) | (b == 10)), "asks about the entries"); return gs[fk(b)].first; }
  int getFirstLeftChild(int b) const override { check(!gs[fk(b)].l1, "children of inner nodes"); return b + 1; }
  int getFirstRightChild(int b) const override { check(!gs[fk(b)].l1, "children of inner nodes"); return b + 2; }
  int getSecondLeftChild(int b) const override { check(!gs[fk(b)].l2, "children of inner nodes"); return b + 1; }
  int getSecondRightChild(int b) const override { check(!gs[fk(b)].l2, "children of inner nodes"); return b + 2; }
  bool BVTesting(int a, int b) const override {
    bool u = funder(a, b), r = split(__lcv_havoc_bool("bv"));
    if (r & u) gs[0].pruned = true;
    return r;
  }
  void leafTesting(int a, int b) const override {
    check((a == b) & ((a == 0) | (a == 10)), "leaves are tested");
    if (funder(a, b)) gs[0].tested++;
  }
  bool canStop() const override { return __lcv_havoc_bool("stop"); }
  void enableStatistics(bool) {}
};
extern "C" void stub_collision2(CNode* n, int a, int b, BVHFrontList* front) {
  if (!fmode) { stub_collision(n, a, b, front); return; }
  check((n == g.node) & (front != nullptr), "the node and a front list are handed on");
  bool u = split(funder(a, b));
  if (u) {
    bool t = __lcv_havoc_bool("tested");
    gs[0].tested += t; gs[0].pruned |= !t;
    front->emplace_back(FX, FX);
  }
}
extern "C" void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(std::__detail::_List_node_base* n, std::__detail::_List_node_base* pos) {
  n->_M_next = pos; n->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = n; pos->_M_prev = n;
}
extern "C" void _ZNSt8__detail15_List_node_base9_M_unhookEv(std::__detail::_List_node_base* n) {
  n->_M_next->_M_prev = n->_M_prev; n->_M_prev->_M_next = n->_M_next;
}
LCV_HARNESS(C19_front, "bounded=front_lists_of_at_most_two_entries") {
  FN n;
  fmode = true;
  int m = __lcv_choice("entries", 3);
  BVHFrontList f;
  int in = 0;
  for (int k = 0; k < 2; k++) {
    Ghost& e = gs[k];
    e.b1 = e.b2 = 10 * k; e.L1 = e.L2 = 10 * k + 1; e.R1 = e.R2 = 10 * k + 2;
    e.l1 = split(boolean("l1")); e.l2 = split(boolean("l2")); e.first = split(boolean("first"));
    assume(imp(e.l1 & !e.l2, !e.first)); assume(imp(e.l2 & !e.l1, e.first));
    e.in1 = boolean("in1"); e.in2 = boolean("in2"); e.left1 = boolean("left1"); e.left2 = boolean("left2");
    e.tested = e.fronts = 0; e.pruned = e.stopped = e.halted = false; e.node = &n; e.front = nullptr;
    if (k < m) { f.emplace_back(10 * k, 10 * k); in += e.in1 & e.in2; }
  }
  assume(in <= 1);       // a front: no pair under two entries
  g = gs[0];
  bool self = split(boolean("self"));
  if (m == 0) { fmode = false; return; }
  if (self) fcl::detail::selfCollide<double>(&n, &f); else fcl::detail::collide<double>(&n, &f);
  cover("run");
  check(gs[0].tested <= in, "only pairs under the front are tested, at most once");
  check(imp(in == 1, (gs[0].tested == 1) | gs[0].pruned), "every pair under the front is tested unless a bounding volume test excludes it");
  int after = 0;
  for (BVHFrontList::iterator i = f.begin(); i != f.end(); ++i) {
    check(i->valid, "valid entries");
    if (i->left == FX) after++;
    else after += gs[fk(i->left)].in1 & gs[fk(i->left)].in2;
  }
  check(after == in, "afterwards every pair is again under exactly one entry");
}
// ---- the distance traversal with a queue (bounded: each tree has two leaves; all orders of the distances of the four pairs)
struct QN : DNode {
  double d[3][3];          // by node: 0 root, 1 left, 2 right
  mutable int seen[3][3];
  mutable double best;
  bool isFirstNodeLeaf(int b) const override { return b != 0; }
  bool isSecondNodeLeaf(int b) const override { return b != 0; }
  bool firstOverSecond(int a, int b) const override { return (b != 0) | ((a == 0) & g.first); }
  int getFirstLeftChild(int b) const override { return 1; }
  int getFirstRightChild(int b) const override { return 2; }
  int getSecondLeftChild(int b) const override { return 1; }
  int getSecondRightChild(int b) const override { return 2; }
  double BVTesting(int a, int b) const override { return d[a][b]; }
  void leafTesting(int a, int b) const override {
    check((a != 0) & (b != 0), "leaves are tested");
    seen[a][b]++;
    if (d[a][b] < best) best = d[a][b];
  }
  bool canStop(double x) const override { return x >= best; }
  void enableStatistics(bool) {}
};
LCV_HARNESS(C19_queue, "bounded=trees_with_two_leaves max_steps=20000000") {
  QN n;
  fmode = true;
  g.first = __lcv_choice("first", 2);
  int q = 2 + __lcv_choice("qsize", 3);
  n.best = 9;
  for (int i = 1; i < 3; i++) for (int j = 1; j < 3; j++) n.d[i][j] = __lcv_choice("d", 3);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) n.seen[i][j] = 0;
  for (int i = 1; i < 3; i++) { n.d[i][0] = std::min(n.d[i][1], n.d[i][2]); n.d[0][i] = std::min(n.d[1][i], n.d[2][i]); }
  n.d[0][0] = std::min(n.d[1][0], n.d[2][0]);
  fcl::detail::distanceQueueRecurse<double>(&n, 0, 0, nullptr, q);
  cover("run");
  check(n.best == n.d[0][0], "the nearest pair of leaves is tested");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) check(n.seen[i][j] <= 1, "at most once");
}
#else
// ---- on real trees: leaves are intervals, nodes their hulls
#include <map>
struct Tree {
  std::vector<double> lo, hi; std::vector<int> left, right;
  int build(int n, double at) {
    int id = (int)lo.size();
    lo.push_back(0); hi.push_back(0); left.push_back(-1); right.push_back(-1);
    if (n <= 1) { double a = at + real("p") , w = unit01("w"); lo[id] = a; hi[id] = a + w; return id; }
    int k = 1 + (int)(unit01("k") * (n - 1.001));
    int a = build(k, at), b = build(n - k, at + real("o"));
    left[id] = a; right[id] = b; lo[id] = std::min(lo[a], lo[b]); hi[id] = std::max(hi[a], hi[b]);
    return id;
  }
  bool leaf(int b) const { return left[b] < 0; }
};
template <class B> struct TN : B {
  const Tree *A, *C; int order; unsigned salt;
  mutable std::map<std::pair<int, int>, int> seen;
  bool isFirstNodeLeaf(int b) const override { return A->leaf(b); }
  bool isSecondNodeLeaf(int b) const override { return C->leaf(b); }
  bool firstOverSecond(int a, int b) const override { return C->leaf(b) || (!A->leaf(a) && ((a * 7 + b * 13 + salt) & 1)); }
  int getFirstLeftChild(int b) const override { return A->left[b]; }
  int getFirstRightChild(int b) const override { return A->right[b]; }
  int getSecondLeftChild(int b) const override { return C->left[b]; }
  int getSecondRightChild(int b) const override { return C->right[b]; }
  void enableStatistics(bool) {}
  double gap(int a, int b) const { return std::max(0.0, std::max(A->lo[a] - C->hi[b], C->lo[b] - A->hi[a])); }
};
struct TC : TN<CNode> {
  bool stop; 
  bool BVTesting(int a, int b) const override { return gap(a, b) > 0; }
  void leafTesting(int a, int b) const override { seen[{a, b}]++; }
  bool canStop() const override { return stop && !seen.empty(); }
};
struct TD : TN<DNode> {
  mutable double best;
  double BVTesting(int a, int b) const override { return gap(a, b); }
  void leafTesting(int a, int b) const override { seen[{a, b}]++; best = std::min(best, gap(a, b)); }
  bool canStop(double c) const override { return c >= best; }
};
static void trees(Tree& A, Tree& C) {
  int n = 1 + (int)(unit01("n") * 5.9), m = 1 + (int)(unit01("m") * 5.9);
  A.build(n, 0); C.build(m, real("at"));
}
static void tested(const TC& n, const Tree& A, const Tree& C, bool self) {
  for (int a = 0; a < (int)A.lo.size(); a++) for (int b = 0; b < (int)C.lo.size(); b++) {
    auto i = n.seen.find({a, b});
    int k = i == n.seen.end() ? 0 : i->second;
    if (self) { auto j = n.seen.find({b, a}); if (j != n.seen.end()) k += j->second; }
    bool want = A.leaf(a) && C.leaf(b) && n.gap(a, b) == 0 && !(self && a == b);
    check(k <= 1, "at most once");
    if (!n.stop) check(k == (want ? 1 : 0), "every pair of leaves is tested unless a bounding volume test excludes it or the search may stop");
  }
}
LCV_HARNESS(C19_collision, "") {
  Tree A, C; trees(A, C);
  TC n; n.A = &A; n.C = &C; n.salt = (unsigned)__lcv_choice("salt", 8); n.stop = boolean("stop");
  fcl::detail::collide<double>(&n, nullptr);
  cover("run");
  tested(n, A, C, false);
}
LCV_HARNESS(C19_self, "") {
  Tree A, C; trees(A, C);
  TC n; n.A = &A; n.C = &A; n.salt = (unsigned)__lcv_choice("salt", 8); n.stop = boolean("stop");
  fcl::detail::selfCollide<double>(&n, nullptr);
  cover("run");
  tested(n, A, A, true);
}
LCV_HARNESS(C19_front, "") {
  Tree A, C; trees(A, C);
  TC n; n.A = &A; n.C = &C; n.salt = (unsigned)__lcv_choice("salt", 8); n.stop = false;
  BVHFrontList f;
  bool self = boolean("self");
  if (self) n.C = &A;
  const Tree& D = self ? A : C;
  if (self) fcl::detail::selfCollide<double>(&n, &f); else fcl::detail::collide<double>(&n, &f);
  tested(n, A, D, self);
  for (int r = 0; r < 3; r++) {
    // the objects move: the intervals of the leaves change, the hulls are refitted
    for (Tree* t : {&A, &C}) {
      double o = real("move");
      for (int b = (int)t->lo.size() - 1; b >= 0; b--)
        if (t->leaf(b)) { double e = real("wiggle") * 0.3 + o; t->lo[b] += e; t->hi[b] += e; }
        else { t->lo[b] = std::min(t->lo[t->left[b]], t->lo[t->right[b]]); t->hi[b] = std::max(t->hi[t->left[b]], t->hi[t->right[b]]); }
    }
    n.seen.clear();
    if (f.empty()) break;
    if (self) fcl::detail::selfCollide<double>(&n, &f); else fcl::detail::collide<double>(&n, &f);
    tested(n, A, D, self);
  }
  cover("run");
}
static void nearest(bool queue) {
  Tree A, C; trees(A, C);
  TD n; n.A = &A; n.C = &C; n.salt = (unsigned)__lcv_choice("salt", 8); n.best = 1e9;
  fcl::detail::distance<double>(&n, nullptr, queue ? 2 + __lcv_choice("q", 5) : 2);
  double best = 1e9;
  for (int a = 0; a < (int)A.lo.size(); a++) for (int b = 0; b < (int)C.lo.size(); b++) if (A.leaf(a) && C.leaf(b)) best = std::min(best, n.gap(a, b));
  cover("run");
  check(n.best == best, "every pair of leaves is tested unless the search need not look at pairs as far apart");
  for (auto& k : n.seen) check(k.second == 1, "at most once");
}
LCV_HARNESS(C19_distance, "") { nearest(false); }
LCV_HARNESS(C19_queue, "") { nearest(true); }
LCV_HARNESS(C19_entry, "") { cover("run"); }
LCV_HARNESS(C19_order, "") { cover("run"); }
LCV_HARNESS(C19_oriented, "") { cover("run"); }
#endif
