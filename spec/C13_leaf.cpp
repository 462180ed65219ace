// Contracts on the leaf tests of the traversals and on the result objects: what the narrow phase says of a pair is what ends up in
// the result.  The narrow phase is arbitrary: a mock solver for shapes, contract stubs for the triangle tests.
// LCV-REPLACE: 9IntersectIdE18intersect_TriangleERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_PS5_ => stub_tri
// LCV-REPLACE: 9IntersectIdE18intersect_TriangleERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_RKNS4_IdLi3ELi3 => stub_tri_rt
// LCV-REPLACE: 9IntersectIdE18intersect_TriangleERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_RKNS3_9Transform => stub_tri_tf
// LCV-REPLACE: AABBIdE7overlapERKS1_RS1_ => stub_overlap
// LCV-REPLACE: ComputeBVImplIdNS_3RSSIdEENS_6SphereIdEEE3runE => stub_bv
// LCV-REPLACE: ComputeBVImplIdNS_4kIOSIdEENS_6SphereIdEEE3runE => stub_bv
// LCV-REPLACE: ComputeBVImplIdNS_6OBBRSSIdEENS_6SphereIdEEE3runE => stub_bv
// LCV-REPLACE: 16TriangleDistanceIdE11triDistanceERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_RS5_ => stub_dist
// LCV-REPLACE: 16TriangleDistanceIdE11triDistanceERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_RKNS3_9Transform => stub_dist_tf
#include "fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/shape_distance_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/mesh_shape_distance_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/shape_mesh_distance_traversal_node.h"
#include "math/triangle.cpp"
#include "geometry/bvh/BV_node_base.cpp"
#include "shapes.h"
#include "query.h"
using namespace lcv;
typedef fcl::Contact<double> Ct;
typedef fcl::CollisionRequest<double> CReq;
typedef fcl::CollisionResult<double> CRes;
typedef fcl::DistanceRequest<double> DReq;
typedef fcl::DistanceResult<double> DRes;
typedef fcl::CostSource<double> Cost;
typedef fcl::AABB<double> AB;
typedef fcl::CollisionGeometry<double> Geom;

// ---- a small mesh: two triangles on five vertices, the nodes of which are numbered arbitrarily
template <class BV> struct Mesh {
  alignas(16) char mem[sizeof(fcl::BVHModel<BV>)];
  fcl::BVNode<BV> nodes[2];
  Vector3d v[5];
  fcl::Triangle t[2];
  fcl::BVHModel<BV>* m;
  int b, p;          // the node and the triangle it stands for
  Mesh(int k) {
    m = reinterpret_cast<fcl::BVHModel<BV>*>(mem);
#ifdef LCV_NATIVE
    new (m) fcl::BVHModel<BV>();
#endif
    m->bvs = nodes; m->num_bvs = 2; m->vertices = v; m->num_vertices = 5; m->tri_indices = t; m->num_tris = 2;
    m->build_state = fcl::BVH_BUILD_STATE_PROCESSED;
    m->cost_density = real("density"); m->threshold_occupied = real("occupied"); m->threshold_free = real("free");
    for (int i = 0; i < 5; i++) v[i] = vec3("v");
    t[0].set(0, 1, 2); t[1].set(3, 0, 4);
    b = k; p = 1 - k;
    nodes[0].first_child = -(1 + 1); nodes[1].first_child = -(0 + 1);
    for (int i = 0; i < 2; i++) { nodes[i].first_primitive = 0; nodes[i].num_primitives = 1; }
  }
  ~Mesh() {
    m->bvs = nullptr; m->vertices = nullptr; m->tri_indices = nullptr;
  }
  const Vector3d& at(int i) const { return v[t[p][i]]; }
};
static bool occupied(const Geom* g) { return g->cost_density >= g->threshold_occupied; }
static bool isfree(const Geom* g) { return g->cost_density <= g->threshold_free; }
static unsigned long u64(const char* n) {
#ifdef LCV_NATIVE
  return __lcv_u64(n) % 4;
#else
  return __lcv_u64(n);
#endif
}
static void request(CReq& q, bool cost, int n0) {
  q.num_max_contacts = 0;
  if (!cost) {
    int room = __lcv_choice("room", n0 + 5);
    q.num_max_contacts = room < n0 + 3 ? (size_t)room : room == n0 + 3 ? (size_t)1 << 32 : ~(size_t)0;
  }
  q.enable_contact = cost ? false : split(boolean("enable_contact"));
  q.enable_cost = cost; q.num_max_cost_sources = u64("maxcost");
}
// n0 contacts are there already
static void prior(CRes& r, int n0) {
  for (int i = 0; i < n0; i++) { Ct c; c.b1 = 100 + i; c.penetration_depth = real("prior"); r.contacts.push_back(c); }
}
static bool kept(const CRes& r, int n0) {
  bool k = r.contacts.size() >= (size_t)n0;
  for (int i = 0; i < n0; i++) if (k) k = r.contacts[i].b1 == 100 + i;
  return k;
}
static size_t room(const CReq& q, int n0) { return q.num_max_contacts > (size_t)n0 ? q.num_max_contacts - n0 : 0; }
static Transform3d rel(const Transform3d& a, const Transform3d& b) {
  Transform3d t = Transform3d::Identity();
  t.linear() = a.linear().transpose() * b.linear(); t.translation() = a.linear().transpose() * (b.translation() - a.translation());
  return t;
}
// ---- the triangle test: an arbitrary answer
struct TriAnswer { bool hit; unsigned n; double depth; Vector3d normal, pts[2]; };
static TriAnswer ta;
static const Vector3d* expect1[3]; static const Vector3d* expect2[3];
static Transform3d expectTf; static int calls; static bool posed;
static void expectArgs(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r) {
  check(veq(a, *expect1[0]) & veq(b, *expect1[1]) & veq(c, *expect1[2]), "the triangle of the first mesh");
  check(veq(p, *expect2[0]) & veq(q, *expect2[1]) & veq(r, *expect2[2]), "the triangle of the second mesh");
  calls++;
}
static bool sametf(const Matrix3d& R, const Vector3d& T) {
  bool r = veq(T, expectTf.translation());
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r = r & eq(R(i, j), expectTf.linear()(i, j));
  return r;
}
static bool answer(Vector3d* pts, unsigned* n, double* depth, Vector3d* normal) {
  if (ta.hit) {
    if (pts) { for (unsigned i = 0; i < ta.n; i++) pts[i] = ta.pts[i]; *n = ta.n; }
    if (depth) *depth = ta.depth;
    if (normal) *normal = ta.normal;
  }
  return ta.hit;
}
extern "C" bool stub_tri(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, Vector3d* pts, unsigned* n, double* depth, Vector3d* normal) {
  check(!posed, "pose");
  expectArgs(a, b, c, p, q, r);
  return answer(pts, n, depth, normal);
}
extern "C" bool stub_tri_rt(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Matrix3d& R, const Vector3d& T, Vector3d* pts, unsigned* n, double* depth, Vector3d* normal) {
  check(posed, "pose");
  expectArgs(a, b, c, p, q, r);
  check(sametf(R, T), "the pose of the second mesh relative to the first");
  return answer(pts, n, depth, normal);
}
extern "C" bool stub_tri_tf(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Transform3d& tf, Vector3d* pts, unsigned* n, double* depth, Vector3d* normal) {
  return stub_tri_rt(a, b, c, p, q, r, tf.linear(), tf.translation(), pts, n, depth, normal);
}
static void arbitraryAnswer(const Transform3d* tf, const CReq& q) {
  posed = tf != nullptr; calls = 0;
  #ifdef LCV_NATIVE
  typedef fcl::detail::Intersect<double> I;
  if (tf) {
    ta.hit = I::intersect_Triangle(*expect1[0], *expect1[1], *expect1[2], *expect2[0], *expect2[1], *expect2[2], expectTf.linear(), expectTf.translation(), ta.pts, &ta.n, &ta.depth, &ta.normal);
  }
  else ta.hit = I::intersect_Triangle(*expect1[0], *expect1[1], *expect1[2], *expect2[0], *expect2[1], *expect2[2], ta.pts, &ta.n, &ta.depth, &ta.normal);
#else
  ta.hit = split(boolean("hit"));
  ta.n = ta.hit && q.enable_contact ? 1 + __lcv_choice("n", 2) : 1;
  ta.depth = real("depth"); ta.normal = vec3("normal"); ta.pts[0] = vec3("pt"); ta.pts[1] = vec3("pt");
#endif
}
static double vmax(double a, double b) { return a < b ? b : a; }
static double vmin(double a, double b) { return b < a ? b : a; }
static AB box3(const Vector3d& a, const Vector3d& b, const Vector3d& c) {
  AB r;
  for (int i = 0; i < 3; i++) { r.min_[i] = vmin(a[i], vmin(b[i], c[i])); r.max_[i] = vmax(a[i], vmax(b[i], c[i])); }
  return r;
}
// the cost source of a pair of boxes
static void costs(const CReq& q, const CRes& r, bool wanted, const AB& x, const AB& y, double density) {
  bool one = wanted & q.enable_cost & (q.num_max_cost_sources > 0);
  check(r.cost_sources.size() == (one ? 1u : 0u), "a cost source is recorded exactly if asked for");
  if (!r.cost_sources.empty()) {
    const Cost& c = *r.cost_sources.begin();
    bool k = eq(c.cost_density, density), over = true;
    for (int i = 0; i < 3; i++) over = over & (x.min_[i] <= y.max_[i]) & (y.min_[i] <= x.max_[i]);
#ifdef LCV_NATIVE
    if (!over) return;     // (the test of two triangles without area)
#endif
    double vol = density;
    for (int i = 0; i < 3; i++) {
      k = k & eq(c.aabb_min[i], vmax(x.min_[i], y.min_[i])) & eq(c.aabb_max[i], vmin(x.max_[i], y.max_[i]));
      vol = vol * (c.aabb_max[i] - c.aabb_min[i]);
    }
    check(k, "the cost source is the overlap of the boxes of the pair, with the product of the densities");
    check(eq(c.total_cost, vol), "its cost is density times volume");
  }
}
// std::set without the balancing
namespace std { struct NB : _Rb_tree_node_base {}; }
#ifndef LCV_NATIVE
typedef std::_Rb_tree_node_base RB;
extern "C" void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, RB* x, RB* p, RB& h) {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = std::_S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
static RB* rbprev(RB* x) {
  // the header is the node whose colour is red and whose grandparent is itself
  if (x->_M_color == std::_S_black && x->_M_parent != nullptr && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  RB* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
extern "C" RB* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(RB* x) { return rbprev(x); }
extern "C" const RB* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const RB* x) { return rbprev(const_cast<RB*>(x)); }
extern "C" RB* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(RB* z, RB& h) {
  // only the last node is ever erased here (it has no right child)
  check(z == h._M_right, "the least expensive cost source is the one dropped");
  RB* p = z->_M_parent;
  RB* l = z->_M_left;
  if (l) l->_M_parent = p;
  if (p == &h) h._M_parent = l; else p->_M_right = l;
  if (l) { while (l->_M_right) l = l->_M_right; h._M_right = l; }
  else h._M_right = p;
  if (z == h._M_left) h._M_left = p;
  return z;
}
#endif

// boxes that overlap (C01 proves what AABB::overlap does)
static AB memoBox; static bool memoHave;
extern "C" bool stub_overlap(const AB* a, const AB& b, AB& o) {
  AB r;
  for (int i = 0; i < 3; i++) { r.min_[i] = vmax(a->min_[i], b.min_[i]); r.max_[i] = vmin(a->max_[i], b.max_[i]); }
  if (memoHave)
    check(veq(r.min_, memoBox.min_) & veq(r.max_, memoBox.max_), "the boxes of the pair");
  else { memoHave = true; memoBox = r; }
  o = memoBox;
  return true;
}
// the bounding volume of the shape plays no part in a leaf test
extern "C" void stub_bv(const SphereS&, const Transform3d&, void*) {}
// ---- two meshes
template <class N> static auto poseOf(N& n, int) -> decltype(pose(n.R, n.T)) { return pose(n.R, n.T); }
template <class N> static Transform3d poseOf(N& n, long) { return Transform3d::Identity(); }
template <class N, class M> static bool setup(N& n, const M& a, Transform3d& ta, const M& b, Transform3d& tb, const CReq& q, CRes& r, std::true_type) {
  return fcl::detail::initialize(n, a, (const Transform3d&)ta, b, (const Transform3d&)tb, q, r);
}
template <class N, class M> static bool setup(N& n, const M& a, Transform3d& ta, const M& b, Transform3d& tb, const CReq& q, CRes& r, std::false_type) {
  return fcl::detail::initialize(n, const_cast<M&>(a), ta, const_cast<M&>(b), tb, q, r);
}
template <class N, class BV, bool oriented> static void meshmesh(N& n, bool cost, int prior0) {
  Mesh<BV> A(0), B(1);
  CRes r; int n0 = cost ? 0 : __lcv_choice("n0", prior0);
  CReq q; request(q, cost, n0);
  prior(r, n0);
  Transform3d t1 = Transform3d::Identity(), t2 = t1;
  for (int i = 0; i < 3; i++) { expect1[i] = &A.at(i); expect2[i] = &B.at(i); }
  if (oriented) {
    t1 = pose("t1"); t2 = pose("t2");
    Transform3d tf = rel(t1, t2);
    expectTf = tf;
  }
  const fcl::BVHModel<BV>&mA = *A.m, &mB = *B.m;
  bool ok = setup(n, mA, t1, mB, t2, q, r, std::integral_constant<bool, oriented>());
  check(ok, "set up");
#ifdef LCV_NATIVE
  if (oriented) { const Transform3d& u = poseOf(n, 0); check(sametf(u.linear(), u.translation()), "the pose of the second mesh relative to the first"); expectTf = u; }
#endif
  arbitraryAnswer(oriented ? &expectTf : nullptr, q);
  bool occ = split(occupied(A.m)) && split(occupied(B.m)), fr = isfree(A.m) | isfree(B.m);
  if (cost) { split(fr); split(q.num_max_cost_sources > 0); }
  n.leafTesting(A.b, B.b);
  cover("run");
  bool rec = occ & ta.hit;
  size_t sp = room(q, n0), k = q.enable_contact ? ta.n : 1;
  size_t want = rec ? (k < sp ? k : sp) : 0;
  check(kept(r, n0), "contacts found before are kept");
  check(r.numContacts() == n0 + want, "contacts are recorded exactly if the triangles intersect, as many as there is room for");
  for (size_t i = n0; i < r.contacts.size(); i++) {
    const Ct& c = r.contacts[i];
    check((c.o1 == A.m) & (c.o2 == B.m) & (c.b1 == A.p) & (c.b2 == B.p), "the contact names the pair");
    if (q.enable_contact)
      check(veq(c.pos, t1.linear() * ta.pts[i - n0] + t1.translation()) & veq(c.normal, t1.linear() * ta.normal) & eq(c.penetration_depth, ta.depth), "the contact is that of the triangle test, in world coordinates");
  }
  AB x = box3(t1 * A.at(0), t1 * A.at(1), t1 * A.at(2)), y = box3(t2 * B.at(0), t2 * B.at(1), t2 * B.at(2));
  costs(q, r, ta.hit & (occ | !fr), x, y, A.m->cost_density * B.m->cost_density);
  check(n.canStop() == (!q.enable_cost && r.contacts.size() > 0 && q.num_max_contacts <= r.contacts.size()), "the search may stop only when enough contacts were found and no cost is asked for");
}
LCV_HARNESS(C13_mesh_aabb, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNode<AB> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNode<AB>, AB, false>(n, false, 2);
}
LCV_HARNESS(C13_mesh_aabb_cost, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNode<AB> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNode<AB>, AB, false>(n, true, 2);
}
LCV_HARNESS(C13_mesh_obb, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNodeOBB<double> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNodeOBB<double>, fcl::OBB<double>, true>(n, false, 2);
}
LCV_HARNESS(C13_mesh_obb_cost, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNodeOBB<double> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNodeOBB<double>, fcl::OBB<double>, true>(n, true, 2);
}
LCV_HARNESS(C13_mesh_rss, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNodeRSS<double> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNodeRSS<double>, fcl::RSS<double>, true>(n, false, 1);
}
LCV_HARNESS(C13_mesh_rss_cost, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNodeRSS<double> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNodeRSS<double>, fcl::RSS<double>, true>(n, true, 1);
}
LCV_HARNESS(C13_mesh_kios, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNodekIOS<double> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNodekIOS<double>, fcl::kIOS<double>, true>(n, false, 1);
}
LCV_HARNESS(C13_mesh_kios_cost, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNodekIOS<double> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNodekIOS<double>, fcl::kIOS<double>, true>(n, true, 1);
}
LCV_HARNESS(C13_mesh_obbrss, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNodeOBBRSS<double> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNodeOBBRSS<double>, fcl::OBBRSS<double>, true>(n, false, 1);
}
LCV_HARNESS(C13_mesh_obbrss_cost, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshCollisionTraversalNodeOBBRSS<double> n;
  meshmesh<fcl::detail::MeshCollisionTraversalNodeOBBRSS<double>, fcl::OBBRSS<double>, true>(n, true, 1);
}

// ---- shapes: a mock narrow phase solver with arbitrary answers
struct Solver {
  const SphereS *s1, *s2; Transform3d t1, t2;   // the shapes and poses
  const Vector3d *tri[3], *tri0[3]; Transform3d ttri; bool placed, first;
  bool hit; int n; double depth, dist; Vector3d normal, pos, p1, p2; double depths[3];
  double dist0; Vector3d q1, q2;   // the answer for the first triangle of the mesh, if that is asked first
  mutable int calls;
  Solver() : s1(nullptr), s2(nullptr), placed(false), first(false), hit(false), n(0), calls(0) {}
  static bool same(const Transform3d& a, const Transform3d& b) {
    bool r = veq(a.translation(), b.translation());
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r = r & eq(a.linear()(i, j), b.linear()(i, j));
    return r;
  }
  void two(const SphereS& a, const Transform3d& ta, const SphereS& b, const Transform3d& tb) const {
    check((&a == s1) & (&b == s2) & same(ta, t1) & same(tb, t2), "asks about the two shapes where they are");
    calls++;
  }
  void triangle(const SphereS& s, const Transform3d& tf, const Vector3d& a, const Vector3d& b, const Vector3d& c) const {
    check((&s == s1) & same(tf, t1), "asks about the shape where it is");
    const Vector3d* const* t = first && calls == 0 ? tri0 : tri;
    check(veq(a, *t[0]) & veq(b, *t[1]) & veq(c, *t[2]), "asks about the triangle of the leaf");
    calls++;
  }
  bool shapeIntersect(const SphereS& a, const Transform3d& ta, const SphereS& b, const Transform3d& tb, std::vector<CP>* c) const {
    two(a, ta, b, tb);
    if (hit && c) for (int i = 0; i < n; i++) c->push_back(CP(normal, Vector3d(i, pos[1], pos[2]), depths[i]));
    return hit;
  }
  bool shapeDistance(const SphereS& a, const Transform3d& ta, const SphereS& b, const Transform3d& tb, double* d, Vector3d* q1, Vector3d* q2) const {
    two(a, ta, b, tb);
    check(n == 0, "signed distance only if asked for");
    *d = dist; *q1 = p1; *q2 = p2;
    return hit;
  }
  bool shapeSignedDistance(const SphereS& a, const Transform3d& ta, const SphereS& b, const Transform3d& tb, double* d, Vector3d* q1, Vector3d* q2) const {
    two(a, ta, b, tb);
    check(n == 1, "signed distance only if asked for");
    *d = dist; *q1 = p1; *q2 = p2;
    return hit;
  }
  bool ti(Vector3d* c, double* d, Vector3d* nn) const {
    if (hit) { if (c) *c = pos; if (d) *d = depth; if (nn) *nn = normal; }
    return hit;
  }
  bool shapeTriangleIntersect(const SphereS& s, const Transform3d& tf, const Vector3d& a, const Vector3d& b, const Vector3d& c, Vector3d* cp, double* d, Vector3d* nn) const {
    triangle(s, tf, a, b, c);
    check(!placed, "the pose of the mesh");
    return ti(cp, d, nn);
  }
  bool shapeTriangleIntersect(const SphereS& s, const Transform3d& tf, const Vector3d& a, const Vector3d& b, const Vector3d& c, const Transform3d& tm, Vector3d* cp, double* d, Vector3d* nn) const {
    triangle(s, tf, a, b, c);
    check(placed && same(tm, ttri), "the pose of the mesh");
    return ti(cp, d, nn);
  }
  bool shapeTriangleDistance(const SphereS& s, const Transform3d& tf, const Vector3d& a, const Vector3d& b, const Vector3d& c, double* d, Vector3d* q1, Vector3d* q2) const {
    triangle(s, tf, a, b, c);
    check(!placed, "the pose of the mesh");
    *d = dist; *q1 = p1; *q2 = p2;
    return hit;
  }
  bool shapeTriangleDistance(const SphereS& s, const Transform3d& tf, const Vector3d& a, const Vector3d& b, const Vector3d& c, const Transform3d& tm, double* d, Vector3d* q1_, Vector3d* q2_) const {
    triangle(s, tf, a, b, c);
    check(placed && same(tm, ttri), "the pose of the mesh");
    if (first && calls == 1) { *d = dist0; *q1_ = q1; *q2_ = q2; }
    else { *d = dist; *q1_ = p1; *q2_ = p2; }
    return hit;
  }
  void arbitrary(bool contacts) {
    hit = split(boolean("hit"));
    n = hit && contacts ? __lcv_choice("n", 4) : 0;
    depth = real("depth"); normal = vec3("normal"); pos = vec3("pos");
    for (int i = 0; i < 3; i++) depths[i] = real("depths");
  }
};
static void density(Geom& g) { g.cost_density = real("density"); g.threshold_occupied = real("occupied"); g.threshold_free = real("free"); }
static AB ballBox(const SphereS& s, const Transform3d& t) {
  AB r;
  for (int i = 0; i < 3; i++) { r.min_[i] = t.translation()[i] - s.radius; r.max_[i] = t.translation()[i] + s.radius; }
  return r;
}
static void shapeshape(bool cost) {
  SphereS A(positive("r1")), B(positive("r2"));
  density(A); density(B);
  CRes r; int n0 = cost ? 0 : __lcv_choice("n0", 2);
  CReq q; request(q, cost, n0);
  prior(r, n0);
  Solver S;
  S.s1 = &A; S.s2 = &B; S.t1 = pose("t1"); S.t2 = pose("t2");
  S.arbitrary(q.enable_contact);
  fcl::detail::ShapeCollisionTraversalNode<SphereS, SphereS, Solver> n;
  check(initialize(n, A, S.t1, B, S.t2, &S, q, r), "set up");
  bool occ = split(occupied(&A)) && split(occupied(&B)), fr = isfree(&A) | isfree(&B);
  if (cost) { split(fr); split(q.num_max_cost_sources > 0); }
  check(!n.BVTesting(0, 0), "never excluded");
  n.leafTesting(0, 0);
  cover("run");
  size_t sp = room(q, n0), k = q.enable_contact ? S.n : 1, want = occ & S.hit ? (k < sp ? k : sp) : 0;
  check(kept(r, n0), "contacts found before are kept");
  check(r.numContacts() == n0 + want, "contacts are recorded exactly if the shapes intersect, as many as there is room for");
  bool used[3] = {false, false, false};
  double least = 0;
  for (size_t i = n0; i < r.contacts.size(); i++) {
    const Ct& c = r.contacts[i];
    check((c.o1 == &A) & (c.o2 == &B) & (c.b1 == Ct::NONE) & (c.b2 == Ct::NONE), "the contact names the pair");
    if (q.enable_contact) {
      bool ok = false;
      for (int j = 0; j < 3; j++) {
        bool is = (c.pos[0] == j) & eq(c.penetration_depth, S.depths[j]) & !used[j];
        ok = ok | is; used[j] = used[j] | is;
      }
      check(ok & veq(c.normal, S.normal) & eq(c.pos[1], S.pos[1]) & eq(c.pos[2], S.pos[2]), "each is a contact of the narrow phase, once");
      least = i == (size_t)n0 ? c.penetration_depth : std::min(least, c.penetration_depth);
    }
  }
  if (q.enable_contact && want > 0) for (int j = 0; j < S.n; j++) check(used[j] | le(S.depths[j], least), "the deepest are recorded");
  costs(q, r, S.hit & (occ | !fr), ballBox(A, S.t1), ballBox(B, S.t2), A.cost_density * B.cost_density);
}
LCV_HARNESS(C13_shapes, "bounded=up_to_three_contacts_per_pair") { shapeshape(false); }
LCV_HARNESS(C13_shapes_cost, "merge=1") { shapeshape(true); }

// ---- a mesh and a shape
template <class N, class M> static bool set_up(N& n, M& m, const Transform3d& tm, const SphereS& a, const Transform3d& t, const Solver* s, const CReq& q, CRes& r, std::true_type) {
  return fcl::detail::initialize(n, (const decltype(*m.m)&)*m.m, tm, a, t, s, q, r);
}
template <class BV, class M> static bool set_up(fcl::detail::MeshShapeCollisionTraversalNode<BV, SphereS, Solver>& n, M& m, const Transform3d& tm, const SphereS& a, const Transform3d& t, const Solver* s, const CReq& q, CRes& r, std::false_type) {
  Transform3d id = tm;
  return fcl::detail::initialize(n, *m.m, id, a, t, s, q, r);
}
template <class BV, class M> static bool set_up(fcl::detail::ShapeMeshCollisionTraversalNode<SphereS, BV, Solver>& n, M& m, const Transform3d& tm, const SphereS& a, const Transform3d& t, const Solver* s, const CReq& q, CRes& r, std::false_type) {
  Transform3d id = tm;
  return fcl::detail::initialize(n, a, t, *m.m, id, s, q, r);
}
template <class N, class BV, bool oriented> static void meshshape(N& n, bool cost, bool shapefirst, int prior0) {
  Mesh<BV> M(0);
  SphereS A(positive("r"));
  density(A);
  CRes r; int n0 = cost ? 0 : __lcv_choice("n0", prior0);
  CReq q; request(q, cost, n0);
  prior(r, n0);
  Solver S;
  S.s1 = &A; S.t1 = pose("t1"); S.placed = oriented;
  Transform3d tm = Transform3d::Identity();
  if (oriented) tm = S.ttri = pose("tm");
  for (int i = 0; i < 3; i++) S.tri[i] = &M.at(i);
  S.arbitrary(false);
  bool ok = set_up(n, M, tm, A, S.t1, &S, q, r, std::integral_constant<bool, oriented>());
  check(ok, "set up");
  bool occ = split(occupied(&A)) && split(occupied(M.m)), fr = isfree(&A) | isfree(M.m);
  if (cost) { split(fr); split(q.num_max_cost_sources > 0); }
  if (shapefirst) n.leafTesting(0, M.b); else n.leafTesting(M.b, 0);
  cover("run");
  size_t want = occ && S.hit && room(q, n0) > 0 ? 1 : 0;
  check(kept(r, n0), "contacts found before are kept");
  check(r.numContacts() == n0 + want, "a contact is recorded exactly if the triangle meets the shape and there is room");
  for (size_t i = n0; i < r.contacts.size(); i++) {
    const Ct& c = r.contacts[i];
    if (shapefirst) check((c.o1 == &A) & (c.o2 == M.m) & (c.b1 == Ct::NONE) & (c.b2 == M.p), "the contact names the pair");
    else check((c.o1 == M.m) & (c.o2 == &A) & (c.b1 == M.p) & (c.b2 == Ct::NONE), "the contact names the pair");
    if (q.enable_contact)
      check(veq(c.pos, S.pos) & veq(c.normal, shapefirst ? S.normal : Vector3d(-S.normal)) & eq(c.penetration_depth, S.depth), "the contact is that of the narrow phase, the normal from the first to the second object");
  }
  AB x = box3(tm * M.at(0), tm * M.at(1), tm * M.at(2));
  costs(q, r, S.hit & (occ | !fr), x, ballBox(A, S.t1), A.cost_density * M.m->cost_density);
  check(n.canStop() == (!q.enable_cost && r.contacts.size() > 0 && q.num_max_contacts <= r.contacts.size()), "the search may stop only when enough contacts were found and no cost is asked for");
}
LCV_HARNESS(C13_meshshape_aabb, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNode<AB, SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNode<AB, SphereS, Solver>, AB, false>(n, false, false, 2);
}
LCV_HARNESS(C13_meshshape_aabb_cost, "merge=1 prune=none deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNode<AB, SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNode<AB, SphereS, Solver>, AB, false>(n, true, false, 2);
}
LCV_HARNESS(C13_shapemesh_aabb, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::ShapeMeshCollisionTraversalNode<SphereS, AB, Solver> n;
  meshshape<fcl::detail::ShapeMeshCollisionTraversalNode<SphereS, AB, Solver>, AB, false>(n, false, true, 2);
}
LCV_HARNESS(C13_shapemesh_aabb_cost, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::ShapeMeshCollisionTraversalNode<SphereS, AB, Solver> n;
  meshshape<fcl::detail::ShapeMeshCollisionTraversalNode<SphereS, AB, Solver>, AB, false>(n, true, true, 2);
}
LCV_HARNESS(C13_meshshape_obb, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNodeOBB<SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNodeOBB<SphereS, Solver>, fcl::OBB<double>, true>(n, false, false, 1);
}
LCV_HARNESS(C13_meshshape_obb_cost, "merge=1 prune=none deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNodeOBB<SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNodeOBB<SphereS, Solver>, fcl::OBB<double>, true>(n, true, false, 1);
}
LCV_HARNESS(C13_meshshape_rss, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNodeRSS<SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNodeRSS<SphereS, Solver>, fcl::RSS<double>, true>(n, false, false, 1);
}
LCV_HARNESS(C13_meshshape_rss_cost, "merge=1 prune=none deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNodeRSS<SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNodeRSS<SphereS, Solver>, fcl::RSS<double>, true>(n, true, false, 1);
}
LCV_HARNESS(C13_meshshape_kios, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNodekIOS<SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNodekIOS<SphereS, Solver>, fcl::kIOS<double>, true>(n, false, false, 1);
}
LCV_HARNESS(C13_meshshape_kios_cost, "merge=1 prune=none deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNodekIOS<SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNodekIOS<SphereS, Solver>, fcl::kIOS<double>, true>(n, true, false, 1);
}
LCV_HARNESS(C13_meshshape_obbrss, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNodeOBBRSS<SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNodeOBBRSS<SphereS, Solver>, fcl::OBBRSS<double>, true>(n, false, false, 1);
}
LCV_HARNESS(C13_meshshape_obbrss_cost, "merge=1 prune=none deadline=400 bounded=meshes_of_two_triangles") {
  fcl::detail::MeshShapeCollisionTraversalNodeOBBRSS<SphereS, Solver> n;
  meshshape<fcl::detail::MeshShapeCollisionTraversalNodeOBBRSS<SphereS, Solver>, fcl::OBBRSS<double>, true>(n, true, false, 1);
}

// ---- distance
// what the result must be after pairs at the given distances were looked at in turn
struct Best {
  double d; const Geom *o1, *o2; long b1, b2; Vector3d p[2]; bool pts;
  Best(const DRes& r) : d(r.min_distance), o1(r.o1), o2(r.o2), b1(r.b1), b2(r.b2), pts(true) { p[0] = r.nearest_points[0]; p[1] = r.nearest_points[1]; }
  void pair(double e, const Geom* g1, const Geom* g2, long c1, long c2, const Vector3d& x, const Vector3d& y, bool points) {
    bool c = split(e < d);
    if (c) { d = e; o1 = g1; o2 = g2; b1 = c1; b2 = c2; pts = points; p[0] = x; p[1] = y; }
  }
  void is(const DRes& r) const {
    check(eq(r.min_distance, d), "the least of the distances");
    check((r.o1 == o1) & (r.o2 == o2) & (r.b1 == b1) & (r.b2 == b2), "the pair named is the one the distance belongs to");
    if (pts) check(veq(r.nearest_points[0], p[0]) & veq(r.nearest_points[1], p[1]), "the nearest points are those of the pair the distance belongs to, in world coordinates");
  }
};
// an earlier result: of another pair, of the same pair, or none
static void earlier(DRes& r, const Geom* a, const Geom* b, const Geom* other) {
  int k = __lcv_choice("earlier", 3);
  r.min_distance = real("earlier");
  r.nearest_points[0] = vec3("earlier_p"); r.nearest_points[1] = vec3("earlier_q");
  if (k == 1) { r.o1 = a; r.o2 = b; r.b1 = 0; r.b2 = 0; }
  if (k == 2) { r.o1 = other; r.o2 = b; r.b1 = 7; r.b2 = DRes::NONE; }
}
static DReq dreq() {
  DReq q;
  q.enable_nearest_points = split(boolean("points")); q.rel_err = real("rel_err"); q.abs_err = real("abs_err");
  return q;
}
// triangle distances: arbitrary answers, the first for the triangles looked at in advance (if any)
static double td[2]; static Vector3d tp[2], tq[2];
static const Vector3d *dexp1[2][3], *dexp2[2][3];
static double distAnswer(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, Vector3d& x, Vector3d& y) {
  check(calls < 2, "one question per pair");
  check(veq(a, *dexp1[calls][0]) & veq(b, *dexp1[calls][1]) & veq(c, *dexp1[calls][2]), "the triangle of the first mesh");
  check(veq(p, *dexp2[calls][0]) & veq(q, *dexp2[calls][1]) & veq(r, *dexp2[calls][2]), "the triangle of the second mesh");
  x = tp[calls]; y = tq[calls];
  return td[calls++];
}
extern "C" double stub_dist(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, Vector3d& x, Vector3d& y) {
  check(!posed, "pose");
  return distAnswer(a, b, c, p, q, r, x, y);
}
extern "C" double stub_dist_tf(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Transform3d& tf, Vector3d& x, Vector3d& y) {
  check(posed, "pose");
  check(sametf(tf.linear(), tf.translation()), "the pose of the second mesh relative to the first");
  return distAnswer(a, b, c, p, q, r, x, y);
}
template <class N> static auto nodeTf(N& n, int) -> decltype(n.tf) { return n.tf; }
template <class N> static Transform3d nodeTf(N& n, long) { return Transform3d::Identity(); }
template <class N, class M> static bool dsetup(N& n, M& a, Transform3d& ta, M& b, Transform3d& tb, const DReq& q, DRes& r, std::true_type) {
  return fcl::detail::initialize(n, (const M&)a, (const Transform3d&)ta, (const M&)b, (const Transform3d&)tb, q, r);
}
template <class N, class M> static bool dsetup(N& n, M& a, Transform3d& ta, M& b, Transform3d& tb, const DReq& q, DRes& r, std::false_type) {
  return fcl::detail::initialize(n, a, ta, b, tb, q, r);
}
template <class N, class BV, bool oriented> static void meshdist(N& n) {
  Mesh<BV> A(0), B(1);
  DReq q = dreq();
  SphereS other(1);
  DRes r; earlier(r, A.m, B.m, &other);
  Transform3d t1 = Transform3d::Identity(), t2 = t1;
  if (oriented) { t1 = pose("t1"); t2 = pose("t2"); expectTf = rel(t1, t2); }
  posed = oriented; calls = 0;
  int leaf = oriented ? 1 : 0;
  for (int i = 0; i < 3; i++) {
    dexp1[leaf][i] = &A.at(i); dexp2[leaf][i] = &B.at(i);
    if (oriented) { dexp1[0][i] = &A.v[A.t[0][i]]; dexp2[0][i] = &B.v[B.t[0][i]]; }
  }
#ifndef LCV_NATIVE
  for (int i = 0; i < 2; i++) { td[i] = real("distance"); tp[i] = vec3("p"); tq[i] = vec3("q"); }
#endif
  Best best(r);
  check(dsetup(n, *A.m, t1, *B.m, t2, q, r, std::integral_constant<bool, oriented>()), "set up");
#ifdef LCV_NATIVE
  typedef fcl::detail::TriangleDistance<double> TD;
  for (int i = 0; i <= leaf; i++) {
    if (oriented) { Transform3d u = nodeTf(n, 0); check(sametf(u.linear(), u.translation()), "the pose of the second mesh relative to the first"); td[i] = TD::triDistance(*dexp1[i][0], *dexp1[i][1], *dexp1[i][2], *dexp2[i][0], *dexp2[i][1], *dexp2[i][2], u, tp[i], tq[i]); }
    else td[i] = TD::triDistance(*dexp1[i][0], *dexp1[i][1], *dexp1[i][2], *dexp2[i][0], *dexp2[i][1], *dexp2[i][2], tp[i], tq[i]);
  }
#endif
  for (int i = 0; i <= leaf; i++) {
    Vector3d x = tp[i], y = tq[i];
    if (oriented) { x = t1.linear() * tp[i] + t1.translation(); y = t1.linear() * tq[i] + t1.translation(); }
    int k = oriented && i == 0;
    best.pair(td[i], A.m, B.m, k ? 0 : A.p, k ? 0 : B.p, x, y, q.enable_nearest_points);
  }
  n.preprocess();
  n.leafTesting(A.b, B.b);
  n.postprocess();
  cover("run");
  best.is(r);
  double c = real("bound");
  check(!n.canStop(c) | (c >= r.min_distance), "a pair of nodes is left out only if its distance is no less than the best");
}
#define LCV_MD(id, N, BV, o)                                       \
  LCV_HARNESS(id, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {     \
    fcl::detail::N n;                                                                      \
    meshdist<fcl::detail::N, BV, o>(n);                                                    \
  }
LCV_MD(C13_dist_aabb, MeshDistanceTraversalNode<AB>, AB, false)
LCV_MD(C13_dist_rss, MeshDistanceTraversalNodeRSS<double>, fcl::RSS<double>, true)
LCV_MD(C13_dist_kios, MeshDistanceTraversalNodekIOS<double>, fcl::kIOS<double>, true)
LCV_MD(C13_dist_obbrss, MeshDistanceTraversalNodeOBBRSS<double>, fcl::OBBRSS<double>, true)

LCV_HARNESS(C13_dist_shapes, "merge=1") {
  SphereS A(positive("r1")), B(positive("r2")), other(1);
  DReq q = dreq();
  q.enable_signed_distance = split(boolean("signed"));
  DRes r; earlier(r, &A, &B, &other);
  Solver S;
  S.s1 = &A; S.s2 = &B; S.t1 = pose("t1"); S.t2 = pose("t2");
  S.hit = boolean("hit"); S.n = q.enable_signed_distance ? 1 : 0; S.dist = real("distance"); S.p1 = vec3("p1"); S.p2 = vec3("p2");
  Best best(r);
  best.pair(S.dist, &A, &B, DRes::NONE, DRes::NONE, S.p1, S.p2, true);
  fcl::detail::ShapeDistanceTraversalNode<SphereS, SphereS, Solver> n;
  check(initialize(n, A, S.t1, B, S.t2, &S, q, r), "set up");
  n.preprocess();
  check(n.BVTesting(0, 0) <= 0, "never excluded");
  n.leafTesting(0, 0);
  n.postprocess();
  cover("run");
  check(S.calls == 1, "the narrow phase is asked once");
  best.is(r);
}
template <class N, class M> static bool ds_up(N& n, M& m, const Transform3d& tm, const SphereS& a, const Transform3d& t, const Solver* s, const DReq& q, DRes& r, std::true_type) {
  return fcl::detail::initialize(n, (const decltype(*m.m)&)*m.m, tm, a, t, s, q, r);
}
// (the declaration and the definition of initialize() for this node do not match: it cannot be linked)
template <class BV, class M> static bool ds_up(fcl::detail::MeshShapeDistanceTraversalNode<BV, SphereS, Solver>& n, M& m, const Transform3d& tm, const SphereS& a, const Transform3d& t, const Solver* s, const DReq& q, DRes& r, std::false_type) {
  n.request = q; n.result = &r; n.model1 = m.m; n.tf1 = tm; n.model2 = &a; n.tf2 = t; n.nsolver = s;
  n.vertices = m.v; n.tri_indices = m.t;
  return true;
}
template <class BV, class M> static bool ds_up(fcl::detail::ShapeMeshDistanceTraversalNode<SphereS, BV, Solver>& n, M& m, const Transform3d& tm, const SphereS& a, const Transform3d& t, const Solver* s, const DReq& q, DRes& r, std::false_type) {
  Transform3d id = tm;
  return fcl::detail::initialize(n, a, t, *m.m, id, s, q, r);
}
template <class N, class BV, bool oriented> static void meshshapedist(N& n, bool shapefirst) {
  Mesh<BV> M(0);
  SphereS A(positive("r")), other(1);
  DReq q = dreq();
  const Geom *g1 = M.m, *g2 = &A;
  if (shapefirst) { g1 = &A; g2 = M.m; }
  DRes r; earlier(r, g1, g2, &other);
  Solver S;
  S.s1 = &A; S.t1 = pose("t1"); S.placed = oriented; S.first = oriented;
  Transform3d tm = Transform3d::Identity();
  if (oriented) tm = S.ttri = pose("tm");
  for (int i = 0; i < 3; i++) { S.tri[i] = &M.at(i); S.tri0[i] = &M.v[M.t[0][i]]; }
  S.hit = boolean("hit");
  S.dist = real("distance"); S.p1 = vec3("p1"); S.p2 = vec3("p2"); S.dist0 = real("distance0"); S.q1 = vec3("q1"); S.q2 = vec3("q2");
  Best best(r);
  check(ds_up(n, M, tm, A, S.t1, &S, q, r, std::integral_constant<bool, oriented>()), "set up");
  // the solver puts the point of the shape first
  if (oriented) best.pair(S.dist0, g1, g2, 0, DRes::NONE, S.q2, S.q1, true);
  if (shapefirst) best.pair(S.dist, g1, g2, DRes::NONE, M.p, S.p1, S.p2, true);
  else best.pair(S.dist, g1, g2, M.p, DRes::NONE, S.p2, S.p1, true);
  n.preprocess();
  if (shapefirst) n.leafTesting(0, M.b); else n.leafTesting(M.b, 0);
  n.postprocess();
  cover("run");
  best.is(r);
  double c = real("bound");
  check(!n.canStop(c) | (c >= r.min_distance), "a pair of nodes is left out only if its distance is no less than the best");
}
#define LCV_MSD(id, BV, o, s, ...)                                       \
  LCV_HARNESS(id, "merge=1 deadline=400 bounded=meshes_of_two_triangles") {     \
    fcl::detail::__VA_ARGS__ n;                                                            \
    meshshapedist<fcl::detail::__VA_ARGS__, BV, o>(n, s);                                  \
  }
LCV_MSD(C13_dist_meshshape_aabb, AB, false, false, MeshShapeDistanceTraversalNode<AB, SphereS, Solver>)
LCV_MSD(C13_dist_shapemesh_aabb, AB, false, true, ShapeMeshDistanceTraversalNode<SphereS, AB, Solver>)
LCV_MSD(C13_dist_meshshape_rss, fcl::RSS<double>, true, false, MeshShapeDistanceTraversalNodeRSS<SphereS, Solver>)
LCV_MSD(C13_dist_meshshape_kios, fcl::kIOS<double>, true, false, MeshShapeDistanceTraversalNodekIOS<SphereS, Solver>)
LCV_MSD(C13_dist_meshshape_obbrss, fcl::OBBRSS<double>, true, false, MeshShapeDistanceTraversalNodeOBBRSS<SphereS, Solver>)

// ---- the result objects themselves
static void arbitrary(DRes& r, const char* n, const Geom* a, const Geom* b) {
  r.min_distance = real(n); r.o1 = a; r.o2 = b; r.b1 = __lcv_choice("b1", 2); r.b2 = __lcv_choice("b2", 2);
  r.nearest_points[0] = vec3("p"); r.nearest_points[1] = vec3("q");
}
LCV_HARNESS(C13_distance_result, "merge=1") {
  SphereS A(1), B(1), C(1), D(1);
  DRes r, s;
  check((r.o1 == nullptr) & (r.o2 == nullptr) & (r.min_distance >= 1e308), "a new result is beyond any distance");
  arbitrary(r, "r", &A, &B); arbitrary(s, "s", &C, &D);
  int k = __lcv_choice("how", 3);
  Best best(r);
  Vector3d x = r.nearest_points[0];
  best.pair(s.min_distance, s.o1, s.o2, s.b1, s.b2, s.nearest_points[0], s.nearest_points[1], k != 1);
  if (k == 0) r.update(s);
  if (k == 1) r.update(s.min_distance, s.o1, s.o2, s.b1, s.b2);
  if (k == 2) r.update(s.min_distance, s.o1, s.o2, s.b1, s.b2, s.nearest_points[0], s.nearest_points[1]);
  cover("run");
  best.is(r);
  DReq q;
  check(q.isSatisfied(r) == (r.min_distance <= 0), "satisfied once the objects touch");
  r.clear();
  check((r.o1 == nullptr) & (r.o2 == nullptr) & (r.b1 == DRes::NONE) & (r.b2 == DRes::NONE) & (r.min_distance >= 1e308), "a cleared result is a new one");
}
LCV_HARNESS(C13_collision_result, "merge=1 bounded=up_to_three_contacts") {
  CRes r; CReq q;
  SphereS A(1), B(1);
  int n = __lcv_choice("n", 4);
  Ct c[3];
  for (int i = 0; i < n; i++) { c[i] = Ct(&A, &B, i, 2 * i, vec3("pos"), vec3("normal"), real("depth")); r.addContact(c[i]); }
  q.num_max_contacts = __lcv_choice("max", 5); q.enable_cost = split(boolean("cost"));
  cover("run");
  check(r.numContacts() == (size_t)n && r.isCollision() == (n > 0), "counts");
  check(q.isSatisfied(r) == (!q.enable_cost && n > 0 && q.num_max_contacts <= (size_t)n), "satisfied once there are enough contacts, unless costs are asked for");
  std::vector<Ct> out;
  r.getContacts(out);
  check(out.size() == (size_t)n, "all contacts");
  for (int i = 0; i < n; i++) {
    const Ct& d = r.getContact(i);
    check((d.o1 == &A) & (d.o2 == &B) & (d.b1 == i) & (d.b2 == 2 * i) & veq(d.pos, c[i].pos) & veq(d.normal, c[i].normal) & eq(d.penetration_depth, c[i].penetration_depth), "contacts in the order they were added");
    check((out[i].b1 == i) & veq(out[i].pos, c[i].pos), "contacts in the order they were added");
  }
  r.clear();
  check(r.numContacts() == 0 && r.numCostSources() == 0, "cleared");
}
