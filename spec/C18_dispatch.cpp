// Contracts on the entry points of the narrow phase: collide() and distance(), the tables of functions they look up, the functions in
// the tables and the set-up of the traversals.  The solver is a mock with arbitrary answers; the traversal itself is used through its
// contract (C19: a pair that nothing rules out is tested), and of the bounding volumes only that they rule out nothing.
// LCV-REPLACE: collisionRecurseIdEEvPNS0_26CollisionTraversalNodeBase => stub_walk
// LCV-REPLACE: 15distanceRecurseIdEEv => stub_dwalk
// LCV-REPLACE: ComputeBVImpl => stub_bv
// LCV-REPLACE: 15endReplaceModelEbb => stub_end
// LCV-REPLACE: 9IntersectIdE18intersect_TriangleERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_PS5_ => stub_tri
// LCV-REPLACE: 9IntersectIdE18intersect_TriangleERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_RKNS4_IdLi3ELi3 => stub_tri_rt
// LCV-REPLACE: 9IntersectIdE18intersect_TriangleERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_RKNS3_9Transform => stub_tri_tf
// LCV-REPLACE: 16TriangleDistanceIdE11triDistanceERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_RS5_ => stub_dist
// LCV-REPLACE: 16TriangleDistanceIdE11triDistanceERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_RKNS3_9Transform => stub_dist_tf
// LCV-REPLACE: 6ConvexIdE19FindVertexNeighborsEv => stub_convex
// LCV-REPLACE: 6ConvexIdE12ValidateMeshEb => stub_convex_v
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "math/triangle.cpp"
#include "geometry/bvh/BV_node_base.cpp"
#include "geometry/bvh/detail/BVH_front.cpp"
#include "geometry/shape/box.cpp"
#include "geometry/shape/sphere.cpp"
#include "geometry/shape/ellipsoid.cpp"
#include "geometry/shape/capsule.cpp"
#include "geometry/shape/cone.cpp"
#include "geometry/shape/cylinder.cpp"
#include "geometry/shape/convex.cpp"
#include "geometry/shape/plane.cpp"
#include "geometry/shape/halfspace.cpp"
#include "geometry/shape/shape_base.cpp"
#include "shapes.h"
#include "query.h"
using namespace lcv;
typedef fcl::CollisionGeometry<double> Geom;
typedef fcl::CollisionRequest<double> CReq;
typedef fcl::CollisionResult<double> CRes;
typedef fcl::DistanceRequest<double> DReq;
typedef fcl::DistanceResult<double> DRes;
typedef fcl::detail::CollisionTraversalNodeBase<double> CNode;
typedef fcl::detail::DistanceTraversalNodeBase<double> DNode;

static int walks;
extern "C" void stub_walk(CNode* n, int b1, int b2, fcl::detail::BVHFrontList* f) {
  check((b1 == 0) & (b2 == 0), "the traversal starts at the roots");
  walks++;
  n->leafTesting(0, 0);
}
extern "C" void stub_dwalk(DNode* n, int b1, int b2, fcl::detail::BVHFrontList* f) {
  check((b1 == 0) & (b2 == 0), "the traversal starts at the roots");
  walks++;
  n->leafTesting(0, 0);
}
extern "C" void stub_bv(const void*, const Transform3d&, void*) {}
extern "C" void stub_convex(void*) {}
extern "C" void stub_convex_v(void*, bool) {}

static int kind(const fcl::Box<double>&) { return 0; }
static int kind(const fcl::Sphere<double>&) { return 1; }
static int kind(const fcl::Ellipsoid<double>&) { return 2; }
static int kind(const fcl::Capsule<double>&) { return 3; }
static int kind(const fcl::Cone<double>&) { return 4; }
static int kind(const fcl::Cylinder<double>&) { return 5; }
static int kind(const fcl::Convex<double>&) { return 6; }
static int kind(const fcl::Plane<double>&) { return 7; }
static int kind(const fcl::Halfspace<double>&) { return 8; }
static const int NK = 9;

static bool same(const Transform3d& a, const Transform3d& b) {
  bool r = veq(a.translation(), b.translation());
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r = r & eq(a.linear()(i, j), b.linear()(i, j));
  return r;
}

// the solver: records what it is asked about, answers arbitrarily
struct Ask { int op, k1, k2; const Geom *o1, *o2; Transform3d t1, t2; };
static Ask ask; static int asked;
static bool guessOn; static Vector3d guess; static int guessSet;
struct Answer { bool hit; double depth, dist; Vector3d normal, pos, p1, p2; };
static Answer ans;
static const Vector3d* corner[3]; static Transform3d meshTf;   // the triangle of the mesh and the pose of the mesh
struct Solver {
  typedef double S;
  template <class A, class B> void rec(int op, const A& a, const Transform3d& ta, const B& b, const Transform3d& tb) const {
    ask.op = op; ask.k1 = kind(a); ask.k2 = kind(b); ask.o1 = &a; ask.o2 = &b; ask.t1 = ta; ask.t2 = tb;
    asked++;
  }
  template <class A, class B> bool shapeIntersect(const A& a, const Transform3d& ta, const B& b, const Transform3d& tb, std::vector<CP>* c) const {
    rec(c ? 1 : 0, a, ta, b, tb);
    if (ans.hit && c) c->push_back(CP(ans.normal, ans.pos, ans.depth));
    return ans.hit;
  }
  template <class A, class B> bool shapeDistance(const A& a, const Transform3d& ta, const B& b, const Transform3d& tb, double* d, Vector3d* q1, Vector3d* q2) const {
    rec(2, a, ta, b, tb);
    *d = ans.dist; *q1 = ans.p1; *q2 = ans.p2;
    return ans.hit;
  }
  template <class A, class B> bool shapeSignedDistance(const A& a, const Transform3d& ta, const B& b, const Transform3d& tb, double* d, Vector3d* q1, Vector3d* q2) const {
    rec(3, a, ta, b, tb);
    *d = ans.dist; *q1 = ans.p1; *q2 = ans.p2;
    return ans.hit;
  }
  // the question about a triangle: the corners where they are in the world
  template <class A> void tri(int op, const A& a, const Transform3d& t, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Transform3d* tm) const {
    ask.op = op; ask.k1 = kind(a); ask.o1 = &a; ask.t1 = t;
    if (tm) check(veq(p, *corner[0]) & veq(q, *corner[1]) & veq(r, *corner[2]) & same(*tm, meshTf), "asks about the triangle of the mesh where it is");
    else check(veq(p, meshTf * *corner[0]) & veq(q, meshTf * *corner[1]) & veq(r, meshTf * *corner[2]), "asks about the triangle of the mesh where it is");
    asked++;
  }
  bool ti(Vector3d* c, double* d, Vector3d* n) const {
    if (ans.hit) { if (c) *c = ans.pos; if (d) *d = ans.depth; if (n) *n = ans.normal; }
    return ans.hit;
  }
  bool td(double* d, Vector3d* q1, Vector3d* q2) const { *d = ans.dist; *q1 = ans.p1; *q2 = ans.p2; return ans.hit; }
  template <class A> bool shapeTriangleIntersect(const A& a, const Transform3d& t, const Vector3d& p, const Vector3d& q, const Vector3d& r, Vector3d* c, double* d, Vector3d* n) const {
    tri(c ? 1 : 0, a, t, p, q, r, nullptr); return ti(c, d, n);
  }
  template <class A> bool shapeTriangleIntersect(const A& a, const Transform3d& t, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Transform3d& tm, Vector3d* c, double* d, Vector3d* n) const {
    tri(c ? 1 : 0, a, t, p, q, r, &tm); return ti(c, d, n);
  }
  template <class A> bool shapeTriangleDistance(const A& a, const Transform3d& t, const Vector3d& p, const Vector3d& q, const Vector3d& r, double* d, Vector3d* q1, Vector3d* q2) const {
    tri(2, a, t, p, q, r, nullptr); return td(d, q1, q2);
  }
  template <class A> bool shapeTriangleDistance(const A& a, const Transform3d& t, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Transform3d& tm, double* d, Vector3d* q1, Vector3d* q2) const {
    tri(2, a, t, p, q, r, &tm); return td(d, q1, q2);
  }
  void enableCachedGuess(bool b) const { guessOn = b; }
  void setCachedGuess(const Vector3d& g) const { guess = g; guessSet++; }
  Vector3d getCachedGuess() const { return guess; }
};

// any affine map: nothing here depends on what a pose is
static Transform3d anypose(const char* n) {
#ifdef LCV_NATIVE
  return pose(n);
#else
  Transform3d t = Transform3d::Identity();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.linear()(i, j) = real(n);
  t.translation() = vec3(n);
  return t;
#endif
}
struct Shapes {
  fcl::Box<double> b; fcl::Sphere<double> s; fcl::Ellipsoid<double> e; fcl::Capsule<double> ca; fcl::Cone<double> co;
  fcl::Cylinder<double> cy; fcl::Convex<double> cv; fcl::Plane<double> p; fcl::Halfspace<double> h;
  static std::shared_ptr<const std::vector<Vector3d>> verts() {
    auto v = std::make_shared<std::vector<Vector3d>>();
    v->push_back(Vector3d(0, 0, 0)); v->push_back(Vector3d(1, 0, 0)); v->push_back(Vector3d(0, 1, 0)); v->push_back(Vector3d(0, 0, 1));
    return v;
  }
  static std::shared_ptr<const std::vector<int>> faces() {
    auto f = std::make_shared<std::vector<int>>();
    for (int i : {3, 0, 2, 1, 3, 0, 1, 3, 3, 0, 3, 2, 3, 1, 2, 3}) f->push_back(i);
    return f;
  }
  Shapes() : b(1, 1, 1), s(1), e(1, 1, 1), ca(1, 1), co(1, 1), cy(1, 1), cv(verts(), 4, faces(), false), p(Vector3d(1, 0, 0), 0), h(Vector3d(1, 0, 0), 0) {}
  const Geom* get(int k) const {
    switch (k) {
      case 0: return &b; case 1: return &s; case 2: return &e; case 3: return &ca; case 4: return &co;
      case 5: return &cy; case 6: return &cv; case 7: return &p; default: return &h;
    }
  }
};
static void arbitrary() {
  ans.hit = split(boolean("hit")); ans.depth = real("depth"); ans.dist = real("dist");
  ans.normal = vec3("normal"); ans.pos = vec3("pos"); ans.p1 = vec3("p1"); ans.p2 = vec3("p2");
  guessOn = boolean("stale"); guess = vec3("staleguess"); guessSet = 0; asked = 0; walks = 0;
}

static void collideShapes(int from) {
  Solver S; Shapes A, B;
  fcl::getCollisionFunctionLookTable<Solver>();
  int i = from + __lcv_choice("kind1", 3), j = __lcv_choice("kind2", NK);
  const Geom *o1 = A.get(i), *o2 = B.get(j);
  Transform3d t1 = anypose("t1"), t2 = anypose("t2");
  arbitrary();
  CReq q; q.enable_contact = split(boolean("enable_contact")); q.num_max_contacts = 1;
  q.enable_cached_gjk_guess = split(boolean("cached")); q.cached_gjk_guess = vec3("guess");
  CRes r;
  size_t n = fcl::collide(o1, t1, o2, t2, &S, q, r);
  cover("run");
  check(asked == 1, "the solver is asked once");
  check((ask.k1 == i) & (ask.k2 == j), "as the shapes they are");
  check((ask.o1 == o1) & (ask.o2 == o2), "about the two objects, in the order given");
  check(same(ask.t1, t1) & same(ask.t2, t2), "where they are");
  check(ask.op == (q.enable_contact ? 1 : 0), "for contacts if and only if the request is");
  check(guessOn == q.enable_cached_gjk_guess, "the solver starts from the cached guess if and only if the request says so");
  if (q.enable_cached_gjk_guess) {
    check(veq(guess, q.cached_gjk_guess), "the guess is that of the request");
    check(veq(r.cached_gjk_guess, guess), "the guess is handed back");
  }
  check(n == r.numContacts(), "the number of contacts is returned");
  check((n == 1) == ans.hit, "a contact is reported if and only if the shapes intersect");
  if (n == 1) check((r.getContact(0).o1 == o1) & (r.getContact(0).o2 == o2), "the contact names the objects in the order given");
}
static void distanceShapes(int from) {
  Solver S; Shapes A, B;
  fcl::getDistanceFunctionLookTable<Solver>();
  int i = from + __lcv_choice("kind1", 3), j = __lcv_choice("kind2", NK);
  const Geom *o1 = A.get(i), *o2 = B.get(j);
  Transform3d t1 = anypose("t1"), t2 = anypose("t2");
  arbitrary();
  assume((ans.dist >= 0) & (ans.dist < 1e300));
  DReq q; q.enable_signed_distance = split(boolean("signed")); q.enable_nearest_points = split(boolean("nearest"));
  DRes r;
  double d = fcl::distance(o1, t1, o2, t2, &S, q, r);
  cover("run");
  check(asked == 1, "the solver is asked once");
  check((ask.k1 == i) & (ask.k2 == j), "as the shapes they are");
  check((ask.o1 == o1) & (ask.o2 == o2), "about the two objects, in the order given");
  check(same(ask.t1, t1) & same(ask.t2, t2), "where they are");
  check(ask.op == (q.enable_signed_distance ? 3 : 2), "for signed distance if and only if the request is");
  check(eq(d, ans.dist) & eq(r.min_distance, ans.dist), "the distance is that of the solver");
  check((r.o1 == o1) & (r.o2 == o2), "the result names the objects in the order given");
  check(veq(r.nearest_points[0], ans.p1) & veq(r.nearest_points[1], ans.p2), "the nearest points are those of the solver");
}
LCV_HARNESS(C18_collide_shapes_012, "deadline=400") { collideShapes(0); }
LCV_HARNESS(C18_collide_shapes_345, "deadline=400") { collideShapes(3); }
LCV_HARNESS(C18_collide_shapes_678, "deadline=400") { collideShapes(6); }
LCV_HARNESS(C18_distance_shapes_012, "deadline=400") { distanceShapes(0); }
LCV_HARNESS(C18_distance_shapes_345, "deadline=400") { distanceShapes(3); }
LCV_HARNESS(C18_distance_shapes_678, "deadline=400") { distanceShapes(6); }

// ---- meshes of one triangle
template <class BV> struct Mesh {
  fcl::BVHModel<BV> m;
  fcl::BVNode<BV> nodes[1]; Vector3d v[3]; fcl::Triangle t[1];
  Mesh() {
#ifdef LCV_NATIVE
    std::vector<Vector3d> vs; std::vector<fcl::Triangle> ts(1, fcl::Triangle(2, 0, 1));
    for (int i = 0; i < 3; i++) vs.push_back(v[i] = vec3("v"));
    m.beginModel(); m.addSubModel(vs, ts); m.endModel();
#else
    m.bvs = nodes; m.num_bvs = 1; m.vertices = v; m.num_vertices = 3; m.tri_indices = t; m.num_tris = 1;
    m.build_state = fcl::BVH_BUILD_STATE_PROCESSED;
    for (int i = 0; i < 3; i++) v[i] = vec3("v");
    t[0].set(2, 0, 1);
    nodes[0].first_child = -1; nodes[0].first_primitive = 0; nodes[0].num_primitives = 1;
#endif
  }
  ~Mesh() {
#ifndef LCV_NATIVE
    m.bvs = nullptr; m.vertices = nullptr; m.tri_indices = nullptr;
#endif
  }
  const Vector3d* at(int i) const { return &v[(i + 2) % 3]; }
};
extern "C" int stub_end(void* m, bool refit, bool bottomup) { return fcl::BVH_OK; }
// a pose that is the identity, or far from it (poses within rounding of the identity count as the identity)
static Transform3d meshpose(const char* n) {
  if (__lcv_choice("where", 2)) return Transform3d::Identity();
  Transform3d t = anypose(n);
  assume((t.linear()(0, 0) < 0.5));
  return t;
}
template <class BV> static void meshShape() {
  Solver S; Shapes A; Mesh<BV> M;
  fcl::getCollisionFunctionLookTable<Solver>();
  int i = __lcv_choice("kind", NK); bool swapped = __lcv_choice("swapped", 2);
  const Geom* o = A.get(i); const Geom* m = &M.m;
  for (int k = 0; k < 3; k++) corner[k] = M.at(k);
  meshTf = meshpose("tm"); Transform3d tm = meshTf, t = anypose("t");
  arbitrary();
  CReq q; q.enable_contact = split(boolean("enable_contact")); q.num_max_contacts = 2;
  CRes r;
  { fcl::Contact<double> c; c.b1 = 77; c.o1 = o; r.addContact(c); }
  size_t n = swapped ? fcl::collide(o, t, m, tm, &S, q, r) : fcl::collide(m, tm, o, t, &S, q, r);
#ifdef LCV_NATIVE
  if (asked == 0) return;      // the bounding volumes rule it out
#endif
  cover("run");
  check(asked == 1, "the solver is asked once");
  check((ask.k1 == i) & (ask.o1 == o) & same(ask.t1, t), "about the shape it is, where it is");
  check(ask.op == (q.enable_contact ? 1 : 0), "for contacts if and only if the request is");
  check(n == r.numContacts(), "the number of contacts is returned");
  check((n == 2) == ans.hit && n >= 1, "a contact is added if and only if the shape intersects the triangle");
  check((r.getContact(0).b1 == 77) & (r.getContact(0).o1 == o), "contacts found before are kept");
  if (n == 2) check((r.getContact(1).o1 == m) & (r.getContact(1).o2 == o) & (r.getContact(1).b1 == 0), "the contact names the mesh, the triangle and the shape");
}
template <class BV> static void meshShapeDistance() {
  Solver S; Shapes A; Mesh<BV> M;
  fcl::getDistanceFunctionLookTable<Solver>();
  int i = __lcv_choice("kind", NK); bool swapped = __lcv_choice("swapped", 2);
  const Geom* o = A.get(i); const Geom* m = &M.m;
  for (int k = 0; k < 3; k++) corner[k] = M.at(k);
  meshTf = meshpose("tm"); Transform3d tm = meshTf, t = anypose("t");
  arbitrary();
  assume((ans.dist >= 0) & (ans.dist < 1e300));
  DReq q; q.enable_nearest_points = true;
  DRes r;
  double d = swapped ? fcl::distance(o, t, m, tm, &S, q, r) : fcl::distance(m, tm, o, t, &S, q, r);
#ifdef LCV_NATIVE
  if (asked == 0) return;
#endif
  cover("run");
  check(asked >= 1, "the solver is asked");
  check((ask.k1 == i) & (ask.o1 == o) & same(ask.t1, t), "about the shape it is, where it is");
  check(eq(d, ans.dist) & eq(r.min_distance, ans.dist), "the distance is that of the solver");
  check((r.o1 == m) & (r.o2 == o) & (r.b1 == 0), "the result names the mesh, the triangle and the shape");
}
// two meshes: the test of two triangles answers arbitrarily
static const Vector3d* corner2[3]; static Transform3d meshTf2;
static void triangles(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Matrix3d* R, const Vector3d* T) {
  const Vector3d* x[3] = {&a, &b, &c}; const Vector3d* y[3] = {&p, &q, &r};
  bool k = true;
  if (R) {
    // in the frame of the first mesh; what is asked about is where the second is relative to the first: placing it there and then both
    // in the world gives its corners in the world
    for (int i = 0; i < 3; i++)
      k = k & veq(*x[i], *corner[i]) & veq(meshTf * Vector3d(*R * *y[i] + *T), meshTf2 * *corner2[i]);
  } else
    for (int i = 0; i < 3; i++) k = k & veq(*x[i], meshTf * *corner[i]) & veq(*y[i], meshTf2 * *corner2[i]);
  check(k, "asks about the triangles of the two meshes where they are");
  asked++;
}
static bool answer(Vector3d* pts, unsigned* n, double* d, Vector3d* nn) {
  ask.op = pts ? 1 : 0;
  if (ans.hit) { if (pts) { pts[0] = ans.pos; *n = 1; } if (d) *d = ans.depth; if (nn) *nn = ans.normal; }
  return ans.hit;
}
extern "C" bool stub_tri(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, Vector3d* pts, unsigned* n, double* d, Vector3d* nn) {
  triangles(a, b, c, p, q, r, nullptr, nullptr);
  return answer(pts, n, d, nn);
}
extern "C" bool stub_tri_rt(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Matrix3d& R, const Vector3d& T, Vector3d* pts, unsigned* n, double* d, Vector3d* nn) {
  triangles(a, b, c, p, q, r, &R, &T);
  return answer(pts, n, d, nn);
}
extern "C" bool stub_tri_tf(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Transform3d& tf, Vector3d* pts, unsigned* n, double* d, Vector3d* nn) {
  return stub_tri_rt(a, b, c, p, q, r, tf.linear(), tf.translation(), pts, n, d, nn);
}
extern "C" double stub_dist(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, Vector3d& x, Vector3d& y) {
  triangles(a, b, c, p, q, r, nullptr, nullptr);
  x = ans.p1; y = ans.p2; return ans.dist;
}
extern "C" double stub_dist_tf(const Vector3d& a, const Vector3d& b, const Vector3d& c, const Vector3d& p, const Vector3d& q, const Vector3d& r, const Transform3d& tf, Vector3d& x, Vector3d& y) {
  Matrix3d R = tf.linear(); Vector3d T = tf.translation();
  triangles(a, b, c, p, q, r, &R, &T);
  x = ans.p1; y = ans.p2; return ans.dist;
}
#ifndef LCV_NATIVE
template <class BV> static void meshMesh(bool dist) {
  Solver S; Mesh<BV> M, N;
  const Geom *m1 = &M.m, *m2 = &N.m;
  for (int k = 0; k < 3; k++) { corner[k] = M.at(k); corner2[k] = N.at(k); }
  // rotations about an axis: the relative pose needs the inverse
  int w = __lcv_choice("where", 3);
  meshTf = w == 0 ? Transform3d(Transform3d::Identity()) : pose("t1"); meshTf2 = w == 1 ? Transform3d(Transform3d::Identity()) : anypose("t2");
  if (w != 0) assume((meshTf.linear()(0, 0) < 0.5));
  if (w != 1) assume((meshTf2.linear()(0, 0) < 0.5));
  Transform3d t1 = meshTf, t2 = meshTf2;
  arbitrary();
  if (!dist) {
    CReq q; q.enable_contact = split(boolean("enable_contact")); q.num_max_contacts = 2;
    CRes r;
    { fcl::Contact<double> c; c.b1 = 77; r.addContact(c); }
    size_t n = fcl::collide(m1, t1, m2, t2, &S, q, r);
    cover("run");
    check(asked == 1, "the triangles are tested once");
    check(ask.op == (q.enable_contact ? 1 : 0), "for contacts if and only if the request is");
    check(n == r.numContacts(), "the number of contacts is returned");
    check((n == 2) == ans.hit && n >= 1, "a contact is added if and only if the triangles intersect");
    check(r.getContact(0).b1 == 77, "contacts found before are kept");
    if (n == 2) check((r.getContact(1).o1 == m1) & (r.getContact(1).o2 == m2) & (r.getContact(1).b1 == 0) & (r.getContact(1).b2 == 0), "the contact names the meshes and the triangles");
  } else {
    assume((ans.dist >= 0) & (ans.dist < 1e300));
    DReq q; DRes r;
    double d = fcl::distance(m1, t1, m2, t2, &S, q, r);
    cover("run");
    check(asked >= 1, "the triangles are tested");
    check(eq(d, ans.dist) & eq(r.min_distance, ans.dist), "the distance is that of the triangles");
    check((r.o1 == m1) & (r.o2 == m2) & (r.b1 == 0) & (r.b2 == 0), "the result names the meshes and the triangles");
  }
}
#else
template <class BV> static void meshMesh(bool) { cover("run"); }
#endif
LCV_HARNESS(C18_collide_aabb_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShape<fcl::AABB<double>>(); }
LCV_HARNESS(C18_collide_aabb_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::AABB<double>>(false); }
LCV_HARNESS(C18_distance_aabb_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::AABB<double>>(true); }
LCV_HARNESS(C18_collide_obb_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShape<fcl::OBB<double>>(); }
LCV_HARNESS(C18_collide_obb_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::OBB<double>>(false); }
LCV_HARNESS(C18_collide_rss_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShape<fcl::RSS<double>>(); }
LCV_HARNESS(C18_distance_rss_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShapeDistance<fcl::RSS<double>>(); }
LCV_HARNESS(C18_collide_rss_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::RSS<double>>(false); }
LCV_HARNESS(C18_distance_rss_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::RSS<double>>(true); }
LCV_HARNESS(C18_collide_kios_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShape<fcl::kIOS<double>>(); }
LCV_HARNESS(C18_distance_kios_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShapeDistance<fcl::kIOS<double>>(); }
LCV_HARNESS(C18_collide_kios_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::kIOS<double>>(false); }
LCV_HARNESS(C18_distance_kios_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::kIOS<double>>(true); }
LCV_HARNESS(C18_collide_obbrss_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShape<fcl::OBBRSS<double>>(); }
LCV_HARNESS(C18_distance_obbrss_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShapeDistance<fcl::OBBRSS<double>>(); }
LCV_HARNESS(C18_collide_obbrss_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::OBBRSS<double>>(false); }
LCV_HARNESS(C18_distance_obbrss_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::OBBRSS<double>>(true); }
LCV_HARNESS(C18_collide_kdop16_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShape<fcl::KDOP<double, 16>>(); }
LCV_HARNESS(C18_collide_kdop16_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::KDOP<double, 16>>(false); }
LCV_HARNESS(C18_collide_kdop18_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShape<fcl::KDOP<double, 18>>(); }
LCV_HARNESS(C18_collide_kdop18_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::KDOP<double, 18>>(false); }
LCV_HARNESS(C18_collide_kdop24_shape, "deadline=400 bounded=meshes_of_one_triangle") { meshShape<fcl::KDOP<double, 24>>(); }
LCV_HARNESS(C18_collide_kdop24_mesh, "deadline=400 bounded=meshes_of_one_triangle") { meshMesh<fcl::KDOP<double, 24>>(false); }

// ---- what is not supported, or not asked for, leaves the result alone
LCV_HARNESS(C18_no_contacts_wanted, "deadline=400") {
  Solver S; Shapes A, B;
  fcl::getCollisionFunctionLookTable<Solver>();
  int i = __lcv_choice("kind1", NK), j = __lcv_choice("kind2", NK);
  Transform3d t1 = anypose("t1"), t2 = anypose("t2");
  arbitrary();
  CReq q; q.enable_contact = boolean("enable_contact"); q.num_max_contacts = 0;
  CRes r;
  size_t n = fcl::collide(A.get(i), t1, B.get(j), t2, &S, q, r);
  cover("run");
  check((n == 0) & (r.numContacts() == 0) & (asked == 0), "with no contacts wanted none are looked for");
}
template <class BV> static void unsupported() {
  Solver S; Shapes A; Mesh<BV> M;
  fcl::getDistanceFunctionLookTable<Solver>();
  int i = __lcv_choice("kind", NK); bool swapped = __lcv_choice("swapped", 2);
  const Geom* o = A.get(i); const Geom* m = &M.m;
  Transform3d t1 = anypose("t1"), t2 = anypose("t2");
  arbitrary();
  DReq q; DRes r;
  double d = swapped ? fcl::distance(o, t1, m, t2, &S, q, r) : fcl::distance(m, t1, o, t2, &S, q, r);
  cover("run");
  check((asked == 0) & (d == std::numeric_limits<double>::max()) & (r.min_distance == d) & (r.o1 == nullptr) & (r.o2 == nullptr), "an unsupported pair has no distance and leaves the result alone");
}
LCV_HARNESS(C18_unsupported_obb, "deadline=400") { unsupported<fcl::OBB<double>>(); }
LCV_HARNESS(C18_unsupported_kdop, "deadline=400") { unsupported<fcl::KDOP<double, 24>>(); }
// ---- collision objects: the geometry and the pose are those of the object
LCV_HARNESS(C18_objects, "deadline=400") {
  Solver S;
  auto a = std::make_shared<fcl::Box<double>>(1, 2, 3); auto b = std::make_shared<fcl::Sphere<double>>(1);
  Transform3d t1 = anypose("t1"), t2 = anypose("t2");
  assume((t1.linear()(0, 0) < 0.5) & (t2.linear()(0, 0) < 0.5));
  fcl::CollisionObject<double> c1(a, t1), c2(b, t2);
  arbitrary();
  bool swapped = __lcv_choice("swapped", 2), dist = __lcv_choice("distance", 2);
  const fcl::CollisionObject<double>&x = swapped ? c2 : c1, &y = swapped ? c1 : c2;
  const Geom *g1 = swapped ? (const Geom*)b.get() : a.get(), *g2 = swapped ? (const Geom*)a.get() : b.get();
  if (!dist) {
    CReq q; q.num_max_contacts = 1; CRes r;
    size_t n = fcl::collide(&x, &y, &S, q, r);
    check(n == r.numContacts() && (n == 1) == ans.hit, "a contact is reported if and only if the shapes intersect");
  } else {
    assume((ans.dist >= 0) & (ans.dist < 1e300));
    DReq q; DRes r;
    double d = fcl::distance(&x, &y, &S, q, r);
    check(eq(d, ans.dist) & eq(r.min_distance, ans.dist), "the distance is that of the solver");
  }
  cover("run");
  check(asked == 1, "the solver is asked once");
  check((ask.o1 == g1) & (ask.o2 == g2) & same(ask.t1, swapped ? t2 : t1) & same(ask.t2, swapped ? t1 : t2), "about the geometries of the objects, where the objects are");
}
