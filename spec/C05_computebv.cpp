// LCV-REPLACE: transformIdEENS_9HalfspaceI => stub_hs
// LCV-REPLACE: transformIdEENS_5PlaneI => stub_pl
// LCV-REPLACE: generateCoordinateSystem => stub_frame
// computeBV / computeLocalAABB contain the shape (geometry/shape/utility-inl.h, geometry/shape/*-inl.h)
#include "shapes.h"
#include "kdop_spec.h"
#include "fcl/math/bv/utility.h"
using namespace lcv;
typedef fcl::AABB<double> AB;
typedef fcl::OBB<double> OB;

static bool in_aabb(const AB& b, const Vector3d& p) {
  bool r = true;
  for (int i = 0; i < 3; i++) r = r & le(b.min_[i], p[i]) & le(p[i], b.max_[i]);
  return r;
}
// proof hints: the bounds on u.p for a unit direction u and the point p of the shape
static void hint(const BoxS& s, const Vector3d& p, const Vector3d& u) { for (int j = 0; j < 3; j++) absmul2(p[j], 0.5, s.side[j], u[j]); }
static void hint(const SphereS& s, const Vector3d& p, const Vector3d& u) { cauchy(u, p, s.radius); }
static void hint(const EllipsoidS& s, const Vector3d& p, const Vector3d& u) { for (int j = 0; j < 3; j++) absmul2(p[j], 1, s.radii[j], u[j]); }
static void hint(const CapsuleS& s, const Vector3d& p, const Vector3d& u) {
  cauchy(u, gball, s.radius);
  absmul2(p[2] - gball[2], 0.5, s.lz, u[2]);
}
static void hint(const CylinderS& s, const Vector3d& p, const Vector3d& u) {
  absmul2(p[0], 1, s.radius, u[0]); absmul2(p[1], 1, s.radius, u[1]); absmul2(p[2], 0.5, s.lz, u[2]);
}
static void hint(const ConeS& s, const Vector3d& p, const Vector3d& u) {
  absmul2(p[0], 1, s.radius, u[0]); absmul2(p[1], 1, s.radius, u[1]); absmul2(p[2], 0.5, s.lz, u[2]);
}
static void hint(const TriangleS&, const Vector3d&, const Vector3d&) {}
template <class Sh> static void aabb_() {
  Sh s = shape<Sh>("s");
  Transform3d X = pose("X");
  Vector3d p = pt(s, "p");
  AB b;
  fcl::computeBV(s, X, b);
  cover("run");
  for (int i = 0; i < 3; i++) hint(s, p, Vector3d(X.linear().row(i).transpose()));
  Vector3d q = X.linear() * p + X.translation();
  for (int i = 0; i < 3; i++) check(le(b.min_[i], q[i]) & le(q[i], b.max_[i]), "the box contains the placed shape");
}
template <class Sh> static void obb_() {
  Sh s = shape<Sh>("s");
  Transform3d X = pose("X");
  Vector3d p = pt(s, "p");
  OB b;
  fcl::computeBV(s, X, b);
  cover("run");
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) check(eq(b.axis.col(i).dot(b.axis.col(j)), i == j ? 1.0 : 0.0), "orthonormal axes");
  Vector3d q = X.linear() * p + X.translation() - b.To;
  for (int i = 0; i < 3; i++) hint(s, p, Vector3d(X.linear().transpose() * b.axis.col(i)));
  for (int i = 0; i < 3; i++) check(le(q.dot(b.axis.col(i)), b.extent[i]) & le(-b.extent[i], q.dot(b.axis.col(i))), "the oriented box contains the placed shape");
}
template <class Sh> static void local_() {
  Sh s = shape<Sh>("s");
  Vector3d p = pt(s, "p");
  s.computeLocalAABB();
  cover("run");
  check(in_aabb(s.aabb_local, p), "the local box contains the shape");
  check(veq(s.aabb_center * 2, s.aabb_local.min_ + s.aabb_local.max_), "centre");
  for (int i = 0; i < 3; i++) {
    double a = p[i], lo = s.aabb_local.min_[i], hi = s.aabb_local.max_[i], c = s.aabb_center[i];
    step((lo <= a) & (a <= hi) & (2 * c == lo + hi), (a - c) * (a - c) <= (lo - c) * (lo - c), "per axis");
  }
  check(ge(s.aabb_radius, 0) & le(norm2(p - s.aabb_center), s.aabb_radius * s.aabb_radius), "the local sphere contains the shape");
}
LCV_HARNESS(C05_aabb_box, "") { aabb_<BoxS>(); }
LCV_HARNESS(C05_aabb_sphere, "") { aabb_<SphereS>(); }
LCV_HARNESS(C05_aabb_ellipsoid, "") { aabb_<EllipsoidS>(); }
LCV_HARNESS(C05_aabb_capsule, "") { aabb_<CapsuleS>(); }
LCV_HARNESS(C05_aabb_cone, "") { aabb_<ConeS>(); }
LCV_HARNESS(C05_aabb_cylinder, "") { aabb_<CylinderS>(); }
LCV_HARNESS(C05_aabb_triangle, "") { aabb_<TriangleS>(); }
LCV_HARNESS(C05_obb_box, "") { obb_<BoxS>(); }
LCV_HARNESS(C05_obb_sphere, "") { obb_<SphereS>(); }
LCV_HARNESS(C05_obb_ellipsoid, "") { obb_<EllipsoidS>(); }
LCV_HARNESS(C05_obb_capsule, "") { obb_<CapsuleS>(); }
LCV_HARNESS(C05_obb_cone, "") { obb_<ConeS>(); }
LCV_HARNESS(C05_obb_cylinder, "") { obb_<CylinderS>(); }
LCV_HARNESS(C05_local_box, "") { local_<BoxS>(); }
LCV_HARNESS(C05_local_sphere, "") { local_<SphereS>(); }
LCV_HARNESS(C05_local_ellipsoid, "") { local_<EllipsoidS>(); }
LCV_HARNESS(C05_local_capsule, "") { local_<CapsuleS>(); }
LCV_HARNESS(C05_local_cone, "") { local_<ConeS>(); }
LCV_HARNESS(C05_local_cylinder, "") { local_<CylinderS>(); }
LCV_HARNESS(C05_local_triangle, "") { local_<TriangleS>(); }
// ---- unbounded shapes: the bound holds for every point of the placed half-space/plane with finite coordinates (< 1e300)
template <class Sh> static void uninit(Sh& s) {
#ifdef LCV_NATIVE
  s.n = special_unit("n");
#endif
}
// transform(half-space or plane, pose) is used through its contract (proved by C05_transform_*): the result has a unit normal and is
// exactly the image of the set. The stub returns that image as an arbitrary one, the same at every call with the same arguments.
static Vector3d gn, gX[4], gsn;
static double gd, gsd;
static bool gset = false;
template <class Sh> static void placed(const Sh& a, const Transform3d& tf, Sh& r) {
  if (!gset) {
    gset = true;
    gsn = a.n; gsd = a.d;
    for (int i = 0; i < 3; i++) gX[i] = tf.linear().col(i);
    gX[3] = tf.translation();
    gn = unit3("placed normal");
    gd = real("placed offset");
  }
  check(veq(gsn, a.n) & eq(gsd, a.d) & veq(gX[0], tf.linear().col(0)) & veq(gX[1], tf.linear().col(1)) & veq(gX[2], tf.linear().col(2)) & veq(gX[3], tf.translation()),
        "the shape is placed with its pose");
  check(eq(norm2(a.n), 1), "transform requires a unit normal");
  r.n = gn; r.d = gd;
}
extern "C" __attribute__((noinline, used)) HalfspaceS stub_hs(const HalfspaceS& a, const Transform3d& tf) { HalfspaceS r; placed(a, tf, r); return r; }
extern "C" __attribute__((noinline, used)) PlaneS stub_pl(const PlaneS& a, const Transform3d& tf) { PlaneS r; placed(a, tf, r); return r; }
template <class Sh> static void transform_() {
  Sh s = shape<Sh>("s");
  Transform3d X = pose("X");
  Vector3d p = vec3("p");
  Sh r = fcl::transform(s, X);
  cover("run");
  Vector3d m = X.linear() * s.n;
  lemma(eq(norm2(m), 1), "the rotated normal is a unit vector");
  check(veq(r.n, m), "the normal is rotated");
  check(eq(r.d, s.d + dot(m, X.translation())), "the offset moves along");
  Vector3d q = X.linear() * p + X.translation();
  check(eq(dot(m, q) - (s.d + dot(m, X.translation())), dot(s.n, p) - s.d), "signed distances are kept");
}
LCV_HARNESS(C05_transform_halfspace, "real=stub_hs") { transform_<HalfspaceS>(); }
LCV_HARNESS(C05_transform_plane, "real=stub_pl") { transform_<PlaneS>(); }
template <class Sh> static Vector3d placed_pt(const Sh& s, const Transform3d& X, Vector3d& q) {
  Sh r = fcl::transform(s, X);
  q = pt(r, "q");
  assume(finite3(q));
  return r.n;
}
static Transform3d spose() {
  Matrix3d R = rot3("X");
#ifdef LCV_NATIVE
  if (boolean("id")) R = Matrix3d::Identity();
#endif
  return pose(R, vec3("X"));
}
template <class Sh> static void unbounded_aabb() {
  Sh s = shape<Sh>("s");
  uninit(s);
  Transform3d X = spose();
  Vector3d q;
  placed_pt(s, X, q);
  AB b;
  fcl::computeBV(s, X, b);
  cover("run");
  check(in_aabb(b, q), "the box contains the placed shape");
}
template <class Sh> static void unbounded_local() {
  Sh s = shape<Sh>("s");
  uninit(s);
  Vector3d q = pt(s, "p");
  assume(finite3(q));
  s.computeLocalAABB();
  cover("run");
  check(in_aabb(s.aabb_local, q), "the local box contains the shape");
}
template <class Sh, int N> static void unbounded_kdop() {
  Sh s = shape<Sh>("s");
  uninit(s);
  Transform3d X = spose();
  Vector3d q;
  placed_pt(s, X, q);
  fcl::KDOP<double, N> b;
  fcl::computeBV(s, X, b);
  cover("run");
  for (int i = 0; i < N / 2; i++) check(le(b.dist(i), slab<N>(i, q)) & le(slab<N>(i, q), b.dist(i + N / 2)), "the polytope contains the placed shape");
}
// generateCoordinateSystem(u), u unit: orthonormal axes, the first one u (proved by C05_frame)
extern "C" __attribute__((noinline, used)) Matrix3d stub_frame(const Vector3d& u) {
  check(eq(norm2(u), 1), "the frame is built on a unit vector");
  Matrix3d R = rot3("frame");
  assume(veq(R.col(0), u));
  return R;
}
LCV_HARNESS(C05_frame, "real=stub_frame") {
  Vector3d u = unit3("u");
#ifdef LCV_NATIVE
  if (boolean("special")) u = special_unit("u2");
#endif
  Matrix3d R = fcl::generateCoordinateSystem(u);
  cover("run");
  check(veq(R.col(0), u), "first axis");
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) check(eq(R.col(i).dot(R.col(j)), i == j ? 1.0 : 0.0), "orthonormal");
  check(veq(R.col(2), R.col(0).cross(R.col(1))), "right-handed");
}
LCV_HARNESS(C05_obb_plane, "") {
  PlaneS s = shape<PlaneS>("s");
  Transform3d X = spose();
  Vector3d p = pt(s, "p");
  Vector3d m = X.linear() * s.n;
  lemma(eq(norm2(m), 1), "the rotated normal is a unit vector");
  Vector3d q = X.linear() * p + X.translation();
  lemma(eq(dot(m, q), s.d + dot(m, X.translation())), "placed equation");
  OB b;
  fcl::computeBV(s, X, b);
  cover("run");
  Vector3d w = q - b.To;
  assume(finite3(w));
  lemma(eq(dot(m, b.To), s.d + dot(m, X.translation())), "the centre is on the plane");
  check(eq(w.dot(b.axis.col(0)), 0) & le(0, b.extent[0]), "the oriented box contains the placed plane along the normal");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double c = b.axis(j, i); lemma(le(c, 1) & le(-1, c), "unit columns"); absmul(w[j], 1e300, c); }
  for (int i = 1; i < 3; i++) check(le(std::fabs(w.dot(b.axis.col(i))), b.extent[i]), "the oriented box contains the placed plane across");
}
LCV_HARNESS(C05_obb_halfspace, "") {
  HalfspaceS s = shape<HalfspaceS>("s");
  Transform3d X = spose();
  Vector3d q = vec3("q");
  assume(finite3(q));
  OB b;
  fcl::computeBV(s, X, b);
  cover("run");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) check(b.axis(i, j) == (i == j ? 1.0 : 0.0), "axes");
  for (int i = 0; i < 3; i++) check((std::fabs(b.To[i]) <= 1e300) & (b.extent[i] >= 1e300) & le(std::fabs(q[i]), b.extent[i] + std::fabs(b.To[i])), "the oriented box contains the placed shape");
}
LCV_HARNESS(C05_aabb_halfspace, "") { unbounded_aabb<HalfspaceS>(); }
LCV_HARNESS(C05_aabb_plane, "") { unbounded_aabb<PlaneS>(); }
LCV_HARNESS(C05_local_halfspace, "") { unbounded_local<HalfspaceS>(); }
LCV_HARNESS(C05_local_plane, "") { unbounded_local<PlaneS>(); }
LCV_HARNESS(C05_kdop16_halfspace, "") { unbounded_kdop<HalfspaceS, 16>(); }
LCV_HARNESS(C05_kdop18_halfspace, "") { unbounded_kdop<HalfspaceS, 18>(); }
LCV_HARNESS(C05_kdop24_halfspace, "") { unbounded_kdop<HalfspaceS, 24>(); }
LCV_HARNESS(C05_kdop16_plane, "") { unbounded_kdop<PlaneS, 16>(); }
LCV_HARNESS(C05_kdop18_plane, "") { unbounded_kdop<PlaneS, 18>(); }
LCV_HARNESS(C05_kdop24_plane, "") { unbounded_kdop<PlaneS, 24>(); }
