// Support functions: what GJK and EPA (own implementation and libccd) know about a shape.
// libccd's rotation of a vector by a quaternion (ccdQuatRotVec, a dependency) is used through its contract in the support
// functions; C07_ccd_pose proves that the quaternions stored for a pose rotate as the pose does.
// LCV-REPLACE: ccdQuatRotVec => stub_rot
// LCV-REPLACE: shapeToGJK => stub_pose
#include "reach.h"
#include "fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h"
#include "fcl/narrowphase/detail/convexity_based_algorithm/minkowski_diff-inl.h"
using namespace lcv;
namespace fd = fcl::detail;
using fd::ccd_obj_t;

// reach in a direction of any length
static double far(const SphereS& s, const Vector3d& d, double len) { return s.radius * len; }
static double far(const CapsuleS& s, const Vector3d& d, double len) { return std::fabs(d[2]) * (s.lz / 2) + s.radius * len; }
template <class Sh> static double far(const Sh& s, const Vector3d& d, double) { return reach(s, d); }
// v.d <= r |d| for |v| <= r
static void ball(const Vector3d& v, const Vector3d& d, double r, double len) {
#ifndef LCV_NATIVE
  double t = dot(v, d), w = norm2(v.cross(d));
  step(true, t * t + w == norm2(v) * norm2(d), "Lagrange");
  step(true, w >= 0, "square");
  double T = __lcv_abs_cut(t), Wd = __lcv_abs_cut(w), V = __lcv_abs_cut(norm2(v)), D = __lcv_abs_cut(norm2(d));
  lemma((T * T + Wd == V * D) & (Wd >= 0) & (V <= r * r) & (D == len * len) & (len >= 0), "names");
  step((V <= r * r) & (D == len * len) & (r >= 0) & (len >= 0), V * D <= r * len * (r * len), "product");
  step((T * T + Wd == V * D) & (Wd >= 0) & (V * D <= r * len * (r * len)) & (r >= 0) & (len >= 0), T <= r * len, "Cauchy-Schwarz");
#endif
}
LCV_HARNESS(C07_reach_sphere, "") {
  SphereS s = shape<SphereS>("s");
  Vector3d d = vec3("d"), p = pt(s, "p");
  double len = std::sqrt(norm2(d));
  ball(p, d, s.radius, len);
  cover("run");
  check(le(dot(d, p), far(s, d, len)), "no point reaches further");
}
LCV_HARNESS(C07_reach_capsule, "") {
  CapsuleS s = shape<CapsuleS>("s");
  Vector3d d = vec3("d"), p = pt(s, "p");
  double len = std::sqrt(norm2(d));
  ball(gball, d, s.radius, len);
  absmul2(p[2] - gball[2], 0.5, s.lz, d[2]);
  cover("run");
  check(le(dot(d, p), far(s, d, len)), "no point reaches further");
}
LCV_HARNESS(C07_reach_box, "") {
  BoxS s = shape<BoxS>("s");
  Vector3d d = vec3("d"), p = pt(s, "p");
  for (int j = 0; j < 3; j++) absmul2(p[j], 0.5, s.side[j], d[j]);
  cover("run");
  check(le(dot(d, p), reach(s, d)), "no point reaches further");
}
LCV_HARNESS(C07_reach_cylinder, "") {
  CylinderS s = shape<CylinderS>("s");
  Vector3d d = vec3("d"), p = pt(s, "p");
  flat(p[0], p[1], d[0], d[1], s.radius); absmul2(p[2], 0.5, s.lz, d[2]);
  cover("run");
  check(le(dot(d, p), reach(s, d)), "no point reaches further");
}
LCV_HARNESS(C07_reach_triangle, "") {
  TriangleS s = shape<TriangleS>("s");
  Vector3d d = vec3("d"), p = pt(s, "p");
  cover("run");
  check(le(dot(d, p), reach(s, d)), "no point reaches further");
}
LCV_HARNESS(C07_reach_ellipsoid, "") {
  EllipsoidS s = shape<EllipsoidS>("s");
  Vector3d d = vec3("d"), u = inball3(1, "u"), p = s.radii.cwiseProduct(u), q = s.radii.cwiseProduct(d);
  cover("run");
  ball(u, q, 1, reach(s, d));
#ifndef LCV_NATIVE
  lemma(dot(d, p) == dot(u, q), "scaled");
#endif
  check(le(dot(d, p), reach(s, d)), "no point reaches further");
}
LCV_HARNESS(C07_reach_cone, "") {
  ConeS s = shape<ConeS>("s");
  Vector3d m = vec3("d");
  double t = unit01("p");
  Vector3d b = indisk(s.radius, "p"), p = Vector3d(0, 0, s.lz / 2 - t * s.lz) + b * t;
  flat(b[0], b[1], m[0], m[1], s.radius);
  cover("run");
#ifndef LCV_NATIVE
  double A = __lcv_abs_cut(m[2] * (s.lz / 2)), B = __lcv_abs_cut(-m[2] * (s.lz / 2) + s.radius * rim(m)), M = reach(s, m), v = __lcv_abs_cut(b[0] * m[0] + b[1] * m[1]), w = __lcv_abs_cut(s.radius * rim(m));
  lemma((A <= M) & (B <= M) & (v <= w) & (B == w - A), "names");
  step((A <= M) & (B <= M) & (v <= w) & (B == w - A) & (t >= 0) & (t <= 1), A * (1 - t) + (v - A) * t <= M, "between tip and base");
  lemma(dot(m, p) == A * (1 - t) + (v - A) * t, "the point");
#endif
  check(le(dot(m, p), reach(s, m)), "no point reaches further");
}

// ---- the support functions return a point of the shape that reaches as far
template <class Sh> static Sh solid(const char* n) { return shape<Sh>(n); }
template <> SphereS solid<SphereS>(const char* n) { return SphereS(positive(n)); }
template <> EllipsoidS solid<EllipsoidS>(const char* n) { return EllipsoidS(positive(n), positive(n), positive(n)); }
template <> ConeS solid<ConeS>(const char* n) { return ConeS(positive(n), positive(n)); }
static Vector3d direction(bool unit) {
#ifdef LCV_NATIVE
  Vector3d d = boolean("special") ? special_unit("d") : unit3("d");
  if (!unit) d *= 0.1 + positive("len");
  return d;
#else
  if (unit) return unit3("d");
  Vector3d d = vec3("d");
  assume(norm2(d) > 0);
  return d;
#endif
}
template <class Sh> static void furthest(const Sh& s, const Vector3d& d, const Vector3d& v, double len) {
  check(in(s, v), "a point of the shape");
  check(eq(dot(d, v), far(s, d, len)), "that reaches as far as any in the direction");
}
static void furthest(const TriangleS& s, const Vector3d& d, const Vector3d& v, double) {
  check(veq(v, s.a) | veq(v, s.b) | veq(v, s.c), "a point of the shape");
  check(eq(dot(d, v), reach(s, d)), "that reaches as far as any in the direction");
}
template <class Sh> static void support(bool unit) {
  Sh s = solid<Sh>("s");
  Vector3d d = direction(unit);
  Vector3d v = fd::getSupport<double>(&s, d);
  cover("run");
  furthest(s, d, v, unit ? 1 : std::sqrt(norm2(d)));
}
LCV_HARNESS(C07_support_box, "") { support<BoxS>(false); }
LCV_HARNESS(C07_support_sphere, "") { support<SphereS>(true); }
LCV_HARNESS(C07_support_ellipsoid, "") { support<EllipsoidS>(false); }
LCV_HARNESS(C07_support_capsule, "") { support<CapsuleS>(true); }
LCV_HARNESS(C07_support_cone, "") { support<ConeS>(false); }
LCV_HARNESS(C07_support_cylinder, "") { support<CylinderS>(false); }
LCV_HARNESS(C07_support_triangle, "") { support<TriangleS>(false); }

// Minkowski difference: a point that reaches furthest among all differences
LCV_HARNESS(C07_minkowski, "") {
  BoxS a = shape<BoxS>("a"); TriangleS b = shape<TriangleS>("b");
  Matrix3d R = rot3("R"); Vector3d t = vec3("t");
  fd::MinkowskiDiff<double> M;
  M.shapes[0] = &a; M.shapes[1] = &b;
  M.toshape0 = pose(R, t); M.toshape1 = R.transpose();
  Vector3d d = vec3("d"), w = M.support(d), w0 = M.support(d, 0), w1 = M.support(-d, 1), x = pt(a, "x");
  int k = __lcv_choice("vertex", 3);
  Vector3d y = R * (k == 0 ? b.a : k == 1 ? b.b : b.c) + t;
  for (int j = 0; j < 3; j++) absmul2(x[j], 0.5, a.side[j], d[j]);
  cover("run");
  check(in(a, w0), "a point of the first shape");
  check(le(dot(d, x), dot(d, w0)), "that reaches furthest");
  check(veq(w1, R * b.a + t) | veq(w1, R * b.b + t) | veq(w1, R * b.c + t), "a point of the second shape");
  check(le(dot(d, w1), dot(d, y)), "that reaches furthest the other way");
  check(veq(w, w0 - w1), "their difference");
}

// ---- libccd
static ccd_obj_t* gobj;
static Vector3d gD, gd, gloc, gw;      // direction, the same in the shape's frame, local result, the same rotated
static Transform3d gpose;
static int gcalls;
extern "C" __attribute__((noinline, used)) void stub_rot(ccd_vec3_t* v, const ccd_quat_t* q) {
  if (q == &gobj->rot_inv) {
    check(veq(Vector3d(v->v[0], v->v[1], v->v[2]), gD) & (gcalls == 0), "the direction is taken to the shape's frame");
    for (int i = 0; i < 3; i++) v->v[i] = gd[i];
  } else {
    check((q == &gobj->rot) & (gcalls == 1), "the result is taken back from the shape's frame");
    for (int i = 0; i < 3; i++) { gloc[i] = v->v[i]; v->v[i] = gw[i]; }
  }
  gcalls++;
}
extern "C" __attribute__((noinline, used)) void stub_pose(const fcl::ShapeBased& s, const Transform3d& tf, ccd_obj_t* o) {
  check(veq(tf.translation(), gpose.translation()) & veq(tf.linear().col(0), gpose.linear().col(0)) & veq(tf.linear().col(1), gpose.linear().col(1)) & veq(tf.linear().col(2), gpose.linear().col(2)), "placed at its pose");
  for (int i = 0; i < 3; i++) o->pos.v[i] = tf.translation()[i];
  for (int i = 0; i < 4; i++) { o->rot.q[i] = real("q"); o->rot_inv.q[i] = real("q"); }
  gobj = o;
}
static void away(double x) {
#ifdef LCV_NATIVE
  assume((x == 0) | (std::fabs(x) > 1e-6));
#else
  assume((x == 0) | (x >= 1e-15) | (x <= -1e-15));
#endif
}
template <class Sh> static void axial(const Sh&, const Vector3d& d) {}
static void axial(const CylinderS&, const Vector3d& d) { away(rim(d)); away(d[2]); }
static void axial(const CapsuleS&, const Vector3d& d) { away(std::sqrt(norm2(d))); }
static void ccd_support(void* o, fd::GJKSupportFunction f, Vector3d& l, Vector3d& d, bool unit) {
  ccd_vec3_t D, v;
#ifdef LCV_NATIVE
  d = direction(unit);
  gD = gpose.linear() * d;
  for (int i = 0; i < 3; i++) D.v[i] = gD[i];
  f(o, &D, &v);
  l = gpose.inverse(Eigen::Isometry) * Vector3d(v.v[0], v.v[1], v.v[2]);
#else
  gd = d = direction(unit); gD = vec3("D"); gw = vec3("w"); gcalls = 0;
  for (int i = 0; i < 3; i++) { D.v[i] = gD[i]; v.v[i] = real("junk"); }
  f(o, &D, &v);
  l = gloc;
  check(gcalls == 2, "to the shape's frame and back");
  check(veq(Vector3d(v.v[0], v.v[1], v.v[2]), gw + gpose.translation()), "at the shape's position");
#endif
}
template <class Sh> static void ccd() {
  Sh s = solid<Sh>("s");
  gpose = pose("X");
  typedef fd::GJKInitializer<double, Sh> G;
  void* o = G::createGJKObject(s, gpose);
  gobj = (ccd_obj_t*)o;
  Vector3d l, d;
  ccd_support(o, G::getSupportFunction(), l, d, false);
  axial(s, d);
  cover("run");
  furthest(s, d, l, std::sqrt(norm2(d)));
  ccd_vec3_t c;
  G::getCenterFunction()(o, &c);
  check(eq(c.v[0], gpose.translation()[0]) & eq(c.v[1], gpose.translation()[1]) & eq(c.v[2], gpose.translation()[2]), "centre at the shape's position");
  G::deleteGJKObject(o);
}
LCV_HARNESS(C07_ccd_box, "") { ccd<BoxS>(); }
LCV_HARNESS(C07_ccd_sphere, "") { ccd<SphereS>(); }
LCV_HARNESS(C07_ccd_ellipsoid, "") { ccd<EllipsoidS>(); }
LCV_HARNESS(C07_ccd_capsule, "") { ccd<CapsuleS>(); }
LCV_HARNESS(C07_ccd_cone, "") { ccd<ConeS>(); }
LCV_HARNESS(C07_ccd_cylinder, "") { ccd<CylinderS>(); }
static void tri_ccd(bool posed) {
  TriangleS s = shape<TriangleS>("s");
  gpose = posed ? pose("X") : Transform3d::Identity();
  void* o = posed ? fd::triCreateGJKObject(s.a, s.b, s.c, gpose) : fd::triCreateGJKObject(s.a, s.b, s.c);
  gobj = (ccd_obj_t*)o;
  Vector3d l, d;
  ccd_support(o, fd::triGetSupportFunction(), l, d, false);
  cover("run");
  furthest(s, d, l, 0);
  fd::triDeleteGJKObject(o);
}
LCV_HARNESS(C07_ccd_triangle, "") { tri_ccd(false); }
LCV_HARNESS(C07_ccd_placed_triangle, "") { tri_ccd(true); }
// the quaternion stored for a pose rotates as the pose does: every rotation is that of a unit quaternion, and that or its
// negative is what must come out
static void pose_of_object(bool tri) {
  double x, y, z, w;
#ifdef LCV_NATIVE
  double q[4];
  __lcv_gen_unit(4, q, "q");
  x = q[0]; y = q[1]; z = q[2]; w = q[3];
#else
  x = real("x"); y = real("y"); z = real("z"); w = real("w");
  assume(x * x + y * y + z * z + w * w == 1);
  __lcv_rule(x, x, 1 - y * y - z * z - w * w);
#endif
  Matrix3d M;
  M << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
  Vector3d t = vec3("t");
  SphereS s(1);
  ccd_obj_t ob, &o = tri ? *(ccd_obj_t*)fd::triCreateGJKObject<double>(vec3("a"), vec3("b"), vec3("c"), pose(M, t)) : ob;
  if (!tri) fd::shapeToGJK<double>(s, pose(M, t), &o);
  cover("run");
  check(eq(o.pos.v[0], t[0]) & eq(o.pos.v[1], t[1]) & eq(o.pos.v[2], t[2]), "position");
  const double* r = o.rot.q;
  bool same = eq(r[0], x) & eq(r[1], y) & eq(r[2], z) & eq(r[3], w), opp = eq(r[0], -x) & eq(r[1], -y) & eq(r[2], -z) & eq(r[3], -w);
  check(same | opp, "the quaternion is that of the rotation");
  bool same2 = eq(o.rot_inv.q[0], -x) & eq(o.rot_inv.q[1], -y) & eq(o.rot_inv.q[2], -z) & eq(o.rot_inv.q[3], w), opp2 = eq(o.rot_inv.q[0], x) & eq(o.rot_inv.q[1], y) & eq(o.rot_inv.q[2], z) & eq(o.rot_inv.q[3], -w);
  check(same2 | opp2, "and its inverse");
}
LCV_HARNESS(C07_ccd_pose, "real=stub_") { pose_of_object(false); }
LCV_HARNESS(C07_ccd_triangle_pose, "real=stub_") { pose_of_object(true); }
LCV_HARNESS(C07_ccd_rotate, "real=stub_") {
  double x, y, z, w;
  x = real("x"); y = real("y"); z = real("z"); w = real("w");
#ifdef LCV_NATIVE
  { double n = std::sqrt(x * x + y * y + z * z + w * w); assume(n > 1e-3); x /= n; y /= n; z /= n; w /= n; }
#else
  assume(x * x + y * y + z * z + w * w == 1);
  __lcv_rule(x, x, 1 - y * y - z * z - w * w);
#endif
  Matrix3d M;
  M << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
  ccd_quat_t q;
  q.q[0] = x; q.q[1] = y; q.q[2] = z; q.q[3] = w;
  Vector3d v = vec3("v"), r = M * v;
  ccd_vec3_t c;
  for (int i = 0; i < 3; i++) c.v[i] = v[i];
  ccdQuatRotVec(&c, &q);
  cover("run");
  check(veq(Vector3d(c.v[0], c.v[1], c.v[2]), r), "a unit quaternion rotates as its matrix does");
}
