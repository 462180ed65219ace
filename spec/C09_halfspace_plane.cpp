// Shapes against half-spaces and planes (narrowphase/detail/primitive_shape_algorithm/{halfspace,plane}-inl.h)
// transform(half-space or plane, pose) is used through its contract (proved by C05_transform_*).
// LCV-REPLACE: transformIdEENS_9HalfspaceI => stub_hs
// LCV-REPLACE: transformIdEENS_5PlaneI => stub_pl
#include "reach.h"
#include "narrowphase/detail/primitive_shape_algorithm/halfspace.cpp"
#include "narrowphase/detail/primitive_shape_algorithm/plane.cpp"
#include "query.h"
using namespace lcv;
namespace fd = fcl::detail;

// the reach is that: no point of the shape is further (attained: by the contact points below)
template <class Sh> static Sh pos(const char* n) {
  Sh s = shape<Sh>(n);
  return s;
}
static void hint(const BoxS& s, const Vector3d& p, const Vector3d& m) { for (int j = 0; j < 3; j++) absmul2(p[j], 0.5, s.side[j], m[j]); }
static void hint(const SphereS& s, const Vector3d& p, const Vector3d& m) { cauchy(m, p, s.radius); }
static void hint(const EllipsoidS&, const Vector3d&, const Vector3d&) {}
static void hint(const CapsuleS& s, const Vector3d& p, const Vector3d& m) { cauchy(m, gball, s.radius); absmul2(p[2] - gball[2], 0.5, s.lz, m[2]); }
static void hint(const CylinderS& s, const Vector3d& p, const Vector3d& m) { flat(p[0], p[1], m[0], m[1], s.radius); absmul2(p[2], 0.5, s.lz, m[2]); }
static void hint(const TriangleS&, const Vector3d&, const Vector3d&) {}
template <class Sh> static void reach_() {
  Sh s = shape<Sh>("s");
  Vector3d m = unit3("m"), p = pt(s, "p");
  hint(s, p, m);
  cover("run");
  check(le(dot(m, p), reach(s, m)), "no point reaches further");
}
LCV_HARNESS(C09_reach_box, "") { reach_<BoxS>(); }
LCV_HARNESS(C09_reach_sphere, "") { reach_<SphereS>(); }
LCV_HARNESS(C09_reach_capsule, "") { reach_<CapsuleS>(); }
LCV_HARNESS(C09_reach_cylinder, "") { reach_<CylinderS>(); }
LCV_HARNESS(C09_reach_triangle, "") { reach_<TriangleS>(); }
LCV_HARNESS(C09_reach_ellipsoid, "") {
  EllipsoidS s = shape<EllipsoidS>("s");
  Vector3d m = unit3("m"), u = inball3(1, "u"), p = s.radii.cwiseProduct(u), q = s.radii.cwiseProduct(m);
  cover("run");
#ifndef LCV_NATIVE
  double t = dot(q, u), w = norm2(q.cross(u)), h = reach(s, m), U = norm2(u);
  step(true, t * t + w == norm2(q) * U, "Lagrange");
  double T = __lcv_abs_cut(t), Wd = __lcv_abs_cut(w), Q = __lcv_abs_cut(norm2(q)), UU = __lcv_abs_cut(U);
  step(true, w >= 0, "square");
  lemma((T * T + Wd == Q * UU) & (Wd >= 0) & (Q == h * h) & (h >= 0) & (UU <= 1), "names");
  step((T * T + Wd == Q * UU) & (Wd >= 0) & (Q == h * h) & (h >= 0) & (UU <= 1), T <= h, "Cauchy-Schwarz");
  lemma(dot(m, p) == t, "scaled");
#endif
  check(le(dot(m, p), reach(s, m)), "no point reaches further");
}
LCV_HARNESS(C09_reach_cone, "") {
  ConeS s = shape<ConeS>("s");
  Vector3d m = unit3("m");
  double t = unit01("p");
  Vector3d b = indisk(s.radius, "p"), p = Vector3d(0, 0, s.lz / 2 - t * s.lz) + b * t;
  flat(b[0], b[1], m[0], m[1], s.radius);
  cover("run");
#ifndef LCV_NATIVE
  double A = __lcv_abs_cut(m[2] * (s.lz / 2)), B = __lcv_abs_cut(-m[2] * (s.lz / 2) + s.radius * rim(m)), M = reach(s, m), v = __lcv_abs_cut(b[0] * m[0] + b[1] * m[1]), w = __lcv_abs_cut(s.radius * rim(m));
  lemma((A <= M) & (B <= M) & (v <= w) & (B == w - A), "names");
  step((A <= M) & (B <= M) & (v <= w) & (B == w - A) & (t >= 0) & (t <= 1), A * (1 - t) + (v - A) * t <= M, "between tip and base");
  lemma(dot(m, p) == A * (1 - t) + (v - A) * t, "the point");
#endif
  check(le(dot(m, p), reach(s, m)), "no point reaches further");
}

// ---- the queries
static Vector3d gn, ghn;        // the placed normal; the half-space's own
static double gd, ghd;
static Transform3d gX, gY;      // poses of the shape and of the half-space
static Vector3d gn2, ghn2;      // a second half-space or plane
static double gd2, ghd2;
static Transform3d gY2;
static bool gtwo;
static const void *gobj1, *gobj2;
static bool ginv;               // the half-space is placed in the frame of the shape
template <class Sh> static Sh placed(const Sh& a, const Transform3d& tf) {
  Sh r;
  if (gtwo) {
    bool second = (const void*)&a == gobj1 ? false : ((const void*)&a == gobj2 ? true : a.d == ghd2);
    check(second ? veq(a.n, ghn2) : (veq(a.n, ghn) & eq(a.d, ghd)), "the half-space or plane given");
    const Transform3d& Y = second ? gY2 : gY;
    for (int i = 0; i < 3; i++) check(veq(tf.linear().col(i), Y.linear().col(i)), "placed with its pose");
    check(veq(tf.translation(), Y.translation()), "placed with its pose");
    r.n = second ? gn2 : gn; r.d = second ? gd2 : gd;
    return r;
  }
  check(veq(a.n, ghn) & eq(a.d, ghd), "the half-space or plane given");
  if (ginv) {
    Matrix3d L = gX.linear().transpose() * gY.linear();
    Vector3d t = gX.linear().transpose() * (gY.translation() - gX.translation());
    for (int i = 0; i < 3; i++) check(veq(tf.linear().col(i), L.col(i)), "placed in the frame of the shape");
    check(veq(tf.translation(), t), "placed in the frame of the shape");
    r.n = gX.linear().transpose() * gn; r.d = gd - dot(gn, gX.translation());
  } else {
    for (int i = 0; i < 3; i++) check(veq(tf.linear().col(i), gY.linear().col(i)), "placed with its pose");
    check(veq(tf.translation(), gY.translation()), "placed with its pose");
    r.n = gn; r.d = gd;
  }
  return r;
}
extern "C" __attribute__((noinline, used)) HalfspaceS stub_hs(const HalfspaceS& a, const Transform3d& tf) { return placed(a, tf); }
extern "C" __attribute__((noinline, used)) PlaneS stub_pl(const PlaneS& a, const Transform3d& tf) { return placed(a, tf); }
// General pose: any rotation R, translation T, any placed unit normal n = R m and any offset.
// Own frame: the shape at the origin, so that n = m. C09_moved_* proves that nothing but the frame changes.
static double goff;
template <class HS> static void place(bool general, Vector3d& m, HS& h, bool unitrules = true) {
  gX = Transform3d::Identity();
#ifdef LCV_NATIVE
  m = boolean("special") ? special_unit("m") : unit3("m");
  if (general) gX = pose("X");
  gY = pose("Y");
#else
  m = unit3("m");
  if (unitrules) unitrule(m);
  if (general) {
    Matrix3d R = rot3("R");
    gX = pose(R, vec3("T"));
    rotrules(R);
  }
  Matrix3d A; Vector3d t = vec3("Y");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A(i, j) = real("Y");
  gY = pose(A, t);
#endif
  gn = general ? Vector3d(gX.linear() * m) : m;
  goff = real("off");
  gd = (general ? dot(gn, gX.translation()) : 0) + goff;
#ifdef LCV_NATIVE
  h.n = gY.linear().transpose() * gn;
  h.d = gd - dot(gn, gY.translation());
#else
  h.n = vec3("hn"); h.d = real("hd");
#endif
  ghn = h.n; ghd = h.d;
#ifndef LCV_NATIVE
  for (int i = 0; i < 3; i++) lemma((m[i] <= 1) & (-m[i] <= 1), "components of a unit vector");
#endif
}
static void away(double x, double tol) { assume((x == 0) | (x >= tol) | (x <= -tol)); }
static const double TOL = 1e-7;     // half-spaces and planes closer than this to an aligned position, but not aligned, are left out
static double tol() {
#ifdef LCV_NATIVE
  return 1e-3;
#else
  return TOL;
#endif
}
static void notclose(const CapsuleS&, const Vector3d& m) { away(m[2], tol()); }
static void notclose(const CylinderS&, const Vector3d& m) { away(m[2], tol()); away(1 - m[2], tol()); away(1 + m[2], tol()); }
static void notclose(const ConeS&, const Vector3d& m) { away(m[2], tol()); away(1 - m[2], tol()); away(1 + m[2], tol()); }
static void notclose(const BoxS&, const Vector3d& m) { for (int i = 0; i < 3; i++) { away(1 - m[i], tol()); away(1 + m[i], tol()); } }
static void notclose(const SphereS&, const Vector3d&) {}
static void notclose(const EllipsoidS&, const Vector3d&) {}

template <class Sh> struct Q;
#define SHAPEQ(SH, HSF, PLF)                                                                                        \
  template <> struct Q<SH> {                                                                                        \
    static bool f(const SH& s, const Transform3d& X, const HalfspaceS& h, const Transform3d& Y, std::vector<CP>* c) { return fd::HSF(s, X, h, Y, c); } \
    static bool f(const SH& s, const Transform3d& X, const PlaneS& h, const Transform3d& Y, std::vector<CP>* c) { return fd::PLF(s, X, h, Y, c); }     \
  };
SHAPEQ(SphereS, sphereHalfspaceIntersect, spherePlaneIntersect)
SHAPEQ(BoxS, boxHalfspaceIntersect, boxPlaneIntersect)
SHAPEQ(CapsuleS, capsuleHalfspaceIntersect, capsulePlaneIntersect)
SHAPEQ(CylinderS, cylinderHalfspaceIntersect, cylinderPlaneIntersect)
SHAPEQ(ConeS, coneHalfspaceIntersect, conePlaneIntersect)
SHAPEQ(EllipsoidS, ellipsoidHalfspaceIntersect, ellipsoidPlaneIntersect)
template <class Sh> static bool inverted() { return std::is_same<Sh, EllipsoidS>::value; }
template <class Sh> static Sh solid(const char* n) { return shape<Sh>(n); }
template <> SphereS solid<SphereS>(const char* n) { return SphereS(positive(n)); }
template <> ConeS solid<ConeS>(const char* n) { return ConeS(positive(n), nonneg(n)); }
template <> EllipsoidS solid<EllipsoidS>(const char* n) { return EllipsoidS(positive(n), positive(n), positive(n)); }

// ---- only the frame changes
template <class Sh> static void capsule_ties(const Sh&, double, const Vector3d&) {}
static void capsule_ties(const CapsuleS& s, double g, const Vector3d& m) {
  for (int k = -1; k <= 1; k += 2) for (int j = -1; j <= 1; j++) assume(std::fabs(g + k * m[2] * s.lz / 2 + j * s.radius) > 1e-6);
}
template <class Sh, class HS> static void moved() {
  Sh s = solid<Sh>("s"); HS h; Vector3d m;
  ginv = inverted<Sh>();
  place(true, m, h, !inverted<Sh>());
  notclose(s, m);
  if (std::is_same<HS, PlaneS>::value) split(goff > 0);
  std::vector<CP> c1, c2;
  bool r1 = Q<Sh>::f(s, gX, h, gY, &c1);
  Vector3d n = gn; double d = gd;
  Transform3d X = gX;
  gn = m; gd = goff;
  gX = Transform3d::Identity();
#ifdef LCV_NATIVE
  gY = X.inverse(Eigen::Isometry) * gY;
#endif
  bool r2 = Q<Sh>::f(s, gX, h, gY, &c2);
#ifdef LCV_NATIVE
  double g = dot(n, X.translation()) - d;    // rounding decides ties
  for (int i = 0; i < 3; i++) assume(std::fabs(m[i]) > 1e-6);
  capsule_ties(s, g, m);
  if (std::is_same<Sh, ConeS>::value) assume(std::fabs(-g - reach(s, m) + reach(s, -m) - g) > 1e-6);
  assume(std::fabs(g) > 1e-6);
  assume((std::fabs(g - reach(s, -m)) > 1e-6) & (std::fabs(g + reach(s, m)) > 1e-6));
#endif
  cover("run");
  check(r1 == r2, "the answer depends on the relative placement only");
  check((c1.size() == (r1 ? 1u : 0u)) & (c2.size() == (r2 ? 1u : 0u)), "one contact exactly when intersecting");
  if (r1 & r2) {
    check(veq(c1[0].normal, X.linear() * c2[0].normal), "the normal turns with the pose");
    check(veq(c1[0].pos, X.linear() * c2[0].pos + X.translation()), "the position moves with the pose");
    check(eq(c1[0].penetration_depth, c2[0].penetration_depth), "the depth does not change");
    cover("intersecting");
  }
}
#define MOVED(N, SH) \
  LCV_HARNESS(C09_moved_halfspace_##N, "") { moved<SH, HalfspaceS>(); } \
  LCV_HARNESS(C09_moved_plane_##N, "") { moved<SH, PlaneS>(); }
MOVED(sphere, SphereS)
MOVED(box, BoxS)
MOVED(capsule, CapsuleS)
MOVED(cylinder, CylinderS)
MOVED(cone, ConeS)
MOVED(ellipsoid, EllipsoidS)

// ---- in the shape's own frame
template <class Sh> static bool near_surface(const Sh& s, const Vector3d& l, const Vector3d& m, double depth) {
  return in(s, l - m * (depth * 0.5)) & eq(dot(m, l) - gd, -0.5 * depth);
}
static bool near_surface(const EllipsoidS& s, const Vector3d& l, const Vector3d& m, double depth) {
  double k = reach(s, m);      // on the ray from the centre through the deepest point -(a^2 m)/k
  bool r = eq(dot(m, l) - gd, -0.5 * depth);
  for (int i = 0; i < 3; i++) r = r & eq(l[i] * k * k, s.radii[i] * s.radii[i] * m[i] * (0.5 * depth - k));
  return r;
}
template <class Sh> static void halfspace_() {
  Sh s = solid<Sh>("s"); HalfspaceS h; Vector3d m;
  ginv = inverted<Sh>();
  place(false, m, h, !inverted<Sh>());
  notclose(s, m);
  std::vector<CP> c;
  bool r = Q<Sh>::f(s, gX, h, gY, &c), r0 = Q<Sh>::f(s, gX, h, gY, nullptr);
  cover("run");
  double lo = -gd - reach(s, -m);
  check(decides_le(r, lo, 0), "intersecting exactly when the deepest point is in the half-space");
  check(decides_le(r0, lo, 0), "same answer when no contact is asked for");
  check(c.size() == (r ? 1u : 0u), "one contact exactly when intersecting");
  if (r) {
    check(eq(c[0].penetration_depth, -lo), "depth: that of the deepest point");
    check(veq(c[0].normal, -m), "normal: out of the shape, into the half-space");
    check(near_surface(s, c[0].pos, m, c[0].penetration_depth), "the contact position is half the depth above the deepest point");
    cover("hit");
  }
}
LCV_HARNESS(C09_halfspace_sphere, "") { halfspace_<SphereS>(); }
LCV_HARNESS(C09_halfspace_box, "") { halfspace_<BoxS>(); }
LCV_HARNESS(C09_halfspace_capsule, "") { halfspace_<CapsuleS>(); }
LCV_HARNESS(C09_halfspace_cylinder, "") { halfspace_<CylinderS>(); }
LCV_HARNESS(C09_halfspace_cone, "") { halfspace_<ConeS>(); }
LCV_HARNESS(C09_halfspace_ellipsoid, "") { halfspace_<EllipsoidS>(); }
LCV_HARNESS(C09_halfspace_box_deepest, "") {   // the contactless box test used by the dispatcher
  BoxS s = shape<BoxS>("s"); HalfspaceS h; Vector3d m;
  place(false, m, h);
  bool r = fd::boxHalfspaceIntersect(s, gX, h, gY);
  cover("run");
  check(decides_le(r, -gd - reach(s, -m), 0), "intersecting exactly when the deepest point is in the half-space");
}

// a plane cuts the shape when part of it is on either side; the cone (and triangle) test leaves touching out
template <class Sh> struct Touch { static const bool counts = true; };
template <> struct Touch<ConeS> { static const bool counts = false; };
template <class Sh> static bool cut_point(const Sh& s, const Vector3d& l, const Vector3d&) { return in(s, l); }
static bool cut_point(const BoxS&, const Vector3d&, const Vector3d&) { return true; }
static bool cut_point(const ConeS&, const Vector3d&, const Vector3d&) { return true; }
static bool cut_point(const CylinderS&, const Vector3d&, const Vector3d&) { return true; }
static bool cut_point(const EllipsoidS& s, const Vector3d& l, const Vector3d& m) {   // on the line through the two deepest points
  double k = reach(s, m);
  bool r = true;
  for (int i = 0; i < 3; i++) r = r & eq(l[i] * k * k, s.radii[i] * s.radii[i] * m[i] * gd);
  return r;
}
template <class Sh> static void plane_() {
  Sh s = solid<Sh>("s"); PlaneS h; Vector3d m;
  ginv = inverted<Sh>();
  place(false, m, h, !inverted<Sh>());
  notclose(s, m);
  std::vector<CP> c;
  bool r = Q<Sh>::f(s, gX, h, gY, &c), r0 = Q<Sh>::f(s, gX, h, gY, nullptr);
  cover("run");
  double lo = -gd - reach(s, -m), hi = -gd + reach(s, m);
  if (Touch<Sh>::counts) {
    check(imp(r, le(lo, 0) & le(0, hi)) & imp(!r, lt(0, lo) | lt(hi, 0)), "intersecting exactly when the plane reaches the shape");
    check(imp(r0, le(lo, 0) & le(0, hi)) & imp(!r0, lt(0, lo) | lt(hi, 0)), "same answer when no contact is asked for");
  } else {
    check(imp(r, le(lo, 0) & le(0, hi)) & imp(!r, le(0, lo) | le(hi, 0)), "intersecting exactly when the plane reaches the inside of the shape");
    check(r0 == r, "same answer when no contact is asked for");
  }
  check(c.size() == (r ? 1u : 0u), "one contact exactly when intersecting");
  if (r) {
    check(eq(c[0].penetration_depth, std::fmin(hi, -lo)), "depth: the shorter way out");
    bool up = veq(c[0].normal, -m), down = veq(c[0].normal, m);
    check(up | down, "normal: perpendicular to the plane");
    check(imp(up & !down, le(-lo, hi)) & imp(down & !up, le(hi, -lo)), "normal: against the shorter way out");
    check(eq(dot(m, c[0].pos), gd), "the contact position is on the plane");
    check(cut_point(s, c[0].pos, m), "and in the shape");
    cover("hit");
  }
}
LCV_HARNESS(C09_plane_sphere, "") { plane_<SphereS>(); }
LCV_HARNESS(C09_plane_box, "") { plane_<BoxS>(); }
LCV_HARNESS(C09_plane_capsule, "") { plane_<CapsuleS>(); }
LCV_HARNESS(C09_plane_cylinder, "") { plane_<CylinderS>(); }
LCV_HARNESS(C09_plane_cone, "") { plane_<ConeS>(); }
LCV_HARNESS(C09_plane_ellipsoid, "") { plane_<EllipsoidS>(); }

// ---- triangles
template <class HS> static HS flat_placed(const Transform3d& tf) {
  HS h;
  Vector3d n = unit3("n");
  gn = n; gY = tf;
#ifdef LCV_NATIVE
  h.n = gY.linear().transpose() * gn;
  gd = real("gd");
  h.d = gd - dot(gn, gY.translation());
#else
  h.n = vec3("hn"); h.d = real("hd"); gd = real("gd");
#endif
  ghn = h.n; ghd = h.d;
  return h;
}
LCV_HARNESS(C09_halfspace_triangle, "") {
  HalfspaceS h = flat_placed<HalfspaceS>(pose("Y"));
  Transform3d X = pose("X");
  Vector3d a = vec3("a"), b = vec3("b"), c = vec3("c"), A = X * a, B = X * b, C = X * c, pos, nrm;
  double depth = 0;
  bool r = fd::halfspaceTriangleIntersect(h, gY, a, b, c, X, &pos, &depth, &nrm), r0 = fd::halfspaceTriangleIntersect<double>(h, gY, a, b, c, X, nullptr, nullptr, nullptr);
  cover("run");
  double dA = dot(gn, A) - gd, dB = dot(gn, B) - gd, dC = dot(gn, C) - gd, lo = std::fmin(dA, std::fmin(dB, dC));
  check(decides_le(r, lo, 0), "intersecting exactly when some vertex is in the half-space");
  check(decides_le(r0, lo, 0), "same answer when nothing else is asked for");
  if (r) {
    check(eq(depth, -lo), "depth: that of the deepest vertex");
    check(veq(nrm, gn), "normal: out of the half-space");
    Vector3d q = pos - gn * (0.5 * depth);
    check((veq(q, A) & eq(dA, lo)) | (veq(q, B) & eq(dB, lo)) | (veq(q, C) & eq(dC, lo)), "the contact position is half the depth above the deepest vertex");
    cover("hit");
  }
}
LCV_HARNESS(C09_plane_triangle, "") {
  PlaneS h = flat_placed<PlaneS>(pose("Y"));
  Transform3d X = Transform3d::Identity();
  Vector3d a = vec3("a"), b = vec3("b"), c = vec3("c"), A = X * a, B = X * b, C = X * c, pos, nrm;
  double depth = 0;
  bool r = fd::planeTriangleIntersect(h, gY, a, b, c, X, &pos, &depth, &nrm), r0 = fd::planeTriangleIntersect<double>(h, gY, a, b, c, X, nullptr, nullptr, nullptr);
  cover("run");
  double dA = dot(gn, A) - gd, dB = dot(gn, B) - gd, dC = dot(gn, C) - gd, lo = std::fmin(dA, std::fmin(dB, dC)), hi = std::fmax(dA, std::fmax(dB, dC));
  check(imp(r, lt(lo, 0) & lt(0, hi)) & imp(!r, le(0, lo) | le(hi, 0)), "intersecting exactly when there are vertices on both sides");
  check(r0 == r, "same answer when nothing else is asked for");
  if (r) {
    check(eq(depth, std::fmin(hi, -lo)), "depth: the shorter way out");
    bool up = veq(nrm, gn), down = veq(nrm, -gn);
    check(up | down, "normal: perpendicular to the plane");
    check(imp(up & !down, le(-lo, hi)) & imp(down & !up, le(hi, -lo)), "normal: along the shorter way out");
    check(eq(dot(gn, pos), gd), "the contact position is on the plane");
    cover("hit");
  }
}
LCV_HARNESS(C09_moved_plane_triangle, "") {
  PlaneS h = flat_placed<PlaneS>(pose("Y"));
  Transform3d X = pose("X");
  Vector3d a = vec3("a"), b = vec3("b"), c = vec3("c"), A = X * a, B = X * b, C = X * c, pos1, nrm1, pos2, nrm2;
  double d1 = 0, d2 = 0;
  bool r1 = fd::planeTriangleIntersect(h, gY, a, b, c, X, &pos1, &d1, &nrm1);
  bool r2 = fd::planeTriangleIntersect<double>(h, gY, A, B, C, Transform3d::Identity(), &pos2, &d2, &nrm2);
  cover("run");
  check(r1 == r2, "the pose of the triangle moves its vertices");
  if (r1 & r2) { check(eq(d1, d2) & veq(nrm1, nrm2) & veq(pos1, pos2), "the pose of the triangle moves its vertices"); cover("hit"); }
}

// ---- half-spaces and planes against each other: unit normals, exactly parallel or clearly not
static Vector3d un1, un2;
static double ud1, ud2;
static Transform3d uY1, uY2;
template <class A, class B> static void two(A& a, B& b, int how) {      // how: 0 clearly not parallel, 1 same direction, -1 opposite
  un1 = unit3("n1");
  un2 = how ? Vector3d(un1 * how) : unit3("n2");
  ud1 = real("d1"); ud2 = real("d2");
  gY = uY1 = pose("Y1"); uY2 = pose("Y2");
  gtwo = true; gobj1 = &a; gobj2 = &b;
  gn = un1; gd = ud1; gn2 = un2; gd2 = ud2;
#ifdef LCV_NATIVE
  a.n = uY1.linear().transpose() * un1; a.d = ud1 - dot(un1, uY1.translation());
  b.n = uY2.linear().transpose() * un2; b.d = ud2 - dot(un2, uY2.translation());
  assume(std::fabs(ud1 - ud2) > 1e-6); assume(std::fabs(ud1 + ud2) > 1e-6);
#else
  a.n = vec3("hn1"); a.d = real("hd1"); b.n = vec3("hn2"); b.d = real("hd2");
#endif
  gY2 = uY2; ghn = a.n; ghd = a.d; ghn2 = b.n; ghd2 = b.d;
  if (!how) assume(norm2(un1.cross(un2)) >= 1e-15);
}
static void line_on_both(const Vector3d& p, const Vector3d& d) {
  check(eq(dot(un1, p), ud1) & eq(dot(un2, p), ud2), "the line is in both boundaries");
  check(eq(dot(un1, d), 0) & eq(dot(un2, d), 0) & !eq(norm2(d), 0), "the line is in both boundaries");
}
LCV_HARNESS(C09_halfspace_halfspace, "") {
  HalfspaceS a, b, s;
  int how = __lcv_choice("how", 3) - 1, ret = 77;
  two(a, b, how);
  Vector3d p, d; double depth = -7;
  bool r = fd::halfspaceIntersect(a, uY1, b, uY2, p, d, s, depth, ret);
  cover("run");
  if (how == 0) {
    check(r & (ret == 4), "half-spaces that are not parallel intersect");
    line_on_both(p, d);
  } else if (how == 1) {
    check(r, "half-spaces facing the same way intersect");
    check(veq(s.n, un1) & eq(s.d, std::fmin(ud1, ud2)) & (ret == 1 || ret == 2), "in the smaller one");
  } else {
    check(decides_le(r, -ud2, ud1), "half-spaces facing each other intersect exactly when they overlap");
    if (r) { check((ret == 3) & eq(depth, ud1 + ud2), "depth of the overlap"); cover("overlap"); }
  }
}
template <class F> static void plane_halfspace(F f) {
  PlaneS a; HalfspaceS b; PlaneS pl;
  int how = __lcv_choice("how", 3) - 1, ret = 77;
  two(a, b, how);
  Vector3d p, d; double depth = -7;
  bool r = f(a, b, pl, p, d, depth, ret);
  cover("run");
  if (how == 0) {
    check(r & (ret == 3), "a plane that is not parallel reaches the half-space");
    line_on_both(p, d);
  } else {
    double x = ud1 * how;      // position of the plane along the half-space's normal
    check(decides_le(r, x, ud2), "a parallel plane intersects exactly when it is in the half-space");
    if (r) { check(eq(depth, ud2 - x) & veq(pl.n, un1) & eq(pl.d, ud1), "depth of the plane"); cover("inside"); }
  }
}
LCV_HARNESS(C09_plane_halfspace, "") {
  plane_halfspace([](const PlaneS& a, const HalfspaceS& b, PlaneS& pl, Vector3d& p, Vector3d& d, double& depth, int& ret) { return fd::planeHalfspaceIntersect(a, uY1, b, uY2, pl, p, d, depth, ret); });
}
LCV_HARNESS(C09_halfspace_plane, "") {
  plane_halfspace([](const PlaneS& a, const HalfspaceS& b, PlaneS& pl, Vector3d& p, Vector3d& d, double& depth, int& ret) { return fd::halfspacePlaneIntersect(b, uY2, a, uY1, pl, p, d, depth, ret); });
}
LCV_HARNESS(C09_plane_plane, "") {
  PlaneS a, b;
  int how = __lcv_choice("how", 3) - 1;
  two(a, b, how);
#ifdef LCV_NATIVE
  assume(how == 0);     // equal offsets are exact
#endif
  bool r = fd::planeIntersect<double>(a, uY1, b, uY2, nullptr);
  cover("run");
#ifndef LCV_NATIVE
  if (how == 0) {
    double c = dot(un1, un2);
    step(true, norm2(un1.cross(un2)) + c * c == norm2(un1) * norm2(un2), "Lagrange");
    lemma((c != 1) & (c != -1), "not parallel");
  }
#endif
  check(r == (how == 0 ? true : ud1 == ud2 * how), "planes intersect unless they are parallel and different");
}
