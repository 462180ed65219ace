// Contracts on the closed-form sphere queries (narrowphase/detail/primitive_shape_algorithm/sphere_*-inl.h, capsule_capsule-inl.h)
#include "shapes.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_sphere.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_box.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_cylinder.h"
#include "query.h"
using namespace lcv;

// ---- sphere / sphere: the poses matter through the centres only
LCV_HARNESS(C08_sphere_sphere_intersect, "") {
  SphereS a(positive("ra")), b(positive("rb"));
  Transform3d X = pose("X"), Y = pose("Y");
#ifdef LCV_NATIVE
  if (boolean("near")) Y.translation() = X.translation() + unit3("d") * ((a.radius + b.radius) * unit01("f"));
#endif
  Vector3d d = Y.translation() - X.translation();
  double R = a.radius + b.radius;
  std::vector<CP> cs;
  bool r = fcl::detail::sphereSphereIntersect(a, X, b, Y, &cs);
  bool r0 = fcl::detail::sphereSphereIntersect<double>(a, X, b, Y, nullptr);
  cover("run");
  check(r == r0, "asking for contacts does not change the answer");
  check(decides_le(r, norm2(d), R * R), "spheres intersect exactly when their centres are no further apart than the sum of the radii");
  check(cs.size() == (r ? 1u : 0u), "one contact exactly when intersecting");
  if (r) {
    CP c = cs[0];
    double len = R - c.penetration_depth;
    check(ge(len, 0) & eq(len * len, norm2(d)), "depth");
    check(imp(norm2(d) > 0, eq(norm2(c.normal), 1)), "unit normal");
    check(veq(c.normal * len, d), "the normal points from the first centre to the second");
    Vector3d p = (c.pos - X.translation()) * R;
    check(veq(p, d * a.radius), "the contact position divides the centres in the ratio of the radii");
    cover("intersecting");
  }
}
LCV_HARNESS(C08_sphere_sphere_distance, "") {
  SphereS a(nonneg("ra")), b(nonneg("rb"));
  Transform3d X = pose("X"), Y = pose("Y");
  Vector3d d = Y.translation() - X.translation();
  double R = a.radius + b.radius, dist = 7;
  Vector3d p1, p2;
  bool r = fcl::detail::sphereSphereDistance(a, X, b, Y, &dist, &p1, &p2);
  double dist0 = 7;
  bool r0 = fcl::detail::sphereSphereDistance<double>(a, X, b, Y, &dist0, nullptr, nullptr);
  cover("run");
  check((r == r0) & (dist == dist0), "asking for points does not change the answer");
  check(decides_le(!r, norm2(d), R * R), "separated exactly when the centres are further apart than the sum of the radii");
  if (r) {
    check(ge(dist, 0) & eq((dist + R) * (dist + R), norm2(d)), "distance is that of the centres less the radii");
    check(veq((p1 - X.translation()) * (dist + R), d * a.radius), "first point: on the first sphere towards the second centre");
    check(veq((Y.translation() - p2) * (dist + R), d * b.radius), "second point: on the second sphere towards the first centre");
    cover("separated");
  } else check(dist == -1, "not separated: -1");
}
// ---- queries whose second shape has a pose: (1) the answer in the frame of the second shape is right, (2) the pose moves the answer
template <class Sh> struct QI { static bool f(const SphereS& s, const Transform3d& X, const Sh& b, const Transform3d& Y, std::vector<CP>* c); };
template <> bool QI<BoxS>::f(const SphereS& s, const Transform3d& X, const BoxS& b, const Transform3d& Y, std::vector<CP>* c) { return fcl::detail::sphereBoxIntersect(s, X, b, Y, c); }
template <> bool QI<CylinderS>::f(const SphereS& s, const Transform3d& X, const CylinderS& b, const Transform3d& Y, std::vector<CP>* c) { return fcl::detail::sphereCylinderIntersect(s, X, b, Y, c); }
template <> bool QI<CapsuleS>::f(const SphereS& s, const Transform3d& X, const CapsuleS& b, const Transform3d& Y, std::vector<CP>* c) { return fcl::detail::sphereCapsuleIntersect(s, X, b, Y, c); }
template <class Sh> struct QD { static bool f(const SphereS& s, const Transform3d& X, const Sh& b, const Transform3d& Y, double* d, Vector3d* p, Vector3d* q); };
template <> bool QD<BoxS>::f(const SphereS& s, const Transform3d& X, const BoxS& b, const Transform3d& Y, double* d, Vector3d* p, Vector3d* q) { return fcl::detail::sphereBoxDistance(s, X, b, Y, d, p, q); }
template <> bool QD<CylinderS>::f(const SphereS& s, const Transform3d& X, const CylinderS& b, const Transform3d& Y, double* d, Vector3d* p, Vector3d* q) { return fcl::detail::sphereCylinderDistance(s, X, b, Y, d, p, q); }
template <> bool QD<CapsuleS>::f(const SphereS& s, const Transform3d& X, const CapsuleS& b, const Transform3d& Y, double* d, Vector3d* p, Vector3d* q) { return fcl::detail::sphereCapsuleDistance(s, X, b, Y, d, p, q); }

template <class Sh> static double core(const Sh&) { return 0; }
static double core(const CapsuleS& b) { return b.radius; }
static Vector3d nearest(const BoxS& b, const Vector3d& c);
static Vector3d nearest(const CapsuleS& b, const Vector3d& c);
static Vector3d nearest(const CylinderS& b, const Vector3d& c);
// natively: away from the ties, where rounding decides
template <class Sh> static void no_ties(const Sh& b, const SphereS& s, const Transform3d& X, const Transform3d& Y) {
#ifdef LCV_NATIVE
  Vector3d c = Y.inverse() * X.translation();
  double d = (c - nearest(b, c)).norm();
  assume((d > 1e-4) & (std::fabs(d - s.radius - core(b)) > 1e-4));
#endif
}
template <class Sh> static void moved_intersect() {
  SphereS s(nonneg("r"));
  Sh b = shape<Sh>("b");
  Transform3d X = pose("X"), Y = pose("Y");
  no_ties(b, s, X, Y);
  std::vector<CP> c1, c2;
  bool r1 = QI<Sh>::f(s, X, b, Y, &c1);
  Transform3d Z = Y.inverse(Eigen::Isometry) * X;
  Z.linear() = rot3("any");      // the orientation of the sphere does not matter
  bool r2 = QI<Sh>::f(s, Z, b, Transform3d::Identity(), &c2);
  bool r0 = QI<Sh>::f(s, X, b, Y, nullptr);
  cover("run");
  check((r1 == r2) & (r1 == r0), "the answer depends on the relative placement only, and not on whether contacts are wanted");
  check((c1.size() == (r1 ? 1u : 0u)) & (c2.size() == (r1 ? 1u : 0u)), "one contact exactly when intersecting");
  if (r1) {
    check(veq(c1[0].normal, Y.linear() * c2[0].normal), "the normal turns with the pose");
    check(veq(c1[0].pos, Y.linear() * c2[0].pos + Y.translation()), "the position moves with the pose");
    check(eq(c1[0].penetration_depth, c2[0].penetration_depth), "the depth does not change");
    cover("intersecting");
  }
}
template <class Sh> static void moved_distance() {
  SphereS s(nonneg("r"));
  Sh b = shape<Sh>("b");
  Transform3d X = pose("X"), Y = pose("Y");
  no_ties(b, s, X, Y);
  double d1 = 7, d2 = 8, d0 = 9;
  Vector3d p1, q1, p2, q2;
  bool r1 = QD<Sh>::f(s, X, b, Y, &d1, &p1, &q1);
  Transform3d Z = Y.inverse(Eigen::Isometry) * X;
  Z.linear() = rot3("any");
  bool r2 = QD<Sh>::f(s, Z, b, Transform3d::Identity(), &d2, &p2, &q2);
  bool r0 = QD<Sh>::f(s, X, b, Y, &d0, nullptr, nullptr);
  cover("run");
  check((r1 == r2) & (r1 == r0) & eq(d1, d2) & eq(d0, d1), "the answer depends on the relative placement only, and not on whether points are wanted");
  if (r1) {
    check(veq(p1, Y.linear() * p2 + Y.translation()) & veq(q1, Y.linear() * q2 + Y.translation()), "the points move with the pose");
    cover("separated");
  }
}
// each answer on its own: a caller may ask for any of the distance and the two points
template <class F> static void lone(const F& f) {
  double d = 7; Vector3d p, q;
  bool r = f(&d, &p, &q);
  int w = __lcv_choice("wanted", 4);
  double d1 = 7; Vector3d p1, q1;
  bool r1 = f(w == 3 ? &d1 : nullptr, w == 1 ? nullptr : &p1, w == 0 ? nullptr : &q1);
  cover("run");
  check(r == r1, "what is asked for does not change the answer");
  if (w == 3) check(eq(d, d1), "the distance does not depend on what else is asked for");
  if (r) {
    if (w != 1) check(veq(p, p1), "the first point is given whatever else is asked for");
    if (w != 0) check(veq(q, q1), "the second point is given whatever else is asked for");
  }
}
template <class Sh> static void lone_shape() {
  SphereS s(nonneg("r"));
  Sh b = shape<Sh>("b");
  Transform3d X = pose("X"), Y = pose("Y");
  no_ties(b, s, X, Y);
  lone([&](double* d, Vector3d* p, Vector3d* q) { return QD<Sh>::f(s, X, b, Y, d, p, q); });
}
LCV_HARNESS(C08_box_lone, "") { lone_shape<BoxS>(); }
LCV_HARNESS(C08_cylinder_lone, "") { lone_shape<CylinderS>(); }
LCV_HARNESS(C08_capsule_lone, "") { lone_shape<CapsuleS>(); }
LCV_HARNESS(C08_sphere_lone, "") {
  SphereS s(nonneg("r")), b(nonneg("rb"));
  Transform3d X = pose("X"), Y = pose("Y");
  lone([&](double* d, Vector3d* p, Vector3d* q) { return fcl::detail::sphereSphereDistance(s, X, b, Y, d, p, q); });
}
LCV_HARNESS(C08_box_moved_intersect, "") { moved_intersect<BoxS>(); }
LCV_HARNESS(C08_box_moved_distance, "") { moved_distance<BoxS>(); }
LCV_HARNESS(C08_cylinder_moved_intersect, "") { moved_intersect<CylinderS>(); }
LCV_HARNESS(C08_cylinder_moved_distance, "") { moved_distance<CylinderS>(); }
LCV_HARNESS(C08_capsule_moved_intersect, "") { moved_intersect<CapsuleS>(); }
LCV_HARNESS(C08_capsule_moved_distance, "") { moved_distance<CapsuleS>(); }

// nearest point of the shape to c, in the shape's frame, and the proof that it is nearest
static Vector3d nearest(const BoxS& b, const Vector3d& c) {
  Vector3d n;
  for (int i = 0; i < 3; i++) { double h = b.side[i] / 2; n[i] = c[i] < -h ? -h : (c[i] > h ? h : c[i]); }
  return n;
}
static Vector3d nearest(const CapsuleS& b, const Vector3d& c) { double h = b.lz / 2; return Vector3d(0, 0, c[2] < -h ? -h : (c[2] > h ? h : c[2])); }
static Vector3d nearest(const CylinderS& b, const Vector3d& c) {
  double h = b.lz / 2, z = c[2] < -h ? -h : (c[2] > h ? h : c[2]);
  double q = c[0] * c[0] + c[1] * c[1];
  if (q > b.radius * b.radius) { double k = b.radius / std::sqrt(q); return Vector3d(c[0] * k, c[1] * k, z); }
  return Vector3d(c[0], c[1], z);
}
// the spec's nearest point is nearest
LCV_HARNESS(C08_box_nearest, "") {
  BoxS b = shape<BoxS>("b");
  Vector3d c = vec3("c"), y = pt(b, "y"), n = nearest(b, c);
  cover("run");
  double s = 0, t = 0;
  for (int i = 0; i < 3; i++) {
    check(le(n[i], b.side[i] / 2) & le(-b.side[i] / 2, n[i]), "in the box");
    lemma(le((c[i] - n[i]) * (c[i] - n[i]), (c[i] - y[i]) * (c[i] - y[i])), "per axis");
    s += (c[i] - n[i]) * (c[i] - n[i]);
    t += (c[i] - y[i]) * (c[i] - y[i]);
  }
  check(le(s, t), "nearest");
}
LCV_HARNESS(C08_capsule_nearest, "") {
  CapsuleS b = shape<CapsuleS>("b");
  Vector3d c = vec3("c"), y(0, 0, inseg(b.lz / 2, "y")), n = nearest(b, c);
  cover("run");
  check(le(std::fabs(n[2]), b.lz / 2) & (n[0] == 0) & (n[1] == 0), "on the segment");
  check(le((c[2] - n[2]) * (c[2] - n[2]), (c[2] - y[2]) * (c[2] - y[2])), "nearest");
}
LCV_HARNESS(C08_cylinder_nearest, "") {
  CylinderS b = shape<CylinderS>("b");
  Vector3d c = vec3("c"), y = pt(b, "y"), n = nearest(b, c);
  cover("run");
  check(le(std::fabs(n[2]), b.lz / 2) & le(n[0] * n[0] + n[1] * n[1], b.radius * b.radius), "in the cylinder");
  check(le((c[2] - n[2]) * (c[2] - n[2]), (c[2] - y[2]) * (c[2] - y[2])), "nearest along");
  double q = c[0] * c[0] + c[1] * c[1];
  double dx = c[0] - n[0], dy = c[1] - n[1], ex = c[0] - y[0], ey = c[1] - y[1];
  if (q > b.radius * b.radius) {
    // |c|, and c.y <= |c||y| <= |c| r
    double L = std::sqrt(q), u = c[0] * y[0] + c[1] * y[1], v = c[0] * y[1] - c[1] * y[0], w = y[0] * y[0] + y[1] * y[1], r = b.radius;
    step(true, u * u + v * v == q * w, "Lagrange");
    step((u * u + v * v == q * w) & (q >= 0) & (w <= r * r) & (q == L * L) & (L >= 0) & (r >= 0), (u <= L * r), "Cauchy-Schwarz");
    lemma(eq(dx * L, c[0] * (L - r)) & eq(dy * L, c[1] * (L - r)), "radial");
    lemma(eq((dx * dx + dy * dy), (L - r) * (L - r)), "radial distance");
    double S = std::sqrt(w);
    step((u * u + v * v == q * w) & (q == L * L) & (w == S * S) & (L >= 0) & (S >= 0), u <= L * S, "Cauchy-Schwarz, sharp");
    step((S * S <= r * r) & (S >= 0) & (r >= 0), S <= r, "in the disk");
    step((L * L > r * r) & (L >= 0) & (r >= 0), L > r, "outside");
    step((u <= L * S) & (S <= r) & (L > r), L * L - 2 * u + S * S >= (L - r) * (L - r), "nearest");
    check(ge(q - 2 * u + w, (L - r) * (L - r)), "nearest across, outside");
  } else check((dx == 0) & (dy == 0), "nearest across, inside");
}
template <class Sh> static void distance_() {
  SphereS s(nonneg("r"));
  Sh b = shape<Sh>("b");
  Vector3d c = vec3("c"), n = nearest(b, c);
  double R = s.radius + core(b), d2 = norm2(c - n);
  double dist = 7;
  Vector3d p, q;
  bool r = QD<Sh>::f(s, pose(Matrix3d::Identity(), c), b, Transform3d::Identity(), &dist, &p, &q);
  cover("run");
  check(decides_le(!r, d2, R * R), "separated exactly when the nearest point of the shape is further from the centre than the radius");
  if (r) {
    check(ge(dist, 0) & eq((dist + R) * (dist + R), d2), "distance");
    check(veq((c - p) * (dist + R), (c - n) * s.radius), "first point: on the sphere towards the nearest point");
    check(veq((q - n) * (dist + R), (c - n) * core(b)), "second point: the nearest point of the shape");
    cover("separated");
  } else check(dist == -1, "not separated: -1");
}
LCV_HARNESS(C08_box_distance, "") { distance_<BoxS>(); }
LCV_HARNESS(C08_capsule_distance, "") { distance_<CapsuleS>(); }
LCV_HARNESS(C08_cylinder_distance, "") { distance_<CylinderS>(); }
// ---- intersection in the frame of the second shape
// the two deepest points are a = c + n r (of the sphere) and a - n depth; the contact position lies between them
static void between(const CP& k, const Vector3d& c, double r) {
  Vector3d a = c + k.normal * r;
  double t = (a - k.pos).dot(k.normal);
  check(ge(t, 0) & le(t, k.penetration_depth), "position between the two deepest points");
  check(veq(k.pos, a - k.normal * t), "position on the line of the normal through the centre");
}
const double EPS = 16 * 2.220446049250313e-16;
// contact seen from outside: the normal points from the centre to the nearest point
static void outside_(const CP& k, const Vector3d& c, const Vector3d& n, double R) {
  double len = R - k.penetration_depth, d2 = norm2(c - n);
  check(ge(len, 0) & eq(len * len, d2), "depth: the radius less the distance of the nearest point");
  check(eq(norm2(k.normal), 1), "unit normal");
  check(veq(k.normal * len, n - c), "normal: from the centre to the nearest point of the shape");
}
LCV_HARNESS(C08_box_intersect, "") {
  SphereS s(nonneg("r"));
  BoxS b = shape<BoxS>("b");
  Vector3d c = vec3("c"), n = nearest(b, c);
  double d2 = norm2(c - n);
  std::vector<CP> cs;
  bool r = fcl::detail::sphereBoxIntersect(s, pose(Matrix3d::Identity(), c), b, Transform3d(Transform3d::Identity()), &cs);
  cover("run");
  check(decides_le(r, d2, s.radius * s.radius), "intersecting exactly when the nearest point of the box is within the radius");
  check(cs.size() == (r ? 1u : 0u), "one contact exactly when intersecting");
  if (r) {
    CP k = cs[0];
    if (d2 > EPS * EPS) { cover("outside"); outside_(k, c, n, s.radius); between(k, c, s.radius); }
    else {
      cover("inside");
      bool some = false;
      for (int i = 0; i < 3; i++) {
        double f = b.side[i] / 2 - std::fabs(c[i]);
        check(le(k.penetration_depth, s.radius + f + EPS), "no face is nearer");
        Vector3d e(0, 0, 0);
        e[i] = c[i] >= 0 ? -1 : 1;
        some = some | (eq(k.penetration_depth, s.radius + f) & veq(k.normal, e));
      }
      check(some, "depth: what moves the sphere out through some face, against the normal");
      between(k, c, s.radius);
    }
  }
}
LCV_HARNESS(C08_cylinder_intersect, "") {
  SphereS s(nonneg("r"));
  CylinderS b = shape<CylinderS>("b");
  Vector3d c = vec3("c"), n = nearest(b, c);
  double d2 = norm2(c - n);
  std::vector<CP> cs;
  bool r = fcl::detail::sphereCylinderIntersect(s, pose(Matrix3d::Identity(), c), b, Transform3d(Transform3d::Identity()), &cs);
  cover("run");
  check(decides_le(r, d2, s.radius * s.radius), "intersecting exactly when the nearest point of the cylinder is within the radius");
  check(cs.size() == (r ? 1u : 0u), "one contact exactly when intersecting");
  if (r) {
    CP k = cs[0];
    if (d2 > EPS * EPS) { cover("outside"); outside_(k, c, n, s.radius); between(k, c, s.radius); }
    else {
      cover("inside");
      double q = std::sqrt(c[0] * c[0] + c[1] * c[1]), f = b.lz / 2 - std::fabs(c[2]), g = b.radius - q;
      Vector3d e(0, 0, c[2] >= 0 ? -1 : 1);
      check(le(k.penetration_depth, s.radius + f + EPS) & le(k.penetration_depth, s.radius + g + 2 * EPS), "neither face nor barrel is nearer");
      bool face = eq(k.penetration_depth, s.radius + f) & veq(k.normal, e);
      bool barrel = eq(k.penetration_depth, s.radius + g) & veq(k.normal * q, Vector3d(-c[0], -c[1], 0)) & eq(norm2(k.normal), 1);
      bool spine = (q <= EPS) & eq(k.penetration_depth, s.radius + b.radius) & veq(k.normal, Vector3d(-1, 0, 0));
      check(face | barrel | spine, "depth: what moves the sphere out through a cap or the barrel, against the normal");
      if (!spine) between(k, c, s.radius);
    }
  }
}
LCV_HARNESS(C08_capsule_intersect, "") {
  SphereS s(nonneg("r"));
  CapsuleS b = shape<CapsuleS>("b");
  Vector3d c = vec3("c"), n = nearest(b, c);
  double R = s.radius + b.radius, d2 = norm2(c - n);
  std::vector<CP> cs;
  bool r = fcl::detail::sphereCapsuleIntersect(s, pose(Matrix3d::Identity(), c), b, Transform3d(Transform3d::Identity()), &cs);
  cover("run");
  check(decides_le(r, d2, R * R), "intersecting exactly when the segment is within the sum of the radii");
  check(cs.size() == (r ? 1u : 0u), "one contact exactly when intersecting");
  if (r) {
    CP k = cs[0];
    if (d2 > 0) { cover("off the segment"); outside_(k, c, n, R); between(k, c, s.radius); }
    else check(eq(k.penetration_depth, R), "depth on the segment");
  }
}
