// Contracts on fcl::OBB (math/bv/OBB-inl.h)
// The separating-axis routine is used by overlap() through its contract (proved by the two disjoint_ harnesses).
// LCV-REPLACE: obbDisjointIdEEbRKN5Eigen6Matrix => stub_disjoint
// Quaternion::toRotationMatrix is used through its contract (proved by quat_rotation).
// LCV-REPLACE: QuaternionBase.*toRotationMatrix => stub_torot
// Quaternion(rotation matrix) is used through its contract "not zero" (proved by quat_from_rotation).
// LCV-REPLACE: quaternionbase_assign_implINS_6MatrixIdLi3ELi3E.*3runIN => stub_toquat
// LCV-REPLACE: merge_largedist => stub_large
#include "lcv.h"
#include "fcl/math/bv/OBB.h"
using namespace lcv;
typedef fcl::OBB<double> Box;

static Vector3d pt_in(const Vector3d& e, const char* n) {
#ifdef LCV_NATIVE
  Vector3d u(pm1(n), pm1(n), pm1(n));
  return u.cwiseProduct(e) * (1 - 1e-7);
#else
  Vector3d x = vec3(n);
  for (int i = 0; i < 3; i++) assume((x[i] <= e[i]) & (-e[i] <= x[i]));
  return x;
#endif
}
static Vector3d ext(const char* n) { double a = nonneg(n), b = nonneg(n), c = nonneg(n); return Vector3d(a, b, c); }
static Box obb(const char* n) { Matrix3d A = rot3(n); Vector3d t = vec3(n); return Box(A, t, ext(n)); }

static Vector3d gx, gy;      // ghost: the shared point in the two frames
extern "C" __attribute__((noinline, used)) bool stub_disjoint(const Matrix3d& B, const Vector3d& T, const Vector3d& a, const Vector3d& b) {
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) {
    check(eq(B.col(i).dot(B.col(j)), i == j ? 1.0 : 0.0), "obbDisjoint requires a rotation (columns)");
    check(eq(B.row(i).dot(B.row(j)), i == j ? 1.0 : 0.0), "obbDisjoint requires a rotation (rows)");
  }
  for (int k = 0; k < 3; k++) {
    int i = (k + 1) % 3, j = (k + 2) % 3;
    check(veq(B.col(k), B.col(i).cross(B.col(j))), "obbDisjoint requires a proper rotation");
  }
  bool share = (std::fabs(gx[0]) <= a[0]) & (std::fabs(gx[1]) <= a[1]) & (std::fabs(gx[2]) <= a[2]) &
               (std::fabs(gy[0]) <= b[0]) & (std::fabs(gy[1]) <= b[1]) & (std::fabs(gy[2]) <= b[2]);
  Vector3d Tw = gx - B * gy;
  for (int i = 0; i < 3; i++) lemma(eq(T[i], Tw[i]), "the shared point satisfies x = T + B y");
  bool d = __lcv_havoc_bool("disjoint");
  assume(imp(share, !d));
  return d;
}

template <class F> static void disjoint_sound(F f) {
  Matrix3d B = rot3("B");
  Vector3d a = ext("a"), b = ext("b");
  Vector3d x = pt_in(a, "x"), y = pt_in(b, "y");
  Vector3d T = x - B * y;      // the two boxes share the point x (frame 1) = T + B y
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) {
    absmul(x[k], a[k], B(i, j));
    absmul(y[k], b[k], B(i, j));
  }
  bool d = f(B, T, a, b);
  cover("run");
  check(!d, "boxes sharing a point are not reported disjoint");
}
LCV_HARNESS(C03_disjoint_sound, "real=stub_disjoint") {
  disjoint_sound([](const Matrix3d& B, const Vector3d& T, const Vector3d& a, const Vector3d& b) { return fcl::obbDisjoint(B, T, a, b); });
}
LCV_HARNESS(C03_disjoint_tf_sound, "") {
  disjoint_sound([](const Matrix3d& B, const Vector3d& T, const Vector3d& a, const Vector3d& b) { return fcl::obbDisjoint(pose(B, T), a, b); });
}
// completeness: not disjoint only if each of the 15 axes fails to separate by more than the tolerance; the face axes exactly
template <class F> static void disjoint_faces(F f) {
  Matrix3d B = rot3("B");
  Vector3d a = ext("a"), b = ext("b"), T = vec3("T");
  bool d = f(B, T, a, b);
  const double reps = 1e-5;
  double sb = b[0] + b[1] + b[2], sa = a[0] + a[1] + a[2];
  cover("run");
  for (int i = 0; i < 3; i++) {
    double ra = a[i] + std::fabs(B(i, 0)) * b[0] + std::fabs(B(i, 1)) * b[1] + std::fabs(B(i, 2)) * b[2];
    check(imp(std::fabs(T[i]) > ra + reps * sb, d), "boxes separated along a face normal of the first are reported disjoint");
    double rb = b[i] + std::fabs(B(0, i)) * a[0] + std::fabs(B(1, i)) * a[1] + std::fabs(B(2, i)) * a[2];
    double s = B(0, i) * T[0] + B(1, i) * T[1] + B(2, i) * T[2];
    check(imp(std::fabs(s) > rb + reps * sa, d), "boxes separated along a face normal of the second are reported disjoint");
  }
  int i = __lcv_choice("i", 3), j = __lcv_choice("j", 3);
  int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
  double t = T[i2] * B(i1, j) - T[i1] * B(i2, j);
  double r = a[i1] * std::fabs(B(i2, j)) + a[i2] * std::fabs(B(i1, j)) + b[j1] * std::fabs(B(i, j2)) + b[j2] * std::fabs(B(i, j1));
  check(imp(std::fabs(t) > r + reps * (sa + sb), d), "boxes separated along an edge-edge direction are reported disjoint");
}
LCV_HARNESS(C03_disjoint_complete, "real=stub_disjoint") {
  disjoint_faces([](const Matrix3d& B, const Vector3d& T, const Vector3d& a, const Vector3d& b) { return fcl::obbDisjoint(B, T, a, b); });
}
LCV_HARNESS(C03_disjoint_tf_complete, "") {
  disjoint_faces([](const Matrix3d& B, const Vector3d& T, const Vector3d& a, const Vector3d& b) { return fcl::obbDisjoint(pose(B, T), a, b); });
}
LCV_HARNESS(C03_overlap, "") {
  Box a = obb("a"), b = obb("b");
  gx = pt_in(a.extent, "x");
  gy = pt_in(b.extent, "y");
  b.To = a.To + a.axis * gx - b.axis * gy;      // both boxes contain a.To + a.axis*gx
  cover("run");
  check(a.overlap(b), "boxes sharing a point overlap");
}
LCV_HARNESS(C03_overlap_moved, "") {
  Box a = obb("a"), b = obb("b");
  Matrix3d R = rot3("R");
  gx = pt_in(a.extent, "x");
  gy = pt_in(b.extent, "y");
  Vector3d p = a.To + a.axis * gx;              // in frame 1
  Vector3d q = b.To + b.axis * gy;              // in frame 2
  Vector3d T = p - R * q;
  cover("run");
  check(fcl::overlap(R, T, a, b), "boxes sharing a point after the relative motion overlap");
}
LCV_HARNESS(C03_contain, "") {
  Box a = obb("a");
  Vector3d u = vec3("u");
  Vector3d p = a.To + a.axis * u;
  bool in = (std::fabs(u[0]) <= a.extent[0]) & (std::fabs(u[1]) <= a.extent[1]) & (std::fabs(u[2]) <= a.extent[2]);
  cover("run");
  bool r = a.contain(p);
#ifdef LCV_NATIVE
  double m = std::max(std::fabs(u[0]) - a.extent[0], std::max(std::fabs(u[1]) - a.extent[1], std::fabs(u[2]) - a.extent[2]));
  check(std::fabs(m) < 1e-6 * (1 + u.norm() + a.extent.norm() + a.To.norm()) || r == in, "contain decides membership");
#else
  check(r == in, "contain decides membership");
#endif
  Vector3d t = vec3("t");
  Box b = fcl::translate(a, t);
  check(veq(b.To, a.To + t) & veq(b.extent, a.extent) & veq(b.axis.col(0), a.axis.col(0)) & veq(b.axis.col(1), a.axis.col(1)) & veq(b.axis.col(2), a.axis.col(2)),
        "translate moves the box");
  check(eq(a.width(), 2 * a.extent[0]) & eq(a.height(), 2 * a.extent[1]) & eq(a.depth(), 2 * a.extent[2]), "extents");
  check(eq(a.volume(), 8 * a.extent[0] * a.extent[1] * a.extent[2]) & veq(a.center(), a.To), "volume and centre");
  check(eq(a.size(), norm2(a.extent)), "size");
}
LCV_HARNESS(C03_vertices, "") {
  Box a = obb("a");
  Vector3d v[8];
  fcl::computeVertices(a, v);
  cover("run");
  bool all = true;
  for (int s = 0; s < 8; s++) {
    Vector3d c(s & 1 ? a.extent[0] : -a.extent[0], s & 2 ? a.extent[1] : -a.extent[1], s & 4 ? a.extent[2] : -a.extent[2]);
    Vector3d w = a.To + a.axis * c;
    bool found = false;
    for (int k = 0; k < 8; k++) found = found | veq(v[k], w);
    all = all & found;
  }
  check(all, "computeVertices gives the eight corners");
}
// ---- merging
extern "C" __attribute__((noinline, used)) Matrix3d stub_torot(const Eigen::Quaterniond* q) {
  double n = q->w() * q->w() + q->x() * q->x() + q->y() * q->y() + q->z() * q->z();
  check(eq(n, 1), "toRotationMatrix requires a unit quaternion");
  return rot3("axis");
}
extern "C" __attribute__((noinline, used)) void stub_toquat(Eigen::Quaterniond* q, const Matrix3d& m) {
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) check(eq(m.col(i).dot(m.col(j)), i == j ? 1.0 : 0.0), "quaternion from matrix requires a rotation");
  for (int k = 0; k < 3; k++) check(veq(m.col(k), m.col((k + 1) % 3).cross(m.col((k + 2) % 3))), "quaternion from matrix requires a proper rotation");
  double w = real("qw"), x = real("qx"), y = real("qy"), z = real("qz");
  assume(w * w + x * x + y * y + z * z > 0);
  q->w() = w; q->x() = x; q->y() = y; q->z() = z;
}
LCV_HARNESS(C03_quat_from_rotation, "real=stub_toquat") {
  Matrix3d R = rot3("R");
  lemma(ge(R(0, 0) + R(1, 1) + R(2, 2), -1), "the trace of a rotation is at least -1");
  Eigen::Quaterniond q(R);
  cover("run");
  check(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z() > 0, "not zero");
}
LCV_HARNESS(C03_quat_rotation, "real=stub_torot") {
  double q[4];
#ifdef LCV_NATIVE
  __lcv_gen_unit(4, q, "q");
#else
  for (int i = 0; i < 4; i++) q[i] = real("q");
  assume(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] == 1);
#endif
  Eigen::Quaterniond Q(q[0], q[1], q[2], q[3]);
  Matrix3d R = Q.toRotationMatrix();
  cover("run");
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) {
    check(eq(R.col(i).dot(R.col(j)), i == j ? 1.0 : 0.0), "columns orthonormal");
    check(eq(R.row(i).dot(R.row(j)), i == j ? 1.0 : 0.0), "rows orthonormal");
  }
  for (int k = 0; k < 3; k++) check(veq(R.col(k), R.col((k + 1) % 3).cross(R.col((k + 2) % 3))), "proper");
}
// point k of the 16 corners of a and b
static Vector3d corner(const Box& a, const Box& b, int k) {
  const Box& o = k < 8 ? a : b;
  Vector3d c(k & 1 ? o.extent[0] : -o.extent[0], k & 2 ? o.extent[1] : -o.extent[1], k & 4 ? o.extent[2] : -o.extent[2]);
  return o.To + o.axis * c;
}
// all points of a box satisfy a linear bound as soon as its corners do
LCV_HARNESS(C03_corners_bound_box, "") {
  double f = real("f"), M = real("M");
  Vector3d c = vec3("c"), e = ext("e");
  Vector3d u = pt_in(e, "u");
  bool h = true;
  for (int k = 0; k < 8; k++) h = h & (f + (k & 1 ? c[0] * e[0] : -c[0] * e[0]) + (k & 2 ? c[1] * e[1] : -c[1] * e[1]) + (k & 4 ? c[2] * e[2] : -c[2] * e[2]) <= M);
#ifdef LCV_NATIVE
  M = f + std::fabs(c[0]) * e[0] + std::fabs(c[1]) * e[1] + std::fabs(c[2]) * e[2];
#else
  assume(h);
#endif
  cover("run");
  for (int i = 0; i < 3; i++) absmul(u[i], e[i], c[i]);
  check(le(f + dot(c, u), M), "point");
}
extern "C" __attribute__((noinline, used)) Box stub_large(const Box& a, const Box&) {
  check(false, "boxes whose centres are near are merged by averaging their frames");
  assume(false);
  return a;
}
LCV_HARNESS(C03_merge_near, "merge=1 prune=none") {
  Box a = obb("a"), b = obb("b");
  Vector3d d = a.To - b.To;
  double ma = std::max(a.extent[0], std::max(a.extent[1], a.extent[2])), mb = std::max(b.extent[0], std::max(b.extent[1], b.extent[2]));
#ifdef LCV_NATIVE
  if (d.norm() > 1.9 * (ma + mb)) { a.To = b.To + d * (1.9 * (ma + mb) / d.norm()); d = a.To - b.To; }
#endif
  assume(norm2(d) <= 4 * (ma + mb) * (ma + mb));
  Box m = a;
  m += b;      // operator += calls operator +
  cover("run");
  int k = __lcv_choice("corner", 16);
  Vector3d v = corner(a, b, k) - m.To;
  for (int i = 0; i < 3; i++) {
    check(le(v.dot(m.axis.col(i)), m.extent[i]), "every corner of both boxes is inside the merged box (upper)");
    check(le(-m.extent[i], v.dot(m.axis.col(i))), "every corner of both boxes is inside the merged box (lower)");
  }
}
LCV_HARNESS(C03_extend_near, "merge=1 prune=none") {
  Box a = obb("a");
  Vector3d p = vec3("p");
  Vector3d d = p - a.To;
  double ma = std::max(a.extent[0], std::max(a.extent[1], a.extent[2]));
#ifdef LCV_NATIVE
  if (d.norm() > 1.9 * ma) { p = a.To + d * (1.9 * ma / d.norm()); d = p - a.To; }
#endif
  assume(norm2(d) <= 4 * ma * ma);
  Box m = a;
  m += p;
  cover("run");
  int k = __lcv_choice("corner", 9);
  Vector3d v = (k == 8 ? p : corner(a, a, k)) - m.To;
  for (int i = 0; i < 3; i++) {
    check(le(v.dot(m.axis.col(i)), m.extent[i]), "the point and every corner are inside the extended box (upper)");
    check(le(-m.extent[i], v.dot(m.axis.col(i))), "the point and every corner are inside the extended box (lower)");
  }
}
