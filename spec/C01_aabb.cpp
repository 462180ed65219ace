// Contracts on fcl::AABB (math/bv/AABB-inl.h)
#include "lcv.h"
#include "fcl/math/bv/AABB.h"
using namespace lcv;
typedef fcl::AABB<double> Box;

static Box box(const char* n) {
  Vector3d a = vec3(n), b = vec3(n);
#ifdef LCV_NATIVE
  for (int i = 0; i < 3; i++) if (a[i] > b[i]) std::swap(a[i], b[i]);
#endif
  assume((a[0] <= b[0]) & (a[1] <= b[1]) & (a[2] <= b[2]));
  Box r;
  r.min_ = a; r.max_ = b;
  return r;
}
// p in b up to the comparison tolerance of the mode (conclusions)
static bool in(const Box& b, const Vector3d& p) {
  return le(b.min_[0], p[0]) & le(p[0], b.max_[0]) & le(b.min_[1], p[1]) & le(p[1], b.max_[1]) & le(b.min_[2], p[2]) & le(p[2], b.max_[2]);
}
// exact (hypotheses)
static bool in_s(const Box& b, const Vector3d& p) {
  return (b.min_[0] <= p[0]) & (p[0] <= b.max_[0]) & (b.min_[1] <= p[1]) & (p[1] <= b.max_[1]) & (b.min_[2] <= p[2]) & (p[2] <= b.max_[2]);
}
static double mx(double a, double b) { return a > b ? a : b; }
static double mn(double a, double b) { return a < b ? a : b; }
static Vector3d inside(const Box& b, const char* n) {   // an arbitrary point of b
#ifdef LCV_NATIVE
  Vector3d u(unit01(n), unit01(n), unit01(n));
  return b.min_ + u.cwiseProduct(b.max_ - b.min_);
#else
  Vector3d p = vec3(n);
  assume(in_s(b, p));
  return p;
#endif
}

LCV_HARNESS(C01_overlap, "") {
  Box a = box("a"), b = box("b");
  bool o = a.overlap(b);
  cover("run");
  check(o == b.overlap(a), "overlap is symmetric");
  Vector3d p = vec3("p");
  check(imp(in_s(a, p) & in_s(b, p), o), "boxes sharing a point overlap");
  // conversely, a common point exists: the componentwise maximum of the minima
  Vector3d w(mx(a.min_[0], b.min_[0]), mx(a.min_[1], b.min_[1]), mx(a.min_[2], b.min_[2]));
  check(imp(o, in(a, w) & in(b, w)), "overlapping boxes share a point");
  check(imp(o, (a.axisOverlap(b, 0) & a.axisOverlap(b, 1) & a.axisOverlap(b, 2))), "overlap implies overlap on each axis");
  check(imp((a.axisOverlap(b, 0) & a.axisOverlap(b, 1) & a.axisOverlap(b, 2)), o), "overlap on all axes implies overlap");
}
LCV_HARNESS(C01_overlap_part, "") {
  Box a = box("a"), b = box("b");
  Vector3d p = vec3("p");
  Box c;
  bool o = a.overlap(b, c);
  cover("run");
  check(o == a.overlap(b), "both overlap queries agree");
  check(imp(o, (in_s(a, p) & in_s(b, p)) == in_s(c, p)), "the reported overlap is exactly the set of common points");
}
LCV_HARNESS(C01_contain, "") {
  Box a = box("a"), b = box("b");
  Vector3d p = vec3("p");
  cover("run");
  check(a.contain(p) == in_s(a, p), "point containment");
  bool c = a.contain(b);
  check(imp(c & in_s(b, p), in_s(a, p)), "a contained box has all its points inside");
  check(imp(in_s(a, b.min_) & in_s(a, b.max_), c), "a box whose corners are inside is contained");
}
LCV_HARNESS(C01_merge, "") {
  Box a = box("a"), b = box("b");
  Vector3d p = vec3("p"), q = vec3("q");
  Box s = a + b, t = a, u = a;
  t += b;
  u += q;
  cover("run");
  check(imp(in_s(a, p) | in_s(b, p), in_s(s, p)), "the merge contains every point of both");
  check((s.min_ == t.min_) & (s.max_ == t.max_), "+ and += agree");
  check(imp(in_s(a, p), in_s(u, p)) & in_s(u, q), "adding a point keeps the box and includes the point");
  // tightness: nothing smaller contains both
  Box c = box("c");
  check(imp(in_s(c, a.min_) & in_s(c, a.max_) & in_s(c, b.min_) & in_s(c, b.max_), in_s(c, s.min_) & in_s(c, s.max_)), "the merge is the smallest box containing both");
  check(imp(in_s(c, a.min_) & in_s(c, a.max_) & in_s(c, q), in_s(c, u.min_) & in_s(c, u.max_)), "the extension by a point is the smallest");
}
LCV_HARNESS(C01_distance_witness, "") {
  Box a = box("a"), b = box("b");
  Vector3d P, Q;
  double d = a.distance(b, &P, &Q);
  cover("run");
  check(in(a, P), "witness P lies in this box");
  check(in(b, Q), "witness Q lies in the other box");
  check(eq(norm2(P - Q), d * d), "witness points realise the distance");
  check(le(0, d), "distance is not negative");
}
LCV_HARNESS(C01_distance_min, "") {
  Box a = box("a"), b = box("b");
  Vector3d P, Q;
  double d = a.distance(b), d2 = a.distance(b, &P, &Q), d3 = b.distance(a);
  cover("run");
  check(eq(d, d2) & eq(d, d3), "all distance queries agree");
  Vector3d p = inside(a, "p"), q = inside(b, "q");
  check(le(d * d, norm2(p - q)), "no pair of points is closer than the distance");
  check(imp(a.overlap(b), eq(d, 0)) & (a.overlap(b) | lt(0, d)), "distance is zero exactly when the boxes overlap");
}
LCV_HARNESS(C01_ctor, "") {
  Vector3d a = vec3("a"), b = vec3("b"), c = vec3("c"), p = vec3("p");
  Box x(a), y(a, b), z(a, b, c);
  cover("run");
  check(in_s(x, p) == ((p[0] == a[0]) & (p[1] == a[1]) & (p[2] == a[2])), "box of one point");
  W<2> w2 = weights<2>("w");
  check(in(y, a * w2[0] + b * w2[1]), "box of two points contains their segment");
  W<3> w3 = weights<3>("v");
  check(in(z, a * w3[0] + b * w3[1] + c * w3[2]), "box of three points contains their triangle");
  Box e;
  assume((std::fabs(p[0]) < 1e300) & (std::fabs(p[1]) < 1e300) & (std::fabs(p[2]) < 1e300));  // below the largest double
  check(!e.contain(p), "the default box is empty");
  e += p;
  check((e.min_ == p) & (e.max_ == p), "adding a point to the empty box gives that point");
}
LCV_HARNESS(C01_move, "") {
  Box a = box("a");
  Vector3d t = vec3("t"), p = vec3("p"), d = vec3("d");
  Box b = fcl::translate(a, t), e = a;
  cover("run");
  Vector3d p0 = inside(a, "q");
  check(in(b, p0 + t), "translate moves every point");
  check(eq(b.max_[0] - b.min_[0], a.max_[0] - a.min_[0]) & eq(b.max_[1] - b.min_[1], a.max_[1] - a.min_[1]) & eq(b.max_[2] - b.min_[2], a.max_[2] - a.min_[2]), "translate keeps the size");
  assume((d[0] >= 0) & (d[1] >= 0) & (d[2] >= 0));
  e.expand(d);
  Vector3d s(pm1("s"), pm1("s"), pm1("s"));
  check(in(e, p0 + Vector3d(s[0] * d[0], s[1] * d[1], s[2] * d[2])), "expand contains every displaced point");
  Box f(a, d);
  check(veq(f.min_, e.min_) & veq(f.max_, e.max_), "expanding constructor agrees with expand");
  check(eq(a.width(), a.max_[0] - a.min_[0]) & eq(a.height(), a.max_[1] - a.min_[1]) & eq(a.depth(), a.max_[2] - a.min_[2]), "extents");
  check(eq(a.volume(), (a.max_[0] - a.min_[0]) * (a.max_[1] - a.min_[1]) * (a.max_[2] - a.min_[2])), "volume");
  check(eq(a.size(), (a.max_ - a.min_).squaredNorm()), "size is the squared diagonal");
  Vector3d c = a.center();
  check(eq(c[0] + c[0], a.min_[0] + a.max_[0]) & eq(c[1] + c[1], a.min_[1] + a.max_[1]) & eq(c[2] + c[2], a.min_[2] + a.max_[2]), "center");
  double r = a.radius();
  check(le(0, r) & le(norm2(p0 - c), r * r), "every point is within radius of the center");
  check(a.equal(a), "equal is reflexive");
}
