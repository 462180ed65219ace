// Contracts on the exact triangle-triangle test of mesh collision (narrowphase/detail/traversal/collision/intersect-inl.h)
// The overloads with a pose are checked to pass on the moved triangle.
// LCV-REPLACE: 20computeDeepestPoints => stub_deepest
// LCV-REPLACE: IntersectIdE18intersect_TriangleERKN5Eigen6MatrixIdLi3ELi1ELi0ELi3ELi1EEES7_S7_S7_S7_S7_PS5_PjPdS8_ => stub_tri
#include "shapes.h"
#include "fcl/narrowphase/detail/traversal/collision/intersect.h"
using namespace lcv;
typedef fcl::detail::Intersect<double> I;

// the projections on ax are strictly apart
static bool separated(const Vector3d& ax, const Vector3d* P, const Vector3d* Q) {
  double p[3], q[3];
  for (int i = 0; i < 3; i++) { p[i] = ax.dot(P[i]); q[i] = ax.dot(Q[i]); }
  double mn1 = std::min(p[0], std::min(p[1], p[2])), mx1 = std::max(p[0], std::max(p[1], p[2]));
  double mn2 = std::min(q[0], std::min(q[1], q[2])), mx2 = std::max(q[0], std::max(q[1], q[2]));
  return (mn1 > mx2) | (mn2 > mx1);
}
// the k-th of the directions that decide: normals, cross products of edges, in-plane normals of the edges
static Vector3d axis(int k, const Vector3d* P, const Vector3d* Q) {
  Vector3d e[3], f[3];
  for (int i = 0; i < 3; i++) { e[i] = P[(i + 1) % 3] - P[i]; f[i] = Q[(i + 1) % 3] - Q[i]; }
  Vector3d n = e[0].cross(e[1]), m = f[0].cross(f[1]);
  if (k == 0) return n;
  if (k == 1) return m;
  if (k < 11) return e[(k - 2) / 3].cross(f[(k - 2) % 3]);
  if (k < 14) return e[k - 11].cross(n);
  return f[k - 14].cross(m);
}
static void two(Vector3d* P, Vector3d* Q) {
  for (int i = 0; i < 3; i++) { P[i] = vec3("P"); Q[i] = vec3("Q"); }
#ifdef LCV_NATIVE
  if (boolean("near")) { Vector3d o = P[0] - Q[0] + (P[1] - P[0]) * unit01("s") * 1.2; for (int i = 0; i < 3; i++) Q[i] += o; }
  if (boolean("coplanar")) for (int i = 0; i < 3; i++) P[i][2] = Q[i][2] = 1;
#endif
}
struct Rec { Vector3d P[3], Q[3], *c, *nrm; unsigned* num; double* d; bool r; int calls; };
static Rec rec;
extern "C" bool stub_tri(const Vector3d& p1, const Vector3d& p2, const Vector3d& p3, const Vector3d& q1, const Vector3d& q2, const Vector3d& q3, Vector3d* c, unsigned* num, double* d, Vector3d* n) {
  rec.P[0] = p1; rec.P[1] = p2; rec.P[2] = p3; rec.Q[0] = q1; rec.Q[1] = q2; rec.Q[2] = q3;
  rec.c = c; rec.num = num; rec.d = d; rec.nrm = n; rec.r = __lcv_havoc_bool("r"); rec.calls++;
  return rec.r;
}
LCV_HARNESS(C10_decides, "real=stub_tri") {
  Vector3d P[3], Q[3];
  two(P, Q);
  Vector3d p[3], q[3];
  for (int i = 0; i < 3; i++) { p[i] = P[i] - P[0]; q[i] = Q[i] - P[0]; }
  bool r = I::intersect_Triangle(P[0], P[1], P[2], Q[0], Q[1], Q[2]);
  cover("run");
  bool s = false;
  for (int k = 0; k < 17; k++) s = s | separated(axis(k, P, Q), p, q);
  check(r == !s, "disjoint exactly when one of the directions separates");
}

// strictly apart along a direction: no common point
LCV_HARNESS(C10_separation, "") {
  Vector3d P[3], Q[3], ax = vec3("ax");
  two(P, Q);
  W<3> u = weights<3>("u"), v = weights<3>("v");
  Vector3d x = P[0] * u[0] + P[1] * u[1] + P[2] * u[2], y = Q[0] * v[0] + Q[1] * v[1] + Q[2] * v[2];
  double p[3], q[3];
  for (int i = 0; i < 3; i++) { p[i] = __lcv_abs_cut(ax.dot(P[i])); q[i] = __lcv_abs_cut(ax.dot(Q[i])); }
  double mn1 = std::min(p[0], std::min(p[1], p[2])), mx1 = std::max(p[0], std::max(p[1], p[2]));
  double mn2 = std::min(q[0], std::min(q[1], q[2])), mx2 = std::max(q[0], std::max(q[1], q[2]));
  cover("run");
#ifndef LCV_NATIVE
  for (int i = 0; i < 3; i++) {
    step((u[i] >= 0) & (mn1 <= p[i]) & (mx1 >= p[i]), (u[i] * mn1 <= u[i] * p[i]) & (u[i] * mx1 >= u[i] * p[i]), "weighted");
    step((v[i] >= 0) & (mn2 <= q[i]) & (mx2 >= q[i]), (v[i] * mn2 <= v[i] * q[i]) & (v[i] * mx2 >= v[i] * q[i]), "weighted");
  }
  double X = u[0] * p[0] + u[1] * p[1] + u[2] * p[2], Y = v[0] * q[0] + v[1] * q[1] + v[2] * q[2];
  lemma((mn1 <= X) & (X <= mx1) & (mn2 <= Y) & (Y <= mx2), "projections");
  lemma(eq(X, dot(ax, x)) & eq(Y, dot(ax, y)), "names");
  check(imp((mn1 > mx2) | (mn2 > mx1), dot(ax, x - y) != 0), "no common point");
#endif
}
LCV_HARNESS(C10_poses, "") {
  Vector3d P[3], Q[3], M[3];
  two(P, Q);
  Matrix3d R = rot3("R");
  Vector3d T = vec3("T"), c[2], nrm;
  unsigned num = 0;
  double d = 0;
  bool tf = split(boolean("tf")), con = split(boolean("contacts"));
  for (int j = 0; j < 3; j++) M[j] = R * Q[j] + T;
  Vector3d* cp = con ? c : nullptr; unsigned* np = con ? &num : nullptr; double* dp = con ? &d : nullptr; Vector3d* nn = con ? &nrm : nullptr;
  rec.calls = 0;
  bool r = tf ? I::intersect_Triangle(P[0], P[1], P[2], Q[0], Q[1], Q[2], pose(R, T), cp, np, dp, nn) : I::intersect_Triangle(P[0], P[1], P[2], Q[0], Q[1], Q[2], R, T, cp, np, dp, nn);
  cover("run");
#ifdef LCV_NATIVE
  unsigned num2 = 0; double d2 = 0; Vector3d c2[2], nrm2;
  bool r2 = I::intersect_Triangle(P[0], P[1], P[2], M[0], M[1], M[2], con ? c2 : nullptr, con ? &num2 : nullptr, con ? &d2 : nullptr, con ? &nrm2 : nullptr);
  if (r != r2) { Vector3d e = vec3("e") * 1e-7; bool same = true; for (int k = 0; k < 4; k++) { Vector3d o = (k & 1 ? e : Vector3d(-e)); same = same & (I::intersect_Triangle(P[0] + o, P[1] + o, P[2] + o, M[0], M[1], M[2]) == r2); } check(!same, "the answer"); }
  if (r && r2 && con && norm2((P[1] - P[0]).cross(P[2] - P[0])) > 1e-3 && norm2((Q[1] - Q[0]).cross(Q[2] - Q[0])) > 1e-3) check(eq(d, d2), "the contacts");
#else
  check(rec.calls == 1, "one test");
  check(r == rec.r, "the answer");
  check((rec.c == cp) & (rec.num == np) & (rec.d == dp) & (rec.nrm == nn), "the contacts");
  for (int i = 0; i < 3; i++) check(veq(rec.P[i], P[i]) & veq(rec.Q[i], M[i]), "of the first and the moved second triangle");
#endif
}
// ---- contacts: computeDeepestPoints of a triangle against a plane, and its use
struct Deep { Vector3d p[3], out[3]; const Vector3d* at; Vector3d n; double t, d; unsigned num, given; };
static Deep deep[2];
static int ndeep;
static double behind(const Vector3d& n, double t, const Vector3d& p) { return -(n.dot(p) - t); }
extern "C" void stub_deepest(Vector3d* pts, unsigned given, const Vector3d& n, double t, double* depth, Vector3d* out, unsigned* num) {
  Deep& k = deep[ndeep < 2 ? ndeep : 1];
  ndeep++;
  k.given = given; k.n = n; k.t = t;
  k.d = __lcv_havoc_real("depth"); k.num = (unsigned)__lcv_choice("num", 4);
  for (int i = 0; i < 3; i++) { k.p[i] = pts[i]; for (int j = 0; j < 3; j++) k.out[i][j] = __lcv_havoc_real("out"); }
  *depth = k.d; *num = k.num;
  for (unsigned i = 0; i < k.num; i++) out[i] = k.out[i];
}
LCV_HARNESS(C10_deepest, "real=stub_deepest") {
  Vector3d P[3], out[3], n = vec3("n");
  for (int i = 0; i < 3; i++) P[i] = vec3("P");
  double t = real("t"), depth = 0, a[3];
  unsigned num = 7;
  I::computeDeepestPoints(P, 3, n, t, &depth, out, &num);
  for (int i = 0; i < 3; i++) a[i] = behind(n, t, P[i]);
#ifndef LCV_NATIVE
  for (int i = 0; i < 3; i++) assume((a[i] < 1e300) & (a[i] > -1e300));
#endif
  double A = std::max(a[0], std::max(a[1], a[2])), B = std::min(a[0], std::min(a[1], a[2]));
  cover("run");
  check(eq(depth, A), "the depth of the deepest corner");
  check(num <= 3, "at most three");
#ifndef LCV_NATIVE
  check(imp((A >= 0) & (B <= 0), num >= 1), "at least one when the triangle meets the plane");
#endif
  for (unsigned i = 0; i < 3; i++) {
    if (i < num) {
      bool ok = false;
      for (int j = 0; j < 3; j++) ok = ok | (veq(out[i], P[j]) & ge(a[j], A - 1e-6));
      check(ok, "corners at the depth of the deepest");
    }
  }
}
LCV_HARNESS(C10_contacts, "real=stub_tri prune=none") {
  Vector3d P[3], Q[3], c[2] = {Vector3d(0, 0, 0), Vector3d(0, 0, 0)}, nrm(0, 0, 0);
  two(P, Q);
  Vector3d N = (P[1] - P[0]).cross(P[2] - P[0]), M = (Q[1] - Q[0]).cross(Q[2] - Q[0]);
#ifdef LCV_NATIVE
  assume((norm2(N) > 1e-3) & (norm2(M) > 1e-3));
#else
  assume((norm2(N) > 0) & (norm2(M) > 0));
#endif
  unsigned num = 7;
  double d = 0;
  ndeep = 0;
  bool r = I::intersect_Triangle(P[0], P[1], P[2], Q[0], Q[1], Q[2], c, &num, &d, &nrm);
  if (r) {
    cover("run");
    Vector3d n = N / std::sqrt(norm2(N)), m = M / std::sqrt(norm2(M));
#ifdef LCV_NATIVE
    double a[3], b[3];
    for (int i = 0; i < 3; i++) { a[i] = behind(m, m.dot(Q[0]), P[i]); b[i] = behind(n, n.dot(P[0]), Q[i]); }
    double A = std::max(a[0], std::max(a[1], a[2])), B = std::max(b[0], std::max(b[1], b[2]));
    check(eq(d, std::min(A, B)), "depth: the smaller of the depths of either triangle behind the plane of the other");
    bool first = veq(nrm, n) & ge(A, B), second = veq(nrm, -m) & le(A, B);
    check(first | second, "normal of that plane, from the first triangle to the second");
    check((num == 1) | (num == 2), "one or two contacts");
    for (unsigned i = 0; i < 2; i++) {
      bool okq = false, okp = false;
      for (int j = 0; j < 3; j++) { okq = okq | (veq(c[i], Q[j]) & ge(b[j], B - 1e-6)); okp = okp | (veq(c[i], P[j]) & ge(a[j], A - 1e-6)); }
      if (i < num) check((veq(nrm, n) & okq) | (veq(nrm, -m) & okp), "the contacts are the corners that reach that depth");
    }
#else
    check(ndeep == 2, "depths of both triangles");
    int iq = split(veq(deep[0].n, n)) ? 0 : 1;
    Deep &q = deep[iq], &p = deep[1 - iq];
    check((q.given == 3) & (p.given == 3), "all corners");
    check(veq(q.n, n) & veq(p.n, m), "planes of the triangles");
    for (int i = 0; i < 3; i++) check(eq(behind(q.n, q.t, q.p[i]), behind(n, n.dot(P[0]), Q[i])) & eq(behind(p.n, p.t, p.p[i]), behind(m, m.dot(Q[0]), P[i])) & veq(q.p[i], Q[i]) & veq(p.p[i], P[i]), "of the second behind the first and of the first behind the second");
    bool useq = split(q.d < p.d);
    check(imp(q.d == p.d, !useq) & eq(d, useq ? q.d : p.d), "depth: the smaller of the depths of either triangle behind the plane of the other");
    check(veq(nrm, useq ? n : Vector3d(-m)), "normal of that plane, from the first triangle to the second");
    Deep& w = useq ? q : p;
    check(num == (w.num < 2 ? w.num : 2), "one or two contacts");
    for (unsigned i = 0; i < 2; i++) if (i < num) check(veq(c[i], w.out[i]), "the contacts are the corners that reach that depth");
#endif
  }
}
// triangles that are not apart along their normals: either meets the plane of the other (so there is a contact)
LCV_HARNESS(C10_meets, "") {
  Vector3d P[3], Q[3];
  two(P, Q);
  Vector3d N = (P[1] - P[0]).cross(P[2] - P[0]);
#ifdef LCV_NATIVE
  assume(norm2(N) > 1e-3);
#else
  assume(norm2(N) > 0);
#endif
  assume(!separated(axis(0, P, Q), P, Q));
  Vector3d n;
  double t;
  bool ok = I::buildTrianglePlane(P[0], P[1], P[2], &n, &t);
  cover("run");
  check(ok, "a triangle with an area has a plane");
  double l = std::sqrt(norm2(N)), b[3], h[3];
  check(veq(n * l, N) & eq(t, n.dot(P[0])), "its plane");
  for (int i = 0; i < 3; i++) { b[i] = behind(n, t, Q[i]); h[i] = -N.dot(Q[i] - P[0]); }
#ifndef LCV_NATIVE
  for (int i = 0; i < 3; i++) step((n[0] * l == N[0]) & (n[1] * l == N[1]) & (n[2] * l == N[2]) & (t == n.dot(P[0])), b[i] * l == h[i], "height");
  for (int i = 0; i < 3; i++) { double x = __lcv_abs_cut(b[i]), y = __lcv_abs_cut(h[i]); lemma((x * l == y) & (l > 0), "names"); step((x * l == y) & (l > 0), imp(y >= 0, x >= 0) & imp(y <= 0, x <= 0), "sign"); }
  lemma((h[0] >= 0) | (h[1] >= 0) | (h[2] >= 0), "above"); lemma((h[0] <= 0) | (h[1] <= 0) | (h[2] <= 0), "below");
#endif
  check(ge(b[0], 0) | ge(b[1], 0) | ge(b[2], 0), "reaches behind it");
  check(le(b[0], 0) | le(b[1], 0) | le(b[2], 0), "reaches before it");
}
