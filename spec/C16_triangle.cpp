// closestPtSegmentSegment is used through its contract (proved by C16_segment_segment) in the capsule harnesses.
// LCV-REPLACE: closestPtSegmentSegment => stub_segseg
// Nearest points of segments and triangles (sphere_triangle-inl.h, math/detail/project-inl.h, ...)
#include "shapes.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle.h"
#include "fcl/math/detail/project.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/capsule_capsule.h"
#include "query.h"
using namespace lcv;

// the triangle p0 + s e0 + t e1 and the point c: everything the distance depends on
struct Gram { double a00, a01, a11, b0, b1, cc; };
static Gram gram(const Vector3d* P, const Vector3d& c) {
  Vector3d d = P[0] - c, e0 = P[1] - P[0], e1 = P[2] - P[0];
  Gram g;
  g.a00 = norm2(e0); g.a01 = dot(e0, e1); g.a11 = norm2(e1); g.b0 = dot(d, e0); g.b1 = dot(d, e1); g.cc = norm2(d);
  return g;
}
static double Q(const Gram& g, double s, double t) { return s * (g.a00 * s + g.a01 * t + 2 * g.b0) + t * (g.a01 * s + g.a11 * t + 2 * g.b1) + g.cc; }
// the seven candidates for the nearest point (interior, three sides, three corners): the optimality condition of the k-th, its
// place and the squared distance there.  The conditions are exhaustive and sufficient (C16_nearest).
struct Cand { bool opt; double s, t, q; };
static Cand cand(const Gram& g, int k, bool exact = false) {
  double det = g.a00 * g.a11 - g.a01 * g.a01, s0 = g.a01 * g.b1 - g.a11 * g.b0, t0 = g.a01 * g.b0 - g.a00 * g.b1;
  double n = g.a11 + g.b1 - g.a01 - g.b0, d = g.a00 - 2 * g.a01 + g.a11;
#ifdef LCV_NATIVE
  auto le = [=](double a, double b) { return exact ? a <= b : lcv::le(a, b); };
  auto ge = [=](double a, double b) { return le(b, a); };
#endif
  Cand c;
  switch (k) {
    case 0: c.opt = ge(s0, 0) & ge(t0, 0) & le(s0 + t0, det); c.s = s0 * (1 / det); c.t = t0 * (1 / det); c.q = Q(g, c.s, c.t); break;
    case 1: c.opt = le(t0, 0) & le(g.b0, 0) & le(-g.b0, g.a00); c.s = -g.b0 / g.a00; c.t = 0; c.q = g.b0 * c.s + g.cc; break;
    case 2: c.opt = le(s0, 0) & le(g.b1, 0) & le(-g.b1, g.a11); c.s = 0; c.t = -g.b1 / g.a11; c.q = g.b1 * c.t + g.cc; break;
    case 3: c.opt = ge(s0 + t0, det) & ge(n, 0) & le(n, d); c.s = n / d; c.t = 1 - c.s; c.q = Q(g, c.s, c.t); break;
    case 4: c.opt = ge(g.b0, 0) & ge(g.b1, 0); c.s = 0; c.t = 0; c.q = g.cc; break;
    case 5: c.opt = le(g.a00 + g.b0, 0) & ge(g.a01 + g.b1, g.a00 + g.b0); c.s = 1; c.t = 0; c.q = g.a00 + 2 * g.b0 + g.cc; break;
    default: c.opt = le(g.a11 + g.b1, 0) & ge(g.a01 + g.b0, g.a11 + g.b1); c.s = 0; c.t = 1; c.q = g.a11 + 2 * g.b1 + g.cc; break;
  }
  return c;
}
// q is the squared distance to the nearest point
static bool is_min(const Gram& g, double q) {
  bool r = false;
  for (int k = 0; k < 7; k++) { Cand c = cand(g, k); r = r | (c.opt & eq(q, c.q)); }
  return r;
}
// the squared distance to the nearest point is at most q
static bool min_le(const Gram& g, double q) {
  bool r = false;
  for (int k = 0; k < 7; k++) { Cand c = cand(g, k); r = r | (c.opt & le(c.q, q)); }
  return r;
}
static void tri(Vector3d* P, Vector3d& c) {
  P[0] = vec3("P1"); P[1] = vec3("P2"); P[2] = vec3("P3"); c = vec3("c");
  Gram g = gram(P, c);
  double det = g.a00 * g.a11 - g.a01 * g.a01;
#ifdef LCV_NATIVE
  if (boolean("near")) c = P[0] + (P[1] - P[0]) * pm1("u") + (P[2] - P[0]) * pm1("v") + vec3("w") * 0.01;
  assume(det > 1e-3);
#else
  assume(det > 0);
#endif
  lemma(g.a00 >= 0, "a00"); lemma(g.a11 >= 0, "a11"); lemma(g.a00 + g.a11 - 2 * g.a01 >= 0, "d");
  lemma((g.a00 > 0) & (g.a11 > 0), "sides");
  lemma(g.a00 - 2 * g.a01 + g.a11 > 0, "third side");
}
// each optimality condition is sufficient: the candidate is in the triangle and no point of the triangle is nearer
LCV_HARNESS(C16_nearest, "cut=8") {
  Vector3d P[3], c;
  tri(P, c);
  Gram g = gram(P, c);
  int k = __lcv_choice("k", 7);
  Cand m = cand(g, k, true);
  double s = m.s, t = m.t;
  assume(m.opt);
  cover("run");
  check(ge(s, 0) & ge(t, 0) & le(s + t, 1), "in the triangle");
  check(eq(m.q, Q(g, s, t)), "squared distance");
  W<3> w = weights<3>("y");
  double u = w[1], v = w[2], x = u - s, y = v - t;
#ifndef LCV_NATIVE
  double g0 = g.a00 * s + g.a01 * t + g.b0, g1 = g.a01 * s + g.a11 * t + g.b1;
  double det = g.a00 * g.a11 - g.a01 * g.a01, s0 = g.a01 * g.b1 - g.a11 * g.b0, t0 = g.a01 * g.b0 - g.a00 * g.b1;
  if (k == 1) { lemma(eq(g1 * g.a00, -t0) & (g0 == 0), "gradient"); step((g1 * g.a00 == -t0) & (t0 <= 0) & (g.a00 > 0), g1 >= 0, "sign"); }
  if (k == 2) { lemma(eq(g0 * g.a11, -s0) & (g1 == 0), "gradient"); step((g0 * g.a11 == -s0) & (s0 <= 0) & (g.a11 > 0), g0 >= 0, "sign"); }
  if (k == 3) {
    double d = g.a00 - 2 * g.a01 + g.a11;
    lemma(eq(g0, g1) & eq(g0 * d, det - s0 - t0), "gradient");
    double G = __lcv_abs_cut(g0), D = __lcv_abs_cut(d), e = __lcv_abs_cut(det - s0 - t0);
    lemma((e <= 0) & (D > 0) & eq(G * D, e), "names");
    step((e <= 0) & (D > 0) & (G * D == e), G <= 0, "sign");
    double G1 = __lcv_abs_cut(g1), X = __lcv_abs_cut(x), Y = __lcv_abs_cut(y);
    lemma(eq(G, G1) & (X + Y <= 0), "names");
    step((G == G1) & (X + Y <= 0) & (G <= 0), G * X + G1 * Y >= 0, "along the third side");
  }
  lemma(g0 * x + g1 * y >= 0, "variational inequality");
  double f = g.a00 * x * x + 2 * g.a01 * x * y + g.a11 * y * y, h = g.a00 * x + g.a01 * y;
  step(true, f * g.a00 == h * h + det * y * y, "completed square");
  step((f * g.a00 == h * h + det * y * y) & (det > 0) & (g.a00 > 0), f >= 0, "positive form");
  step(true, Q(g, u, v) - Q(g, s, t) == 2 * (g0 * x + g1 * y) + f, "expansion");
#endif
  Vector3d p = P[0] + (P[1] - P[0]) * u + (P[2] - P[0]) * v;
  check(eq(Q(g, u, v), norm2(p - c)), "Q is the squared distance");
  check(le(m.q, Q(g, u, v)), "nearest");
}
// sign facts: what the regions of the plane of the triangle imply at its corners
template <bool PROVE> static void fact(bool b, const char* l) { if (PROVE) lemma(b, l); else assume(b); }
template <bool PROVE> static void regions(const Gram& g, const Vector3d* P, const Vector3d& c) {
#ifndef LCV_NATIVE
  double det = g.a00 * g.a11 - g.a01 * g.a01, s0 = g.a01 * g.b1 - g.a11 * g.b0, t0 = g.a01 * g.b0 - g.a00 * g.b1;
  double n = g.a11 + g.b1 - g.a01 - g.b0, d = g.a00 - 2 * g.a01 + g.a11;
  bool H = (g.a00 > 0) & (g.a11 > 0) & (d > 0) & (det > 0);
  if (PROVE) step(H, imp((s0 < 0) & (t0 < 0) & (g.a00 + g.b0 <= 0), g.a01 + g.b1 >= g.a00 + g.b0), "region 4, corner 1"); else assume(imp((s0 < 0) & (t0 < 0) & (g.a00 + g.b0 <= 0), g.a01 + g.b1 >= g.a00 + g.b0));
  if (PROVE) step(H, imp((s0 < 0) & (t0 < 0) & (g.a11 + g.b1 <= 0), g.a01 + g.b0 >= g.a11 + g.b1), "region 4, corner 2"); else assume(imp((s0 < 0) & (t0 < 0) & (g.a11 + g.b1 <= 0), g.a01 + g.b0 >= g.a11 + g.b1));
  if (PROVE) step(H, imp((s0 < 0) & (t0 >= 0) & (g.b1 >= 0), g.b0 >= 0), "regions 3 and 2, corner 0"); else assume(imp((s0 < 0) & (t0 >= 0) & (g.b1 >= 0), g.b0 >= 0));
  if (PROVE) step(H, imp((s0 < 0) & (t0 >= 0) & (s0 + t0 <= det) & (g.a11 + g.b1 <= 0), g.a01 + g.b0 >= g.a11 + g.b1), "region 3, corner 2"); else assume(imp((s0 < 0) & (t0 >= 0) & (s0 + t0 <= det) & (g.a11 + g.b1 <= 0), g.a01 + g.b0 >= g.a11 + g.b1));
  if (PROVE) step(H, imp((t0 < 0) & (s0 >= 0) & (g.b0 >= 0), g.b1 >= 0), "regions 5 and 6, corner 0"); else assume(imp((t0 < 0) & (s0 >= 0) & (g.b0 >= 0), g.b1 >= 0));
  if (PROVE) step(H, imp((t0 < 0) & (s0 >= 0) & (s0 + t0 <= det) & (g.a00 + g.b0 <= 0), g.a01 + g.b1 >= g.a00 + g.b0), "region 5, corner 1"); else assume(imp((t0 < 0) & (s0 >= 0) & (s0 + t0 <= det) & (g.a00 + g.b0 <= 0), g.a01 + g.b1 >= g.a00 + g.b0));
  if (PROVE) step(H, imp((s0 < 0) & (s0 + t0 > det) & (n >= d), g.a00 + g.b0 <= 0), "region 2, corner 1"); else assume(imp((s0 < 0) & (s0 + t0 > det) & (n >= d), g.a00 + g.b0 <= 0));
  if (PROVE) step(H, imp((t0 < 0) & (s0 + t0 > det) & (n <= 0), g.a11 + g.b1 <= 0), "region 6, corner 2"); else assume(imp((t0 < 0) & (s0 + t0 > det) & (n <= 0), g.a11 + g.b1 <= 0));
  if (PROVE) step(H, imp((s0 >= 0) & (t0 >= 0) & (s0 + t0 > det) & (n <= 0), g.a11 + g.b1 <= 0), "region 1, corner 2"); else assume(imp((s0 >= 0) & (t0 >= 0) & (s0 + t0 > det) & (n <= 0), g.a11 + g.b1 <= 0));
  if (PROVE) step(H, imp((s0 >= 0) & (t0 >= 0) & (s0 + t0 > det) & (n >= d), g.a00 + g.b0 <= 0), "region 1, corner 1"); else assume(imp((s0 >= 0) & (t0 >= 0) & (s0 + t0 > det) & (n >= d), g.a00 + g.b0 <= 0));
  for (int k = 0; k < 7; k++) {
    Cand m = cand(g, k);
    double S = __lcv_abs_cut(m.s), T = __lcv_abs_cut(m.t);
    Vector3d p = P[0] + (P[1] - P[0]) * S + (P[2] - P[0]) * T;
    double l = norm2(p - c);
    if (PROVE) {
      step(true, Q(g, S, T) == l, "squared distance");
      step(true, l >= 0, "square");
      lemma(eq(m.q, Q(g, S, T)), "squared distance");
    }
    fact<PROVE>(m.q >= 0, "squared distance");
  }
  double u = n / d, v = (g.a00 + g.b0 - g.a01 - g.b1) / d;   // the third side from either end
  double U = __lcv_abs_cut(u), V = __lcv_abs_cut(v), D = __lcv_abs_cut(d), N = __lcv_abs_cut(n);
  if (PROVE) {
    lemma((D > 0) & (U * D == N) & (V * D == D - N), "either end");
    step((D > 0) & (U * D == N) & (V * D == D - N), V == 1 - U, "either end");
  }
  fact<PROVE>(eq(v, 1 - u), "either end");
  fact<PROVE>(eq(Q(g, 1 - v, v), Q(g, u, 1 - u)), "either end");
#endif
}
LCV_HARNESS(C16_triangle_regions, "cut=8") {
  Vector3d P[3], c;
  tri(P, c);
  regions<true>(gram(P, c), P, c);
  cover("run");
}
static __attribute__((noinline)) void result(const Gram& g, bool res, double dist, double r) {
  if (res) {
    check(is_min(g, (dist + r) * (dist + r)), "distance: that of the nearest point of the triangle less the radius");
    check(gt(dist, 0), "separated: positive");
  } else {
    check(min_le(g, r * r), "not separated only when the nearest point of the triangle is within the radius");
    check(dist == -1, "-1 in contact");
  }
}
LCV_HARNESS(C16_sphere_triangle_distance, "cut=8") {
  Vector3d P[3], c;
  tri(P, c);
  Gram g = gram(P, c);
  regions<false>(g, P, c);     // proved in C16_triangle_regions
  double r = nonneg("r"), dist = 7;
  bool res = fcl::detail::sphereTriangleDistance(SphereS(r), pose(rot3("any"), c), P[0], P[1], P[2], &dist);
  cover("run");
  result(g, res, dist, r);
}

// ---- segments -----------------------------------------------------------------------------------------------------------
static Vector3d along(const Vector3d& a, const Vector3d& b, double t) { return a + (b - a) * t; }
// if t is optimal on the segment (its slope condition holds) then no other point is nearer
static void segment_lemma(const Vector3d& a, const Vector3d& b, const Vector3d& p, double t, double u) {
#ifndef LCV_NATIVE
  double T = __lcv_abs_cut(t), vv = norm2(b - a), g = T * vv - dot(b - a, p - a);
  step(true, norm2(along(a, b, u) - p) == norm2(along(a, b, T) - p) + (u - T) * (u - T) * vv + 2 * (u - T) * g, "expansion");
  lemma((u - t) * (t * vv - dot(b - a, p - a)) >= 0, "slope");
  lemma((u - T) * (u - T) * vv >= 0, "square");
#endif
}
LCV_HARNESS(C16_segment_point, "cut=8") {
  Vector3d a = vec3("a"), b = vec3("b"), p = vec3("p"), n;
  double u = unit01("u");
  double q = fcl::detail::segmentSqrDistance(a, b, p, n);
  cover("run");
  Vector3d d = b - a;
  double tt = dot(d, p - a), vv = norm2(d);
  segment_lemma(a, b, p, tt <= 0 ? 0 : (tt >= vv ? 1 : tt / vv), u);
  check(eq(q, norm2(n - p)), "squared distance to the nearest point");
  check(le(q, norm2(along(a, b, u) - p)), "no point of the segment is nearer");
  double par = tt <= 0 ? 0 : (tt >= vv ? 1 : tt / vv);
  check(veq(n, along(a, b, par)) & ge(par, 0) & le(par, 1), "on the segment");
}
LCV_HARNESS(C16_project_line, "cut=8") {
  Vector3d a = vec3("a"), b = vec3("b"), p = vec3("p");
  double u = unit01("u");
  assume(norm2(b - a) > 0);
#ifdef LCV_NATIVE
  assume(norm2(b - a) > 1e-3);
#endif
  bool origin = __lcv_choice("origin", 2);
  if (origin) p = Vector3d(0, 0, 0);
  auto r = origin ? fcl::detail::Project<double>::projectLineOrigin(a, b) : fcl::detail::Project<double>::projectLine(a, b, p);
  cover("run");
  double w0 = r.parameterization[0], w1 = r.parameterization[1];
  segment_lemma(a, b, p, w1, u);
  check(ge(w0, 0) & ge(w1, 0) & eq(w0 + w1, 1), "weights");
  check(eq(r.sqr_distance, norm2(along(a, b, w1) - p)), "squared distance to the point with these weights");
  check(le(r.sqr_distance, norm2(along(a, b, u) - p)), "no point of the segment is nearer");
  check((r.encode & ~3u) == 0 && imp(!(r.encode & 1), eq(w0, 0)) & imp(!(r.encode & 2), eq(w1, 0)) && r.encode != 0, "the code names a face that carries the point");
}

// ---- two segments and two capsules --------------------------------------------------------------------------------------
// F(u,v) = a u^2 - 2b uv + e v^2 + 2c u - 2f v + w is the squared distance of the points at u and v
struct Seg2 { double a, b, c, e, f, w; };
static Seg2 seg2(const Vector3d& p1, const Vector3d& q1, const Vector3d& p2, const Vector3d& q2) {
  Vector3d d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2;
  Seg2 g; g.a = norm2(d1); g.b = dot(d1, d2); g.c = dot(d1, r); g.e = norm2(d2); g.f = dot(d2, r); g.w = norm2(r);
  return g;
}
static double F2(const Seg2& g, double u, double v) { return g.a * u * u - 2 * g.b * u * v + g.e * v * v + 2 * g.c * u - 2 * g.f * v + g.w; }
static double tolerance() { double k = fcl::constants<double>::eps_78(); return k * k; }
LCV_HARNESS(C16_segment_segment, "cut=8 real=stub_segseg") {
  Vector3d p1 = vec3("p1"), q1 = vec3("q1"), p2 = vec3("p2"), q2 = vec3("q2"), n1, n2;
  double u = unit01("u"), v = unit01("v");
#ifdef LCV_NATIVE
  if (boolean("par")) q2 = p2 + (q1 - p1) * pm1("k");
  if (boolean("deg1")) q1 = p1;
  if (boolean("deg2")) q2 = p2;
#endif
  Seg2 g = seg2(p1, q1, p2, q2);
  double tol = tolerance(), den = g.a * g.e - g.b * g.b;
  // lengths and angles are zero or above the tolerance of the code
  lemma(den >= 0, "Cauchy-Schwarz");
#ifdef LCV_NATIVE
  assume((g.a == 0) | (g.a > 1e-3)); assume((g.e == 0) | (g.e > 1e-3)); assume((den < 1e-15) | (den > 1e-3));
#else
  assume((g.a == 0) | (g.a > tol)); assume((g.e == 0) | (g.e > tol)); assume((den == 0) | (den > tol));
#endif
  double s = 7, t = 7;
  double q = fcl::detail::closestPtSegmentSegment(p1, q1, p2, q2, &s, &t, &n1, &n2);
  cover("run");
  check(ge(s, 0) & le(s, 1) & ge(t, 0) & le(t, 1), "parameters");
  check(veq(n1, along(p1, q1, s)) & veq(n2, along(p2, q2, t)), "points at the parameters");
  check(eq(q, norm2(n1 - n2)), "squared distance of the points");
#ifndef LCV_NATIVE
  double S = __lcv_abs_cut(s), T = __lcv_abs_cut(t), x = u - S, y = v - T;
  lemma((g.a >= 0) & (g.e >= 0), "squares");
  double num = g.b * g.f - g.c * g.e;
  bool H = (g.a > 0) & (g.e > 0) & (den > 0);
  // where the line of the second segment is left at its start (k=0) or its end (k=1), the first parameter is chosen again
  for (int k = 0; k < 2; k++) {
    double f = k ? g.e - g.f : g.f, b = k ? -g.b : g.b, c = k ? g.c - g.b : g.c, n = b * f - c * g.e;
    step(true, n == num, "same first parameter");
    auto A = [&](bool h, bool r, const char* l) { step(true, imp(H & h, r), l); };
    A((num <= 0) & (f < 0) & (c <= 0), f * g.a - b * c <= 0, "start, inside");
    A((num > 0) & (num < den) & (b * num + f * den < 0), f * g.a - b * c <= 0, "middle, inside");
    A((num >= den) & (b + f < 0) & (g.a + c >= 0), f * g.a - b * c <= 0, "end, inside");
    A((num <= 0) & (f < 0) & (g.a + c <= 0), b + f <= 0, "start, end");
    A((num > 0) & (num < den) & (b * num + f * den < 0) & (g.a + c <= 0), b + f <= 0, "middle, end");
    A((num > 0) & (num < den) & (b * num + f * den < 0) & (c >= 0), f <= 0, "middle, start");
    A((num >= den) & (b + f < 0) & (c >= 0), f <= 0, "end, start");
    A((S * g.a == -c) & (f * g.a - b * c <= 0), b * S + f <= 0, "inside");
    if (den > 0) { double S0 = __lcv_abs_cut(num / den); lemma(S0 * den == num, "first choice"); A((S0 * den == num) & (b * S0 + f < 0), b * num + f * den < 0, "middle"); }
  }
  lemma((s * g.a - t * g.b + g.c) * (u - s) >= 0, "slope along the first");
  lemma((t * g.e - s * g.b - g.f) * (v - t) >= 0, "slope along the second");
  step(true, F2(g, u, v) == F2(g, S, T) + 2 * ((S * g.a - T * g.b + g.c) * x + (T * g.e - S * g.b - g.f) * y) + norm2((q1 - p1) * x - (q2 - p2) * y), "expansion");
  step(true, norm2((q1 - p1) * x - (q2 - p2) * y) >= 0, "square");
  step(true, F2(g, S, T) == norm2(along(p1, q1, S) - along(p2, q2, T)), "F is the squared distance");
#endif
  check(eq(F2(g, u, v), norm2(along(p1, q1, u) - along(p2, q2, v))), "F is the squared distance");
  check(le(q, F2(g, u, v)), "no pair of points is nearer");
}

static Vector3d g_p1, g_q1, g_p2, g_q2, g_n1, g_n2;
static double g_u, g_v, g_s, g_t, g_q;
static bool g_again;
extern "C" double stub_segseg(const Vector3d& p1, const Vector3d& q1, const Vector3d& p2, const Vector3d& q2, double* s, double* t, Vector3d* n1, Vector3d* n2) {
  if (g_again) {  // same arguments, same answer
    check(veq(p1, g_p1) & veq(q1, g_q1) & veq(p2, g_p2) & veq(q2, g_q2), "called with the centre lines again");
    *s = g_s; *t = g_t; *n1 = g_n1; *n2 = g_n2;
    return g_q;
  }
  check(veq(p1, g_p1) & veq(q1, g_q1) & veq(p2, g_p2) & veq(q2, g_q2), "called with the centre lines");
  *s = __lcv_havoc_real("s"); *t = __lcv_havoc_real("t");
  assume((*s >= 0) & (*s <= 1) & (*t >= 0) & (*t <= 1));
  for (int i = 0; i < 3; i++) { (*n1)[i] = __lcv_havoc_real("n1"); (*n2)[i] = __lcv_havoc_real("n2"); }
  assume(veq(*n1, along(p1, q1, *s)) & veq(*n2, along(p2, q2, *t)));
  g_n1 = *n1; g_n2 = *n2;
  double q = __lcv_havoc_real("q");
  assume(q == norm2(*n1 - *n2));
  assume(q <= norm2(along(p1, q1, g_u) - along(p2, q2, g_v)));
  g_s = *s; g_t = *t; g_q = q;
  return q;
}
// the distance and the two points may be asked for one by one
LCV_HARNESS(C16_capsule_capsule_lone, "cut=8") {
  double r1 = nonneg("r1"), l1 = nonneg("l1"), r2 = nonneg("r2"), l2 = nonneg("l2");
  Matrix3d R1 = rot3("R1"), R2 = rot3("R2");
  Vector3d c1 = vec3("c1"), c2 = vec3("c2"), w1, w2, v1, v2;
  g_p1 = c1 + R1.col(2) * (l1 / 2); g_q1 = c1 - R1.col(2) * (l1 / 2);
  g_p2 = c2 + R2.col(2) * (l2 / 2); g_q2 = c2 - R2.col(2) * (l2 / 2);
  double d = 7, e = 7;
  g_u = unit01("u"); g_v = unit01("v");
  CapsuleS a(r1, l1), b(r2, l2);
  g_again = false;
  check(fcl::detail::capsuleCapsuleDistance(a, pose(R1, c1), b, pose(R2, c2), &d, &w1, &w2), "returns true");
  g_again = true;
  int w = __lcv_choice("wanted", 4);
  check(fcl::detail::capsuleCapsuleDistance(a, pose(R1, c1), b, pose(R2, c2), w == 0 ? &e : nullptr, w == 1 ? &v1 : nullptr, w == 2 ? &v2 : nullptr), "returns true");
  g_again = false;
  cover("run");
  if (w == 0) check(eq(d, e), "the distance on its own");
  if (w == 1) check(veq(w1, v1), "the first point on its own");
  if (w == 2) check(veq(w2, v2), "the second point on its own");
}
LCV_HARNESS(C16_capsule_capsule, "cut=8") {
  double r1 = nonneg("r1"), l1 = nonneg("l1"), r2 = nonneg("r2"), l2 = nonneg("l2"), eps = fcl::constants<double>::eps_78(), tol = tolerance();
  Matrix3d R1 = rot3("R1"), R2 = rot3("R2");
  Vector3d c1 = vec3("c1"), c2 = vec3("c2");
#ifdef LCV_NATIVE
  if (boolean("par")) R2 = R1;
  if (boolean("deg1")) l1 = 0;
  if (boolean("cross")) c2 = c1;
#endif
  g_p1 = c1 + R1.col(2) * (l1 / 2); g_q1 = c1 - R1.col(2) * (l1 / 2);
  g_p2 = c2 + R2.col(2) * (l2 / 2); g_q2 = c2 - R2.col(2) * (l2 / 2);
  Seg2 g = seg2(g_p1, g_q1, g_p2, g_q2);
  double den = g.a * g.e - g.b * g.b, dist = 7;
#ifdef LCV_NATIVE
  assume((g.a == 0) | (g.a > 1e-3)); assume((g.e == 0) | (g.e > 1e-3)); assume((den < 1e-15) | (den > 1e-3));
#endif
  g_u = unit01("u"); g_v = unit01("v");
  Vector3d w1, w2;
  check(fcl::detail::capsuleCapsuleDistance(CapsuleS(r1, l1), pose(R1, c1), CapsuleS(r2, l2), pose(R2, c2), &dist, &w1, &w2), "returns true");
  cover("run");
#ifdef LCV_NATIVE
  double s, t;
  fcl::detail::closestPtSegmentSegment(g_p1, g_q1, g_p2, g_q2, &s, &t, &g_n1, &g_n2);
#endif
  double q = norm2(g_n1 - g_n2), d = dist + r1 + r2;
#ifndef LCV_NATIVE
  Vector3d a1 = R1.col(2), a2 = R2.col(2), x = a1.cross(a2);
  step(true, norm2(x) + dot(a1, a2) * dot(a1, a2) == norm2(a1) * norm2(a2), "Lagrange");
  double X = __lcv_abs_cut(norm2(x)), D = __lcv_abs_cut(dot(a1, a2));
  lemma(X + D * D == 1, "unit axes");
  step(X + D * D == 1, imp((D < 1 - eps) & (-D < 1 - eps), X > 0), "crossing axes");
  if (!(d > eps) & ((D < 1 - eps) & (-D < 1 - eps))) {
    lemma(norm2(x) > 0, "crossing axes");
    double L = std::sqrt(norm2(x));
    lemma(L > 0, "length");
    Vector3d y = x / L;
    double Y0 = __lcv_abs_cut(y[0]), Y1 = __lcv_abs_cut(y[1]), Y2 = __lcv_abs_cut(y[2]), LL = __lcv_abs_cut(L);
    lemma((LL * Y0 == x[0]) & (LL * Y1 == x[1]) & (LL * Y2 == x[2]) & (LL * LL == norm2(x)) & (LL > 0), "normalised");
    step((LL * Y0 == x[0]) & (LL * Y1 == x[1]) & (LL * Y2 == x[2]) & (LL * LL == norm2(x)) & (LL > 0), Y0 * Y0 + Y1 * Y1 + Y2 * Y2 == 1, "unit");
    Vector3d e1 = w1 - g_n1, e2 = g_n2 - w2;
    lemma(veq(e1, y * r1) & veq(e2, y * r2), "along the normal of the axes");
  }
#endif
  check(ge(d, 0) & eq(d * d, q), "the distance is that of the nearest points of the centre lines less both radii");
  check(le(q, norm2(along(g_p1, g_q1, g_u) - along(g_p2, g_q2, g_v))), "no points of the centre lines are nearer");
  check(eq(norm2(w1 - g_n1), r1 * r1) & eq(norm2(w2 - g_n2), r2 * r2), "witnesses at radius distance of their centre lines");
  if (d > eps) check(eq(norm2(w2 - w1), dist * dist) & veq((w2 - w1) * d, (g_n2 - g_n1) * dist), "witnesses at the reported signed distance");
}
