// How far a shape reaches in a direction (its support function), and membership of a point.
#pragma once
#include "shapes.h"
namespace lcv {
// in the unit direction m of its own frame (all but sphere and capsule: any direction)
inline double rim(const Vector3d& m) { return std::sqrt(m[0] * m[0] + m[1] * m[1]); }
inline double reach(const BoxS& s, const Vector3d& m) { return 0.5 * (std::fabs(m[0] * s.side[0]) + std::fabs(m[1] * s.side[1]) + std::fabs(m[2] * s.side[2])); }
inline double reach(const SphereS& s, const Vector3d&) { return s.radius; }
inline double reach(const EllipsoidS& s, const Vector3d& m) {
  Vector3d q = s.radii.cwiseProduct(m);
  return std::sqrt(norm2(q));
}
inline double reach(const CapsuleS& s, const Vector3d& m) { return std::fabs(m[2]) * (s.lz / 2) + s.radius; }
inline double reach(const CylinderS& s, const Vector3d& m) { return std::fabs(m[2]) * (s.lz / 2) + s.radius * rim(m); }
inline double reach(const ConeS& s, const Vector3d& m) { return std::fmax(m[2] * (s.lz / 2), -m[2] * (s.lz / 2) + s.radius * rim(m)); }
inline double reach(const TriangleS& s, const Vector3d& m) { return std::fmax(dot(m, s.a), std::fmax(dot(m, s.b), dot(m, s.c))); }
// membership
inline bool in(const BoxS& s, const Vector3d& p) { bool r = true; for (int i = 0; i < 3; i++) r = r & le(p[i], s.side[i] / 2) & le(-s.side[i] / 2, p[i]); return r; }
inline bool in(const SphereS& s, const Vector3d& p) { return le(norm2(p), s.radius * s.radius); }
inline bool in(const EllipsoidS& s, const Vector3d& p) { return le(norm2(p.cwiseQuotient(s.radii)), 1); }
inline bool in(const CapsuleS& s, const Vector3d& p) {
  double z = p[2] > s.lz / 2 ? p[2] - s.lz / 2 : (p[2] < -s.lz / 2 ? p[2] + s.lz / 2 : 0);
  return le(p[0] * p[0] + p[1] * p[1] + z * z, s.radius * s.radius);
}
inline bool in(const CylinderS& s, const Vector3d& p) { return le(p[2], s.lz / 2) & le(-s.lz / 2, p[2]) & le(p[0] * p[0] + p[1] * p[1], s.radius * s.radius); }
inline bool in(const ConeS& s, const Vector3d& p) {
  double t = s.radius * (s.lz / 2 - p[2]);
  return le(p[2], s.lz / 2) & le(-s.lz / 2, p[2]) & le((p[0] * p[0] + p[1] * p[1]) * s.lz * s.lz, t * t);
}
// x a + y b <= r |(a,b)| for |(x,y)| <= r
inline void flat(double x, double y, double a, double b, double r) {
#ifndef LCV_NATIVE
  double l = rim(Vector3d(a, b, 0)), t = __lcv_abs_cut(x * a + y * b), w = __lcv_abs_cut(x * b - y * a), X = __lcv_abs_cut(x * x + y * y), A = __lcv_abs_cut(a * a + b * b);
  step(true, (x * a + y * b) * (x * a + y * b) + (x * b - y * a) * (x * b - y * a) == (x * x + y * y) * (a * a + b * b), "Lagrange");
  lemma((t * t + w * w == X * A) & (X <= r * r) & (A == l * l) & (l >= 0), "names");
  step((X <= r * r) & (A == l * l) & (r >= 0) & (l >= 0), X * A <= r * l * (r * l), "product");
  step((t * t + w * w == X * A) & (X * A <= r * l * (r * l)) & (r >= 0) & (l >= 0), t <= r * l, "Cauchy-Schwarz");
#endif
}
}  // namespace lcv
