// what each primitive shape is (documentation of geometry/shape/*.h), as generators of an arbitrary point of it (in its own frame)
#pragma once
#include "lcv.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/sphere.h"
#include "fcl/geometry/shape/ellipsoid.h"
#include "fcl/geometry/shape/capsule.h"
#include "fcl/geometry/shape/cone.h"
#include "fcl/geometry/shape/cylinder.h"
#include "fcl/geometry/shape/convex.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/geometry/shape/plane.h"
#include "fcl/geometry/shape/triangle_p.h"
#include "fcl/geometry/shape/utility.h"
namespace lcv {
typedef fcl::Box<double> BoxS;
typedef fcl::Sphere<double> SphereS;
typedef fcl::Ellipsoid<double> EllipsoidS;
typedef fcl::Capsule<double> CapsuleS;
typedef fcl::Cone<double> ConeS;
typedef fcl::Cylinder<double> CylinderS;
typedef fcl::Halfspace<double> HalfspaceS;
typedef fcl::Plane<double> PlaneS;
typedef fcl::TriangleP<double> TriangleS;
// natively: slightly inside, so that rounding does not matter
#ifdef LCV_NATIVE
static const double SHR = 1 - 1e-7;
#else
static const double SHR = 1;
#endif
// point of the box |x_i| <= e_i
inline Vector3d inbox(const Vector3d& e, const char* n) {
#ifdef LCV_NATIVE
  double a = pm1(n), b = pm1(n), c = pm1(n);
  return Vector3d(a, b, c).cwiseProduct(e) * SHR;
#else
  Vector3d x = vec3(n);
  for (int i = 0; i < 3; i++) assume((x[i] <= e[i]) & (-e[i] <= x[i]));
  return x;
#endif
}
// point of the disk x^2+y^2 <= r^2 (z = 0)
inline Vector3d indisk(double r, const char* n) {
#ifdef LCV_NATIVE
  double v[3];
  __lcv_gen_unit(2, v, n);
  double s = unit01(n) * SHR;
  return Vector3d(v[0] * r * s, v[1] * r * s, 0);
#else
  double x = real(n), y = real(n);
  assume(x * x + y * y <= r * r);
  // consequences, for the linear reasoning
  assume((x <= r) & (-r <= x) & (y <= r) & (-r <= y));
  return Vector3d(x, y, 0);
#endif
}
inline Vector3d inball3(double r, const char* n) {
  Vector3d v = inball(n, r);
#ifdef LCV_NATIVE
  return v * SHR;
#else
  for (int i = 0; i < 3; i++) assume((v[i] <= r) & (-r <= v[i]));   // consequences of |v| <= r
  return v;
#endif
}
inline Vector3d pt(const BoxS& s, const char* n) { return inbox(s.side * 0.5, n); }
inline Vector3d pt(const SphereS& s, const char* n) { return inball3(s.radius, n); }
inline Vector3d pt(const EllipsoidS& s, const char* n) { Vector3d u = inball3(1, n); return s.radii.cwiseProduct(u); }
inline double inseg(double h, const char* n) {
#ifdef LCV_NATIVE
  return pm1(n) * h * SHR;
#else
  double z = real(n);
  assume((z <= h) & (-h <= z));
  return z;
#endif
}
static Vector3d gball;     // ghost: the ball part of the last capsule point
inline Vector3d pt(const CapsuleS& s, const char* n) { double z = inseg(s.lz / 2, n); gball = inball3(s.radius, n); return Vector3d(0, 0, z) + gball; }
inline Vector3d pt(const CylinderS& s, const char* n) { double z = inseg(s.lz / 2, n); return Vector3d(0, 0, z) + indisk(s.radius, n); }
inline Vector3d pt(const ConeS& s, const char* n) {
  double t = unit01(n);      // 0: apex (top), 1: base
  return Vector3d(0, 0, s.lz / 2 - t * s.lz) + indisk(t * s.radius, n);
}
inline Vector3d pt(const TriangleS& s, const char* n) { W<3> w = weights<3>(n); return s.a * w[0] + s.b * w[1] + s.c * w[2]; }
inline Vector3d pt(const HalfspaceS& s, const char* n) {
  Vector3d p = vec3(n);
#ifdef LCV_NATIVE
  double e = dot(s.n, p) - s.d;
  if (e > -1e-7) p -= s.n * (e + 1e-7);
#else
  assume(dot(s.n, p) <= s.d);
#endif
  return p;
}
inline Vector3d pt(const PlaneS& s, const char* n) {
  Vector3d p = vec3(n);
#ifdef LCV_NATIVE
  p -= s.n * (dot(s.n, p) - s.d);
#else
  assume(dot(s.n, p) == s.d);
#endif
  return p;
}
inline BoxS mk(BoxS*, const char* n) { double a = nonneg(n), b = nonneg(n), c = nonneg(n); return BoxS(a, b, c); }
inline SphereS mk(SphereS*, const char* n) { return SphereS(nonneg(n)); }
inline EllipsoidS mk(EllipsoidS*, const char* n) { double a = nonneg(n), b = nonneg(n), c = nonneg(n); return EllipsoidS(a, b, c); }
inline CapsuleS mk(CapsuleS*, const char* n) { double r = nonneg(n), l = nonneg(n); return CapsuleS(r, l); }
inline ConeS mk(ConeS*, const char* n) { double r = nonneg(n), l = nonneg(n); return ConeS(r, l); }
inline CylinderS mk(CylinderS*, const char* n) { double r = nonneg(n), l = nonneg(n); return CylinderS(r, l); }
inline TriangleS mk(TriangleS*, const char* n) { Vector3d a = vec3(n), b = vec3(n), c = vec3(n); return TriangleS(a, b, c); }
inline HalfspaceS mk(HalfspaceS*, const char* n) { HalfspaceS h; h.n = unit3(n); h.d = real(n); return h; }
inline PlaneS mk(PlaneS*, const char* n) { PlaneS h; h.n = unit3(n); h.d = real(n); return h; }
template <class T> inline T shape(const char* n) { return mk((T*)nullptr, n); }
// a unit normal for which axis-aligned and diagonal special cases are reached by random execution, too
inline Vector3d special_unit(const char* n) {
#ifdef LCV_NATIVE
  double v[3];
  for (int i = 0; i < 3; i++) { double a = __lcv_real(n); v[i] = a > 0.35 ? 1 : (a < -0.35 ? -1 : 0); }
  if (!v[0] && !v[1] && !v[2]) v[0] = 1;
  return Vector3d(v[0], v[1], v[2]).normalized();
#else
  return unit3(n);
#endif
}
}  // namespace lcv
