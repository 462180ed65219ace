// what a k-DOP is: the slabs along these directions (documentation of math/bv/kDOP.h)
#pragma once
#include "lcv.h"
#include "fcl/math/bv/kDOP.h"
namespace lcv {
template <int N> inline double slab(int i, const Vector3d& p) {
  switch (i) {
    case 0: return p[0];
    case 1: return p[1];
    case 2: return p[2];
    case 3: return p[0] + p[1];
    case 4: return p[0] + p[2];
    case 5: return p[1] + p[2];
    case 6: return p[0] - p[1];
    case 7: return p[0] - p[2];
    case 8: return p[1] - p[2];
    case 9: return p[0] + p[1] - p[2];
    case 10: return p[0] + p[2] - p[1];
    default: return p[1] + p[2] - p[0];
  }
}
template <int N> inline bool kin(const fcl::KDOP<double, N>& k, const Vector3d& p) {  // conclusion (tolerant natively)
  bool r = true;
  for (int i = 0; i < N / 2; i++) r = r & le(k.dist(i), slab<N>(i, p)) & le(slab<N>(i, p), k.dist(i + N / 2));
  return r;
}
template <int N> inline bool kin_s(const fcl::KDOP<double, N>& k, const Vector3d& p) {  // hypothesis
  bool r = true;
  for (int i = 0; i < N / 2; i++) r = r & (k.dist(i) <= slab<N>(i, p)) & (slab<N>(i, p) <= k.dist(i + N / 2));
  return r;
}
// a k-DOP around at least one point
template <int N> inline fcl::KDOP<double, N> kdop(const char* n) {
  fcl::KDOP<double, N> k;
#ifdef LCV_NATIVE
  Vector3d p = vec3(n), q = vec3(n), r = vec3(n);
  for (int i = 0; i < N / 2; i++) {
    double a = slab<N>(i, p), b = slab<N>(i, q), c = slab<N>(i, r);
    k.dist(i) = std::min(a, std::min(b, c));
    k.dist(i + N / 2) = std::max(a, std::max(b, c));
  }
#else
  for (int i = 0; i < N / 2; i++) {
    double a = __lcv_real(n), b = __lcv_real(n);
    assume(a <= b);
    k.dist(i) = a;
    k.dist(i + N / 2) = b;
  }
#endif
  return k;
}
inline bool finite3(const Vector3d& p) { return (std::fabs(p[0]) < 1e300) & (std::fabs(p[1]) < 1e300) & (std::fabs(p[2]) < 1e300); }
}  // namespace lcv
