// Contracts on fcl::KDOP<double, 16 | 18 | 24> (math/bv/kDOP-inl.h)
#include "kdop_spec.h"
using namespace lcv;

template <int N> static void overlap_() {
  auto a = kdop<N>("a"), b = kdop<N>("b");
  bool o = a.overlap(b);
  cover("run");
  check(o == b.overlap(a), "overlap is symmetric");
  Vector3d p = vec3("p");
  check(imp(kin_s<N>(a, p) & kin_s<N>(b, p), o), "k-DOPs sharing a point overlap");
  // exactness per slab: not overlapping means some slab separates; overlapping means none does
  bool sep = false;
  for (int i = 0; i < N / 2; i++) sep = sep | (a.dist(i) > b.dist(i + N / 2)) | (b.dist(i) > a.dist(i + N / 2));
  check(o == !sep, "overlap is reported exactly when no slab separates");
}
template <int N> static void inside_() {
  auto a = kdop<N>("a");
  Vector3d p = vec3("p");
  bool r = a.inside(p);
  cover("run");
  check(r == kin_s<N>(a, p), "inside tests exactly the slabs");
}
template <int N> static void merge_() {
  auto a = kdop<N>("a"), b = kdop<N>("b");
  Vector3d p = vec3("p"), q = vec3("q");
  auto s = a + b;
  auto t = a;
  t += b;
  auto u = a;
  u += q;
  cover("run");
  check(imp(kin_s<N>(a, p) | kin_s<N>(b, p), kin_s<N>(s, p) & kin_s<N>(t, p)), "the merge contains every point of both");
  check(imp(kin_s<N>(a, p), kin_s<N>(u, p)) & kin<N>(u, q), "adding a point keeps all points and includes the new one");
  auto c = kdop<N>("c");
  bool cov = true, tight = true, covq = true, tq = true;
  for (int i = 0; i < N / 2; i++) {
    cov = cov & (c.dist(i) <= a.dist(i)) & (c.dist(i) <= b.dist(i)) & (c.dist(i + N / 2) >= a.dist(i + N / 2)) & (c.dist(i + N / 2) >= b.dist(i + N / 2));
    tight = tight & (c.dist(i) <= s.dist(i)) & (c.dist(i + N / 2) >= s.dist(i + N / 2));
    covq = covq & (c.dist(i) <= a.dist(i)) & (c.dist(i) <= slab<N>(i, q)) & (c.dist(i + N / 2) >= a.dist(i + N / 2)) & (c.dist(i + N / 2) >= slab<N>(i, q));
    tq = tq & (c.dist(i) <= u.dist(i)) & (c.dist(i + N / 2) >= u.dist(i + N / 2));
  }
  check(imp(cov, tight), "the merge is the smallest k-DOP containing both");
  check(imp(covq, tq), "the extension by a point is the smallest");
}
template <int N> static void ctor_() {
  Vector3d a = vec3("a"), b = vec3("b"), p = vec3("p");
  fcl::KDOP<double, N> x(a), y(a, b), e;
  assume(finite3(p));
  cover("run");
  check(kin<N>(x, a), "k-DOP of one point contains it");
  bool one = true;
  for (int i = 0; i < N / 2; i++) one = one & eq(x.dist(i), x.dist(i + N / 2));
  check(one, "k-DOP of one point has no width");
  W<2> w = weights<2>("w");
  check(kin<N>(y, a * w[0] + b * w[1]), "k-DOP of two points contains their segment");
  check(!e.inside(p), "the default k-DOP is empty");
  e += p;
  bool same = true;
  for (int i = 0; i < N / 2; i++) same = same & eq(e.dist(i), slab<N>(i, p)) & eq(e.dist(i + N / 2), slab<N>(i, p));
  check(same, "adding a point to the empty k-DOP gives that point");
}
template <int N> static void move_() {
  auto a = kdop<N>("a");
  Vector3d t = vec3("t"), p = vec3("p");
  auto b = fcl::translate(a, t);
  cover("run");
  check(imp(kin_s<N>(a, p), kin<N>(b, p + t)), "translate moves every point");
  check(imp(kin_s<N>(b, p + t), kin<N>(a, p)), "translate adds no point");
  Vector3d c = a.center();
  check(eq(a.width(), a.dist(N / 2) - a.dist(0)) & eq(a.height(), a.dist(N / 2 + 1) - a.dist(1)) & eq(a.depth(), a.dist(N / 2 + 2) - a.dist(2)), "extents");
  check(eq(2 * c[0], a.dist(0) + a.dist(N / 2)) & eq(2 * c[1], a.dist(1) + a.dist(N / 2 + 1)) & eq(2 * c[2], a.dist(2) + a.dist(N / 2 + 2)), "center");
  check(eq(a.volume(), a.width() * a.height() * a.depth()), "volume");
}
#define ALL(N)                                           \
  LCV_HARNESS(C02_overlap_##N, "") { overlap_<N>(); }    \
  LCV_HARNESS(C02_inside_##N, "") { inside_<N>(); }      \
  LCV_HARNESS(C02_merge_##N, "merge=1") { merge_<N>(); }        \
  LCV_HARNESS(C02_ctor_##N, "") { ctor_<N>(); }          \
  LCV_HARNESS(C02_move_##N, "") { move_<N>(); }
ALL(16)
ALL(18)
ALL(24)
