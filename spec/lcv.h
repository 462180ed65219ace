// Contract language used by the harnesses in /verif/spec.
//
// The same text is used twice:
//  * symbolically (default): compiled to LLVM IR together with the real FCL code and given to lcv/engine.py, which treats
//    double as the mathematical reals and every __lcv_real() as a universally quantified variable;
//  * natively (-DLCV_NATIVE): compiled to machine code, to replay a solver model or to search for a failing input.
//    There the comparisons below get a tolerance, since machine arithmetic rounds.
#pragma once
#include <cmath>
#include <cstddef>
#include <limits>
#include <vector>
#include "fcl/common/types.h"

extern "C" {
double __lcv_real(const char* name);
int __lcv_i32(const char* name);
unsigned __lcv_u32(const char* name);
unsigned long __lcv_u64(const char* name);
bool __lcv_bool(const char* name);
int __lcv_choice(const char* name, int n);        // enumerated exhaustively
bool __lcv_split(bool);                           // case split: both cases are followed
void __lcv_assume(bool);
void __lcv_assert(bool, const char* label);
void __lcv_lemma(bool, const char* label);        // proved here, then available as a hypothesis
void __lcv_step(bool hyp, bool concl, const char* label);  // hyp proved from the path; hyp => concl proved alone; concl available
void __lcv_rule(double a, double b, double rhs);     // a*b == rhs (two inputs): proved here, then used to normalise polynomials
void __lcv_cover(const char* label);              // must be reachable (checked by executing the real code)
void __lcv_replace(void (*real)(), void (*stub)());  // calls to real are replaced by its contract stub from here on
void __lcv_throw_ok(bool);                        // paths that throw are allowed (they end)
double __lcv_abs_cut(double);                     // names an intermediate term
double __lcv_havoc_real(const char* name);
bool __lcv_havoc_bool(const char* name);
// native structured generators (not called symbolically)
void __lcv_gen_unit(int n, double* out, const char* name);
void __lcv_gen_rot(double* out, const char* name);
void __lcv_gen_weights(int n, double* out, const char* name);
void __lcv_gen_ball(double* out, const char* name, double r);
double __lcv_tol();
void __lcv_reg(void (*)(), const char*, const char*);
}

#ifdef LCV_NATIVE
#define LCV_HARNESS(NAME, OPTS)                                                   \
  extern "C" void vc_##NAME();                                                    \
  namespace { struct Reg_##NAME { Reg_##NAME() { __lcv_reg(&vc_##NAME, "vc_" #NAME, OPTS); } } reg_##NAME; } \
  extern "C" void vc_##NAME()
#else
#define LCV_HARNESS(NAME, OPTS)                                                   \
  extern "C" __attribute__((used)) const char lcvopt_##NAME[] = OPTS;             \
  extern "C" void vc_##NAME()
#endif

namespace lcv {

using fcl::Vector3d;
using fcl::Matrix3d;
using fcl::Transform3d;

inline double real(const char* n) { return __lcv_real(n); }
inline bool boolean(const char* n) { return __lcv_bool(n); }
inline bool split(bool b) { return __lcv_split(b); }
inline void assume(bool b) { __lcv_assume(b); }
inline void check(bool b, const char* l) { __lcv_assert(b, l); }
inline void lemma(bool b, const char* l) { __lcv_lemma(b, l); }
inline void step(bool h, bool c, const char* l) { __lcv_step(h, c, l); }
inline void cover(const char* l) { __lcv_cover(l); }
inline bool imp(bool a, bool b) { return !a | b; }
inline bool iff(bool a, bool b) { return a == b; }

#ifdef LCV_NATIVE
inline double tl(double a, double b) { return __lcv_tol() * (1 + std::fabs(a) + std::fabs(b)); }
inline bool le(double a, double b) { return a <= b + tl(a, b); }
inline bool lt(double a, double b) { return a < b + tl(a, b); }
inline bool eq(double a, double b) { return a == b || std::fabs(a - b) <= tl(a, b); }
// hypotheses: strictly inside, so that rounding cannot turn a true hypothesis into a false one
inline bool sle(double a, double b) { return a <= b; }
inline bool seq(double a, double b) { return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(a) + std::fabs(b)); }
// r must equal (a<=b)
inline bool decides_le(bool r, double a, double b) { return r ? le(a, b) : le(b, a); }
#else
inline bool le(double a, double b) { return a <= b; }
inline bool lt(double a, double b) { return a < b; }
inline bool eq(double a, double b) { return a == b; }
inline bool sle(double a, double b) { return a <= b; }
inline bool seq(double a, double b) { return a == b; }
inline bool decides_le(bool r, double a, double b) { return r == (a <= b); }
#endif
inline bool ge(double a, double b) { return le(b, a); }
inline bool gt(double a, double b) { return lt(b, a); }
inline bool veq(const Vector3d& a, const Vector3d& b) { return eq(a[0], b[0]) & eq(a[1], b[1]) & eq(a[2], b[2]); }
inline bool isnear(double a, double b) { return eq(a, b); }

inline Vector3d vec3(const char* n) {
  double x = __lcv_real(n), y = __lcv_real(n), z = __lcv_real(n);
  return Vector3d(x, y, z);
}
inline double nonneg(const char* n) {
  double r = __lcv_real(n);
#ifdef LCV_NATIVE
  r = std::fabs(r);
#endif
  assume(r >= 0);
  return r;
}
inline double positive(const char* n) {
  double r = __lcv_real(n);
#ifdef LCV_NATIVE
  r = std::fabs(r);
#endif
  assume(r > 0);
  return r;
}
// number in [0,1]
inline double unit01(const char* n) {
  double r = __lcv_real(n);
#ifdef LCV_NATIVE
  r = std::fabs(r);
  if (r > 1) r = r - std::floor(r);
#endif
  assume((r >= 0) & (r <= 1));
  return r;
}
// number in [-1,1]
inline double pm1(const char* n) {
  double r = __lcv_real(n);
#ifdef LCV_NATIVE
  if (std::fabs(r) > 1) r = r - std::trunc(r);
#endif
  assume((r >= -1) & (r <= 1));
  return r;
}
inline Vector3d unit3(const char* n) {
#ifdef LCV_NATIVE
  double v[3];
  __lcv_gen_unit(3, v, n);
  return Vector3d(v[0], v[1], v[2]);
#else
  Vector3d v = vec3(n);
  assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] == 1);
  return v;
#endif
}
// any proper rotation. The redundant facts (rows and columns orthonormal, columns = cross products) are all
// consequences of R^T R = I, det R = 1.
inline Matrix3d rot3(const char* n) {
  Matrix3d R;
#ifdef LCV_NATIVE
  double v[9];
  __lcv_gen_rot(v, n);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = v[3 * i + j];
#else
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R(i, j) = __lcv_real(n);
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) {
    assume(R(0, i) * R(0, j) + R(1, i) * R(1, j) + R(2, i) * R(2, j) == (i == j ? 1.0 : 0.0));
    assume(R(i, 0) * R(j, 0) + R(i, 1) * R(j, 1) + R(i, 2) * R(j, 2) == (i == j ? 1.0 : 0.0));
  }
  for (int k = 0; k < 3; k++) {
    int i = (k + 1) % 3, j = (k + 2) % 3;
    assume(R(0, k) == R(1, i) * R(2, j) - R(2, i) * R(1, j));
    assume(R(1, k) == R(2, i) * R(0, j) - R(0, i) * R(2, j));
    assume(R(2, k) == R(0, i) * R(1, j) - R(1, i) * R(0, j));
  }
#endif
  return R;
}
inline Transform3d pose(const Matrix3d& R, const Vector3d& t) {
  Transform3d X = Transform3d::Identity();
  X.linear() = R;
  X.translation() = t;
  return X;
}
inline Transform3d pose(const char* n) {
  Matrix3d R = rot3(n);
  Vector3d t = vec3(n);
  return pose(R, t);
}
inline Transform3d translation(const char* n) { return pose(Matrix3d::Identity(), vec3(n)); }
// point of the ball of radius r around the origin
inline Vector3d inball(const char* n, double r) {
#ifdef LCV_NATIVE
  double v[3];
  __lcv_gen_ball(v, n, r);
  return Vector3d(v[0], v[1], v[2]);
#else
  Vector3d v = vec3(n);
  assume(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] <= r * r);
  return v;
#endif
}
// convex weights
// the columns of a rotation are orthonormal: as rules
inline void rotrules(const Matrix3d& R) {
#ifndef LCV_NATIVE
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) __lcv_rule(R(0, i), R(0, j), (i == j ? 1.0 : 0.0) - R(1, i) * R(1, j) - R(2, i) * R(2, j));
#endif
}
// n == R m: as rules
inline void dotrules(const Matrix3d& R, const Vector3d& n, const Vector3d& m) {
#ifndef LCV_NATIVE
  for (int i = 0; i < 3; i++) __lcv_rule(R(0, i), n[0], m[i] - R(1, i) * n[1] - R(2, i) * n[2]);
  for (int i = 0; i < 3; i++) __lcv_rule(R(i, 0), m[0], n[i] - R(i, 1) * m[1] - R(i, 2) * m[2]);
#endif
}
inline void unitrule(const Vector3d& n) {
#ifndef LCV_NATIVE
  __lcv_rule(n[0], n[0], 1 - n[1] * n[1] - n[2] * n[2]);
#endif
}
template <int N> struct W { double w[N]; double operator[](int i) const { return w[i]; } };
template <int N> inline W<N> weights(const char* n) {
  W<N> r;
#ifdef LCV_NATIVE
  __lcv_gen_weights(N, r.w, n);
#else
  double s = 0;
  for (int i = 0; i < N; i++) { r.w[i] = __lcv_real(n); assume(r.w[i] >= 0); s += r.w[i]; }
  assume(s == 1);
#endif
  return r;
}
inline double dot(const Vector3d& a, const Vector3d& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double norm2(const Vector3d& a) { return dot(a, a); }


// ---- proof steps (each is itself an obligation)
// |x| <= a  =>  |x*B| <= a*|B|
inline void absmul(double x, double a, double B) {
  double m = std::fabs(B);
  step((x <= a) & (-a <= x) & (m >= B) & (m >= -B) & ((m == B) | (m == -B)), (x * B <= a * m) & (-(x * B) <= a * m), "product bound");
}
// |x| <= k*s, s >= 0  =>  |x*B| <= k*|B*s|
inline void absmul2(double x, double k, double s, double B) {
  absmul(x, k * s, B);
  double m = std::fabs(B), t = std::fabs(B * s);
  step((s >= 0) & (m >= B) & (m >= -B) & ((m == B) | (m == -B)), t == s * m, "modulus of a product");
}
// t^2 <= r^2, r >= 0  =>  |t| <= r
inline void sqrtle(double t, double r) {
  double x = __lcv_abs_cut(t);
  step((x * x <= r * r) & (r >= 0), (x <= r) & (-r <= x), "square root");
}
// Cauchy-Schwarz: |v|^2 <= r^2, |u| = 1, r >= 0  =>  |u.v| <= r
inline void cauchy(const Vector3d& u, const Vector3d& v, double r) {
  double t = dot(u, v), a = norm2(u), b = norm2(v);
  Vector3d w = u.cross(v);
  step(true, t * t + norm2(w) == a * b, "Lagrange");
  double w0 = __lcv_abs_cut(w[0]), w1 = __lcv_abs_cut(w[1]), w2 = __lcv_abs_cut(w[2]);
  step(true, w0 * w0 + w1 * w1 + w2 * w2 >= 0, "square");
  double T = __lcv_abs_cut(t), A = __lcv_abs_cut(a), Bq = __lcv_abs_cut(b), Wq = __lcv_abs_cut(norm2(w));
  step((w0 == w[0]) & (w1 == w[1]) & (w2 == w[2]) & (w0 * w0 + w1 * w1 + w2 * w2 >= 0) & (Wq == norm2(w)), Wq >= 0, "square");
  step((T * T + Wq == A * Bq) & (Wq >= 0) & (A == 1) & (Bq <= r * r) & (r >= 0), (T <= r) & (-r <= T), "Cauchy-Schwarz");
}
}  // namespace lcv
