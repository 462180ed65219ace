// Native runtime of the contract harnesses: replay of a given input, and randomised search for a failing input.
#include <cmath>
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <chrono>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>

struct Reject {};
struct Failed { std::string label; };
struct H { void (*f)(); std::string opts; };
static std::map<std::string, H>& table() { static std::map<std::string, H> t; return t; }

static uint64_t S;
static uint64_t rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S * 2685821657736338717ULL >> 8; }
static double u01() { return (rnd() & 0xfffffffffffULL) / double(0x100000000000ULL); }

static bool replaying = false;
static std::vector<double> tape;      // input values in order (integers stored as doubles / bit patterns as strings)
static std::vector<std::string> names;
static std::vector<uint64_t> itape;
static size_t pos = 0;
static int mode = 0;
static double scale = 1;
static double TOL = 1e-6;
static std::set<std::string> covers;
static std::vector<double> given;
static std::vector<uint64_t> igiven;

static double pick() {
  switch (mode) {
    case 0: return int(rnd() % 7) - 3;
    case 1: return (2 * u01() - 1) * scale;
    case 2: return (int(rnd() % 9) - 4) * 0.5;
    default: {
      int k = rnd() % 10;
      if (k == 0) return 0;
      if (k == 1) return 1;
      if (k == 2) return -1;
      if (k <= 4) return int(rnd() % 11) - 5;
      if (k == 5 && !tape.empty()) return tape[rnd() % tape.size()];
      if (k == 6 && !tape.empty()) return -tape[rnd() % tape.size()];
      if (k == 7 && !tape.empty()) return tape[rnd() % tape.size()] + (2 * u01() - 1) * 1e-3;
      return (2 * u01() - 1) * scale;
    }
  }
}
static double put(double v, const char* n) { tape.push_back(v); itape.push_back(0); names.push_back(n); return v; }
static uint64_t puti(uint64_t v, const char* n) { tape.push_back(double(v)); itape.push_back(v); names.push_back(n); return v; }
static double nextd(const char* n) {
  if (replaying) { double v = pos < given.size() ? given[pos] : 0; pos++; return put(v, n); }
  return put(pick(), n);
}
static uint64_t nexti(const char* n, uint64_t (*g)()) {
  if (replaying) { uint64_t v = pos < igiven.size() ? igiven[pos] : 0; pos++; return puti(v, n); }
  return puti(g(), n);
}
static uint64_t gi32() {
  switch (rnd() % 6) { case 0: return rnd() % 4; case 1: return 0xffffffffu; case 2: return 0x7fffffffu; case 3: return rnd() % 1024; case 4: return 1ull << (rnd() % 32); default: return (uint32_t)rnd(); }
}
static uint64_t gi64() {
  switch (rnd() % 6) { case 0: return rnd() % 4; case 1: return ~0ull; case 2: return rnd() % 1024; case 3: return 1ull << (rnd() % 64); default: return rnd() ^ (rnd() << 32); }
}
static uint64_t gb() { return rnd() & 1; }

extern "C" {
double __lcv_real(const char* n) { return nextd(n); }
int __lcv_i32(const char* n) { return (int)(uint32_t)nexti(n, gi32); }
unsigned __lcv_u32(const char* n) { return (uint32_t)nexti(n, gi32); }
unsigned long __lcv_u64(const char* n) { return nexti(n, gi64); }
bool __lcv_bool(const char* n) { return nexti(n, gb) & 1; }
bool __lcv_split(bool b) { return b; }
int __lcv_choice(const char* n, int k) {
  if (replaying) { int v = pos < igiven.size() ? (int)igiven[pos] : 0; pos++; puti(v, n); return v < k ? v : 0; }
  return (int)puti(rnd() % k, n);
}
void __lcv_assume(bool b) { if (!b) throw Reject(); }
void __lcv_assert(bool b, const char* l) { if (!b) throw Failed{l}; }
void __lcv_lemma(bool, const char*) {}
void __lcv_step(bool, bool, const char*) {}
void __lcv_rule(double, double, double) {}
void __lcv_cover(const char* l) { covers.insert(l); }
void __lcv_replace(void (*)(), void (*)()) {}
void __lcv_throw_ok(bool) {}
double __lcv_abs_cut(double v) { return v; }
double __lcv_havoc_real(const char* n) { return nextd(n); }
bool __lcv_havoc_bool(const char* n) { return __lcv_bool(n); }
double __lcv_tol() { return TOL; }
void __lcv_reg(void (*f)(), const char* n, const char* o) { table()[n] = H{f, o}; }

void __lcv_gen_unit(int n, double* out, const char* name) {
  double s = 0;
  if (!replaying) {
    int k = rnd() % 4;
    for (int i = 0; i < n; i++) out[i] = k == 0 ? 0 : (k == 1 ? int(rnd() % 3) - 1 : 2 * u01() - 1);
    if (k == 0) out[rnd() % n] = (rnd() & 1) ? 1 : -1;
  } else for (int i = 0; i < n; i++) { out[i] = pos < given.size() ? given[pos] : 0; pos++; }
  for (int i = 0; i < n; i++) s += out[i] * out[i];
  s = std::sqrt(s);
  if (s < 1e-12) { out[0] = 1; for (int i = 1; i < n; i++) out[i] = 0; }
  else if (std::fabs(s - 1) > 1e-15) for (int i = 0; i < n; i++) out[i] /= s;
  for (int i = 0; i < n; i++) put(out[i], name);
}
void __lcv_gen_rot(double* R, const char* name) {
  double a[9];
  if (replaying) for (int i = 0; i < 9; i++) { a[i] = pos < given.size() ? given[pos] : (i % 4 == 0); pos++; }
  else {
    int k = rnd() % 8;
    if (k == 0) { for (int i = 0; i < 9; i++) a[i] = (i % 4 == 0); }
    else if (k == 1) {  // signed permutation
      int p[3] = {0, 1, 2};
      for (int i = 2; i > 0; i--) std::swap(p[i], p[rnd() % (i + 1)]);
      for (int i = 0; i < 9; i++) a[i] = 0;
      for (int i = 0; i < 3; i++) a[3 * i + p[i]] = (rnd() & 1) ? 1 : -1;
    } else if (k == 2) {  // about a coordinate axis
      double t = u01() * 6.283185307179586, c = std::cos(t), s = std::sin(t);
      if (rnd() & 1) { static const double cs[4][2] = {{0.8, 0.6}, {0.6, -0.8}, {-0.6, 0.8}, {0.7071067811865476, 0.7071067811865476}}; int q = rnd() % 4; c = cs[q][0]; s = cs[q][1]; }
      int x = rnd() % 3, y = (x + 1) % 3, z = (x + 2) % 3;
      for (int i = 0; i < 9; i++) a[i] = 0;
      a[4 * x] = 1; a[4 * y] = c; a[4 * z] = c; a[3 * y + z] = -s; a[3 * z + y] = s;
    } else if (k == 3) {  // nearly the identity
      for (int i = 0; i < 9; i++) a[i] = (i % 4 == 0) + (2 * u01() - 1) * 1e-2;
    } else for (int i = 0; i < 9; i++) a[i] = 2 * u01() - 1;
  }
  // Gram-Schmidt on the columns, third = cross
  double c0[3], c1[3], c2[3];
  for (int i = 0; i < 3; i++) { c0[i] = a[3 * i]; c1[i] = a[3 * i + 1]; }
  double n = std::sqrt(c0[0] * c0[0] + c0[1] * c0[1] + c0[2] * c0[2]);
  if (n < 1e-9) { c0[0] = 1; c0[1] = c0[2] = 0; n = 1; }
  for (int i = 0; i < 3; i++) c0[i] /= n;
  double d = c0[0] * c1[0] + c0[1] * c1[1] + c0[2] * c1[2];
  for (int i = 0; i < 3; i++) c1[i] -= d * c0[i];
  n = std::sqrt(c1[0] * c1[0] + c1[1] * c1[1] + c1[2] * c1[2]);
  if (n < 1e-9) {
    int m = std::fabs(c0[0]) < 0.6 ? 0 : (std::fabs(c0[1]) < 0.6 ? 1 : 2);
    for (int i = 0; i < 3; i++) c1[i] = (i == m) - c0[m] * c0[i];
    n = std::sqrt(c1[0] * c1[0] + c1[1] * c1[1] + c1[2] * c1[2]);
  }
  for (int i = 0; i < 3; i++) c1[i] /= n;
  c2[0] = c0[1] * c1[2] - c0[2] * c1[1]; c2[1] = c0[2] * c1[0] - c0[0] * c1[2]; c2[2] = c0[0] * c1[1] - c0[1] * c1[0];
  for (int i = 0; i < 3; i++) { R[3 * i] = c0[i]; R[3 * i + 1] = c1[i]; R[3 * i + 2] = c2[i]; }
  for (int i = 0; i < 9; i++) put(R[i], name);
}
void __lcv_gen_weights(int n, double* w, const char* name) {
  if (replaying) for (int i = 0; i < n; i++) { w[i] = pos < given.size() ? std::fabs(given[pos]) : 1; pos++; }
  else {
    int k = rnd() % 3;
    for (int i = 0; i < n; i++) w[i] = k == 0 ? 0 : (k == 1 ? (rnd() & 1) : u01());
    if (k < 2) w[rnd() % n] = 1;
  }
  double s = 0;
  for (int i = 0; i < n; i++) s += w[i];
  if (s == 0) { w[0] = 1; s = 1; }
  for (int i = 0; i < n; i++) { w[i] /= s; put(w[i], name); }
}
// point of the ball of radius r around the origin
void __lcv_gen_ball(double* v, const char* name, double r) {
  r = std::fabs(r);
  if (replaying) for (int i = 0; i < 3; i++) { v[i] = pos < given.size() ? given[pos] : 0; pos++; }
  else {
    int k = rnd() % 3;
    for (int i = 0; i < 3; i++) v[i] = k == 0 ? 0 : r * (2 * u01() - 1);
    if (k == 0) v[rnd() % 3] = (rnd() & 1) ? r : -r;
    if (k == 1) { double s = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (s > 0) for (int i = 0; i < 3; i++) v[i] *= r / s; }
  }
  double s = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  if (s > r) for (int i = 0; i < 3; i++) v[i] *= r / s;
  for (int i = 0; i < 3; i++) put(v[i], name);
}
}

static int run(void (*f)(), std::string& label) {
  tape.clear(); itape.clear(); names.clear(); pos = 0;
  try { f(); return 0; }
  catch (Reject&) { return 2; }
  catch (Failed& e) { label = e.label; return 1; }
  catch (std::exception& e) { label = std::string("exception: ") + e.what(); return 3; }
}
static void dump() {
  for (size_t i = 0; i < tape.size(); i++) {
    if (itape[i]) printf("IN %s i %llu\n", names[i].c_str(), (unsigned long long)itape[i]);
    else printf("IN %s d %.17g\n", names[i].c_str(), tape[i]);
  }
}
static const char* cur = "?";
static void onsig(int s) {
  // async-signal-unsafe output is acceptable here: the process is about to end and only reports
  printf("FAIL crash: signal %d\n", s);
  dump();
  fflush(stdout);
  _exit(1);
}
int main(int argc, char** argv) {
  std::string cmd = argc > 1 ? argv[1] : "";
  if (const char* t = getenv("LCV_TOL")) TOL = atof(t);
  if (cmd == "list") { for (auto& k : table()) printf("%s\n", k.first.c_str()); return 0; }
  if (argc < 3 || !table().count(argv[2])) { fprintf(stderr, "usage: replay H FILE | search H SEED SECS | list\n"); return 4; }
  auto h = table()[argv[2]];
  cur = argv[2];
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGALRM, onsig);
  std::string label;
  bool throwok = h.opts.find("throw=ok") != std::string::npos;
  if (cmd == "replay") {
    std::ifstream in(argv[3]);
    std::string ln;
    while (std::getline(in, ln)) {
      if (ln.compare(0, 3, "IN ")) continue;
      size_t p = ln.rfind(' ');
      size_t q = ln.rfind(' ', p - 1);
      char k = ln[q + 1];
      if (k == 'i') { uint64_t v = strtoull(ln.c_str() + p + 1, 0, 10); igiven.push_back(v); given.push_back(double(v)); }
      else { given.push_back(strtod(ln.c_str() + p + 1, 0)); igiven.push_back(0); }
    }
    replaying = true;
    alarm(20);
    int r = run(h.f, label);
    if (r == 3 && throwok) r = 2;
    if (r == 1 || r == 3) { printf("FAIL %s\n", label.c_str()); dump(); return 1; }
    printf(r == 2 ? "REJECTED\n" : "PASS\n");
    return r;
  }
  S = strtoull(argv[3], 0, 10) * 6364136223846793005ULL + 1442695040888963407ULL;
  for (int i = 0; i < 8; i++) rnd();
  double secs = atof(argv[4]);
  auto t0 = std::chrono::steady_clock::now();
  long ok = 0, rej = 0;
  bool coversonly = argc > 5 && !strcmp(argv[5], "covers");
  for (long it = 0;; it++) {
    if ((it & 15) == 0) {
      double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (el > secs) break;
    }
    mode = rnd() % 5;
    static const double sc[] = {1, 1, 2, 5, 10, 0.1};
    scale = sc[rnd() % 6];
    alarm(20);
    int r = run(h.f, label);
    if (r == 3 && throwok) r = 2;
    if ((r == 1 || r == 3) && !coversonly) { printf("FAIL %s\n", label.c_str()); dump(); return 1; }
    if (r == 2) rej++; else ok++;
  }
  printf("SEARCHED ok=%ld rejected=%ld\n", ok, rej);
  for (auto& c : covers) printf("COVER %s\n", c.c_str());
  return 0;
}
