// The other broad-phase managers (naive, sweeping along one or three axes, interval tree, spatial hash): what they report is what
// testing all pairs of boxes reports.
// LCV-REPLACE: 4AABBIdE8distanceERKS1_$ => stub_boxdist
// LCV-REPLACE: 6detail11SpatialHashIdEC[12]ERKNS_4AABB => stub_hash
// LCV-REPLACE: 4AABBIdE5equalERKS1_$ => stub_equal
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/geometry/shape/sphere.h"
#include "lcv.h"
#include "containers.h"
using namespace lcv;
typedef fcl::AABB<double> AB;
typedef fcl::CollisionObject<double> Obj;
typedef fcl::NaiveCollisionManager<double> Naive;
typedef fcl::SSaPCollisionManager<double> SSaP;
typedef fcl::SaPCollisionManager<double> SaP;
typedef fcl::IntervalTreeCollisionManager<double> ITree;
typedef fcl::SpatialHashingCollisionManager<double> Hash;

static bool meet(const AB& a, const AB& b) {
  bool r = true;
  for (int i = 0; i < 3; i++) r = r & (a.min_[i] <= b.max_[i]) & (b.min_[i] <= a.max_[i]);
  return r;
}
#ifndef LCV_NATIVE
static bool same(const AB& a, const AB& b) {
  bool r = true;
  for (int i = 0; i < 3; i++) r = r & (a.min_[i] == b.min_[i]) & (a.max_[i] == b.max_[i]);
  return r;
}
static const int M = 6;
alignas(16) static char omem[M][sizeof(Obj)];
static Obj* object(int i) { return reinterpret_cast<Obj*>(omem[i]); }
static int number(const Obj* o) {
  for (int i = 0; i < M; i++) if (o == object(i)) return i;
  check(false, "an object at hand"); return 0;
}
static AB box(const char* n, int axis) {   // the coordinates other than the given one play no part (axis 3: all of them do)
  AB b;
  for (int i = 0; i < 3; i++) {
    if (axis == 3 || axis == i) { b.min_[i] = real(n); b.max_[i] = real(n); assume(b.min_[i] <= b.max_[i]); assume((b.min_[i] > -1e300) & (b.max_[i] < 1e300)); }
    else { b.min_[i] = 0; b.max_[i] = 1; }
  }
  return b;
}
// AABB::distance by its contract (C01): symmetric, at least the gap along each axis, nothing for boxes that meet
static double dist[M][M]; static bool known[M][M];
static double gap(int i, int j) {
  if (i > j) { int k = i; i = j; j = k; }
  if (!known[i][j]) {
    known[i][j] = true;
    double d = __lcv_havoc_real("boxdist");
    const AB &a = object(i)->aabb, &b = object(j)->aabb;
    assume(d >= 0); assume(imp(meet(a, b), d == 0)); assume(d < 1e300);
    for (int k = 0; k < 3; k++) { assume(d >= a.min_[k] - b.max_[k]); assume(d >= b.min_[k] - a.max_[k]); }
    dist[i][j] = d;
  }
  return dist[i][j];
}
static int boxNumber(const AB* a) {
  for (int i = 0; i < M; i++) if (a == &object(i)->aabb) return i;
  return -1;
}
static bool cachedBoxes;   // the manager looks at copies of the boxes
static int copyNumber(const AB* a) {
  for (int i = 0; i < M; i++) if (split(same(*a, object(i)->aabb))) return i;
  check(false, "a box at hand"); return 0;
}
extern "C" double stub_boxdist(const AB* a, const AB& b) {
  int i = boxNumber(a), j = boxNumber(&b);
  if (i < 0) i = copyNumber(a);
  if (j < 0) j = copyNumber(&b);
  return gap(i, j);
}
extern "C" bool stub_equal(const AB* a, const AB& b) { return split(same(*a, b)); }
struct Log { int n[M][M]; double least; int calls, stopAt; bool stopped; bool lowers; };
static Log g;
static int mode;   // 0: the callback never stops; 1: it does at its first call, 2: it never lowers the distance
static void begin() {
  for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) { g.n[i][j] = 0; known[i][j] = false; }
  g.least = std::numeric_limits<double>::max(); g.calls = 0; g.stopped = false; g.lowers = mode < 2;
  g.stopAt = mode == 1;    // 0: never
}
static void note(Obj* a, Obj* b, void* cdata) {
  check(cdata == &g, "the caller's data are handed on");
  check(!g.stopped, "nothing after the callback asked to stop");
  g.n[number(a)][number(b)]++;
  g.calls++; g.stopped = g.calls == g.stopAt;
}
static bool cback(Obj* a, Obj* b, void* cdata) { note(a, b, cdata); return g.stopped; }
static bool dback(Obj* a, Obj* b, void* cdata, double& d) {
  note(a, b, cdata);
  check(d == g.least, "the distance found so far is handed on");
  if (g.lowers) {
    double e = gap(number(a), number(b));   // the objects are no nearer than their boxes
    if (split(e < d)) d = e;
    g.least = d;
  }
  return g.stopped;
}
static void cpost(int i, int j, bool asked, bool exact) {
  int c = g.n[i][j] + g.n[j][i];
  check(c <= 1, "at most once");
  if (!asked) { check(c == 0, "only pairs asked for"); return; }
  bool m = meet(object(i)->aabb, object(j)->aabb);
  check(imp(m & !g.stopped, c == 1), "every pair of objects whose boxes overlap is handed to the callback");
  if (exact) check(imp(!m, c == 0), "only pairs whose boxes overlap");
}
static void dpost(int i, int j, bool asked) {
  int c = g.n[i][j] + g.n[j][i];
  if (!asked) { check(c == 0, "only pairs asked for"); return; }
  check(imp(!g.stopped & (c == 0), gap(i, j) >= g.least), "every pair of objects is handed to the callback unless their boxes are no nearer than the distance found");
}
template <class X> static void contents(X& m, const bool* in, int n) {
  int c = 0;
  for (int i = 0; i < n; i++) c += in[i];
  check((int)m.size() == c, "size is the number of objects"); check(m.empty() == (c == 0), "empty iff there are none");
  std::vector<Obj*> got; m.getObjects(got);
  check((int)got.size() == c, "getObjects gives as many objects as there are");
  for (int i = 0; i < n; i++) { int t = 0; for (Obj* o : got) t += o == object(i); check(t == in[i], "getObjects gives the objects registered"); }
}
static void change(fcl::BroadPhaseCollisionManager<double>& m, bool* in, int n, int axis, int ops) {
  int what = __lcv_choice("what", ops), k = what == 0 || what == 3 || what == 5 ? 0 : __lcv_choice("which", n);
  if (what == 1) { m.unregisterObject(object(k)); in[k] = false; }
  else if (what == 2) { object(k)->aabb = box("moved", axis); m.update(object(k)); }
  else if (what == 3) { for (int i = 0; i < n; i++) object(i)->aabb = box("moved", axis); m.update(); }
  else if (what == 4) { object(k)->aabb = box("moved", axis); std::vector<Obj*> v; v.push_back(object(k)); m.update(v); }
  else if (what == 5) { m.clear(); for (int i = 0; i < n; i++) in[i] = false; }
  m.setup();
}
template <class X> static void fill(X& m, bool* in, int first, int n, int axis) {
  for (int i = 0; i < n; i++) { object(first + i)->aabb = box("x", axis); in[i] = true; }
  if (mode == 0) {
    std::vector<Obj*> v;
    for (int i = 0; i < n; i++) v.push_back(object(first + i));
    m.registerObjects(v);
  } else for (int i = 0; i < n; i++) m.registerObject(object(first + i));
  m.setup();
}
template <class X> struct Exact { static const bool v = true; };
struct HashM; template <> struct Exact<HashM> { static const bool v = false; };
template <class X> static void history(int n, int axis, int ops, bool exact, bool light) {
  X m; bool in[M]; mode = __lcv_choice("mode", 2);
  fill(m, in, 0, n, axis);
  change(m, in, n, axis, light && n == 2 ? 3 : ops);
  contents(m, in, n);
  int what = light ? n == 1 : __lcv_choice("query", 2);
  begin();
  cover("run");
  const X& c = m;
  if (what == 0) {
    c.collide(&g, &cback);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) cpost(i, j, in[i] & in[j], Exact<X>::v);
  } else {
    object(n)->aabb = box("q", axis);
    c.collide(object(n), &g, &cback);
    for (int i = 0; i < n; i++) cpost(i, n, in[i], exact);
  }
}
template <class X> static void far(int n, int axis, bool light) {
  X m; bool in[M]; mode = __lcv_choice("mode", 3);
  fill(m, in, 0, n, axis);
  int what = light ? n == 1 : __lcv_choice("query", 2);
  begin();
  cover("run");
  const X& c = m;
  if (what == 0) {
    c.distance(&g, &dback);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) dpost(i, j, true);
  } else {
    object(n)->aabb = box("q", axis);
    c.distance(object(n), &g, &dback);
    for (int i = 0; i < n; i++) dpost(i, n, true);
  }
}
template <class X> static void two(int n1, int n2, int axis) {
  X a, b; bool in[M]; mode = __lcv_choice("mode", 3);
  fill(a, in, 0, n1, axis); fill(b, in, n1, n2, axis);
  bool d = split(boolean("distance"));
  begin();
  cover("run");
  const X& c = a;
  if (d) c.distance(&b, &g, &dback); else c.collide(&b, &g, &cback);
  for (int i = 0; i < n1; i++) for (int j = n1; j < n1 + n2; j++) { if (d) dpost(i, j, true); else cpost(i, j, true, Exact<X>::v); }
  for (int i = 0; i < n1; i++) for (int j = 0; j < i; j++) cpost(i, j, false, true);
}
static int one() { return __lcv_choice("axis", 3); }
#define C23(NAME, T, AX, AXD, EXACT, LIGHT) \
  LCV_HARNESS(C23_##NAME##_collide, "merge=0 max_paths=60000 bounded=histories_of_one_operation_on_up_to_2_objects") { history<T>(1 + __lcv_choice("n", 2), AX, 6, EXACT, LIGHT); } \
  LCV_HARNESS(C23_##NAME##_distance, "merge=0 bounded=up_to_2_objects") { far<T>(1 + __lcv_choice("n", 2), AXD, LIGHT); } \
  LCV_HARNESS(C23_##NAME##_two, "merge=0 bounded=up_to_2_and_1_objects") { int n = LIGHT ? 0 : __lcv_choice("n", 3); two<T>(n == 2 ? 2 : 1, n == 1 ? 2 : 1, AXD); }
C23(naive, Naive, 3, 3, false, false)
C23(ssap, SSaP, one(), 3, true, false)
C23(sap, SaP, 0, 0, true, true)
C23(itree, ITree, 0, 0, true, true)
// the spatial hash manager over any table that finds at least the objects whose stored boxes overlap the one asked about
struct Table {
  Table(const fcl::detail::SpatialHash<double>&) : n(0) {}
  Obj* o[M]; AB b[M]; int n;
  void init(size_t) { n = 0; }
  void clear() { n = 0; }
  void insert(AB k, Obj* v) { b[n] = k; o[n++] = v; }
  void remove(AB k, Obj* v) {
    for (int i = 0; i < n; i++) if (o[i] == v) {
      check(same(b[i], k), "an object is taken out of the cells it was put in");
      n--; o[i] = o[n]; b[i] = b[n]; return;
    }
    check(false, "an object taken out of the table is in it");
  }
  std::vector<Obj*> query(AB k) const {
    std::vector<Obj*> r;
    for (int i = 0; i < n; i++) if (split(meet(b[i], k))) r.push_back(o[i]); else if (mode == 0 && split(__lcv_havoc_bool("extra"))) r.push_back(o[i]);
    return r;
  }
};
extern "C" void stub_hash(void*, const AB&, double) {}
struct HashM : fcl::SpatialHashingCollisionManager<double, Table> {
  HashM() : fcl::SpatialHashingCollisionManager<double, Table>(1.0, fcl::Vector3d(0.25, 0.25, 0.25), fcl::Vector3d(0.75, 0.75, 0.75), 5) {}
};
LCV_HARNESS(C23_hash_collide, "merge=0 bounded=histories_of_one_operation_on_up_to_2_objects") { history<HashM>(1 + __lcv_choice("n", 2), 0, 6, false, true); }
LCV_HARNESS(C23_hash_distance, "merge=0 bounded=up_to_2_objects") { far<HashM>(1 + __lcv_choice("n", 2), 0, true); }
LCV_HARNESS(C23_hash_two, "merge=0 bounded=up_to_3_objects") { two<HashM>(1, 1, 0); }
#else
// natively: the real managers through histories of operations on random objects, against all pairs
#include <memory>
namespace {
typedef std::shared_ptr<fcl::CollisionGeometry<double>> Geo;
typedef fcl::BroadPhaseCollisionManager<double> Mgr;
struct Ball : fcl::Sphere<double> {   // a geometry with any box
  Ball(const fcl::Vector3d& h) : fcl::Sphere<double>(1.0), h(h) {}
  fcl::Vector3d h;
  void computeLocalAABB() override { this->aabb_local = AB(-h, h); this->aabb_center.setZero(); this->aabb_radius = h.norm(); }
};
struct Box1 { Obj* o; };
struct Seen { std::multiset<std::pair<Obj*, Obj*>> pairs; double least; int stopAfter; bool lowers; };
std::pair<Obj*, Obj*> key(Obj* a, Obj* b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
bool ncb(Obj* a, Obj* b, void* d) {
  Seen* s = static_cast<Seen*>(d);
  s->pairs.insert(key(a, b));
  return s->stopAfter && (int)s->pairs.size() >= s->stopAfter;
}
bool ndb(Obj* a, Obj* b, void* d, double& dist) {
  Seen* s = static_cast<Seen*>(d);
  check(dist == s->least, "the distance found so far is handed on");
  s->pairs.insert(key(a, b));
  if (s->lowers) s->least = dist = std::min(dist, a->getAABB().distance(b->getAABB()));
  return s->stopAfter && (int)s->pairs.size() >= s->stopAfter;
}
template <class X> Mgr* make(X*) { return new X; }
Mgr* make(Hash*) { double c = __lcv_choice("cell", 2) ? 1.0 : 0.7; double l = 1 + __lcv_choice("limit", 6); return new Hash(c, fcl::Vector3d(-l, -l, -l), fcl::Vector3d(l, l, l), 1 + __lcv_choice("table", 40)); }
fcl::Vector3d place(int spread) { bool g = boolean("grid"); fcl::Vector3d t; for (int i = 0; i < 3; i++) { t[i] = real("t"); if (g) t[i] = std::floor(t[i] * 2) / 2; t[i] *= spread; } return t; }
fcl::Vector3d size() { fcl::Vector3d h; for (int i = 0; i < 3; i++) { int k = __lcv_choice("half", 5); h[i] = k == 0 ? 0 : k == 1 ? 0.25 : k == 2 ? 0.5 : k == 3 ? 1 : std::fabs(real("h")); } return h; }
template <class X> void nat(char op, char q) {
  const bool exact = !std::is_same<X, Hash>::value, naive = std::is_same<X, Naive>::value;
  std::unique_ptr<Mgr> m1(make((X*)0)), m2(make((X*)0));
  std::vector<std::unique_ptr<Obj>> own; std::vector<Obj*> a, b;
  bool crowd = __lcv_choice("crowd", 24) == 7;
  int spread = 1 + __lcv_choice("spread", 4);
  auto mk = [&]() { own.emplace_back(new Obj(Geo(new Ball(size())), fcl::Transform3d(Eigen::Translation3d(place(spread))))); return own.back().get(); };
  int n = crowd ? 100 + __lcv_choice("n", 60) : __lcv_choice("n", 7);
  for (int i = 0; i < n; i++) a.push_back(mk());
  n = __lcv_choice("n", 7);
  for (int i = 0; i < n; i++) b.push_back(mk());
  if (boolean("together")) m1->registerObjects(a); else for (Obj* o : a) m1->registerObject(o);
  m2->registerObjects(b);
  m1->setup(); m2->setup();
  auto move = [&](Obj* o) {
    if (boolean("turn")) o->setRotation(Eigen::AngleAxisd(__lcv_choice("angle", 8) * 0.78539816339744830, Eigen::Vector3d::UnitZ()).toRotationMatrix());
    if (boolean("slide")) o->setTranslation(place(spread));
    o->computeAABB();
  };
  int steps = __lcv_choice("steps", 4);
  for (int s = 0; s < steps; s++) {
    int what = __lcv_choice("what", 7), k = a.empty() ? 0 : __lcv_choice("which", 200) % a.size();
    if (what == 0 && !a.empty()) { move(a[k]); m1->update(a[k]); }
    else if (what == 1) { for (Obj* o : a) move(o); m1->update(); }
    else if (what == 2 && !a.empty()) { std::vector<Obj*> v{a[k]}; move(a[k]); m1->update(v); }
    else if (what == 3 && !a.empty()) { m1->unregisterObject(a[k]); a.erase(a.begin() + k); m1->setup(); }
    else if (what == 4) { m1->clear(); a.clear(); m1->setup(); }
    else { a.push_back(mk()); m1->registerObject(a.back()); m1->setup(); }
    check(m1->size() == a.size(), "size is the number of objects"); check(m1->empty() == a.empty(), "empty iff there are none");
    std::vector<Obj*> got; m1->getObjects(got);
    check(got.size() == a.size() && std::set<Obj*>(got.begin(), got.end()) == std::set<Obj*>(a.begin(), a.end()), "getObjects gives the objects registered");
  }
  Obj* query = mk();
  std::vector<std::pair<Obj*, Obj*>> all;
  if (q == 's') { for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < i; j++) all.push_back(key(a[i], a[j])); }
  else if (q == 'q') { for (Obj* o : a) all.push_back(key(o, query)); }
  else { for (Obj* o : a) for (Obj* p : b) all.push_back(key(o, p)); }
  Seen s; s.least = std::numeric_limits<double>::max(); s.stopAfter = std::max(0, __lcv_choice("stop", 8) - 4); s.lowers = op == 'd' && __lcv_choice("lowers", 4) > 0;
  if (op == 'c') { if (q == 's') m1->collide(&s, ncb); else if (q == 'q') m1->collide(query, &s, ncb); else m1->collide(m2.get(), &s, ncb); }
  else { if (q == 's') m1->distance(&s, ndb); else if (q == 'q') m1->distance(query, &s, ndb); else m1->distance(m2.get(), &s, ndb); }
  cover("run");
  bool stopped = s.stopAfter && (int)s.pairs.size() >= s.stopAfter;
  check(imp(s.stopAfter > 0, (int)s.pairs.size() <= s.stopAfter), "nothing after the callback asked to stop");
  size_t in = 0;
  for (auto& p : all) {
    size_t c = s.pairs.count(p); in += c;
    if (op == 'c') {
      check(c <= 1, "at most once");
      bool o = meet(p.first->getAABB(), p.second->getAABB());
      check(stopped || !o || c == 1, "every pair of objects whose boxes overlap is handed to the callback");
      check(o || c == 0 || !exact || (naive && q == 'q'), "only pairs whose boxes overlap");
    } else
      check(stopped || c >= 1 || p.first->getAABB().distance(p.second->getAABB()) >= s.least, "every pair of objects is handed to the callback unless their boxes are no nearer than the distance found");
  }
  check(in == s.pairs.size(), "only pairs asked for");
}
template <class X> void nat(char op) { nat<X>(op, "sq"[__lcv_choice("query", 2)]); }
}
#define C23(NAME, T) \
  LCV_HARNESS(C23_##NAME##_collide, "") { nat<T>('c'); } \
  LCV_HARNESS(C23_##NAME##_distance, "") { nat<T>('d'); } \
  LCV_HARNESS(C23_##NAME##_two, "") { nat<T>(boolean("distance") ? 'd' : 'c', '2'); }
C23(naive, Naive)
C23(ssap, SSaP)
C23(sap, SaP)
C23(itree, ITree)
C23(hash, Hash)
#endif
