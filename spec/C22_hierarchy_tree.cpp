// Contracts on the operations of the bounding volume hierarchies of the broad phase (pointer and array version).
// LCV-REPLACE: 4AABBIdE4sizeEv$ => stub_size
// LCV-REPLACE: 4AABBIdE5equalERKS1_$ => stub_equal
// LCV-REPLACE: 4AABBIdE7containERKS1_$ => stub_contain
// LCV-REPLACE: 6detail13HierarchyTreeINS_4AABBIdEEE12recurseRefitE => stub_refit_p
// LCV-REPLACE: 20implementation_array13HierarchyTreeINS_4AABBIdEEE12recurseRefitE => stub_refit_a
// LCV-REPLACE: 14morton_functorIdjEclE => stub_code
#include <new>
#include "fcl/broadphase/detail/hierarchy_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree_array.h"
#include "broadphase/detail/morton.cpp"
#include "fcl/math/bv/AABB.h"
#include "lcv.h"
using namespace lcv;
typedef fcl::AABB<double> AB;
typedef fcl::detail::NodeBase<AB> PN;
typedef fcl::detail::implementation_array::NodeBase<AB> AN;
typedef fcl::detail::HierarchyTree<AB> PT;
typedef fcl::detail::implementation_array::HierarchyTree<AB> AT;

static int onlyAxis = -1;      // boxes differ along this axis only (-1: along all)
static AB box(const char* n) {
  AB b;
  for (int i = 0; i < 3; i++) {
    double u = 0, v = 1;
    if (onlyAxis < 0 || onlyAxis == i) { u = real(n); v = real(n); }
#ifdef LCV_NATIVE
    b.min_[i] = std::min(u, v); b.max_[i] = std::max(u, v);
#else
    assume(u <= v); b.min_[i] = u; b.max_[i] = v;
#endif
  }
  return b;
}
static bool within(const AB& a, const AB& b) {
  bool r = true;
  for (int i = 0; i < 3; i++) r = r & (b.min_[i] <= a.min_[i]) & (a.max_[i] <= b.max_[i]);
  return r;
}
#ifndef LCV_NATIVE
// the size only steers the shape of the tree; so do equal and the code (equal: true of equal boxes)
extern "C" double stub_size(const AB*) { return __lcv_havoc_real("size"); }
extern "C" bool stub_equal(const AB* a, const AB& b) {
  bool e = split(__lcv_havoc_bool("equal"));
  assume(imp(within(*a, b) & within(b, *a), e));
  return e;
}
extern "C" bool stub_contain(const AB* a, const AB& b) { return split(within(b, *a)); }
static unsigned codes[4]; static int ncode;
extern "C" unsigned stub_code(const fcl::detail::morton_functor<double, unsigned>*, const Vector3d&) { return codes[ncode++]; }
static void givecodes(int n) {
  const unsigned some[3] = {0u, 1u, (1u << 30) - 1};
  ncode = 0;
  for (int i = 0; i < n; i++) codes[i] = some[__lcv_choice("code", 3)];
}
#else
static void givecodes(int) {}
#endif
template <class T> struct Api;
template <> struct Api<PT> {
  typedef PN Node; typedef PN* H;
  static PN& at(PT&, PN* h) { return *h; }
  static PN* none() { return nullptr; }
};
template <> struct Api<AT> {
  typedef AN Node; typedef size_t H;
  static AN& at(AT& t, size_t h) { return t.getNodes()[h]; }
  static size_t none() { return AT::NULL_NODE; }
};
#ifdef LCV_NATIVE
static const int M = 24;
#else
static const int M = 4;
#endif
static char tags[M];
template <class T> struct World {
  typedef typename Api<T>::H H; typedef typename Api<T>::Node Node;
  T t; H h[M]; AB x[M]; bool in[M]; int seen[M]; int n;
  World() : t(2, 0), n(0) { onlyAxis = -1; }
  World(int bu, int level) : t(bu, level), n(0) {}
  Node& at(H k) { return Api<T>::at(t, k); }
  H add() { x[n] = box("x"); in[n] = true; h[n] = t.createNode(Api<T>::none(), x[n], &tags[n]); return h[n++]; }
  // a node over two others whose volume may be looser than need be
  H join(H a, H b) {
    AB v = box("v");
#ifdef LCV_NATIVE
    v += at(a).bv; v += at(b).bv;
#endif
    assume(within(at(a).bv, v) & within(at(b).bv, v));
    H k = t.createNode(Api<T>::none(), v, (void*)nullptr);
    at(k).children[0] = a; at(k).children[1] = b;
    at(a).parent = k; at(b).parent = k;
    return k;
  }
  // any valid tree of that many leaves
  H any(int count) {
    if (count == 1) return add();
    int l = count == 2 ? 1 : 1 + __lcv_choice("left", count - 1);
    H a = any(l), b = any(count - l);
    return join(a, b);
  }
  void build(int count) { t.root_node = any(count); t.n_leaves = count; }
  // walks the tree: links agree, every volume encloses those below it, every leaf is one of the objects
  void walk(H k, H parent, int depth) {
    check(depth < n, "the tree is finite");
    check(at(k).parent == parent, "links to parent and child agree");
    if (at(k).isLeaf()) {
      int i = 0;
      while (i < n && at(k).data != &tags[i]) i++;
      check(i < n, "leaves are the objects put in");
      if (i >= n) return;
      check(k == h[i], "a leaf is identified by what the insertion returned");
      check(within(x[i], at(k).bv), "the volume of a leaf encloses its object");
      seen[i]++;
    } else {
      H a = at(k).children[0], b = at(k).children[1];
      check(within(at(a).bv, at(k).bv) & within(at(b).bv, at(k).bv), "the volume of a node encloses those of its children");
      walk(a, k, depth + 1);
      walk(b, k, depth + 1);
    }
  }
  void valid() {
    cover("run");
    int c = 0;
    for (int i = 0; i < n; i++) { seen[i] = 0; c += in[i]; }
    check((int)t.size() == c, "size is the number of objects");
    check(t.empty() == (c == 0), "empty iff there are no objects");
    if (c) walk(t.getRoot(), Api<T>::none(), 0);
    for (int i = 0; i < n; i++) check(seen[i] == in[i], "every object is in the tree exactly once");
    check(t.getMaxHeight() == t.getMaxDepth(), "height of the root is the greatest depth");
  }
};
template <class T> static void insert(int n) {
  World<T> w;
  if (n > 0) w.build(n);
  w.x[n] = box("x"); w.in[n] = true; w.h[n] = w.t.insert(w.x[n], &tags[n]); w.n++;
  w.valid();
}
// from nothing, one after the other
template <class T> static void fromNothing(int n) {
  World<T> w;
  for (int i = 0; i < n; i++) { w.x[i] = box("x"); w.in[i] = true; w.h[i] = w.t.insert(w.x[i], &tags[i]); w.n++; w.valid(); }
}
// from a list of nodes that is used up
static void grow() {
  World<AT> w;
  w.build(1);
  while (w.t.n_nodes + 1 < w.t.n_nodes_alloc) w.t.allocateNode();      // one is left
  check(w.t.nodes[w.t.freelist].next == AT::NULL_NODE, "one node is left");
  w.x[1] = box("x"); w.in[1] = true; w.h[1] = w.t.insert(w.x[1], &tags[1]); w.n++;
  w.valid();
}
template <class T> static void remove(int n) {
  World<T> w; w.build(n);
  int k = __lcv_choice("which", n);
  w.t.remove(w.h[k]); w.in[k] = false;
  w.valid();
  if (n <= 2 && boolean("more")) {      // room is reused
    w.x[k] = box("again"); w.h[k] = w.t.insert(w.x[k], &tags[k]); w.in[k] = true;
    w.valid();
  }
}
template <class T> static void removeAll(int n) {
  World<T> w; w.build(n);
  for (int i = 0; i < n; i++) { w.t.remove(w.h[i]); w.in[i] = false; w.valid(); }
  w.x[0] = box("again"); w.h[0] = w.t.insert(w.x[0], &tags[0]); w.in[0] = true;
  w.valid();
}
template <class T> static void update(int n) {
  World<T> w; w.build(n);
  int k = __lcv_choice("which", n);
  AB b = box("moved");
  w.t.max_lookahead_level = __lcv_choice("lookahead", 3) - 1;
  bool moved = w.t.update(w.h[k], b);
  check(imp(!moved, within(b, w.x[k])), "an update is left out only if the new volume is within the old one");
  w.x[k] = b;
  w.valid();
}
template <class T> static void reinsert(int n) {
  World<T> w; w.build(n);
  int k = __lcv_choice("which", n);
  w.t.update(w.h[k], __lcv_choice("lookahead", 3) - 1);
  w.valid();
}
template <class T> static void bottomup(int n) { World<T> w; w.build(n); w.t.balanceBottomup(); w.valid(); }
template <class T> static void topdown(int n, int bu, int level) {
  onlyAxis = n < 3 ? -1 : __lcv_choice("axis", 3);
  World<T> w(bu, level); w.build(n); w.t.balanceTopdown(); w.valid();
}
template <class T> static void incremental(int n, int times) {
  World<T> w; w.build(n);
  w.t.opath = __lcv_choice("path", 4);
  w.t.balanceIncremental(times); w.valid();
}
template <class T> static void refit(int n) {
  World<T> w; w.build(n);
  for (int i = 0; i < n; i++) { w.x[i] = box("moved"); w.at(w.h[i]).bv = w.x[i]; }
  w.t.refit(); w.valid();
}
static void fill(World<PT>& w, int n, int level) {
  std::vector<PN*> leaves(n);
  for (int i = 0; i < n; i++) {
    PN* l = new PN;
    w.x[i] = box("x"); w.in[i] = true; w.h[i] = l;
    l->bv = w.x[i]; l->parent = nullptr; l->data = &tags[i]; l->children[1] = nullptr;
    leaves[i] = l;
  }
  w.n = n;
  w.t.init(leaves, level);
}
static void fill(World<AT>& w, int n, int level) {
  AN* leaves = new AN[n];
  for (int i = 0; i < n; i++) {
    w.x[i] = box("x"); w.in[i] = true; w.h[i] = i;
    leaves[i].bv = w.x[i]; leaves[i].parent = AT::NULL_NODE; leaves[i].children[1] = AT::NULL_NODE; leaves[i].data = &tags[i];
  }
  w.n = n;
  w.t.init(leaves, n, level);
  delete[] leaves;
}
template <class T> static void init(int n, int level, int bu, int td) {
  onlyAxis = n < 3 ? -1 : __lcv_choice("axis", 3); World<T> w(bu, td); givecodes(n); fill(w, n, level); w.valid();
  if (n < 2) {      // and the tree goes on working
    w.x[n] = box("more"); w.in[n] = true; w.h[n] = w.t.insert(w.x[n], &tags[n]); w.n++;
    w.valid();
  }
}
#ifdef LCV_NATIVE
static int look() { return __lcv_choice("lookahead", 3) - 1; }
#else
static int look() { return 1; }
#endif
// one operation after the other; natively long random histories of up to 24 leaves
template <class T> static void longer(int n, int ops) {
  onlyAxis = -1;
  World<T> w(1 + __lcv_choice("bu", 3), __lcv_choice("level", 2));
#ifdef LCV_NATIVE
  fill(w, 1 + __lcv_choice("leaves", M), __lcv_choice("init", 4));
  n = w.n; w.valid(); ops = 12;
#else
  for (int i = 0; i < n; i++) { w.x[i] = box("x"); w.in[i] = true; w.h[i] = w.t.insert(w.x[i], &tags[i]); w.n++; }
#endif
  for (int o = 0; o < ops; o++) {
    int k = __lcv_choice("which", n);
    switch (__lcv_choice("op", 6)) {
      case 0:
        if (w.in[k]) { w.t.remove(w.h[k]); w.in[k] = false; }
        else { w.x[k] = box("x"); w.h[k] = w.t.insert(w.x[k], &tags[k]); w.in[k] = true; }
        break;
      case 1: if (w.in[k]) { AB b = box("moved"); w.t.update(w.h[k], b); w.x[k] = b; } break;
      case 2: if (w.in[k]) w.t.update(w.h[k], look()); break;
      case 3: w.t.balanceIncremental(look()); break;
      case 4: w.t.balanceTopdown(); break;
      case 5: w.t.balanceBottomup(); break;
    }
#ifndef LCV_NATIVE
    if (o < ops - 1) continue;
#endif
    w.valid();
  }
}
LCV_HARNESS(C22_tree_history, "merge=0 real=stub_refit bounded=one_operation_on_2_leaves_symbolically;_random_histories_of_up_to_24_leaves") { longer<PT>(2, 1); }
LCV_HARNESS(C22_array_history, "merge=0 real=stub_refit bounded=one_operation_on_2_leaves_symbolically;_random_histories_of_up_to_24_leaves") { longer<AT>(2, 1); }
// ---- trees of any size: refitting makes the volume of a node enclose every leaf below it, whatever the volumes were before.
// The recursive calls are taken by that contract, for a ghost leaf x below the first or the second child
struct RefitGhost { AB x; bool left; int calls; PN* pn; AT* at; };
static RefitGhost rg;
#ifndef LCV_NATIVE
extern "C" void stub_refit_p(PT* t, PN* k) {
  check((k == &rg.pn[1]) | (k == &rg.pn[2]), "recursion goes to the children");
  k->bv = box("refitted");
  assume(imp(k == &rg.pn[rg.left ? 1 : 2], within(rg.x, k->bv)));
}
extern "C" void stub_refit_a(AT* t, size_t k) {
  check((k == 1) | (k == 2), "recursion goes to the children");
  t->nodes[k].bv = box("refitted");
  assume(imp(k == (rg.left ? 1 : 2), within(rg.x, t->nodes[k].bv)));
}
#endif
LCV_HARNESS(C22_tree_refit_any, "nest=stub_refit_p") {
  static PN m[3]; PT t(2, 0);
  rg.x = box("x"); rg.left = split(boolean("left")); rg.pn = m;
  bool leaf = split(boolean("leaf"));
  for (int i = 0; i < 3; i++) { m[i].children[1] = nullptr; m[i].bv = box("bv"); m[i].parent = i ? &m[0] : nullptr; }
  if (leaf) { m[0].data = tags; m[0].bv = rg.x; }
  else { m[0].children[0] = &m[1]; m[0].children[1] = &m[2]; }
#ifdef LCV_NATIVE
  m[rg.left ? 1 : 2].bv = rg.x;
#endif
  t.root_node = &m[0];
  t.refit();
  t.root_node = nullptr;
  cover("run");
  check(within(rg.x, m[0].bv), "the volume of a refitted node encloses every leaf below it");
  check(imp(leaf, within(m[0].bv, rg.x)), "leaves keep their volume");
  if (!leaf) {
    check(within(m[1].bv, m[0].bv) & within(m[2].bv, m[0].bv), "the volume of a node encloses those of its children");
    for (int i = 0; i < 3; i++)
      check(((m[0].bv.min_[i] == m[1].bv.min_[i]) | (m[0].bv.min_[i] == m[2].bv.min_[i])) &
            ((m[0].bv.max_[i] == m[1].bv.max_[i]) | (m[0].bv.max_[i] == m[2].bv.max_[i])), "and no more");
    check((m[0].children[0] == &m[1]) & (m[0].children[1] == &m[2]) & (m[1].parent == m) & (m[2].parent == m), "links are kept");
  }
}
LCV_HARNESS(C22_array_refit_any, "nest=stub_refit_a") {
  AT t(2, 0); AN* m = t.nodes;
  rg.x = box("x"); rg.left = split(boolean("left"));
  bool leaf = split(boolean("leaf"));
  for (int i = 0; i < 3; i++) { m[i].children[1] = AT::NULL_NODE; m[i].bv = box("bv"); m[i].parent = i ? 0 : AT::NULL_NODE; }
  if (leaf) { m[0].data = tags; m[0].bv = rg.x; }
  else { m[0].children[0] = 1; m[0].children[1] = 2; }
#ifdef LCV_NATIVE
  m[rg.left ? 1 : 2].bv = rg.x;
#endif
  t.root_node = 0;
  t.refit();
  cover("run");
  check(within(rg.x, m[0].bv), "the volume of a refitted node encloses every leaf below it");
  check(imp(leaf, within(m[0].bv, rg.x)), "leaves keep their volume");
  if (!leaf) {
    check(within(m[1].bv, m[0].bv) & within(m[2].bv, m[0].bv), "the volume of a node encloses those of its children");
    for (int i = 0; i < 3; i++)
      check(((m[0].bv.min_[i] == m[1].bv.min_[i]) | (m[0].bv.min_[i] == m[2].bv.min_[i])) &
            ((m[0].bv.max_[i] == m[1].bv.max_[i]) | (m[0].bv.max_[i] == m[2].bv.max_[i])), "and no more");
    check((m[0].children[0] == 1) & (m[0].children[1] == 2) & (m[1].parent == 0) & (m[2].parent == 0), "links are kept");
  }
}
// ---- Morton codes
LCV_HARNESS(C22_morton, "") {
  unsigned v[3];
  for (int i = 0; i < 3; i++) {
    v[i] = __lcv_u32("v");
#ifdef LCV_NATIVE
    v[i] &= 1023u;
#endif
    assume(v[i] < 1024u);
  }
  unsigned c = fcl::detail::morton_code(v[0], v[1], v[2]);
  cover("run");
  for (int i = 0; i < 3; i++)
    for (int b = 0; b < 10; b++) check(((c >> (3 * b + i)) & 1u) == ((v[i] >> b) & 1u), "a Morton code interleaves the bits of the three numbers");
  check(c < (1u << 30), "and has no others");
}
LCV_HARNESS(C22_morton60, "") {
  unsigned v[3];
  for (int i = 0; i < 3; i++) {
    v[i] = __lcv_u32("v");
#ifdef LCV_NATIVE
    v[i] &= (1u << 20) - 1;
#endif
    assume(v[i] < (1u << 20));
  }
  unsigned long c = fcl::detail::morton_code60(v[0], v[1], v[2]);
  cover("run");
  for (int i = 0; i < 3; i++)
    for (int b = 0; b < 20; b++) check(((c >> (3 * b + i)) & 1u) == ((v[i] >> b) & 1u), "a Morton code interleaves the bits of the three numbers");
  check(c < (1ul << 60), "and has no others");
}
LCV_HARNESS(C22_tree_insert, "merge=0 real=stub_refit bounded=trees_of_up_to_4_leaves") { insert<PT>(__lcv_choice("n", 4)); }
LCV_HARNESS(C22_tree_from_nothing, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { fromNothing<PT>(3); }
LCV_HARNESS(C22_tree_remove, "merge=0 real=stub_refit bounded=trees_of_up_to_4_leaves") { remove<PT>(1 + __lcv_choice("n", 4)); }
LCV_HARNESS(C22_tree_remove_all, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { removeAll<PT>(3); }
LCV_HARNESS(C22_tree_update, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { update<PT>(1 + __lcv_choice("n", 3)); }
LCV_HARNESS(C22_tree_reinsert, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { reinsert<PT>(1 + __lcv_choice("n", 3)); }
LCV_HARNESS(C22_tree_bottomup, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { bottomup<PT>(1 + __lcv_choice("n", 3)); }
LCV_HARNESS(C22_tree_topdown0, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { topdown<PT>(1 + __lcv_choice("n", 3), 1, 0); }
LCV_HARNESS(C22_tree_topdown1, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { topdown<PT>(1 + __lcv_choice("n", 3), 1, 1); }
LCV_HARNESS(C22_tree_incremental, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { incremental<PT>(1 + __lcv_choice("n", 3), 1); }
LCV_HARNESS(C22_tree_refit, "merge=0 real=stub_refit bounded=trees_of_up_to_4_leaves") { refit<PT>(1 + __lcv_choice("n", 4)); }
LCV_HARNESS(C22_tree_init0, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { init<PT>(1 + __lcv_choice("n", 3), 0, 2, 0); }
LCV_HARNESS(C22_tree_init1, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { init<PT>(1 + __lcv_choice("n", 3), 1, 2, 0); }
LCV_HARNESS(C22_tree_init2, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { init<PT>(1 + __lcv_choice("n", 3), 2, 2, 0); }
LCV_HARNESS(C22_tree_init3, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { init<PT>(1 + __lcv_choice("n", 3), 3, 2, 0); }
LCV_HARNESS(C22_array_insert, "merge=0 real=stub_refit bounded=trees_of_up_to_4_leaves") { insert<AT>(__lcv_choice("n", 4)); }
LCV_HARNESS(C22_array_from_nothing, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { fromNothing<AT>(3); }
LCV_HARNESS(C22_array_remove, "merge=0 real=stub_refit bounded=trees_of_up_to_4_leaves") { remove<AT>(1 + __lcv_choice("n", 4)); }
LCV_HARNESS(C22_array_remove_all, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { removeAll<AT>(3); }
LCV_HARNESS(C22_array_update, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { update<AT>(1 + __lcv_choice("n", 3)); }
LCV_HARNESS(C22_array_reinsert, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { reinsert<AT>(1 + __lcv_choice("n", 3)); }
LCV_HARNESS(C22_array_bottomup, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { bottomup<AT>(1 + __lcv_choice("n", 3)); }
LCV_HARNESS(C22_array_topdown0, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { topdown<AT>(1 + __lcv_choice("n", 3), 1, 0); }
LCV_HARNESS(C22_array_topdown1, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { topdown<AT>(1 + __lcv_choice("n", 3), 1, 1); }
LCV_HARNESS(C22_array_incremental, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { incremental<AT>(1 + __lcv_choice("n", 3), 1); }
LCV_HARNESS(C22_array_refit, "merge=0 real=stub_refit bounded=trees_of_up_to_4_leaves") { refit<AT>(1 + __lcv_choice("n", 4)); }
LCV_HARNESS(C22_array_init0, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { init<AT>(1 + __lcv_choice("n", 3), 0, 2, 0); }
LCV_HARNESS(C22_array_init1, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { init<AT>(1 + __lcv_choice("n", 3), 1, 2, 0); }
LCV_HARNESS(C22_array_init2, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { init<AT>(1 + __lcv_choice("n", 3), 2, 2, 0); }
LCV_HARNESS(C22_array_init3, "merge=0 real=stub_refit bounded=trees_of_up_to_3_leaves") { init<AT>(1 + __lcv_choice("n", 3), 3, 2, 0); }
LCV_HARNESS(C22_array_grow, "bounded=one_insertion_into_a_full_list_of_16_nodes") { grow(); }
