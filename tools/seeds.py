#!/usr/bin/env python3
"""the planted changes, as edits; python3 tools/seeds.py [ID...] regenerates seeded/"""
import sys
from mkseed import make
S = []


def seed(*a, **k):
    if len(sys.argv) == 1 or a[0] in sys.argv[1:]:
        make(*a, **k)


I = 'include/fcl/'
seed('kdop-translate-slab', 'C02', I + 'math/bv/kDOP-inl.h',
     "  getDistances<S, (N - 6) / 2>(t, d);\n  for(std::size_t i = 0; i < (N - 6) / 2; ++i)\n  {\n    res.dist(3 + i) += d[i];\n    res.dist(3 + i + N / 2) += d[i];",
     "  getDistances<S, (N - 6) / 2>(t, d);\n  for(std::size_t i = 0; i < (N - 6) / 2; ++i)\n  {\n    res.dist(3 + i) += d[i];\n    res.dist(3 + i + N / 2) += std::abs(d[i]);",
     'a translation with a negative component along a diagonal direction', 'translate moves the upper diagonal slabs the wrong way',
     r'''#include <fcl/math/bv/kDOP.h>
int main(){ fcl::KDOP<double,18> k(fcl::Vector3d(1,2,3)); fcl::Vector3d t(-1,0.5,-2);
 auto m=fcl::translate(k,t); fcl::KDOP<double,18> w(fcl::Vector3d(0,2.5,1));
 for(int i=0;i<18;i++) if(std::abs(m.dist(i)-w.dist(i))>1e-12) return 1; return 0; }''')
seed('obb-tf-edge-axis', 'C03', I + 'math/bv/OBB-inl.h',
     "  s = tf.translation()[0] * tf.linear()(2, 2) - tf.translation()[2] * tf.linear()(0, 2);\n  t = ((s < 0.0) ? -s : s);\n\n  if(t > (a[0] * Bf(2, 2) + a[2] * Bf(0, 2) +\n          b[0] * Bf(1, 1) + b[1] * Bf(1, 0)))",
     "  s = tf.translation()[0] * tf.linear()(2, 2) - tf.translation()[2] * tf.linear()(0, 2);\n  t = ((s < 0.0) ? -s : s);\n\n  if(t > (a[0] * Bf(2, 2) + a[2] * Bf(0, 2) +\n          b[0] * Bf(1, 1) + b[1] * Bf(0, 1)))",
     'two oriented boxes whose only separating-axis test near the limit is the cross product of axis 1 of the first and axis 2 of the second', 'overlapping oriented boxes reported disjoint by the Transform overload',
     r'''#include <fcl/math/bv/OBB.h>
#include <random>
using namespace fcl;
int main(){ std::mt19937 g(5); std::uniform_real_distribution<double> u(-1,1);
 for(int k=0;k<400000;k++){ Quaterniond q(u(g),u(g),u(g),u(g)); q.normalize(); Vector3d a(std::abs(u(g)),std::abs(u(g)),std::abs(u(g))),b(std::abs(u(g)),std::abs(u(g)),std::abs(u(g)));
  auto pm=[&]{return u(g)>0?1.0:-1.0;};
  Vector3d x(a[0]*pm()*.999,a[1]*pm()*.999,a[2]*u(g)),y(b[0]*pm()*.999,b[1]*pm()*.999,b[2]*pm()*.999);
  if(k&1) x=Vector3d(a[0]*pm()*.999,a[1]*u(g),a[2]*pm()*.999); if(k&2) y[2]=b[2]*u(g);
  Transform3d T=Transform3d::Identity(); T.linear()=q.toRotationMatrix(); T.translation()=x-T.linear()*y;
  if(obbDisjoint(T,a,b)) return 1; } return 0; }''')
seed('aabb-axis-overlap-touch', 'C01', I + 'math/bv/AABB-inl.h',
     "  if(max_[axis_id] < other.min_[axis_id]) return false;", "  if(max_[axis_id] <= other.min_[axis_id]) return false;",
     'boxes that touch exactly on one axis, with the first one below the second', 'axisOverlap denies a shared face',
     r'''#include <fcl/math/bv/AABB.h>
using namespace fcl;
int main(){ AABB<double> a(Vector3d(0,0,0),Vector3d(1,1,1)),b(Vector3d(1,0,0),Vector3d(2,1,1)); return a.axisOverlap(b,0)&&b.axisOverlap(a,0)?0:1; }''')
N = I + 'narrowphase/detail/'
seed('support-triangle-third', 'C07', N + 'convexity_based_algorithm/minkowski_diff-inl.h',
     "      else\n      {\n        if(dotc > dotb)", "      else\n      {\n        if(dotc > dota)",
     'a triangle whose vertices b, c, a are ordered b > c > a along the direction', 'the support point of a triangle is not its furthest vertex',
     r'''#include <fcl/narrowphase/detail/convexity_based_algorithm/minkowski_diff.h>
using namespace fcl;
int main(){ TriangleP<double> t(Vector3d(0,0,0),Vector3d(3,0,0),Vector3d(2,1,0));
 Vector3d p=detail::getSupport(static_cast<const ShapeBase<double>*>(&t),Vector3d(1,0,0)); return p[0]==3?0:1; }''')
seed('sphere-cylinder-lone-witness', 'C08', N + 'primitive_shape_algorithm/sphere_cylinder-inl.h',
     "if (distance || p_FCs || p_FSc)", "if (distance || p_FCs)",
     'a distance query that asks for nothing but the nearest point on the sphere', 'the nearest point on the sphere is computed from an unset distance',
     r'''#include <fcl/narrowphase/detail/primitive_shape_algorithm/sphere_cylinder.h>
using namespace fcl;
int main(){ Sphere<double> s(1); Cylinder<double> c(1,2); Transform3d a=Transform3d::Identity(),b=a; a.translation()=Vector3d(5,0,0);
 Vector3d p; bool r=detail::sphereCylinderDistance<double>(s,a,c,b,nullptr,&p,nullptr); return r&&(p-Vector3d(4,0,0)).norm()<1e-12?0:1; }''')
seed('bv-plane-negative-y', 'C05', I + 'geometry/shape/utility-inl.h',
     "struct FCL_EXPORT ComputeBVImpl<S, AABB<S>, Plane<S>>\n{\n  static void run(const Plane<S>& s, const Transform3<S>& tf, AABB<S>& bv)\n  {\n    Plane<S> new_s = transform(s, tf);\n    const Vector3<S>& n = new_s.n;\n    const S& d = new_s.d;\n\n    AABB<S> bv_;\n    bv_.min_ = Vector3<S>::Constant(-std::numeric_limits<S>::max());\n    bv_.max_ = Vector3<S>::Constant(std::numeric_limits<S>::max());\n    if(n[1] == (S)0.0 && n[2] == (S)0.0)",
     "struct FCL_EXPORT ComputeBVImpl<S, AABB<S>, Plane<S>>\n{\n  static void run(const Plane<S>& s, const Transform3<S>& tf, AABB<S>& bv)\n  {\n    Plane<S> new_s = transform(s, tf);\n    const Vector3<S>& n = new_s.n;\n    const S& d = new_s.d;\n\n    AABB<S> bv_;\n    bv_.min_ = Vector3<S>::Constant(-std::numeric_limits<S>::max());\n    bv_.max_ = Vector3<S>::Constant(std::numeric_limits<S>::max());\n    if(n[1] == (S)0.0 || (n[2] == (S)0.0 && n[0] != (S)0.0 && n[1] < (S)0.0))",
     'a plane whose normal lies in a coordinate plane without being along an axis', 'the box of a slanted plane is a slab that does not contain the plane',
     r'''#include <fcl/geometry/shape/utility.h>
using namespace fcl;
int main(){ Plane<double> p(0.6,-0.8,0,1); AABB<double> b; computeBV(p,Transform3d(Transform3d::Identity()),b);
 Vector3d q(p.n*p.d+7*Vector3d(0.8,0.6,0)); if(!b.contain(q)) return 1;
 Plane<double> r(0.6,0,0.8,1); computeBV(r,Transform3d(Transform3d::Identity()),b); q=r.n*r.d+7*Vector3d(0.8,0,-0.6); return b.contain(q)?0:1; }''')
seed('self-traversal-front-early-stop', 'C19', N + 'traversal/traversal_recurse-inl.h',
     "  selfCollisionRecurse(node, c2, front_list);\n  if(node->canStop() && !front_list) return;", "  selfCollisionRecurse(node, c2, front_list);\n  if(node->canStop()) return;",
     'a self-collision traversal that builds a front list and finds enough contacts within one child of a node', 'the pairs across the two children are missing from the front list',
     r'''#include <fcl/narrowphase/detail/traversal/traversal_recurse.h>
#include <fcl/narrowphase/detail/traversal/collision/collision_traversal_node_base.h>
using namespace fcl; using namespace fcl::detail;
struct N : CollisionTraversalNodeBase<double> { mutable bool stop=false;
 bool isFirstNodeLeaf(int b) const override {return b>=3;} bool isSecondNodeLeaf(int b) const override {return b>=3;}
 bool firstOverSecond(int a,int b) const override {return !isFirstNodeLeaf(a);} 
 int getFirstLeftChild(int b) const override {return 2*b+1;} int getFirstRightChild(int b) const override {return 2*b+2;}
 int getSecondLeftChild(int b) const override {return 2*b+1;} int getSecondRightChild(int b) const override {return 2*b+2;}
 bool BVTesting(int,int) const override {return false;} void leafTesting(int,int) const override {stop=true;} bool canStop() const override {return stop;} };
int main(){ N n; BVHFrontList f; selfCollisionRecurse<double>(&n,0,&f); return f.size()==6?0:1; }''')
seed('shape-contacts-deepest', 'C13', N + 'traversal/collision/shape_collision_traversal_node-inl.h',
     "contacts.begin() + free_space, contacts.end()", "contacts.begin() + (free_space - 1), contacts.end()",
     'more contacts between two shapes than the request has room for', 'the last contact kept is not the next deepest',
     r'''#include <fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node.h>
using namespace fcl;
struct Solver { typedef double S; template<class A,class B> bool shapeIntersect(const A&,const Transform3d&,const B&,const Transform3d&,std::vector<ContactPoint<double>>* c) const {
 if(c) for(double d: {1.,5.,2.,4.,3.}) c->emplace_back(Vector3d(1,0,0),Vector3d(d,0,0),d); return true; } };
int main(){ for(int m=1;m<=4;m++){ Box<double> b(1,1,1); Sphere<double> s(1); Solver sol; CollisionRequest<double> q(m,true); CollisionResult<double> r;
 detail::ShapeCollisionTraversalNode<Box<double>,Sphere<double>,Solver> n; detail::initialize(n,b,Transform3d(Transform3d::Identity()),s,Transform3d(Transform3d::Identity()),&sol,q,r); n.leafTesting(0,0);
 if((int)r.numContacts()!=m) return 1; for(int i=0;i<m;i++) if(r.getContact(i).penetration_depth<6-m) return 1; } return 0; }''')
seed('dynamic-tree-distance-order', 'C21', I + 'broadphase/broadphase_dynamic_AABB_tree-inl.h',
     "      if(d1 < min_dist)\n      {\n        if(distanceRecurse(root1, root2->children[0], cdata, callback, min_dist))\n          return true;\n      }\n    }\n    else",
     "      if(d1 < min_dist && d1 < 2 * d2)\n      {\n        if(distanceRecurse(root1, root2->children[0], cdata, callback, min_dist))\n          return true;\n      }\n    }\n    else",
     'two managers; the nearer subtree of the second holds no nearer object and the other is more than twice as far by its box', 'a pair nearer than the distance found is never handed to the distance callback',
     r'''#include <fcl/broadphase/broadphase_dynamic_AABB_tree.h>
#include <fcl/geometry/shape/sphere.h>
#include <random>
using namespace fcl; typedef CollisionObject<double> O; static int calls;
static bool cb(O*,O*,void*,double&){ calls++; return false; }
int main(){ std::mt19937 g(3); std::uniform_real_distribution<double> u(-10,10); auto s=std::make_shared<Sphere<double>>(.1);
 for(int k=0;k<200;k++){ std::vector<std::unique_ptr<O>> v; DynamicAABBTreeCollisionManager<double> a,b; int n=1+k%3,m=2+k%5; std::vector<O*> x,y;
  for(int i=0;i<n+m;i++){ Transform3d T=Transform3d::Identity(); T.translation()=Vector3d(u(g),u(g),u(g)); v.emplace_back(new O(s,T)); (i<n?x:y).push_back(v.back().get()); }
  a.registerObjects(x); b.registerObjects(y); a.setup(); b.setup(); calls=0; a.distance(&b,nullptr,cb); if(calls!=n*m) return 1; }
 return 0; }''')
seed('hash-outside-to-partial', 'C23', I + 'broadphase/broadphase_spatialhash-inl.h',
     "        objs_outside_scene_limit.erase(find_it);\n\n        objs_partially_penetrating_scene_limit.push_back(updated_obj);", "        if(find_it != objs_outside_scene_limit.end())\n          *find_it = updated_obj;",
     'an object outside the scene moves to its border and then inside', 'the manager lists the object as outside although it is at the border',
     r'''#include <fcl/broadphase/broadphase_spatialhash.h>
#include <fcl/geometry/shape/sphere.h>
using namespace fcl; typedef CollisionObject<double> O; static int hits;
static bool cb(O*,O*,void*){ hits++; return false; }
static void at(O&o,double x){ o.setTranslation(Vector3d(x,0,0)); o.computeAABB(); }
int main(){ auto s=std::make_shared<Sphere<double>>(1.); O a(s),b(s),c(s); at(a,30); at(b,5); at(c,9);
 SpatialHashingCollisionManager<double> m(1.,Vector3d(-10,-10,-10),Vector3d(10,10,10)); m.registerObject(&a); m.registerObject(&b); m.setup();
 at(a,10.5); m.update(&a); at(c,11.8); hits=0; m.collide(&c,nullptr,cb); if(hits!=1) return 1;
 at(a,5.5); m.update(&a); hits=0; m.collide(nullptr,cb); return hits==1&&m.size()==2?0:1; }''')

seed('table-convex-plane', 'C18', N + 'collision_func_matrix-inl.h',
     "collision_matrix[GEOM_CONVEX][GEOM_PLANE] = &ShapeShapeCollide<Convex<S>, Plane<S>, NarrowPhaseSolver>;",
     "collision_matrix[GEOM_CONVEX][GEOM_PLANE] = &ShapeShapeCollide<Convex<S>, Halfspace<S>, NarrowPhaseSolver>;",
     'a convex shape against a plane, given in this order, the shape below the plane', 'a convex shape is tested against the half-space below the plane instead of the plane',
     r'''#include <fcl/narrowphase/collision.h>
using namespace fcl;
int main(){ auto v=std::make_shared<std::vector<Vector3d>>(); *v={Vector3d(0,0,0),Vector3d(1,0,0),Vector3d(0,1,0),Vector3d(0,0,1)};
 auto f=std::make_shared<std::vector<int>>(std::vector<int>{3,0,2,1,3,0,1,3,3,0,3,2,3,1,2,3});
 Convex<double> c(v,4,f); Plane<double> p(0,0,1,5); Transform3d I=Transform3d::Identity(); CollisionRequest<double> q; CollisionResult<double> r;
 if(collide(&c,I,&p,I,q,r)!=0) return 1; Plane<double> p2(0,0,1,0.5); r.clear(); return collide(&c,I,&p2,I,q,r)==1?0:1; }''')
