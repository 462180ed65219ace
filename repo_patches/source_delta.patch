From 07579fe405dd51bd14f85cb639433f85c883830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 01/43] fix: AABB::distance witness points lie in the overlap
 when one interval contains the other

---
 include/fcl/math/bv/AABB-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index 6738006..76086e8 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -270,13 +270,13 @@ S AABB<S>::distance(const AABB<S>& other, Vector3<S>* P, Vector3<S>* Q) const
       {
         if(bmin >= amin)
         {
-          S t = 0.5 * (amax + bmin);
+          S t = 0.5 * (std::min(amax, bmax) + bmin);
           (*P)[i] = t;
           (*Q)[i] = t;
         }
         else
         {
-          S t = 0.5 * (amin + bmax);
+          S t = 0.5 * (amin + std::min(amax, bmax));
           (*P)[i] = t;
           (*Q)[i] = t;
         }
-- 
2.43.0


From eb7c1598722ce03ded4d6dd2cdf764851fe0c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 02/43] fix: merging OBBs tracks the minimum projection even
 when a value is also the maximum

---
 include/fcl/math/bv/OBB-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 4d5455f..47bad32 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -341,7 +341,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
@@ -355,7 +355,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
-- 
2.43.0


From fa2b7818c5439a7403717ac5d5b8c7490d5bf464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 03/43] fix: k-DOP bounds of half-spaces and planes with
 diagonal normals bound the right slab side

The x+z branch of the half-space bounds tested the (zero) y component, and the
x+y-z branch tested the pattern of the y+z-x direction.
---
 include/fcl/geometry/shape/utility-inl.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index ca42a0b..d467cb9 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -450,7 +450,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -510,7 +510,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 18>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -575,7 +575,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -598,7 +598,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
       if(n[1] > 0) bv.dist(D + 8) = n[1] * d * 2;
       else bv.dist(8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] + n[2] == (S)0.0 && n[0] == n[1])
     {
       if(n[0] > 0) bv.dist(D + 9) = n[0] * d * 3;
       else bv.dist(9) = n[0] * d * 3;
@@ -881,7 +881,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Plane<S>>
     {
       bv.dist(8) = bv.dist(D + 8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] + n[2] == (S)0.0 && n[0] == n[1])
     {
       bv.dist(9) = bv.dist(D + 9) = n[0] * d * 3;
     }
-- 
2.43.0


From 9ab4a444b648148de60344018685b03489574953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 04/43] fix: the 16-DOP of a plane with a y+z normal sets the
 lower y+z slab

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index d467cb9..25da616 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -753,7 +753,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Plane<S>>
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
     {
-      bv.dist(6) = bv.dist(D + 5) = n[1] * d * 2;
+      bv.dist(5) = bv.dist(D + 5) = n[1] * d * 2;
     }
     else if(n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
     {
-- 
2.43.0


From b3fc59b8c2f748b22ebef0aca2743b51fe5ff581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 05/43] fix: the OBB of a placed convex keeps the fitted axes

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 25da616..ea01b23 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -253,7 +253,7 @@ struct FCL_EXPORT ComputeBVImpl<S, OBB<S>, Convex<S>>
   {
     fit(s.getVertices().data(), static_cast<int>(s.getVertices().size()), bv);
 
-    bv.axis = tf.linear();
+    bv.axis = tf.linear() * bv.axis;
     bv.To = tf * bv.To;
   }
 };
-- 
2.43.0


From cdba0fa5a5e5a020d867f3f66b61b40cf70e0187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 06/43] fix: sphere-capsule contact position lies on the
 sphere's surface towards the capsule

---
 .../detail/primitive_shape_algorithm/sphere_capsule-inl.h       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index c85d569..4b2e8b6 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -111,7 +111,7 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
   if (contacts)
   {
     const Vector3<S> normal = tf2.linear() * local_normal;
-    const Vector3<S> point = tf2 * (segment_point + local_normal * distance);
+    const Vector3<S> point = tf2 * (s_c + local_normal * s1.radius);
     const S penetration_depth = -distance;
 
     contacts->emplace_back(normal, point, penetration_depth);
-- 
2.43.0


From 5bc1bd8f6733f869f86c757245fd87d7454c608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 07/43] fix: sphere-triangle penetration depth is positive

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 0078900..e4a29b4 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -204,13 +204,13 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
         S distance = std::sqrt(distance_sqr);
         if(normal_) *normal_ = contact_to_center.normalized();
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -(radius - distance);
+        if(penetration_depth) *penetration_depth = radius - distance;
       }
       else
       {
         if(normal_) *normal_ = -normal;
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -radius;
+        if(penetration_depth) *penetration_depth = radius;
       }
 
       return true;
-- 
2.43.0


From f7469518f5b45c9d8471acc664548baf08a5a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 08/43] fix: sphere-triangle contact uses the nearest edge

---
 .../primitive_shape_algorithm/sphere_triangle-inl.h   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index e4a29b4..d4c42e9 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -166,25 +166,28 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
     }
     else
     {
-      S contact_capsule_radius_sqr = radius_with_threshold * radius_with_threshold;
+      // The nearest edge point within the contact radius.
+      S nearest_distance_sqr = radius_with_threshold * radius_with_threshold;
       Vector3<S> nearest_on_edge;
       S distance_sqr;
       distance_sqr = segmentSqrDistance(P1, P2, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < nearest_distance_sqr)
       {
         has_contact = true;
+        nearest_distance_sqr = distance_sqr;
         contact_point = nearest_on_edge;
       }
 
       distance_sqr = segmentSqrDistance(P2, P3, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < nearest_distance_sqr)
       {
         has_contact = true;
+        nearest_distance_sqr = distance_sqr;
         contact_point = nearest_on_edge;
       }
 
       distance_sqr = segmentSqrDistance(P3, P1, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < nearest_distance_sqr)
       {
         has_contact = true;
         contact_point = nearest_on_edge;
-- 
2.43.0


From 5d97b5020b90a30f03554e5176fcd32008e7a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 09/43] fix: sphere-triangle nearest points are in world
 coordinates, distance is -1 in contact

---
 .../primitive_shape_algorithm/sphere_triangle-inl.h    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index d4c42e9..1f83764 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -483,12 +483,15 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
       Vector3<S> project_p = P1 * result.parameterization[0] + P2 * result.parameterization[1] + P3 * result.parameterization[2];
       Vector3<S> dir = o - project_p;
       dir.normalize();
-      if(p1) { *p1 = o - dir * sp.radius; *p1 = tf.inverse(Eigen::Isometry) * (*p1); }
+      if(p1) *p1 = o - dir * sp.radius;
       if(p2) *p2 = project_p;
       return true;
     }
     else
+    {
+      if(dist) *dist = -1;
       return false;
+    }
   }
   else
   {
@@ -502,10 +505,7 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf1,
                             const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3, const Transform3<S>& tf2,
                             S* dist, Vector3<S>* p1, Vector3<S>* p2)
 {
-  bool res = detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
-  if(p2) *p2 = tf2.inverse(Eigen::Isometry) * (*p2);
-
-  return res;
+  return detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
 }
 
 } // namespace detail
-- 
2.43.0


From 78f150268815991895e90035b0410f9042213ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 10/43] fix: a cone whose tip points towards a half-space was
 treated as lying on its side

---
 .../detail/primitive_shape_algorithm/halfspace-inl.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 09a86f5..29cde8d 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -441,7 +441,7 @@ bool coneHalfspaceIntersect(const Cone<S>& s1, const Transform3<S>& tf1,
   Vector3<S> dir_z = R.col(2);
   S cosa = dir_z.dot(new_s2.n);
 
-  if(cosa < halfspaceIntersectTolerance<S>())
+  if(std::abs(cosa) < halfspaceIntersectTolerance<S>())
   {
     S signed_dist = new_s2.signedDistance(T);
     S depth = s1.radius - signed_dist;
-- 
2.43.0


From fcef1e1278b1e480981e6dafdcde41a7a24238b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 11/43] fix: opposite parallel half-spaces (and a plane) were
 reported disjoint exactly when they overlap

---
 .../detail/primitive_shape_algorithm/halfspace-inl.h   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 29cde8d..21f315d 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -639,7 +639,7 @@ bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
   {
     if((new_s1.n).dot(new_s2.n) > 0)
     {
-      if(new_s1.d < new_s2.d)
+      if(new_s1.d <= new_s2.d)
       {
         penetration_depth = new_s2.d - new_s1.d;
         ret = 1;
@@ -651,11 +651,11 @@ bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0)
+      if(new_s1.d + new_s2.d < 0)
         return false;
       else
       {
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         ret = 2;
         pl = new_s1;
         return true;
@@ -722,12 +722,12 @@ bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0) // not collision
+      if(new_s1.d + new_s2.d < 0) // not collision
         return false;
       else // in each other
       {
         ret = 3;
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         return true;
       }
     }
-- 
2.43.0


From 88529343a64acc6c682111e3976ce5a151a17776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 12/43] fix: cylinder-plane test without contacts used the
 whole length instead of half of it

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 1373dce..0b58933 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -399,7 +399,7 @@ bool cylinderPlaneIntersect(const Cylinder<S>& s1, const Transform3<S>& tf1,
 
   Vector3<S> Q = R.transpose() * new_s2.n;
 
-  S term = std::abs(Q[2]) * s1.lz + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
+  S term = std::abs(Q[2]) * (0.5 * s1.lz) + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
   S dist = new_s2.distance(T);
   S depth = term - dist;
 
-- 
2.43.0


From 1f236b0e7193cf5b2dc99608e0b4163594df4e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 13/43] fix: a thin capsule crossing a plane was reported as
 separated when contacts were asked for

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 0b58933..5b33224 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -322,7 +322,7 @@ bool capsulePlaneIntersect(const Capsule<S>& s1, const Transform3<S>& tf1,
     // the contact point is the intersect of axis with the plane
     // the normal is the direction to avoid intersection
     // the depth is the minimum distance to resolve the collision
-    if(d1 * d2 < -planeIntersectTolerance<S>())
+    if(d1 * d2 < 0)
     {
       if(abs_d1 < abs_d2)
       {
-- 
2.43.0


From 667d5e658fbd0cbc3198abaa67103fe543069efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 14/43] fix: normal of a capsule with one end of its segment on
 the plane

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 5b33224..155b8bd 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -357,7 +357,7 @@ bool capsulePlaneIntersect(const Capsule<S>& s1, const Transform3<S>& tf1,
     {
       if (contacts)
       {
-        const Vector3<S> normal = (d1 < 0) ? new_s2.n : (-new_s2.n).eval();
+        const Vector3<S> normal = (d1 + d2 < 0) ? new_s2.n : (-new_s2.n).eval();
         const S penetration_depth = s1.radius - std::min(abs_d1, abs_d2);
         Vector3<S> point;
         if(abs_d1 <= s1.radius && abs_d2 <= s1.radius)
-- 
2.43.0


From 5078134e66b51db5707891ac41345df5249afe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 15/43] fix: normal of a cylinder that just touches the plane

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 155b8bd..e3f227b 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -486,7 +486,7 @@ bool cylinderPlaneIntersect(const Cylinder<S>& s1, const Transform3<S>& tf1,
         {
           if (contacts)
           {
-            const Vector3<S> normal = (d2 < 0) ? (-new_s2.n).eval() : new_s2.n;
+            const Vector3<S> normal = (d1 > 0) ? (-new_s2.n).eval() : new_s2.n;
             const Vector3<S> point = c2 - new_s2.n * d2;
             const S penetration_depth = abs_d2;
 
@@ -497,7 +497,7 @@ bool cylinderPlaneIntersect(const Cylinder<S>& s1, const Transform3<S>& tf1,
         {
           if (contacts)
           {
-            const Vector3<S> normal = (d1 < 0) ? (-new_s2.n).eval() : new_s2.n;
+            const Vector3<S> normal = (d2 > 0) ? (-new_s2.n).eval() : new_s2.n;
             const Vector3<S> point = c1 - new_s2.n * d1;
             const S penetration_depth = abs_d1;
 
-- 
2.43.0


From 3a103710af40c1f14c340e0ebf8418b303a6298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 16/43] fix: relative pose passed on when the oriented
 traversal descends in the first tree

---
 .../fcl/narrowphase/detail/traversal/traversal_recurse-inl.h  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
index 1c46c1c..c0e9b71 100644
--- a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
@@ -161,7 +161,7 @@ void collisionRecurse(MeshCollisionTraversalNodeOBB<S>* node, int b1, int b2, co
 
     const OBB<S>& bv1 = node->model1->getBV(c1).bv;
 
-    Matrix3<S> Rc = R.transpose() * bv1.axis;
+    Matrix3<S> Rc = bv1.axis.transpose() * R;
     temp = T - bv1.To;
     Vector3<S> Tc = temp.transpose() * bv1.axis;
 
@@ -172,7 +172,7 @@ void collisionRecurse(MeshCollisionTraversalNodeOBB<S>* node, int b1, int b2, co
 
     const OBB<S>& bv2 = node->model1->getBV(c2).bv;
 
-    Rc.noalias() = R.transpose() * bv2.axis;
+    Rc.noalias() = bv2.axis.transpose() * R;
     temp = T - bv2.To;
     Tc[0] = bv2.axis.col(0).dot(temp);
     Tc[1] = bv2.axis.col(1).dot(temp);
-- 
2.43.0


From f44fc22df0eaa5b479ac9e389687a1ad1840bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:34 +0000
Subject: [PATCH 17/43] fix: pairs were tested twice when a traversal continues
 from a front list

---
 .../narrowphase/detail/traversal/traversal_recurse-inl.h  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
index c0e9b71..647c334 100644
--- a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
@@ -489,16 +489,16 @@ void propagateBVHFrontListCollisionRecurse(CollisionTraversalNodeBase<S>* node,
           int c1 = node->getFirstLeftChild(b1);
           int c2 = node->getFirstRightChild(b1);
 
-          collisionRecurse(node, c1, b2, front_list);
-          collisionRecurse(node, c2, b2, front_list);
+          collisionRecurse(node, c1, b2, &append);
+          collisionRecurse(node, c2, b2, &append);
         }
         else
         {
           int c1 = node->getSecondLeftChild(b2);
           int c2 = node->getSecondRightChild(b2);
 
-          collisionRecurse(node, b1, c1, front_list);
-          collisionRecurse(node, b1, c2, front_list);
+          collisionRecurse(node, b1, c1, &append);
+          collisionRecurse(node, b1, c2, &append);
         }
       }
     }
-- 
2.43.0


From 0d26854f19498949c8fb40b0a88aa4ec81b5d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 18/43] fix: contacts of a triangle without area used an
 uninitialised plane

---
 .../traversal/collision/intersect-inl.h       | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
index 4c9d606..a917ebb 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
@@ -801,23 +801,36 @@ bool Intersect<S>::intersect_Triangle(
   {
     Vector3<S> n1, n2;
     S t1, t2;
-    buildTrianglePlane(P1, P2, P3, &n1, &t1);
-    buildTrianglePlane(Q1, Q2, Q3, &n2, &t2);
+    // A triangle without area has no plane; the plane of the other one is used then.
+    const bool has_plane1 = buildTrianglePlane(P1, P2, P3, &n1, &t1);
+    const bool has_plane2 = buildTrianglePlane(Q1, Q2, Q3, &n2, &t2);
+
+    if(!has_plane1 && !has_plane2)
+    {
+      *num_contact_points = 1;
+      contact_points[0] = P1;
+      normal->setZero();
+      *penetration_depth = 0;
+      return true;
+    }
 
     Vector3<S> deepest_points1[3];
     unsigned int num_deepest_points1 = 0;
     Vector3<S> deepest_points2[3];
     unsigned int num_deepest_points2 = 0;
-    S penetration_depth1, penetration_depth2;
+    S penetration_depth1 = std::numeric_limits<S>::max();
+    S penetration_depth2 = std::numeric_limits<S>::max();
 
     Vector3<S> P[3] = {P1, P2, P3};
     Vector3<S> Q[3] = {Q1, Q2, Q3};
 
-    computeDeepestPoints(Q, 3, n1, t1, &penetration_depth2, deepest_points2, &num_deepest_points2);
-    computeDeepestPoints(P, 3, n2, t2, &penetration_depth1, deepest_points1, &num_deepest_points1);
+    if(has_plane1)
+      computeDeepestPoints(Q, 3, n1, t1, &penetration_depth2, deepest_points2, &num_deepest_points2);
+    if(has_plane2)
+      computeDeepestPoints(P, 3, n2, t2, &penetration_depth1, deepest_points1, &num_deepest_points1);
 
 
-    if(penetration_depth1 > penetration_depth2)
+    if(has_plane1 && (!has_plane2 || penetration_depth1 > penetration_depth2))
     {
       *num_contact_points = std::min(num_deepest_points2, (unsigned int)2);
       for(unsigned int i = 0; i < *num_contact_points; ++i)
-- 
2.43.0


From f88a1402426cb0e31ee9a5cdff045628043f1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 19/43] fix: cost source was recorded for free objects in the
 oriented mesh-shape test

---
 .../collision/mesh_shape_collision_traversal_node-inl.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
index d24b467..573ab57 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
@@ -253,7 +253,7 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
-  else if((!model1->isFree() || model2.isFree()) && request.enable_cost)
+  else if((!model1->isFree() && !model2.isFree()) && request.enable_cost)
   {
     if(nsolver->shapeTriangleIntersect(model2, tf2, p1, p2, p3, tf1, nullptr, nullptr, nullptr))
     {
-- 
2.43.0


From 121a0fe2757e5dd0681c211c31e04f9135386fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:40 +0000
Subject: [PATCH 20/43] fix: nearest points of an earlier query were moved
 again by the mesh distance

---
 .../distance/mesh_distance_traversal_node-inl.h    | 14 ++++++++++++++
 .../distance/mesh_distance_traversal_node.h        |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h
index 558149d..ad5408d 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node-inl.h
@@ -102,6 +102,8 @@ MeshDistanceTraversalNode<BV>::MeshDistanceTraversalNode() : BVHDistanceTraversa
 
   rel_err = this->request.rel_err;
   abs_err = this->request.abs_err;
+
+  prior_min_distance = std::numeric_limits<typename BV::S>::max();
 }
 
 //==============================================================================
@@ -233,6 +235,7 @@ MeshDistanceTraversalNodeRSS<S>::MeshDistanceTraversalNodeRSS()
 template <typename S>
 void MeshDistanceTraversalNodeRSS<S>::preprocess()
 {
+  this->prior_min_distance = this->result->min_distance;
   detail::distancePreprocessOrientedNode(
         this->model1,
         this->model2,
@@ -251,6 +254,9 @@ void MeshDistanceTraversalNodeRSS<S>::preprocess()
 template <typename S>
 void MeshDistanceTraversalNodeRSS<S>::postprocess()
 {
+  // nearest points found by an earlier query are in world space already
+  if(this->result->min_distance >= this->prior_min_distance) return;
+
   detail::distancePostprocessOrientedNode(
         this->model1,
         this->model2,
@@ -292,6 +298,7 @@ MeshDistanceTraversalNodekIOS<S>::MeshDistanceTraversalNodekIOS()
 template <typename S>
 void MeshDistanceTraversalNodekIOS<S>::preprocess()
 {
+  this->prior_min_distance = this->result->min_distance;
   detail::distancePreprocessOrientedNode(
         this->model1,
         this->model2,
@@ -310,6 +317,9 @@ void MeshDistanceTraversalNodekIOS<S>::preprocess()
 template <typename S>
 void MeshDistanceTraversalNodekIOS<S>::postprocess()
 {
+  // nearest points found by an earlier query are in world space already
+  if(this->result->min_distance >= this->prior_min_distance) return;
+
   detail::distancePostprocessOrientedNode(
         this->model1,
         this->model2,
@@ -351,6 +361,7 @@ MeshDistanceTraversalNodeOBBRSS<S>::MeshDistanceTraversalNodeOBBRSS()
 template <typename S>
 void MeshDistanceTraversalNodeOBBRSS<S>::preprocess()
 {
+  this->prior_min_distance = this->result->min_distance;
   detail::distancePreprocessOrientedNode(
         this->model1,
         this->model2,
@@ -369,6 +380,9 @@ void MeshDistanceTraversalNodeOBBRSS<S>::preprocess()
 template <typename S>
 void MeshDistanceTraversalNodeOBBRSS<S>::postprocess()
 {
+  // nearest points found by an earlier query are in world space already
+  if(this->result->min_distance >= this->prior_min_distance) return;
+
   detail::distancePostprocessOrientedNode(
         this->model1,
         this->model2,
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h
index 92f4461..ba599b1 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h
@@ -75,6 +75,9 @@ public:
   /// @brief relative and absolute error, default value is 0.01 for both terms
   S rel_err;
   S abs_err;
+
+  /// @brief the distance in the result before this traversal
+  S prior_min_distance;
 };
 
 /// @brief Initialize traversal node for distance computation between two
-- 
2.43.0


From 89ed7c2ee107d6672329c1370f004c2d6665304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 21/43] fix: array hierarchy tree no longer reads moved nodes
 when it grows

createNode() took references to boxes of nodes; allocateNode() may free
the array they are in.
---
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index b4edc40..14da40f 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -973,10 +973,12 @@ size_t HierarchyTree<BV>::createNode(size_t parent,
                                      const BV& bv2,
                                      void* data)
 {
+  // bv1 and bv2 may refer to nodes, which allocateNode() may move
+  const BV bv = bv1 + bv2;
   size_t node = allocateNode();
   nodes[node].parent = parent;
   nodes[node].data = data;
-  nodes[node].bv = bv1 + bv2;
+  nodes[node].bv = bv;
   return node;
 }
 
-- 
2.43.0


From e1df9234032a8d45526b2eee8d036f939e498b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 22/43] fix: array hierarchy tree keeps its only leaf when that
 leaf is updated

update_() removed the leaf and put it back only if the tree was not empty
without it.
---
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 14da40f..721e3b5 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -926,10 +926,10 @@ void HierarchyTree<BV>::update_(size_t leaf, const BV& bv)
       for(int i = 0; (i < max_lookahead_level) && (nodes[root].parent != NULL_NODE); ++i)
         root = nodes[root].parent;
     }
-
-    nodes[leaf].bv = bv;
-    insertLeaf(root, leaf);
   }
+
+  nodes[leaf].bv = bv;
+  insertLeaf(root, leaf);
 }
 
 //==============================================================================
-- 
2.43.0


From 97397e7f0e64ecfb25d3d8da1a864b7ab1c79aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 23/43] fix: hierarchy tree bottom-up construction copes with
 unbounded volumes

With all sizes infinite no pair was chosen and null iterators were
dereferenced.
---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 3 ++-
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 1438eb9..cd4e7aa 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -346,7 +346,8 @@ void HierarchyTree<BV>::bottomup(const NodeVecIterator lbeg, const NodeVecIterat
   NodeVecIterator lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    NodeVecIterator min_it1, min_it2;
+    // any pair will do if none has a size below the maximum (unbounded volumes)
+    NodeVecIterator min_it1 = lbeg, min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(NodeVecIterator it1 = lbeg; it1 < lcur_end; ++it1)
     {
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 721e3b5..64fc002 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -551,7 +551,8 @@ void HierarchyTree<BV>::bottomup(size_t* lbeg, size_t* lend)
   size_t* lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    size_t* min_it1 = nullptr, *min_it2 = nullptr;
+    // any pair will do if none has a size below the maximum (unbounded volumes)
+    size_t* min_it1 = lbeg, *min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(size_t* it1 = lbeg; it1 < lcur_end; ++it1)
     {
-- 
2.43.0


From 9ee336f8f70fb03f302058e53774b44a4510b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 24/43] fix: hierarchy tree top-down construction ends when no
 axis splits the leaves

With equal centers one half was empty and the recursion never ended.
---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 4 ++++
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index cd4e7aa..9d99137 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -515,6 +515,10 @@ typename HierarchyTree<BV>::NodeType* HierarchyTree<BV>::topdown_1(const NodeVec
         }
       }
 
+      // both halves must have leaves (no axis separates equal centers)
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       NodeType* node = createNode(nullptr, vol, nullptr);
       node->children[0] = topdown_1(lbeg, lcenter);
       node->children[1] = topdown_1(lcenter, lend);
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 64fc002..5d2edce 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -691,6 +691,10 @@ size_t HierarchyTree<BV>::topdown_1(size_t* lbeg, size_t* lend)
         }
       }
 
+      // both halves must have leaves (no axis separates equal centers)
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       size_t node = createNode(NULL_NODE, vol, nullptr);
       nodes[node].children[0] = topdown_1(lbeg, lcenter);
       nodes[node].children[1] = topdown_1(lcenter, lend);
-- 
2.43.0


From 628581b55d3408e44aa65dc37dfe1544d8749cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 25/43] fix: hierarchy tree maximal depth starts from zero

The variable was not initialised; the array version did not compile.
---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 2 +-
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 9d99137..b62e60f 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -226,7 +226,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(!root_node) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 5d2edce..ff76382 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -372,7 +372,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(root_node == NULL_NODE) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
@@ -538,7 +538,7 @@ void HierarchyTree<BV>::getMaxDepth(size_t node, size_t depth, size_t& max_depth
   if(!nodes[node].isLeaf())
   {
     getMaxDepth(nodes[node].children[0], depth+1, max_depth);
-    getmaxDepth(nodes[node].children[1], depth+1, max_depth);
+    getMaxDepth(nodes[node].children[1], depth+1, max_depth);
   }
   else
     max_depth = std::max(max_depth, depth);
-- 
2.43.0


From c1689e1b85c9acca2363563f8d5431e0283d7814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 26/43] fix: balancing the array hierarchy tree no longer
 renumbers the leaves

The broad phase manager identifies objects by the index of their leaf;
after balanceTopdown() or balanceBottomup() it updated and removed the
wrong ones.
---
 .../detail/hierarchy_tree_array-inl.h         | 53 +++++++++----------
 .../broadphase/detail/hierarchy_tree_array.h  |  3 ++
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index ff76382..8185c21 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -383,21 +383,10 @@ void HierarchyTree<BV>::balanceBottomup()
 {
   if(root_node != NULL_NODE)
   {
-    NodeType* leaves = new NodeType[n_leaves];
-    NodeType* leaves_ = leaves;
-    extractLeaves(root_node, leaves_);
-    root_node = NULL_NODE;
-    std::copy(leaves, leaves + n_leaves, nodes);
-    freelist = n_leaves;
-    n_nodes = n_leaves;
-    for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-      nodes[i].next = i + 1;
-    nodes[n_nodes_alloc - 1].next = NULL_NODE;
-
-
+    // the leaves stay where they are: their indices identify them to the user
     size_t* ids = new size_t[n_leaves];
-    for(size_t i = 0; i < n_leaves; ++i)
-      ids[i] = i;
+    size_t* ids_ = ids;
+    fetchLeaves(root_node, ids_);
 
     bottomup(ids, ids + n_leaves);
     root_node = *ids;
@@ -412,20 +401,10 @@ void HierarchyTree<BV>::balanceTopdown()
 {
   if(root_node != NULL_NODE)
   {
-    NodeType* leaves = new NodeType[n_leaves];
-    NodeType* leaves_ = leaves;
-    extractLeaves(root_node, leaves_);
-    root_node = NULL_NODE;
-    std::copy(leaves, leaves + n_leaves, nodes);
-    freelist = n_leaves;
-    n_nodes = n_leaves;
-    for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-      nodes[i].next = i + 1;
-    nodes[n_nodes_alloc - 1].next = NULL_NODE;
-
+    // the leaves stay where they are: their indices identify them to the user
     size_t* ids = new size_t[n_leaves];
-    for(size_t i = 0; i < n_leaves; ++i)
-      ids[i] = i;
+    size_t* ids_ = ids;
+    fetchLeaves(root_node, ids_);
 
     root_node = topdown(ids, ids + n_leaves);
     delete [] ids;
@@ -1051,6 +1030,26 @@ void HierarchyTree<BV>::fetchLeaves(size_t root, NodeType*& leaves, int depth)
   }
 }
 
+//==============================================================================
+template<typename BV>
+void HierarchyTree<BV>::fetchLeaves(size_t root, size_t*& leaves)
+{
+  if(!nodes[root].isLeaf())
+  {
+    const size_t child0 = nodes[root].children[0];
+    const size_t child1 = nodes[root].children[1];
+    fetchLeaves(child0, leaves);
+    fetchLeaves(child1, leaves);
+    deleteNode(root);
+  }
+  else
+  {
+    nodes[root].parent = NULL_NODE;
+    *leaves = root;
+    leaves++;
+  }
+}
+
 //==============================================================================
 template<typename BV>
 nodeBaseLess<BV>::nodeBaseLess(const NodeBase<BV>* nodes_, size_t d_)
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array.h b/include/fcl/broadphase/detail/hierarchy_tree_array.h
index 85e80fe..0c3a1c7 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array.h
@@ -211,6 +211,9 @@ private:
   /// @brief Delete all internal nodes and return all leaves nodes with given depth from root 
   void fetchLeaves(size_t root, NodeType*& leaves, int depth = -1);
 
+  /// @brief Delete all internal nodes and return the indices of all leaves
+  void fetchLeaves(size_t root, size_t*& leaves);
+
   size_t indexOf(size_t node);
 
   size_t allocateNode();
-- 
2.43.0


From 5437008e98bf3b5d02806272d1e4cb8922de3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 27/43] fix: sweep-based distance queries no longer loop for
 ever when no distance is found nearby

---
 include/fcl/broadphase/broadphase_SSaP-inl.h          | 10 ++--------
 include/fcl/broadphase/broadphase_SaP-inl.h           |  9 ++++-----
 include/fcl/broadphase/broadphase_interval_tree-inl.h |  9 ++++-----
 include/fcl/broadphase/broadphase_spatialhash-inl.h   |  7 ++-----
 4 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index ad859ea..31f71f8 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -313,7 +313,6 @@ template <typename S>
 bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
   static const unsigned int CUTOFF = 100;
-  Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
   Vector3<S> dummy_vector = obj->getAABB().max_;
   if(min_dist < std::numeric_limits<S>::max())
     dummy_vector += Vector3<S>(min_dist, min_dist, min_dist);
@@ -386,13 +385,8 @@ bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Di
           dummy_vector = obj->getAABB().max_ + Vector3<S>(min_dist, min_dist, min_dist);
           status = 0;
         }
-        else // need more loop
-        {
-          if(dummy_vector.isApprox(obj->getAABB().max_, std::numeric_limits<S>::epsilon() * 100))
-            dummy_vector = dummy_vector + delta;
-          else
-            dummy_vector = dummy_vector * 2 - obj->getAABB().max_;
-        }
+        else // nothing nearby gave a distance: look at all the objects
+          return checkDis(objs_x.begin(), objs_x.end(), obj, cdata, callback, min_dist);
       }
 
       // yes, following is wrong, will result in too large distance.
diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 7d201c7..c2cab21 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -650,7 +650,6 @@ void SaPCollisionManager<S>::collide(CollisionObject<S>* obj, void* cdata, Colli
 template <typename S>
 bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
-  Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
   AABB<S> aabb = obj->getAABB();
 
   if(min_dist < std::numeric_limits<S>::max())
@@ -740,10 +739,10 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
         }
         else
         {
-          if(aabb.equal(obj->getAABB()))
-            aabb.expand(delta);
-          else
-            aabb.expand(obj->getAABB(), 2.0);
+          // nothing nearby gave a distance: look at all the objects
+          aabb.min_.setConstant(-std::numeric_limits<S>::max());
+          aabb.max_.setConstant(std::numeric_limits<S>::max());
+          status = 0;
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index dcc4f6d..b7abde7 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -429,7 +429,6 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
 {
   static const unsigned int CUTOFF = 100;
 
-  Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
   AABB<S> aabb = obj->getAABB();
   if(min_dist < std::numeric_limits<S>::max())
   {
@@ -497,10 +496,10 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
         }
         else
         {
-          if(aabb.equal(obj->getAABB()))
-            aabb.expand(delta);
-          else
-            aabb.expand(obj->getAABB(), 2.0);
+          // nothing nearby gave a distance: look at all the objects
+          for(const auto& entry : obj_interval_maps[0])
+            results0.push_back(entry.second);
+          return checkDist(results0.begin(), results0.end(), obj, cdata, callback, min_dist);
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 12551ce..6ff8ade 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -374,7 +374,6 @@ template<typename S, typename HashTable>
 bool SpatialHashingCollisionManager<S, HashTable>::distance_(
     CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
-  auto delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
   auto aabb = obj->getAABB();
   if(min_dist < std::numeric_limits<S>::max())
   {
@@ -439,10 +438,8 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
         }
         else
         {
-          if(aabb.equal(obj->getAABB()))
-            aabb.expand(delta);
-          else
-            aabb.expand(obj->getAABB(), 2.0);
+          // nothing nearby gave a distance: look at all the objects
+          return distanceObjectToObjects(obj, objs, cdata, callback, min_dist);
         }
       }
     }
-- 
2.43.0


From 477f351e4535eb8b436e05afb95166597c2de69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 28/43] fix: SaPCollisionManager::empty() returned whether
 there are objects

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index c2cab21..099f7de 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -871,7 +871,7 @@ void SaPCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* other_manag
 template <typename S>
 bool SaPCollisionManager<S>::empty() const
 {
-  return AABB_arr.size();
+  return AABB_arr.empty();
 }
 
 //==============================================================================
-- 
2.43.0


From 3cde1c691640b227b8e9abbed1c6c0a5fc29d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 29/43] fix: SaPCollisionManager::unregisterObject used the
 list position it had erased

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 099f7de..318ae23 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -58,14 +58,12 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       break;
   }
 
-  AABB_arr.erase(it);
-  obj_aabb_map.erase(obj);
-
   if(it == AABB_arr.end())
     return;
 
   SaPAABB* curr = *it;
-  *it = nullptr;
+  AABB_arr.erase(it);
+  obj_aabb_map.erase(obj);
 
   for(int coord = 0; coord < 3; ++coord)
   {
@@ -92,8 +90,10 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   delete curr;
 
   overlap_pairs.remove_if(isUnregistered(obj));
+
+  updateVelist();
 }
-\
+
 //==============================================================================
 template <typename S>
 SaPCollisionManager<S>::SaPCollisionManager()
-- 
2.43.0


From 408d8cd265b8f6f533010502c6631cee5c82a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 30/43] fix: SaPCollisionManager::registerObject missed or
 repeated overlapping pairs

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 24 +++++++--------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 318ae23..ca9c79d 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -258,22 +258,8 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     EndPoint* curr_hi = curr->hi;
     S curr_hi_val = curr_hi->getVal()[coord];
 
-    if(coord == 0)
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-      {
-        if(current != curr->lo)
-          if(current->aabb->cached.overlap(curr->cached))
-            overlap_pairs.emplace_back(current->aabb->obj, obj);
-
-        current = current->next[coord];
-      }
-    }
-    else
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-        current = current->next[coord];
-    }
+    while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
+      current = current->next[coord];
 
     if(current->getVal()[coord] >= curr_hi_val)
     {
@@ -294,6 +280,12 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     }
   }
 
+  for(auto it = AABB_arr.cbegin(), end = AABB_arr.cend(); it != end; ++it)
+  {
+    if((*it)->cached.overlap(curr->cached))
+      overlap_pairs.emplace_back((*it)->obj, obj);
+  }
+
   AABB_arr.push_back(curr);
 
   obj_aabb_map[obj] = curr;
-- 
2.43.0


From 36e969a008cf0ff4673fe57f413d55da83dfd078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 31/43] fix: SaPCollisionManager kept touching or flat
 intervals in the wrong order

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index ca9c79d..bf0ea5e 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -145,10 +145,14 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
     S scale[3];
     for(size_t coord = 0; coord < 3; ++coord)
     {
+      // at equal values the lower end points come first, as touching intervals
+      // do overlap
       std::sort(endpoints.begin(), endpoints.end(),
-                std::bind(std::less<S>(),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_1, coord),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_2, coord)));
+                [coord](const EndPoint* a, const EndPoint* b)
+                {
+                  const S va = a->getVal(coord), vb = b->getVal(coord);
+                  return va < vb || (va == vb && a->minmax < b->minmax);
+                });
 
       endpoints[0]->prev[coord] = nullptr;
       endpoints[0]->next[coord] = endpoints[1];
@@ -258,10 +262,17 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     EndPoint* curr_hi = curr->hi;
     S curr_hi_val = curr_hi->getVal()[coord];
 
-    while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
+    // a higher end point comes after the lower end points of the same value
+    const auto before_hi = [coord, curr_hi_val](const EndPoint* p)
+    {
+      const S val = p->getVal()[coord];
+      return val < curr_hi_val || (val == curr_hi_val && p->minmax == 0);
+    };
+
+    while(before_hi(current) && (current->next[coord] != nullptr))
       current = current->next[coord];
 
-    if(current->getVal()[coord] >= curr_hi_val)
+    if(!before_hi(current))
     {
       curr_hi->prev[coord] = current->prev[coord];
       curr_hi->next[coord] = current;
-- 
2.43.0


From 0c9c7239edcf0dfc31a74fa60e4644de47c7eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:14 +0000
Subject: [PATCH 32/43] fix: SaPCollisionManager::update broke its lists when a
 box grew, shrank or turned

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 184 ++++++++------------
 include/fcl/broadphase/broadphase_SaP.h     |   4 +
 2 files changed, 80 insertions(+), 108 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index bf0ea5e..e629454 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -329,141 +329,109 @@ void SaPCollisionManager<S>::update_(SaPAABB* updated_aabb)
 
   SaPAABB* current = updated_aabb;
 
-  Vector3<S> new_min = current->obj->getAABB().min_;
-  Vector3<S> new_max = current->obj->getAABB().max_;
-
-  SaPAABB dummy;
-  dummy.cached = current->obj->getAABB();
+  const AABB<S> new_aabb = current->obj->getAABB();
 
   for(int coord = 0; coord < 3; ++coord)
   {
-    int direction; // -1 reverse, 0 nochange, 1 forward
+    // The two end points move independently of each other: an interval can
+    // also grow or shrink. The growing moves come first, so that the lower end
+    // point never passes the higher one. At equal values the lower end points
+    // come first, as touching intervals do overlap.
+    const S new_lo = new_aabb.min_[coord];
+    const S new_hi = new_aabb.max_[coord];
+    EndPoint* lo = current->lo;
+    EndPoint* hi = current->hi;
     EndPoint* temp;
 
-    if(current->lo->getVal(coord) > new_min[coord])
-      direction = -1;
-    else if(current->lo->getVal(coord) < new_min[coord])
-      direction = 1;
-    else direction = 0;
-
-    if(direction == -1)
+    if(new_lo < lo->getVal(coord))
     {
-      //first update the "lo" endpoint of the interval
-      if(current->lo->prev[coord] != nullptr)
+      temp = lo->prev[coord];
+      while((temp != nullptr) &&
+            ((temp->getVal(coord) > new_lo) || ((temp->getVal(coord) == new_lo) && (temp->minmax == 1))))
       {
-        temp = current->lo;
-        while((temp != nullptr) && (temp->getVal(coord) > new_min[coord]))
-        {
-          if(temp->minmax == 1)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->prev[coord];
-        }
-
-        if(temp == nullptr)
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = nullptr;
-          current->lo->next[coord] = elist[coord];
-          elist[coord]->prev[coord] = current->lo;
-          elist[coord] = current->lo;
-        }
-        else
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = temp;
-          current->lo->next[coord] = temp->next[coord];
-          temp->next[coord]->prev[coord] = current->lo;
-          temp->next[coord] = current->lo;
-        }
+        if((temp->minmax == 1) && temp->aabb->cached.overlap(new_aabb))
+          addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
+        temp = temp->prev[coord];
       }
 
-      current->lo->getVal(coord) = new_min[coord];
+      moveEndPoint(lo, temp, coord);
+      lo->getVal(coord) = new_lo;
+    }
 
-      // update hi end point
-      temp = current->hi;
-      while(temp->getVal(coord) > new_max[coord])
+    if(new_hi > hi->getVal(coord))
+    {
+      temp = hi;
+      while((temp->next[coord] != nullptr) &&
+            ((temp->next[coord]->getVal(coord) < new_hi) || ((temp->next[coord]->getVal(coord) == new_hi) && (temp->next[coord]->minmax == 0))))
       {
-        if((temp->minmax == 0) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->prev[coord];
+        temp = temp->next[coord];
+        if((temp->minmax == 0) && temp->aabb->cached.overlap(new_aabb))
+          addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
       }
 
-      current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-      if(current->hi->next[coord] != nullptr)
-        current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-      current->hi->prev[coord] = temp;
-      current->hi->next[coord] = temp->next[coord];
-      if(temp->next[coord] != nullptr)
-        temp->next[coord]->prev[coord] = current->hi;
-      temp->next[coord] = current->hi;
-
-      current->hi->getVal(coord) = new_max[coord];
+      moveEndPoint(hi, temp, coord);
+      hi->getVal(coord) = new_hi;
     }
-    else if(direction == 1)
+
+    if(new_lo > lo->getVal(coord))
     {
-      //here, we first update the "hi" endpoint.
-      if(current->hi->next[coord] != nullptr)
+      temp = lo;
+      while((temp->next[coord] != hi) && (temp->next[coord]->getVal(coord) < new_lo))
       {
-        temp = current->hi;
-        while((temp->next[coord] != nullptr) && (temp->getVal(coord) < new_max[coord]))
-        {
-          if(temp->minmax == 0)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->next[coord];
-        }
-
-        if(temp->getVal(coord) < new_max[coord])
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp;
-          current->hi->next[coord] = nullptr;
-          temp->next[coord] = current->hi;
-        }
-        else
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp->prev[coord];
-          current->hi->next[coord] = temp;
-          temp->prev[coord]->next[coord] = current->hi;
-          temp->prev[coord] = current->hi;
-        }
+        temp = temp->next[coord];
+        if(temp->minmax == 1)
+          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
       }
 
-      current->hi->getVal(coord) = new_max[coord];
-
-      //then, update the "lo" endpoint of the interval.
-      temp = current->lo;
+      moveEndPoint(lo, temp, coord);
+      lo->getVal(coord) = new_lo;
+    }
 
-      while(temp->getVal(coord) < new_min[coord])
+    if(new_hi < hi->getVal(coord))
+    {
+      temp = hi->prev[coord];
+      while((temp != lo) && (temp->getVal(coord) > new_hi))
       {
-        if((temp->minmax == 1) && (temp->aabb->cached.overlap(current->cached)))
+        if(temp->minmax == 0)
           removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->next[coord];
+        temp = temp->prev[coord];
       }
 
-      if(current->lo->prev[coord] != nullptr)
-        current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-      else
-        elist[coord] = current->lo->next[coord];
-      current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-      current->lo->prev[coord] = temp->prev[coord];
-      current->lo->next[coord] = temp;
-      if(temp->prev[coord] != nullptr)
-        temp->prev[coord]->next[coord] = current->lo;
-      else
-        elist[coord] = current->lo;
-      temp->prev[coord] = current->lo;
-      current->lo->getVal(coord) = new_min[coord];
+      moveEndPoint(hi, temp, coord);
+      hi->getVal(coord) = new_hi;
     }
   }
 }
 
+//==============================================================================
+template <typename S>
+void SaPCollisionManager<S>::moveEndPoint(EndPoint* point, EndPoint* after, int coord)
+{
+  if(after == point || after == point->prev[coord])
+    return;
+
+  if(point->prev[coord] == nullptr)
+    elist[coord] = point->next[coord];
+  else
+    point->prev[coord]->next[coord] = point->next[coord];
+  if(point->next[coord] != nullptr)
+    point->next[coord]->prev[coord] = point->prev[coord];
+
+  point->prev[coord] = after;
+  if(after == nullptr)
+  {
+    point->next[coord] = elist[coord];
+    elist[coord] = point;
+  }
+  else
+  {
+    point->next[coord] = after->next[coord];
+    after->next[coord] = point;
+  }
+  if(point->next[coord] != nullptr)
+    point->next[coord]->prev[coord] = point;
+}
+
 //==============================================================================
 template <typename S>
 void SaPCollisionManager<S>::updateVelist()
diff --git a/include/fcl/broadphase/broadphase_SaP.h b/include/fcl/broadphase/broadphase_SaP.h
index 8a6b611..aec4d03 100644
--- a/include/fcl/broadphase/broadphase_SaP.h
+++ b/include/fcl/broadphase/broadphase_SaP.h
@@ -126,6 +126,10 @@ protected:
 
   void update_(SaPAABB* updated_aabb);
 
+  /// @brief move an end point of the list of one coordinate behind another one
+  /// (nullptr: to the front)
+  void moveEndPoint(EndPoint* point, EndPoint* after, int coord);
+
   void updateVelist();
 
   /// @brief End point list for x, y, z coordinates
-- 
2.43.0


From 149baf1785f476844d9aaffe8a341e777355f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:22 +0000
Subject: [PATCH 33/43] fix: IntervalTreeCollisionManager::update lost the
 higher end points

---
 .../broadphase/broadphase_interval_tree-inl.h | 29 +++++++------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index b7abde7..52b21f2 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -289,30 +289,21 @@ void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
   }
 
   EndPoint dummy;
-  typename std::vector<EndPoint>::iterator it;
   for(int i = 0; i < 3; ++i)
   {
+    // both are looked up before the values change, as long as they are sorted
     dummy.value = old_aabb.min_[i];
-    it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
-    for(; it != endpoints[i].end(); ++it)
-    {
-      if(it->obj == updated_obj && it->minmax == 0)
-      {
-        it->value = new_aabb.min_[i];
-        break;
-      }
-    }
+    auto it_lo = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
+    while(it_lo->obj != updated_obj || it_lo->minmax != 0)
+      ++it_lo;
 
     dummy.value = old_aabb.max_[i];
-    it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
-    for(; it != endpoints[i].end(); ++it)
-    {
-      if(it->obj == updated_obj && it->minmax == 0)
-      {
-        it->value = new_aabb.max_[i];
-        break;
-      }
-    }
+    auto it_hi = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
+    while(it_hi->obj != updated_obj || it_hi->minmax != 1)
+      ++it_hi;
+
+    it_lo->value = new_aabb.min_[i];
+    it_hi->value = new_aabb.max_[i];
 
     std::sort(endpoints[i].begin(), endpoints[i].end());
   }
-- 
2.43.0


From 3adf0cbc5c9cf78c5aa8ae1218bad1ff47b35021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:24 +0000
Subject: [PATCH 34/43] fix: IntervalTreeCollisionManager queried every object
 twice against another manager

---
 .../broadphase/broadphase_interval_tree-inl.h | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 52b21f2..eddc27e 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -571,7 +571,7 @@ void IntervalTreeCollisionManager<S>::distance(void* cdata, DistanceCallBack<S>
   S min_dist = std::numeric_limits<S>::max();
 
   for(size_t i = 0; i < endpoints[0].size(); ++i)
-    if(distance_(endpoints[0][i].obj, cdata, callback, min_dist)) break;
+    if(endpoints[0][i].minmax == 0 && distance_(endpoints[0][i].obj, cdata, callback, min_dist)) break;
 
   this->enable_tested_set_ = false;
   this->tested_set.clear();
@@ -594,12 +594,18 @@ void IntervalTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>* oth
   if(this->size() < other_manager->size())
   {
     for(size_t i = 0, size = endpoints[0].size(); i < size; ++i)
-      if(other_manager->collide_(endpoints[0][i].obj, cdata, callback)) return;
+    {
+      const EndPoint& endpoint = endpoints[0][i];
+      if(endpoint.minmax == 0 && other_manager->collide_(endpoint.obj, cdata, callback)) return;
+    }
   }
   else
   {
     for(size_t i = 0, size = other_manager->endpoints[0].size(); i < size; ++i)
-      if(collide_(other_manager->endpoints[0][i].obj, cdata, callback)) return;
+    {
+      const EndPoint& endpoint = other_manager->endpoints[0][i];
+      if(endpoint.minmax == 0 && collide_(endpoint.obj, cdata, callback)) return;
+    }
   }
 }
 
@@ -622,12 +628,18 @@ void IntervalTreeCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* ot
   if(this->size() < other_manager->size())
   {
     for(size_t i = 0, size = endpoints[0].size(); i < size; ++i)
-      if(other_manager->distance_(endpoints[0][i].obj, cdata, callback, min_dist)) return;
+    {
+      const EndPoint& endpoint = endpoints[0][i];
+      if(endpoint.minmax == 0 && other_manager->distance_(endpoint.obj, cdata, callback, min_dist)) return;
+    }
   }
   else
   {
     for(size_t i = 0, size = other_manager->endpoints[0].size(); i < size; ++i)
-      if(distance_(other_manager->endpoints[0][i].obj, cdata, callback, min_dist)) return;
+    {
+      const EndPoint& endpoint = other_manager->endpoints[0][i];
+      if(endpoint.minmax == 0 && distance_(endpoint.obj, cdata, callback, min_dist)) return;
+    }
   }
 }
 
-- 
2.43.0


From eada49d455b89c6ab7949ca9bb171f30e37b5bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:21 +0000
Subject: [PATCH 35/43] fix: IntervalTreeCollisionManager::unregisterObject
 dropped end points of other objects

---
 include/fcl/broadphase/broadphase_interval_tree-inl.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index eddc27e..9d2a72b 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -77,8 +77,7 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
         }
       }
     }
-    if(cur_id < end_id)
-      endpoints[0].resize(endpoints[0].size() - 2);
+    endpoints[0].erase(endpoints[0].begin() + cur_id, endpoints[0].begin() + end_id);
   }
 
   p.value = obj->getAABB().min_[1];
@@ -103,8 +102,7 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
         }
       }
     }
-    if(cur_id < end_id)
-      endpoints[1].resize(endpoints[1].size() - 2);
+    endpoints[1].erase(endpoints[1].begin() + cur_id, endpoints[1].begin() + end_id);
   }
 
 
@@ -130,8 +128,7 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
         }
       }
     }
-    if(cur_id < end_id)
-      endpoints[2].resize(endpoints[2].size() - 2);
+    endpoints[2].erase(endpoints[2].begin() + cur_id, endpoints[2].begin() + end_id);
   }
 
   // update the interval tree
-- 
2.43.0


From 521a7e3a8e2a493b77630e1252387c9b9dac1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:21 +0000
Subject: [PATCH 36/43] fix: IntervalTreeCollisionManager missed pairs of
 touching objects

---
 .../fcl/broadphase/broadphase_interval_tree-inl.h    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 9d2a72b..b229607 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -56,8 +56,10 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 
   EndPoint p;
   p.value = obj->getAABB().min_[0];
+  p.minmax = 0;
   auto start1 = std::lower_bound(endpoints[0].begin(), endpoints[0].end(), p);
   p.value = obj->getAABB().max_[0];
+  p.minmax = 1;
   auto end1 = std::upper_bound(start1, endpoints[0].end(), p);
 
   if(start1 < end1)
@@ -81,8 +83,10 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   }
 
   p.value = obj->getAABB().min_[1];
+  p.minmax = 0;
   auto start2 = std::lower_bound(endpoints[1].begin(), endpoints[1].end(), p);
   p.value = obj->getAABB().max_[1];
+  p.minmax = 1;
   auto end2 = std::upper_bound(start2, endpoints[1].end(), p);
 
   if(start2 < end2)
@@ -107,8 +111,10 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 
 
   p.value = obj->getAABB().min_[2];
+  p.minmax = 0;
   auto start3 = std::lower_bound(endpoints[2].begin(), endpoints[2].end(), p);
   p.value = obj->getAABB().max_[2];
+  p.minmax = 1;
   auto end3 = std::upper_bound(start3, endpoints[2].end(), p);
 
   if(start3 < end3)
@@ -290,11 +296,13 @@ void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
   {
     // both are looked up before the values change, as long as they are sorted
     dummy.value = old_aabb.min_[i];
+    dummy.minmax = 0;
     auto it_lo = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
     while(it_lo->obj != updated_obj || it_lo->minmax != 0)
       ++it_lo;
 
     dummy.value = old_aabb.max_[i];
+    dummy.minmax = 1;
     auto it_hi = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
     while(it_hi->obj != updated_obj || it_hi->minmax != 1)
       ++it_hi;
@@ -730,7 +738,9 @@ template <typename S>
 bool IntervalTreeCollisionManager<S>::EndPoint::operator<(
     const typename IntervalTreeCollisionManager<S>::EndPoint& p) const
 {
-  return value < p.value;
+  // at equal values the lower end points come first, as touching intervals do
+  // overlap
+  return value < p.value || (value == p.value && minmax < p.minmax);
 }
 
 //==============================================================================
-- 
2.43.0


From c40429b40337a07637712115899afe1cff089764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 37/43] fix: spatial hash gave no cell to flat boxes and no
 common cell to touching ones

---
 include/fcl/broadphase/detail/spatial_hash-inl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/spatial_hash-inl.h b/include/fcl/broadphase/detail/spatial_hash-inl.h
index 1d4985f..b6ecebe 100644
--- a/include/fcl/broadphase/detail/spatial_hash-inl.h
+++ b/include/fcl/broadphase/detail/spatial_hash-inl.h
@@ -61,12 +61,14 @@ SpatialHash<S>::SpatialHash(const AABB<S>& scene_limit_, S cell_size_)
 template <typename S>
 std::vector<unsigned int> SpatialHash<S>::operator()(const AABB<S>& aabb) const
 {
+  // the cells are closed below: a box ending, or flat, on the border of two cells
+  // belongs to the upper one as well
   int min_x = std::floor((aabb.min_[0] - scene_limit.min_[0]) / cell_size);
-  int max_x = std::ceil((aabb.max_[0] - scene_limit.min_[0]) / cell_size);
+  int max_x = std::floor((aabb.max_[0] - scene_limit.min_[0]) / cell_size) + 1;
   int min_y = std::floor((aabb.min_[1] - scene_limit.min_[1]) / cell_size);
-  int max_y = std::ceil((aabb.max_[1] - scene_limit.min_[1]) / cell_size);
+  int max_y = std::floor((aabb.max_[1] - scene_limit.min_[1]) / cell_size) + 1;
   int min_z = std::floor((aabb.min_[2] - scene_limit.min_[2]) / cell_size);
-  int max_z = std::ceil((aabb.max_[2] - scene_limit.min_[2]) / cell_size);
+  int max_z = std::floor((aabb.max_[2] - scene_limit.min_[2]) / cell_size) + 1;
 
   std::vector<unsigned int> keys((max_x - min_x) * (max_y - min_y) * (max_z - min_z));
   int id = 0;
-- 
2.43.0


From 0f2e1c8a9ddf7bf45d4e59b65bccb74e39f7d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 38/43] fix: SpatialHashingCollisionManager::clear kept the
 objects across the scene limit

---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 6ff8ade..6a46e0e 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -284,6 +284,7 @@ void SpatialHashingCollisionManager<S, HashTable>::clear()
 {
   objs.clear();
   hash_table->clear();
+  objs_partially_penetrating_scene_limit.clear();
   objs_outside_scene_limit.clear();
   obj_aabb_map.clear();
 }
-- 
2.43.0


From c2fc2d6ebfdbd1d5a948d6848cdf14da4aa51811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:10 +0000
Subject: [PATCH 39/43] fix: distance between a half-space and an ellipsoid was
 not in the table

distance() printed that the pair is not supported and left the result empty,
although it answers for the same two shapes in the other order.
---
 include/fcl/narrowphase/detail/distance_func_matrix-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index 43f5f09..f08cdcf 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -564,6 +564,7 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
 
   distance_matrix[GEOM_HALFSPACE][GEOM_BOX] = &ShapeShapeDistance<Halfspace<S>, Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_HALFSPACE][GEOM_SPHERE] = &ShapeShapeDistance<Halfspace<S>, Sphere<S>, NarrowPhaseSolver>;
+  distance_matrix[GEOM_HALFSPACE][GEOM_ELLIPSOID] = &ShapeShapeDistance<Halfspace<S>, Ellipsoid<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_HALFSPACE][GEOM_CAPSULE] = &ShapeShapeDistance<Halfspace<S>, Capsule<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_HALFSPACE][GEOM_CONE] = &ShapeShapeDistance<Halfspace<S>, Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_HALFSPACE][GEOM_CYLINDER] = &ShapeShapeDistance<Halfspace<S>, Cylinder<S>, NarrowPhaseSolver>;
-- 
2.43.0


From 999a50639eab350197c79ce39dac2dfcb1bc098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:10 +0000
Subject: [PATCH 40/43] fix: a query that does not ask for a cached guess must
 not use one

ShapeShapeCollide() switched the cached guess on in both branches, so that a
solver used for several queries started each from where the last one ended.
---
 include/fcl/narrowphase/detail/collision_func_matrix-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 092d338..d948eef 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -298,7 +298,7 @@ std::size_t ShapeShapeCollide(
   }
   else
   {
-    nsolver->enableCachedGuess(true);
+    nsolver->enableCachedGuess(false);
   }
 
   initialize(node, *obj1, tf1, *obj2, tf2, nsolver, request, result);
-- 
2.43.0


From 62815c0ee605856854854914e8f71c6ba81702dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:10 +0000
Subject: [PATCH 41/43] fix: results of mesh queries must not name temporary
 copies of the meshes

Meshes with axis-aligned volumes are copied, placed in the world and deleted
after the query; contacts and distance results named the deleted copies.
---
 .../detail/collision_func_matrix-inl.h        | 37 +++++++++++++++++++
 .../detail/distance_func_matrix-inl.h         |  5 +++
 2 files changed, 42 insertions(+)

diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index d948eef..9c12d75 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -310,6 +310,37 @@ std::size_t ShapeShapeCollide(
   return result.numContacts();
 }
 
+//==============================================================================
+/// @brief The contacts from the given one on name the copies of the objects the
+/// traversal worked on; let them name the objects themselves, which outlive it.
+template <typename S>
+void nameOriginalObjects(
+    CollisionResult<S>& result,
+    std::size_t first,
+    const CollisionGeometry<S>* o1,
+    const CollisionGeometry<S>* o2)
+{
+  if(result.numContacts() <= first) return;
+
+  std::vector<Contact<S>> contacts;
+  std::vector<CostSource<S>> cost_sources;
+  result.getContacts(contacts);
+  result.getCostSources(cost_sources);
+
+  result.clear();
+  for(std::size_t i = 0; i < contacts.size(); ++i)
+  {
+    if(i >= first)
+    {
+      contacts[i].o1 = o1;
+      contacts[i].o2 = o2;
+    }
+    result.addContact(contacts[i]);
+  }
+  for(const auto& cost_source : cost_sources)
+    result.addCostSource(cost_source, cost_sources.size());
+}
+
 //==============================================================================
 template <typename BV, typename Shape, typename NarrowPhaseSolver>
 struct BVHShapeCollider
@@ -338,8 +369,10 @@ struct BVHShapeCollider
       Transform3<S> tf1_tmp = tf1;
       const Shape* obj2 = static_cast<const Shape*>(o2);
 
+      const std::size_t num_prior_contacts = result.numContacts();
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result);
       fcl::detail::collide(&node);
+      nameOriginalObjects(result, num_prior_contacts, o1, o2);
 
       delete obj1_tmp;
 
@@ -362,8 +395,10 @@ struct BVHShapeCollider
       Transform3<S> tf1_tmp = tf1;
       const Shape* obj2 = static_cast<const Shape*>(o2);
 
+      const std::size_t num_prior_contacts = result.numContacts();
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
       fcl::detail::collide(&node);
+      nameOriginalObjects(result, num_prior_contacts, o1, o2);
 
       delete obj1_tmp;
     }
@@ -543,8 +578,10 @@ struct BVHCollideImpl
     BVHModel<BV>* obj2_tmp = new BVHModel<BV>(*obj2);
     Transform3<S> tf2_tmp = tf2;
 
+    const std::size_t num_prior_contacts = result.numContacts();
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     collide(&node);
+    nameOriginalObjects(result, num_prior_contacts, o1, o2);
 
     delete obj1_tmp;
     delete obj2_tmp;
diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index f08cdcf..f6363b9 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -362,6 +362,11 @@ struct BVHDistanceImpl
 
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     distance(&node);
+
+    // the result must not name the copies, which do not outlive the query
+    if(result.o1 == obj1_tmp) result.o1 = obj1;
+    if(result.o2 == obj2_tmp) result.o2 = obj2;
+
     delete obj1_tmp;
     delete obj2_tmp;
 
-- 
2.43.0


From 2a0dd525211f424b618a3b4ff841d5e9e3405837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:33 +0000
Subject: [PATCH 42/43] fix: capsule-capsule distance accepts null output
 pointers like the other shape pairs

---
 .../primitive_shape_algorithm/capsule_capsule-inl.h    | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/capsule_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/capsule_capsule-inl.h
index b316c95..ec4d5e2 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/capsule_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/capsule_capsule-inl.h
@@ -161,10 +161,6 @@ bool capsuleCapsuleDistance(const Capsule<S>& s1, const Transform3<S>& X_FC1,
           const Capsule<S>& s2, const Transform3<S>& X_FC2,
           S* dist, Vector3<S>* p_FW1, Vector3<S>* p_FW2)
 {
-  assert(dist != nullptr);
-  assert(p_FW1 != nullptr);
-  assert(p_FW2 != nullptr);
-
   // Origin of the capsules' frames relative to F's origin.
   const Vector3<S> p_FC1o = X_FC1.translation();
   const Vector3<S> p_FC2o = X_FC2.translation();
@@ -205,7 +201,7 @@ bool capsuleCapsuleDistance(const Capsule<S>& s1, const Transform3<S>& X_FC1,
                                                  &s, &t, &p_FN1, &p_FN2);
 
   const S segment_dist = sqrt(squared_dist);
-  *dist = segment_dist - s1.radius - s2.radius;
+  if (dist) *dist = segment_dist - s1.radius - s2.radius;
   Vector3<S> vhat_C1C2_F;
   const auto eps = constants<S>::eps_78();
   // We can only use the vector between the center-line nearest points to find
@@ -232,8 +228,8 @@ bool capsuleCapsuleDistance(const Capsule<S>& s1, const Transform3<S>& X_FC1,
       vhat_C1C2_F = X_FC1.matrix().template block<3, 1>(0, 0);
     }
   }
-  *p_FW1 = p_FN1 + vhat_C1C2_F * s1.radius;
-  *p_FW2 = p_FN2 - vhat_C1C2_F * s2.radius;
+  if (p_FW1) *p_FW1 = p_FN1 + vhat_C1C2_F * s1.radius;
+  if (p_FW2) *p_FW2 = p_FN2 - vhat_C1C2_F * s2.radius;
 
   return true;
 }
-- 
2.43.0


From b6cf847c19c75239db01e9bce0a594b19a5cdecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:10 +0000
Subject: [PATCH 43/43] fix: collision of a convex shape with a plane went to
 the support-function search, which crashed on the plane

---
 .../narrowphase/detail/gjk_solver_indep-inl.h |  3 ++-
 .../detail/gjk_solver_libccd-inl.h            |  1 +
 .../primitive_shape_algorithm/plane-inl.h     | 24 +++++++++++++++++++
 .../detail/primitive_shape_algorithm/plane.h  |  6 +++++
 .../primitive_shape_algorithm/plane.cpp       |  6 +++++
 5 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index fd78927..f257e7c 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -196,7 +196,7 @@ bool GJKSolver_indep<S>::shapeIntersect(
 // +------------+-----+--------+-----------+---------+------+----------+-------+------------+----------+----------+
 // | cylinder   |/////|////////|///////////|/////////|//////|          |   O   |      O     |          |          |
 // +------------+-----+--------+-----------+---------+------+----------+-------+------------+----------+----------+
-// | plane      |/////|////////|///////////|/////////|//////|//////////|   O   |      O     |     O    |          |
+// | plane      |/////|////////|///////////|/////////|//////|//////////|   O   |      O     |     O    |    O     |
 // +------------+-----+--------+-----------+---------+------+----------+-------+------------+----------+----------+
 // | half-space |/////|////////|///////////|/////////|//////|//////////|///////|      O     |     O    |    O     |
 // +------------+-----+--------+-----------+---------+------+----------+-------+------------+----------+----------+
@@ -269,6 +269,7 @@ FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectIndepImpl<S, Halfspace<S>, Halfspace<S>>
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 7207292..0a9e4f5 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -265,6 +265,7 @@ FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectLibccdImpl<S, Halfspace<S>, Halfspace<S>>
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index e3f227b..0e606d1 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -98,6 +98,12 @@ bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf
                           const Plane<double>& s2, const Transform3<double>& tf2,
                           Vector3<double>* contact_points, double* penetration_depth, Vector3<double>* normal);
 
+//==============================================================================
+extern template
+bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf1,
+                          const Plane<double>& s2, const Transform3<double>& tf2,
+                          std::vector<ContactPoint<double>>* contacts);
+
 //==============================================================================
 extern template
 bool planeTriangleIntersect(const Plane<double>& s1, const Transform3<double>& tf1,
@@ -677,6 +683,24 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
   }
 }
 
+//==============================================================================
+template <typename S>
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts)
+{
+  if(!contacts)
+    return convexPlaneIntersect(s1, tf1, s2, tf2, (Vector3<S>*)nullptr, (S*)nullptr, (Vector3<S>*)nullptr);
+
+  Vector3<S> point, normal;
+  S penetration_depth;
+  if(!convexPlaneIntersect(s1, tf1, s2, tf2, &point, &penetration_depth, &normal))
+    return false;
+
+  contacts->emplace_back(normal, point, penetration_depth);
+  return true;
+}
+
 //==============================================================================
 template <typename S>
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
index 86b141f..05c98cb 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
@@ -130,6 +130,12 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
                           const Plane<S>& s2, const Transform3<S>& tf2,
                           Vector3<S>* contact_points, S* penetration_depth, Vector3<S>* normal);
 
+template <typename S>
+FCL_EXPORT
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts);
+
 template <typename S>
 FCL_EXPORT
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
diff --git a/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp b/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp
index 5cee207..7791363 100755
--- a/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp
+++ b/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp
@@ -109,6 +109,12 @@ bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf
                           const Plane<double>& s2, const Transform3<double>& tf2,
                           Vector3<double>* contact_points, double* penetration_depth, Vector3<double>* normal);
 
+//==============================================================================
+template
+bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf1,
+                          const Plane<double>& s2, const Transform3<double>& tf2,
+                          std::vector<ContactPoint<double>>* contacts);
+
 //==============================================================================
 template
 bool planeTriangleIntersect(const Plane<double>& s1, const Transform3<double>& tf1,
-- 
2.43.0

