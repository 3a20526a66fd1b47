From 9d9a110c6a2ca338f74f3d6fdd63fdf5ffd1b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:12 +0000
Subject: [PATCH 01/16] fix: Interval::overlaps compares bounds directly
 instead of rounded spans

---
 include/Simu/math/Interval.hpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/include/Simu/math/Interval.hpp b/include/Simu/math/Interval.hpp
index fdcb49d..1c363fb 100644
--- a/include/Simu/math/Interval.hpp
+++ b/include/Simu/math/Interval.hpp
@@ -55,22 +55,9 @@ public:
 
     auto overlaps(const Interval& other) const
     {
-        // divisions by 2 can be factorised out and removed from both sides.
-        // Geometrical interpretation is easier with:
-        //
-        // span = (max - min)/2 + (other.max - other.min)/2
-        //      is the sum of half widths
-        //
-        // dist = std::abs((max_ + min_)/2 - (other.max_ + other.min_)/2)
-        //      is the absolute distance between midpoints.
-        //
-        // we have intersection if
-        // dist <= span, or equivalently if 2*dist <= 2*span to remove divisions
-
-        T span = (max_ - min_) + (other.max_ - other.min_);
-        T dist = std::abs((max_ + min_) - (other.max_ + other.min_));
-
-        return dist <= span;
+        // Comparing the bounds directly is exact: no rounding or overflow can
+        // change the answer, even for bounds of very different magnitudes.
+        return min_ <= other.max_ && other.min_ <= max_;
     }
 
 private:
-- 
2.43.0


From ef642c969bb3a66a8b26c1e1119004c2725d6ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 02/16] fix: RTree move constructor starts from a null root

---
 include/Simu/physics/RTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 5f70f3a..bc36723 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -266,7 +266,7 @@ private:
     Allocator     alloc_;
     NodeAllocator nodeAlloc_{alloc_};
 
-    Node* root_;
+    Node* root_ = nullptr;
 
     Node* makeNode(const BoundingBox& bounds = BoundingBox{})
     {
-- 
2.43.0


From 531179c3bc9e330348a96c206abf52bf21381be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 03/16] fix: RTree insertion always finds a position, even when
 areas overflow

---
 include/Simu/physics/RTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index bc36723..8199111 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -430,7 +430,7 @@ private:
         std::priority_queue<NodeCost, std::vector<NodeCost>, NodeCostCmp> queue{};
         queue.emplace(root_, 0.f);
 
-        NodeCost best = {nullptr, INFINITY};
+        NodeCost best = {root_, INFINITY};
         while (!queue.empty())
         {
             NodeCost current = queue.top();
-- 
2.43.0


From bc9f4201f3889dac5e31e91e2d85aa6ee171df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 04/16] fix: Body destructor does not iterate over the list it
 is erasing from

---
 include/Simu/physics/Body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index e8fd43c..7c9988c 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -216,8 +216,8 @@ public:
 
     ~Body() override
     {
-        for (Collider& c : colliders_.colliders_)
-            removeCollider(&c);
+        while (!colliders_.isEmpty())
+            removeCollider(&colliders_.colliders_.front());
     }
 
     Collider* addCollider(const ColliderDescriptor& descriptor);
-- 
2.43.0


From 3812ee8f2e4b6aa58ffb985c8cb4abbb18c5662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 05/16] fix: editing colliders moves the velocity to the new
 centroid

---
 src/Simu/physics/Body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 8760ceb..4d3ada5 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -52,9 +52,9 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
     // see removeCollider.
     // Here we assume the new collider has the Body's velocity, ignoring
     //  conservation of momentums.
+    position_.setLocalCentroid(colliders_.properties().centroid);
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
     world_->addCollider(c);
@@ -75,9 +75,9 @@ void Body::removeCollider(Collider* collider)
     //  of the Body's momentum.
     //  => velocities don't change for the Body, except at the center of mass
 
+    position_.setLocalCentroid(colliders_.properties().centroid);
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
 }
-- 
2.43.0


From 6cb9d1cad72a79b23ca7c5bfadde60cfcea8bffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 06/16] fix: a rejected collider is not left in the body

---
 include/Simu/physics/Collider.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Collider.hpp b/include/Simu/physics/Collider.hpp
index eddb1b8..cd4416d 100644
--- a/include/Simu/physics/Collider.hpp
+++ b/include/Simu/physics/Collider.hpp
@@ -216,10 +216,10 @@ public:
 
     Collider* add(const ColliderDescriptor& descr, Body* owner)
     {
-        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        MassProperties p{descr.polygon, descr.material.density};
 
-        MassProperties p = colliders_.back().properties();
-        properties_      = properties_ + p;
+        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        properties_ = properties_ + p;
 
         return &colliders_.back();
     }
-- 
2.43.0


From 9e30f2cfdbdb8d271be79fba814a3a5aff22ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 07/16] fix: a body spinning clockwise is not immobile

---
 include/Simu/physics/Body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index 7c9988c..1af7607 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -392,7 +392,7 @@ private:
     bool isImmobile(float velocityTreshold, float angularVelocityTreshold) const
     {
         return normSquared(velocity()) < velocityTreshold * velocityTreshold
-               && angularVelocity() < angularVelocityTreshold;
+               && std::abs(angularVelocity()) < angularVelocityTreshold;
     }
 
     void
-- 
2.43.0


From 641095a7c68c12c1ac8d284c16608f2424aff405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 08/16] fix: clearing an island forgets that it was awake

---
 include/Simu/physics/Island.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Simu/physics/Island.hpp b/include/Simu/physics/Island.hpp
index 09f42f0..03a46a0 100644
--- a/include/Simu/physics/Island.hpp
+++ b/include/Simu/physics/Island.hpp
@@ -82,6 +82,7 @@ public:
         contacts_.clear();
         positions_.clear();
         velocities_.clear();
+        isAwake_ = false;
     }
 
     bool hasConstraints()
-- 
2.43.0


From d26844c58a901ec4795167ea19074e881f344384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:41 +0000
Subject: [PATCH 09/16] fix: changing the contact factory detaches the removed
 contacts from their bodies

---
 include/Simu/physics/World.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 4cddc10..5a78670 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -138,6 +138,12 @@ public:
 
     void setContactFactory(ContactFactory makeContact)
     {
+        for (auto& body : bodies_)
+        {
+            body->contacts_.clear();
+            body->wake();
+        }
+
         contacts_.clear();
         makeContactConstraint_ = makeContact;
     }
-- 
2.43.0


From 049390f3afb25e0e48a78967117886b3bcfafc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 10/16] fix: a moved scope timer keeps its entry and start time

---
 include/Simu/physics/Profiler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/Profiler.hpp b/include/Simu/physics/Profiler.hpp
index b11ab3e..81b1562 100644
--- a/include/Simu/physics/Profiler.hpp
+++ b/include/Simu/physics/Profiler.hpp
@@ -90,7 +90,7 @@ public:
     ScopedTimer(ScopedTimer&& other)
     {
         std::swap(entry_, other.entry_);
-        entry_   = other.entry_;
+        start_   = other.start_;
         partial_ = other.partial_;
     }
 
-- 
2.43.0


From b22cb16faa721e9ff34a9cc8fcc2f927eaa76c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 11/16] fix: a distance constraint accepts a minimal distance
 alone

---
 include/Simu/physics/DistanceConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/DistanceConstraint.hpp b/include/Simu/physics/DistanceConstraint.hpp
index 024aec0..d4b9f50 100644
--- a/include/Simu/physics/DistanceConstraint.hpp
+++ b/include/Simu/physics/DistanceConstraint.hpp
@@ -152,7 +152,7 @@ public:
         );
 
         SIMU_ASSERT(
-            maxDistance > 0.f,
+            !maxDistance.has_value() || maxDistance.value() > 0.f,
             "Cannot enforce a maximal distance <= 0. Use an Hinge constraint "
             "for a distance of 0."
         );
-- 
2.43.0


From 2a0a018fa12c212877b09165b35bce52a0707c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 12/16] fix: the bounding box of no vertices is invalid

---
 include/Simu/physics/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/BoundingBox.hpp b/include/Simu/physics/BoundingBox.hpp
index 391be1a..4ceb808 100644
--- a/include/Simu/physics/BoundingBox.hpp
+++ b/include/Simu/physics/BoundingBox.hpp
@@ -128,7 +128,7 @@ private:
 
 
 template <VertexIterator2D It>
-BoundingBox::BoundingBox(It begin, It end)
+BoundingBox::BoundingBox(It begin, It end) : BoundingBox{}
 {
     if (begin == end)
         return;
-- 
2.43.0


From 8df6223086e3fe704104af68316e0cad0aef40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:13 +0000
Subject: [PATCH 13/16] fix: triangle barycentric coordinates of tiny clockwise
 triangles

The winding was decided with a tolerance of 1e-6, so a small clockwise triangle
was treated as collinear and its weights came out negative (closestPoint then
threw or picked the wrong feature).
---
 src/Simu/math/BarycentricCoordinates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/math/BarycentricCoordinates.cpp b/src/Simu/math/BarycentricCoordinates.cpp
index 3537c27..f6525e0 100644
--- a/src/Simu/math/BarycentricCoordinates.cpp
+++ b/src/Simu/math/BarycentricCoordinates.cpp
@@ -31,7 +31,7 @@ namespace simu
 TriangleBarycentric::TriangleBarycentric(Vec2 A, Vec2 B, Vec2 C, Vec2 Q)
     : AB{A, B, Q}, BC{B, C, Q}, CA{C, A, Q}
 {
-    Orientation sign = orientation(A, B, C);
+    Orientation sign = orientation(A, B, C, 0.f);
 
     u = 0.5f * cross(B - Q, C - Q);
     v = 0.5f * cross(C - Q, A - Q);
-- 
2.43.0


From 632784285db3707e709eddc354347352fe2c4cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:34 +0000
Subject: [PATCH 14/16] fix: LimitsSolver without limits threw
 bad_optional_access when correcting positions

---
 include/Simu/physics/ConstraintSolver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index aee48c0..9e1320e 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -424,7 +424,10 @@ public:
         {
             case Func::equality:
             {
-                posLambda = f.clampPositionLambda(solve(effMass, -(C - L_.value())));
+                if (L_.has_value())
+                    C -= L_.value();
+
+                posLambda = f.clampPositionLambda(solve(effMass, -C));
                 break;
             }
             case Func::lower:
-- 
2.43.0


From 6527881385fd24b58f470040b1d5329ad1c2167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:31 +0000
Subject: [PATCH 15/16] fix: an overlapping pair always has a contact point

Clipping the incident edge to the lines of the edges next to the reference
edge could leave both clipped points in front of the reference edge, and the
manifold of two deeply overlapping convex shapes had no contact at all.
---
 include/Simu/physics/ContactManifold.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/Simu/physics/ContactManifold.hpp b/include/Simu/physics/ContactManifold.hpp
index ef76c5a..0767b3e 100644
--- a/include/Simu/physics/ContactManifold.hpp
+++ b/include/Simu/physics/ContactManifold.hpp
@@ -236,6 +236,19 @@ private:
                 --nContacts_;
         }
 
+        // clipping to the lines of the adjacent edges may leave nothing behind
+        // the reference edge, the deepest end of the incident edge still penetrates.
+        if (nContacts_ == 0)
+        {
+            const Edge&  incident = contactEdges[inc];
+            const Vertex deepest
+                = (dot(incident.from(), n) > dot(incident.to(), n)) ? incident.from()
+                                                                    : incident.to();
+
+            if (dot(deepest - contactEdges[ref].from(), n) >= 0.f)
+                contacts_[inc][nContacts_++] = deepest;
+        }
+
         for (Uint32 i = 0; i < nContacts_; ++i)
         {
             contacts_[ref][i]
-- 
2.43.0


From c3f20abe3d16cc10819a0b61707ac50163ea10af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:27 +0000
Subject: [PATCH 16/16] fix: a contact that leaves the world is told so

World::cleanup called onDestruction for bodies, constraints and force fields
but erased dead contacts silently.
---
 src/Simu/physics/World.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index f7c66cb..63c521d 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -234,6 +234,7 @@ void World::cleanup()
                 b->wake();
             }
 
+            contact->onDestruction(*this);
             it = contacts_.erase(it);
         }
         else
-- 
2.43.0

