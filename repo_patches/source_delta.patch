From 50e86db762384a20af70b98f7d552838a5e70dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 01/59] fix: report occupied or out-of-map start and goal poses

GenericSearchAlgorithm declares Start/GoalNotFreeException and
Start/GoalOutOfMapException, but 'occupied' was never set, the lookup that
detects an out-of-map pose ran outside of the try block, and the goal was
checked by looking at the start set. An occupied goal therefore made the
search expand the whole map, and an out-of-map pose escaped as a bare
OutsideMapException.
---
 .../generic/SearchAlgorithm.hpp               | 44 +++++++++++--------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 35c1668..211fa54 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -464,9 +464,9 @@ protected:
     {
         bool outside = false;
         bool occupied = false;
-        auto start_poses = NodeT::getPoses(map_, pose);
-        for(NodeT* s : start_poses) {
-            try {
+        try {
+            auto start_poses = NodeT::getPoses(map_, pose);
+            for(NodeT* s : start_poses) {
                 if(!map_.isOccupied(s)) {
                     // put start node in open data structure
                     s->distance = 0;
@@ -475,11 +475,13 @@ protected:
 
                     open.add(s);
                     start.insert(s);
+                } else {
+                    occupied = true;
                 }
-
-            } catch(const OutsideMapException& e) {
-                outside = true;
             }
+
+        } catch(const OutsideMapException& e) {
+            outside = true;
         }
 
         if(start.empty()) {
@@ -496,9 +498,9 @@ protected:
     {
         bool outside = false;
         bool occupied = false;
-        auto start_poses = NodeT::getPoses(map_, node);
-        for(NodeT* s : start_poses) {
-            try {
+        try {
+            auto start_poses = NodeT::getPoses(map_, node);
+            for(NodeT* s : start_poses) {
                 if(!map_.isOccupied(s)) {
                     // put start node in open data structure
 //                    *s = node;
@@ -509,11 +511,13 @@ protected:
 
                     open.add(s);
                     start.insert(s);
+                } else {
+                    occupied = true;
                 }
-
-            } catch(const OutsideMapException& e) {
-                outside = true;
             }
+
+        } catch(const OutsideMapException& e) {
+            outside = true;
         }
 
         if(start.empty()) {
@@ -545,22 +549,24 @@ protected:
 
         bool outside = false;
         bool occupied = false;
-        auto goal_poses = NodeT::getPoses(map_, pose);
-        for(NodeT* g : goal_poses) {
-            try {
+        try {
+            auto goal_poses = NodeT::getPoses(map_, pose);
+            for(NodeT* g : goal_poses) {
                 if(!map_.isOccupied(g)) {
                     // put start node in open data structure
                     g->theta = pose.theta;
 
                     goal.insert(g);
+                } else {
+                    occupied = true;
                 }
-
-            } catch(const OutsideMapException& e) {
-                outside = true;
             }
+
+        } catch(const OutsideMapException& e) {
+            outside = true;
         }
 
-        if(start.empty()) {
+        if(goal.empty()) {
             if(occupied) {
                 throw GoalNotFreeException();
             } else if(outside) {
-- 
2.43.0


From 3e0939b8d69ef96fbd5094922df60e7dc2746606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 02/59] fix: forget the heuristic goal of the previous search

heuristic_goal points to a pose owned by the goal test of the last call;
a later search to a pose must not use it.
---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 211fa54..a992115 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -458,6 +458,7 @@ protected:
 
         start.clear();
         goal.clear();
+        heuristic_goal = NULL;
     }
 
     void initStartPose(const PointT& pose)
-- 
2.43.0


From 9be870c0a4b9b3456294ff62eeb2ab3d47e352cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 03/59] fix: do not map poses left of or below the grid to cell
 0

Converting a negative coordinate to unsigned maps (-1,0) to 0 and is
undefined below that.
---
 include/cslibs_path_planning/generic/MapManager.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 718b50e..e83cc08 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -201,9 +201,9 @@ struct GridMapManager :
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
-        if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
+        int y = std::floor(reference.y);
+        int x = std::floor(reference.x);
+        if((x < 0) || (y < 0) || (x >= (int) w) || (y >= (int) h)) {
             throw OutsideMapException();
         }
         return &data[index(x,y)];
-- 
2.43.0


From e924dd3a3fe4bf9c5e380fda88a8b0c1dcf49752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 04/59] fix: drop the open list before its nodes are freed

Setting a map of another size deletes the nodes of the last search while
the open list still refers to them; clearing it in the next findPath
then compared freed nodes.
---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index a992115..6df5b35 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -129,6 +129,9 @@ public:
     {}
 
     virtual void setMap(const MapT* map) {
+        // the open list refers to nodes that the map manager is about to replace
+        open.clear();
+
         map_.setMap(map);
         NeighborhoodType::setResolution(map->getResolution());
     }
-- 
2.43.0


From a892088b032391f7440bafd77f08c27a968675dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 05/59] fix: find the nodes on the padding border of the
 dynamic state space

---
 .../generic/MapManager.hpp                     | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index e83cc08..5e7a7bc 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -610,19 +610,17 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / (int) chunk_size);
-        if(x < 0) cx -= 1;
-        int cy = (y / (int) chunk_size);
-        if(y < 0) cy -= 1;
+        int cxp = (x + padding) / (int) chunk_size;
+        int cyp = (y + padding) / (int) chunk_size;
 
-        int cxp = cx + padding_chunks;
-        int cyp = cy + padding_chunks;
+        int cx = cxp - padding_chunks;
+        int cy = cyp - padding_chunks;
 
 
         Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
 
         if(!chunk) {
-            chunk = new Chunk(cx * chunk_size, cy * chunk_size, chunk_size, theta_slots);
+            chunk = new Chunk(cx * (int) chunk_size, cy * (int) chunk_size, chunk_size, theta_slots);
             chunks.at(cyp * chunks_w + cxp) = chunk;
         }
 
@@ -634,10 +632,10 @@ public:
         if((x < -padding) || (y < -padding) || (x >= (int) (w + padding)) || (y >= (int) (h + padding)) || (t < 0) || (t >= (int) theta_slots)) {
             throw OutsideMapException();
         }
-        int cx = (x / chunk_size);
-        int cy = (y / chunk_size);
+        int cxp = (x + padding) / (int) chunk_size;
+        int cyp = (y + padding) / (int) chunk_size;
 
-        Chunk* chunk = chunks.at(cy * chunks_w + cx);
+        Chunk* chunk = chunks.at(cyp * chunks_w + cxp);
         return chunk != nullptr;
     }
 
-- 
2.43.0


From f95aba897c91d0e6543abdb3a67f64f7a59b5ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 06/59] fix: look up start and goal of a steering search with
 their heading

---
 include/cslibs_path_planning/generic/SteeringNode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SteeringNode.hpp b/include/cslibs_path_planning/generic/SteeringNode.hpp
index f159650..740bdab 100644
--- a/include/cslibs_path_planning/generic/SteeringNode.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNode.hpp
@@ -19,7 +19,7 @@ struct SteeringNode : public Node {
     template <class AnyPoint>
     static void init(SteeringNode<Node> &memory, const AnyPoint& p) {
         Node::init(memory, p);
-        memory.theta = 0.0f;
+        memory.theta = p.theta;
         memory.steering_angle = 0.0f;
 //        memory.forward = true;
         memory.depth = 0;
-- 
2.43.0


From 5b7fca972da23e664e3aa603529f1364b608b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 07/59] fix: keep the pose of a steering node once it has been
 expanded

---
 .../generic/DynamicSteeringNeighborhood.h                    | 5 +++++
 .../cslibs_path_planning/generic/SteeringNeighborhood.hpp    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
index 2e964b4..36f8fd3 100644
--- a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
+++ b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
@@ -326,6 +326,11 @@ struct DynamicSteeringNeighborhood : public NeighborhoodBase
                             continue;
                         }
 
+                        // an expanded node must keep its pose, its successors were reached from there
+                        if(n->isMarked(NodeType::MARK_CLOSED)) {
+                            continue;
+                        }
+
                         if(algo.processNeighbor(reference, n, cost) == PR_ADDED_TO_OPEN_LIST)  {
                             n->custom  = custom;
                             n->depth = reference->depth + 1;
diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 2400b66..3d85fe9 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -318,6 +318,11 @@ struct SteeringNeighborhood :
                             continue;
                         }
 
+                        // an expanded node must keep its pose, its successors were reached from there
+                        if(n->isMarked(NodeType::MARK_CLOSED)) {
+                            continue;
+                        }
+
                         if(algo.processNeighbor(reference, n, cost) == PR_ADDED_TO_OPEN_LIST)  {
                             n->custom  = custom;
                             n->depth = reference->depth + 1;
-- 
2.43.0


From 0f31898383dd8c709291a5e999207a7222ec92b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 08/59] fix: initialise the move counter of forward-only
 steering

---
 include/cslibs_path_planning/generic/SteeringNeighborhood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index 3d85fe9..a22743f 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -299,7 +299,7 @@ struct SteeringNeighborhood :
             for(unsigned step = 0; step <= steer_steps; ++step) {
                 double to_x,to_y, to_theta;
                 bool forward;
-                char custom;
+                char custom = 0;
                 int steering_angle;
                 double cost = advance(reference, algo.search_options, i, step, to_x,to_y,to_theta,forward,steering_angle,custom, map_rotation);
 
-- 
2.43.0


From 31eb3d1f97e74a66f0ab8a3c922797bb340c1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 09/59] fix: check the whole line and its end for collisions in
 the dynamic state space

---
 .../cslibs_path_planning/common/Bresenham2d.h |  8 ++++++++
 .../generic/MapManager.hpp                    | 20 +++++++++----------
 src/common/Bresenham2d.cpp                    |  7 ++++++-
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/cslibs_path_planning/common/Bresenham2d.h b/include/cslibs_path_planning/common/Bresenham2d.h
index 857aefb..6964d6b 100644
--- a/include/cslibs_path_planning/common/Bresenham2d.h
+++ b/include/cslibs_path_planning/common/Bresenham2d.h
@@ -43,6 +43,14 @@ public:
      */
     void setGrid(const GridMap2d *map, int start_x, int start_y, int end_x, int end_y );
 
+    /**
+     * @brief Set start and end without a map
+     * The line may be anywhere, only next() and coordinates() can be used.
+     * @param start Start of the line (grid coordinates)
+     * @param end End of the line (grid coordinates)
+     */
+    void setGrid( int start_x, int start_y, int end_x, int end_y );
+
     /**
      * @brief Select next cell
      * @return False if we reached the end
diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 5e7a7bc..fe87d1b 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -659,7 +659,7 @@ public:
     }
 
     bool isFree(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid((int) std::floor(sx), (int) std::floor(sy), (int) std::floor(ex), (int) std::floor(ey));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -669,7 +669,7 @@ public:
         while(bresenham.next()) {
             bresenham.coordinates(x,y);
             if(skip == 0) {
-                if(!isFree(x-padding,y-padding,theta)) {
+                if(!isFree(x,y,theta)) {
                     return false;
                 }
             }
@@ -678,11 +678,11 @@ public:
             }
         }
 
-        return isFree(ex,ey,theta);
+        return isFree((int) std::floor(ex), (int) std::floor(ey), theta);
     }
 
     bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid((int) std::floor(sx), (int) std::floor(sy), (int) std::floor(ex), (int) std::floor(ey));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -692,8 +692,8 @@ public:
         while(bresenham.next()) {
             bresenham.coordinates(x,y);
             if(skip == 0) {
-                if(!isFreeOrUnknown(x-padding,y-padding,theta)) {
-                    //            if(isOccupied(x-padding,y-padding,theta)) {
+                if(!isFreeOrUnknown(x,y,theta)) {
+                    //            if(isOccupied(x,y,theta)) {
                     return false;
                 }
             }
@@ -702,12 +702,12 @@ public:
             }
         }
 
-        return isFreeOrUnknown(sx,sy,theta);
+        return isFreeOrUnknown((int) std::floor(ex), (int) std::floor(ey), theta);
     }
 
 
     bool isOccupied(const double sx, const double sy, const double ex, const double ey) const {
-        bresenham.setGrid(map_, std::floor(sx + padding), std::floor(sy + padding), std::floor(ex + padding),std::floor(ey + padding));
+        bresenham.setGrid((int) std::floor(sx), (int) std::floor(sy), (int) std::floor(ex), (int) std::floor(ey));
 
         double theta = std::atan2(ey-sy,ex-sx);
 
@@ -717,7 +717,7 @@ public:
         while(bresenham.next()) {
             bresenham.coordinates(x,y);
             if(skip == 0) {
-                if(isOccupied(x-padding,y-padding,theta)){
+                if(isOccupied(x,y,theta)){
                     return true;
                 }
             }
@@ -726,7 +726,7 @@ public:
             }
         }
 
-        return isOccupied(ex,ey,theta);
+        return isOccupied((int) std::floor(ex), (int) std::floor(ey), theta);
     }
 
     bool isFree(int x, int y, double theta) const {
diff --git a/src/common/Bresenham2d.cpp b/src/common/Bresenham2d.cpp
index 5020449..9025827 100644
--- a/src/common/Bresenham2d.cpp
+++ b/src/common/Bresenham2d.cpp
@@ -49,8 +49,13 @@ void Bresenham2d::setGrid(const GridMap2d *map, int start_x, int start_y, int en
         return;
     }
 
-    // Start/end in cell coordinates
     map_ = map;
+    setGrid( start_x, start_y, end_x, end_y );
+}
+
+void Bresenham2d::setGrid( int start_x, int start_y, int end_x, int end_y )
+{
+    // Start/end in cell coordinates
     x0_ = start_x; y0_ = start_y;
     x1_ = end_x; y1_ = end_y;
 
-- 
2.43.0


From 115ab84974406227809044f7f9867010aeeaeba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 10/59] fix: do not map poses left of or below the map to the
 state spaces' first cells

---
 .../generic/MapManager.hpp                    | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index fe87d1b..467741b 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -278,9 +278,9 @@ public:
     }
 
 
-    inline unsigned index(unsigned x, unsigned y, unsigned t) const {
-        if((x < 0) || (y < 0) || (x >= w) || (y >= h) || (t < 0) || (t >= theta_slots)) {
-            throw typename ManagerT::OutsideMapException();
+    inline unsigned index(int x, int y, unsigned t) const {
+        if((x < 0) || (y < 0) || (x >= (int) w) || (y >= (int) h) || (t >= theta_slots)) {
+            throw OutsideMapException();
         }
         return y * w + x + t*w*h;
     }
@@ -290,21 +290,18 @@ public:
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) const {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
+        int y = std::floor(reference.y);
+        int x = std::floor(reference.x);
         unsigned t = angle2index(reference.theta);
         return &data[index(x,y,t)];
     }
 
     NodeType* lookup(const int x, const int y, double theta) const {
-        if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw typename ManagerT::OutsideMapException();
-        }
         return &data[index(x,y,angle2index(theta))];
     }
     NodeType* lookup(const double x, const double y, double theta) const {
         if((x < 0) || (y < 0) || (x >= w) || (y >= h)) {
-            throw typename ManagerT::OutsideMapException();
+            throw OutsideMapException();
         }
         return lookup((int) std::floor(x), (int) std::floor(y), theta);
     }
@@ -386,14 +383,14 @@ public:
 
     template <class PointT>
     NodeType* lookup(const PointT& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
+        int y = std::floor(reference.y);
+        int x = std::floor(reference.x);
         unsigned t = angle2index(reference.theta);
         return &data[index(x,y,t, reference.forward)];
     }
     NodeType* lookup(const Pose2d& reference) {
-        unsigned y = reference.y;
-        unsigned x = reference.x;
+        int y = std::floor(reference.y);
+        int x = std::floor(reference.x);
         unsigned t = angle2index(reference.theta);
         return &data[index(x,y,t, true)];
     }
-- 
2.43.0


From 6bcf8fedf0809fca06de93d30cab1874a8ccf80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 11/59] fix: align the obstacle heuristic with padded maps and
 include border cells

---
 .../generic/Heuristics.hpp                    | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/cslibs_path_planning/generic/Heuristics.hpp b/include/cslibs_path_planning/generic/Heuristics.hpp
index bf17462..d99734e 100644
--- a/include/cslibs_path_planning/generic/Heuristics.hpp
+++ b/include/cslibs_path_planning/generic/Heuristics.hpp
@@ -303,7 +303,7 @@ struct HeuristicHolonomicObstacles {
     template <class A, class B>
     static void compute(A* current, const B* goal, double res) {
         if(costs) {
-            auto h = cost__(current->x, current->y);
+            auto h = cost__(std::floor(current->x), std::floor(current->y));
             if(h != std::numeric_limits<double>::max()) {
                 current->h = h * res;
             } else {
@@ -322,6 +322,13 @@ struct HeuristicHolonomicObstacles {
         return costs[(r) * w + (c)];
     }
 
+    static inline double costOrInf(int c, int r) {
+        if(c < 0 || r < 0 || c >= (int) w || r >= (int) h) {
+            return std::numeric_limits<double>::infinity();
+        }
+        return cost(c, r);
+    }
+
     template <class Map, class NodeType>
     static void setMap(const Map* map, const NodeType& goal) {
         delete [] costs;
@@ -339,7 +346,7 @@ struct HeuristicHolonomicObstacles {
 
         for(unsigned int row = 0; row < h; ++row) {
             for(unsigned int col = 0; col < w; ++col) {
-                if(!map->isOccupied(col, row, 0)) {
+                if(!map->isOccupied((int) col - padding, (int) row - padding, 0)) {
                     cost(col, row) = std::numeric_limits<double>::max();
                 } else {
                     cost(col, row) = std::numeric_limits<double>::infinity();
@@ -347,7 +354,7 @@ struct HeuristicHolonomicObstacles {
             }
         }
 
-        cost__(goal.x, goal.y) = 0;
+        cost__(std::floor(goal.x), std::floor(goal.y)) = 0;
 
         int iteration = 0;
 
@@ -356,16 +363,16 @@ struct HeuristicHolonomicObstacles {
             ++iteration;
             change = false;
 
-            for(unsigned int row = 1; row < h-1; ++row) {
-                for(unsigned int col = 1; col < w-1; ++col) {
+            for(int row = 0; row < (int) h; ++row) {
+                for(int col = 0; col < (int) w; ++col) {
                     double& d = cost(col, row);
                     bool free = d != std::numeric_limits<double>::infinity();
 
                     if(free) {
-                        double d1 = cost(col-1, row  ) + HORIZ;
-                        double d2 = cost(col-1, row-1) + DIAG;
-                        double d3 = cost(col,   row-1) + HORIZ;
-                        double d4 = cost(col+1, row-1) + DIAG;
+                        double d1 = costOrInf(col-1, row  ) + HORIZ;
+                        double d2 = costOrInf(col-1, row-1) + DIAG;
+                        double d3 = costOrInf(col,   row-1) + HORIZ;
+                        double d4 = costOrInf(col+1, row-1) + DIAG;
 
                         double dmin = std::min(d1, std::min(d2, std::min(d3, d4)));
 
@@ -377,16 +384,16 @@ struct HeuristicHolonomicObstacles {
                 }
             }
 
-            for(int row = h-2; row >= 1; --row) {
-                for(int col = w-2; col >= 1; --col) {
+            for(int row = h-1; row >= 0; --row) {
+                for(int col = w-1; col >= 0; --col) {
                     double& d = cost(col, row);
                     bool free = d != std::numeric_limits<double>::infinity();
 
                     if(free) {
-                        double d1 = cost(col+1, row  ) + HORIZ;
-                        double d2 = cost(col-1, row+1) + DIAG;
-                        double d3 = cost(col,   row+1) + HORIZ;
-                        double d4 = cost(col+1, row+1) + DIAG;
+                        double d1 = costOrInf(col+1, row  ) + HORIZ;
+                        double d2 = costOrInf(col-1, row+1) + DIAG;
+                        double d3 = costOrInf(col,   row+1) + HORIZ;
+                        double d4 = costOrInf(col+1, row+1) + DIAG;
 
                         double dmin = std::min(d1, std::min(d2, std::min(d3, d4)));
 
-- 
2.43.0


From 861c648edd7cc4b8b0c955731c0fa97d7a6629e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 12/59] fix: construct the nodes of the open list

---
 src/a_star/OpenList.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/a_star/OpenList.cpp b/src/a_star/OpenList.cpp
index 5bfb68e..c2ff0a8 100644
--- a/src/a_star/OpenList.cpp
+++ b/src/a_star/OpenList.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <stdlib.h>
 #include <iomanip>
+#include <new>
 #include <cslibs_path_planning/a_star/OpenList.h>
 
 
@@ -35,7 +36,11 @@ void OpenList::initialize() {
 		return;
 	}
 	Node* node = mNodesArray;
+	waypoint_t origin;
+	origin.x = 0;
+	origin.y = 0;
 	for (int i=0; i < mNodesCount; i++) {
+		new (node) Node(origin, 0.0, 0.0, NULL, i);
 		node->reset();
 		node++;
 	}
@@ -119,7 +124,7 @@ multiset<Node*>::iterator OpenList::getNode(Node* node) {
 	//cout << "Search for " << node->toString() << " "<< node->getValue() << endl;
 	//cout << "  lower " << (*bounds.first)->toString() << endl;
 	//cout << "  upper " << (*bounds.second)->toString() << endl;
-	while ((*lowerBound) != node && lowerBound != mNodeValues.end()) {
+	while (lowerBound != mNodeValues.end() && (*lowerBound) != node) {
 		//cout << "  comparing to " << (*lowerBound)->toString() << endl;
 		lowerBound++;
 	}
-- 
2.43.0


From 7f6094fc3f886fc80af251e71b01678b202b5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 13/59] fix: reject points left of or below a grid map

---
 .../cslibs_path_planning/common/GridMap2d.h   |  9 +++------
 .../common/SimpleGridMap2d.h                  | 20 +++++++++++--------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/cslibs_path_planning/common/GridMap2d.h b/include/cslibs_path_planning/common/GridMap2d.h
index c4caceb..c9d1169 100644
--- a/include/cslibs_path_planning/common/GridMap2d.h
+++ b/include/cslibs_path_planning/common/GridMap2d.h
@@ -183,20 +183,17 @@ public:
 
     bool isFree( const Point2d& p ) const {
         unsigned int x, y;
-        point2cell( p, x, y );
-        return isFree( x, y );
+        return point2cell( p, x, y ) && isFree( x, y );
     }
 
     bool isOccupied( const Point2d& p ) const {
         unsigned int x, y;
-        point2cell( p, x, y );
-        return isOccupied( x, y );
+        return point2cell( p, x, y ) && isOccupied( x, y );
     }
 
     bool isNoInformation( const Point2d& p ) const {
         unsigned int x, y;
-        point2cell( p, x, y );
-        return isNoInformation( x, y );
+        return point2cell( p, x, y ) && isNoInformation( x, y );
     }
 
     /**
diff --git a/include/cslibs_path_planning/common/SimpleGridMap2d.h b/include/cslibs_path_planning/common/SimpleGridMap2d.h
index 5ccccf0..f8f1f1b 100644
--- a/include/cslibs_path_planning/common/SimpleGridMap2d.h
+++ b/include/cslibs_path_planning/common/SimpleGridMap2d.h
@@ -146,20 +146,21 @@ public:
     }
 
     bool point2cell( const double px, const double py, unsigned int& x, unsigned int& y ) const {
-        x = (unsigned int)((px - origin_.x)/res_);
-        y = (unsigned int)((py - origin_.y)/res_);
+        const double cx = (px - origin_.x)/res_;
+        const double cy = (py - origin_.y)/res_;
 
-        if ( !isInMap( (int)x, (int)y ))
+        if ( !(cx >= 0 && cy >= 0 && cx < width_ && cy < height_))
             return false;
+
+        x = (unsigned int)cx;
+        y = (unsigned int)cy;
         return true;
     }
     virtual bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
         x = (px - origin_.x)/res_;
         y = (py - origin_.y)/res_;
 
-        if ( !isInMap( (int)x, (int)y ))
-            return false;
-        return true;
+        return x >= 0 && y >= 0 && x < width_ && y < height_;
     }
 
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
@@ -175,8 +176,11 @@ public:
     bool isInMap( const int x, const int y ) const
         { return !(x < 0 || y < 0 || x >= (int)width_ || y >= (int)height_); }
 
-    bool isInMap( const double x, const double y ) const
-        { return (x - origin_.x)/res_ < width_ && (y - origin_.y)/res_ < height_; }
+    bool isInMap( const double x, const double y ) const {
+        const double cx = (x - origin_.x)/res_;
+        const double cy = (y - origin_.y)/res_;
+        return cx >= 0 && cy >= 0 && cx < width_ && cy < height_;
+    }
 
     unsigned char* getData()
     {
-- 
2.43.0


From 83354e089aa435e7a0054198c4cfb8efef1db827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 14/59] fix: use origin and resolution when converting points
 of rotated maps

---
 .../common/RotatedGridMap2d.h                  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index 2b64e1a..6f71e6d 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -78,12 +78,14 @@ public:
         double rx = c * nx - s * ny;
         double ry = s * nx + c * ny;
 
-        x = (rx - origin_.x)/res_;
-        y = (ry - origin_.y)/res_;
+        return SimpleGridMap2d::point2cell( rx, ry, x, y );
+    }
+
+    virtual bool point2cellSubPixel( const double px, const double py, double& x, double& y ) const {
+        double c = std::cos(-yaw_);
+        double s = std::sin(-yaw_);
 
-        if ( !isInMap( (int)x, (int)y ))
-            return false;
-        return true;
+        return SimpleGridMap2d::point2cellSubPixel( c * px - s * py, s * px + c * py, x, y );
     }
 
     void cell2point( const unsigned int x, const unsigned int y, double& px, double& py ) const {
@@ -125,10 +127,10 @@ public:
         double nx = x;// - origin_.x;
         double ny = y;// - origin_.y;
         
-        int px = c * nx - s * ny;
-        int py = s * nx + c * ny;
+        double px = c * nx - s * ny;
+        double py = s * nx + c * ny;
 
-        return px >= 0 && py >= 0 && px < (int) width_ && py < (int) height_;
+        return SimpleGridMap2d::isInMap( px, py );
     }
 
     virtual double getRotation() const 
-- 
2.43.0


From a7eb1125df2a130be32d86a185eae85aa8ffa123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 15/59] fix: return the origin of a rotated map as it was set

---
 include/cslibs_path_planning/common/RotatedGridMap2d.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/common/RotatedGridMap2d.h b/include/cslibs_path_planning/common/RotatedGridMap2d.h
index 6f71e6d..afffb88 100644
--- a/include/cslibs_path_planning/common/RotatedGridMap2d.h
+++ b/include/cslibs_path_planning/common/RotatedGridMap2d.h
@@ -38,15 +38,17 @@ public:
      * @param h new map height (number of cells in y-direction)
      */
     void set( const std::vector<uint8_t>& data, const unsigned int w, const unsigned int h, const double yaw ) {
+        const Point2d origin = getOrigin();
         width_ = w;
         height_ = h;
         yaw_ = yaw;
+        setOrigin( origin );
         data_.assign( data.begin(), data.end());
     }
 
 
     Point2d getOrigin() const
-        { return origin_; }
+        { return origin_.rotate(yaw_); }
 
     void setOrigin( const Point2d& p )
     {
-- 
2.43.0


From 7b1b6d4884b823c149f08639314dfff9d46c9f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 16/59] fix: iterate over all cells of circle and line areas

---
 include/cslibs_path_planning/common/GridMap2d.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cslibs_path_planning/common/GridMap2d.h b/include/cslibs_path_planning/common/GridMap2d.h
index c9d1169..a774b4a 100644
--- a/include/cslibs_path_planning/common/GridMap2d.h
+++ b/include/cslibs_path_planning/common/GridMap2d.h
@@ -300,8 +300,8 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first + center_x_;
-        y = cells_[counter_].second + center_y_;
+        x = cells_[counter_ - 1].first + center_x_;
+        y = cells_[counter_ - 1].second + center_y_;
     }
 
     virtual uint8_t getValue() const
@@ -329,7 +329,7 @@ protected:
     /// Current y coordinate of center point (cell coordinates)
     int center_y_;
 
-    /// Points to the currently selected cell
+    /// Number of cells selected so far, the current one is the last of them
     std::size_t counter_;
 };
 
@@ -369,7 +369,7 @@ public:
      * @return Previously buffered cell value.
      */
     virtual uint8_t getValue() const {
-        return values_[counter_];
+        return values_[counter_ - 1];
     }
 
     /**
@@ -377,7 +377,7 @@ public:
      * @param value Value of the currently selected cell.
      */
     virtual void setValue( const uint8_t value ) {
-        values_[counter_] = value;
+        values_[counter_ - 1] = value;
     }
 
 protected:
@@ -429,15 +429,15 @@ public:
     }
 
     virtual void getCell( int& x, int& y ) const {
-        x = cells_[counter_].first;
-        y = cells_[counter_].second;
+        x = cells_[counter_ - 1].first;
+        y = cells_[counter_ - 1].second;
     }
 
     virtual uint8_t getValue() const
         { return value_; }
 
 protected:
-    /// Points to the current cell
+    /// Number of cells selected so far, the current one is the last of them
     std::size_t counter_;
 
     /// All cells of this area
-- 
2.43.0


From 92c66f4a45dcd7698cf48ae2581491e27602759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 17/59] fix: report an area without information as such

---
 src/common/GridMap2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/GridMap2d.cpp b/src/common/GridMap2d.cpp
index 481acda..5730e72 100644
--- a/src/common/GridMap2d.cpp
+++ b/src/common/GridMap2d.cpp
@@ -85,9 +85,9 @@ bool GridMap2d::isAreaNoInformation(MapArea2d &area ) const
     while ( area.next()) {
         area.getCell( x, y );
         if ( isInMap( x, y ) && isNoInformation(x, y))
-            return false;
+            return true;
     }
-    return true;
+    return false;
 }
 
 bool GridMap2d::isAreaOccupied( MapArea2d &area ) const
-- 
2.43.0


From ef4e97b26c26ba99f259bf309fa58670145e709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 18/59] fix: select the robot footprint by the heading

---
 .../common/CollisionGridMap2d.h               |  2 ++
 src/common/CollisionGridMap2d.cpp             | 26 +++++++------------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/cslibs_path_planning/common/CollisionGridMap2d.h b/include/cslibs_path_planning/common/CollisionGridMap2d.h
index b14d89c..a719fd0 100644
--- a/include/cslibs_path_planning/common/CollisionGridMap2d.h
+++ b/include/cslibs_path_planning/common/CollisionGridMap2d.h
@@ -46,6 +46,8 @@ public:
 
 
 private:
+    int angleIndex( const double theta ) const;
+
     RobotArea* areas_[ANGLE_DISCRETIZATION];
 };
 
diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index 89c8177..d2f00e0 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -148,7 +148,7 @@ CollisionGridMap2d::CollisionGridMap2d(const unsigned int w, const unsigned int
     : RotatedGridMap2d(w,h, yaw, r)
 {
     for(int t = 0; t< ANGLE_DISCRETIZATION; ++t) {
-        double theta = (2 * M_PI) * (t / (ANGLE_DISCRETIZATION + 1.0));
+        double theta = (2 * M_PI) * t / ANGLE_DISCRETIZATION;
         double res = getResolution();
 
         areas_[t] = new RobotArea(this, forward / res, backward / res, width / res, theta);
@@ -172,6 +172,12 @@ CollisionGridMap2d::~CollisionGridMap2d()
     }
 }
 
+int CollisionGridMap2d::angleIndex(const double theta) const
+{
+    int t = (int) round(std::remainder(theta, 2*M_PI) / (2*M_PI) * ANGLE_DISCRETIZATION);
+    return (t + ANGLE_DISCRETIZATION) % ANGLE_DISCRETIZATION;
+}
+
 bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned int y, const double theta) const
 {
     if(!isInMap((int) x,(int) y)) {
@@ -182,12 +188,8 @@ bool CollisionGridMap2d::isOccupiedRotated(const unsigned int x, const unsigned
         return true;
     }
 
-    double t = theta;
-    while(t < 0) t += 2*M_PI;
-    while(t >= 2*M_PI) t -= 2*M_PI;
-
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angleIndex(theta)];
     a->setPosition(x,y);
     bool occ = isAreaOccupied(*a);
     return occ;
@@ -199,12 +201,8 @@ bool CollisionGridMap2d::isFreeRotated(const unsigned int x, const unsigned int
         return false;
     }
 
-    double t = theta;
-    while(t < 0) t += 2*M_PI;
-    while(t >= 2*M_PI) t -= 2*M_PI;
-
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angleIndex(theta)];
     a->setPosition(x,y);
     bool free = isAreaFree(*a);
     return free;
@@ -220,12 +218,8 @@ bool CollisionGridMap2d::isNoInformationRotated(const unsigned int x, const unsi
         return false;
     }
 
-    double t = theta;
-    while(t < 0) t += 2*M_PI;
-    while(t >= 2*M_PI) t -= 2*M_PI;
-
     // check boundary
-    RobotArea* a = areas_[(int) round(t)];
+    RobotArea* a = areas_[angleIndex(theta)];
     a->setPosition(x,y);
     bool no_info = isAreaNoInformation(*a);
     return no_info;
-- 
2.43.0


From 090156c1dfc1d09060c5ecd544501134467bce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 19/59] fix: cover the whole robot footprint, not only its
 sides

---
 src/common/CollisionGridMap2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index d2f00e0..fb1dcba 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -44,7 +44,7 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     double i_row = 0.0;
     for(int row = 0; row <= steps_row; ++row) {
         Eigen::Vector2d left = bl + i_row * (fl-bl);
-        Eigen::Vector2d right = fr + i_row * (br-fr);
+        Eigen::Vector2d right = br + i_row * (fr-br);
 
         double i_col = 0.0;
         for(int col = 0; col <= steps_col; ++col) {
-- 
2.43.0


From b960a4362d65fe16d42e4a875d543a1e1c894e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 20/59] fix: do not skip cells inside of the robot footprint

---
 include/cslibs_path_planning/common/CollisionGridMap2d.h | 2 +-
 src/common/CollisionGridMap2d.cpp                        | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/common/CollisionGridMap2d.h b/include/cslibs_path_planning/common/CollisionGridMap2d.h
index a719fd0..b02da2b 100644
--- a/include/cslibs_path_planning/common/CollisionGridMap2d.h
+++ b/include/cslibs_path_planning/common/CollisionGridMap2d.h
@@ -85,7 +85,7 @@ private:
             : x(x), y(y)
         {}
         Cell(const Eigen::Vector2d& v)
-            : x(v(0)), y(v(1))
+            : x(std::floor(v(0) + 0.5)), y(std::floor(v(1) + 0.5))
         {}
     };
 
diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index fb1dcba..f757ab6 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -33,7 +33,8 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     Eigen::Vector2d bl = rot * bl_;
 
 //    double m_per_cell = parent->getResolution();
-    double m_per_step = width / 8;
+    // small enough to hit every cell whose center is covered
+    double m_per_step = std::min(width / 8, 0.5);
 //    double m_per_step = m_per_cell * cell_per_step;
 
     int steps_row = std::ceil(width / m_per_step);
-- 
2.43.0


From c8714443538af5c6c418688cb7b456625272d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:58 +0000
Subject: [PATCH 21/59] fix: round the largest number below one half down

---
 include/cslibs_path_planning/common/TmpMath.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/common/TmpMath.hpp b/include/cslibs_path_planning/common/TmpMath.hpp
index fd9dd25..b0896f7 100644
--- a/include/cslibs_path_planning/common/TmpMath.hpp
+++ b/include/cslibs_path_planning/common/TmpMath.hpp
@@ -7,7 +7,9 @@ namespace tmpmath
 // Compile time rounding to nearest whole number
 constexpr int round(double x)
 {
-    return (x >= 0 ? x + 0.5 : x - 0.5);
+    // do not add 0.5, the sum may already be rounded up
+    return (x >= 0 ? (x - (int) x >= 0.5 ? (int) x + 1 : (int) x)
+                   : (x - (int) x <= -0.5 ? (int) x - 1 : (int) x));
 }
 } // namespace tmpmath
 
-- 
2.43.0


From d75175d0e565ebd4b81659c7da5f52d70bcd4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 22/59] fix: sample the robot footprint along its length and
 width

---
 src/common/CollisionGridMap2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/CollisionGridMap2d.cpp b/src/common/CollisionGridMap2d.cpp
index f757ab6..920f433 100644
--- a/src/common/CollisionGridMap2d.cpp
+++ b/src/common/CollisionGridMap2d.cpp
@@ -37,8 +37,8 @@ RobotArea::RobotArea(CollisionGridMap2d const*  parent, double forward, double b
     double m_per_step = std::min(width / 8, 0.5);
 //    double m_per_step = m_per_cell * cell_per_step;
 
-    int steps_row = std::ceil(width / m_per_step);
-    int steps_col = std::ceil((forward - backward) / m_per_step);
+    int steps_row = std::ceil((forward - backward) / m_per_step);
+    int steps_col = std::ceil(width / m_per_step);
     double inc_row = 1.0 / steps_row;
     double inc_col = 1.0 / steps_col;
 
-- 
2.43.0


From 78b27f0447bcb08aa9416c0d5819a0c9da977850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 23/59] fix: keep the cells of a circle area within its radius

---
 src/common/GridMap2d.cpp | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/common/GridMap2d.cpp b/src/common/GridMap2d.cpp
index 5730e72..b1b33b9 100644
--- a/src/common/GridMap2d.cpp
+++ b/src/common/GridMap2d.cpp
@@ -7,6 +7,7 @@
 
 // Project
 #include <cslibs_path_planning/common/GridMap2d.h>
+#include <cmath>
 #include <iostream>
 
 using namespace lib_path;
@@ -149,30 +150,11 @@ void CircleArea::init( const Point2d &center,
         return;
     }
 
-    /* Taken from http://en.wikipedia.org/wiki/Midpoint_circle_algorithm */
-
-    /// @todo This function is not perfect (sometimes too much cells). Replace it if there is enough time
-
     int cell_radius = (int)(radius / map->getResolution());
-    int f = 1 - cell_radius;
-    int ddF_x = 1;
-    int ddF_y = -2 * cell_radius;
-    int x = 0;
-    int y = cell_radius;
-
-    addHorizontalLine( 0, - cell_radius, 0 + cell_radius );
-
-    while( x < cell_radius ) {
-        if( f >= 0 ) {
-            y--;
-            ddF_y += 2;
-            f += ddF_y;
-        }
-        x++;
-        ddF_x += 2;
-        f += ddF_x;
-        addHorizontalLine( x, -y, y );
-        addHorizontalLine( -x, -y, y );
+
+    for ( int y = -cell_radius; y <= cell_radius; ++y ) {
+        int x = (int)( std::sqrt( (double)cell_radius*cell_radius - (double)y*y ) + 0.5 );
+        addHorizontalLine( y, -x, x );
     }
 
     /*for ( std::size_t i = 0; i < cells_.size(); ++i ) {
-- 
2.43.0


From 346a4707fe0e2db3b82e7a9fc328a60a721789f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 24/59] fix: do not limit the arc of curves by an uninitialised
 value

---
 src/ReedsShepp/CurveGenerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index cd8d077..9920b27 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -9,6 +9,7 @@
 #include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
 
 /// SYSTEM
+#include <limits>
 #include <stdio.h>
 #include <typeinfo>
 
@@ -18,6 +19,7 @@ CurveGenerator::CurveGenerator()
     : m_use_map_cost(false), m_min_cell_cost(10),
       m_circle_radius(2.0), m_max_waypoint_distance(1.0),
       m_cost_forwards(1.0), m_cost_backwards(1.0), m_cost_curve(1.0), m_cost_straight(1.0),
+      m_max_curve_arc(std::numeric_limits<double>::infinity()),
       m_trace(-1)
 {
 }
-- 
2.43.0


From 2e371d04bfd4543710149f4621f0333ca13f4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 25/59] fix: return true for correct curve patterns as
 documented

---
 src/ReedsShepp/CurveGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index 9920b27..db81baa 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -176,7 +176,7 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
             out << " ";
         out << "^" << std::endl;
     }
-    return error;
+    return !error;
 }
 
 Curve* CurveGenerator::find_path(const Pose2d& start, const Pose2d& goal, const GridMap2d* map, bool ignore_obstacles)
-- 
2.43.0


From 2343b9fdde61e0d7800dd90330acde7ed9bdcc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 26/59] fix: do not abort on curve patterns that do not start
 or end with a circle

---
 src/ReedsShepp/Curve.cpp          | 3 ++-
 src/ReedsShepp/CurveGenerator.cpp | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index 67c4a0f..f5473f8 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -104,7 +104,8 @@ double Curve::check_if_admissible()
         return NOT_FREE;
     }
 
-    if(m_sequence.size() < 3) {
+    if(!dynamic_cast<CircleSegment*>(m_sequence.front()) || !dynamic_cast<CircleSegment*>(m_sequence.back())) {
+        // only curves starting and ending with a circle are supported
         return NOT_FREE;
     }
 
diff --git a/src/ReedsShepp/CurveGenerator.cpp b/src/ReedsShepp/CurveGenerator.cpp
index db81baa..dbbbf32 100644
--- a/src/ReedsShepp/CurveGenerator.cpp
+++ b/src/ReedsShepp/CurveGenerator.cpp
@@ -96,10 +96,9 @@ bool CurveGenerator::parse(const std::string& sequence, std::ostream& out)
                 error = true;
                 break;
             case 'b': {
-                const CurveSegment& cs = new_curve.get_segment(new_curve.count() - 1);
 //                CurveSegment* cs = m_sequences[m_count].at(m_sequences[m_count].size()-1);
 
-                if(typeid(cs) == typeid(CircleSegment)) {
+                if(new_curve.count() > 0 && typeid(new_curve.get_segment(new_curve.count() - 1)) == typeid(CircleSegment)) {
                     //CircleSegment * circle = dynamic_cast<CircleSegment*> (cs);
                     //circle.set_part_of_turn();
 
-- 
2.43.0


From 191a21a6556a99b6aabbed8896ae3de5c4fa2f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 27/59] fix: do not drive a full circle when no turn is needed

---
 src/ReedsShepp/CircleSegment.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index a68aa16..32ea415 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -286,7 +286,12 @@ void CircleSegment::compute_arc_length()
         m_arc_length = arc_angle;
     }
 
-    int sign = m_arc_length >= 0 ? 1 : -1;
+    // start and end are the same up to rounding errors -> no full circle
+    if(std::abs(m_arc_length) > 2 * M_PI - 1e-5) {
+        m_arc_length = 0;
+    }
+
+    int sign = must_be_positive ? 1 : -1;
 
     // each step should produce a distance of m_max_distance
     // -> polar coordinates, calulate step in angle
-- 
2.43.0


From 9376bc9d79b1add4dc44039a3be971e5b625928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 28/59] fix: end curves at the goal and keep the waypoint
 distance

---
 src/ReedsShepp/CircleSegment.cpp |  9 ++++++---
 src/ReedsShepp/Curve.cpp         | 25 ++++++++++++-------------
 src/ReedsShepp/LineSegment.cpp   |  2 +-
 3 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index 32ea415..9dc5a04 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -297,8 +297,11 @@ void CircleSegment::compute_arc_length()
     // -> polar coordinates, calulate step in angle
     m_angle_step_size = m_max_distance / m_radius * sign;
 
-    // no of steps
-    m_steps = std::max(1, (int) std::abs(std::floor(m_arc_length / m_angle_step_size)));
+    // no of steps, the last one ends at the end of the arc
+    m_steps = (int) std::ceil(m_arc_length / m_angle_step_size);
+    if(m_steps > 0) {
+        m_angle_step_size = m_arc_length / m_steps;
+    }
 }
 
 void CircleSegment::reset_iteration()
@@ -313,7 +316,7 @@ bool CircleSegment::has_next()
 {
     assert(m_iterating);
 
-    return m_output <= m_steps;
+    return m_output < m_steps;
 }
 
 Pose2d CircleSegment::next()
diff --git a/src/ReedsShepp/Curve.cpp b/src/ReedsShepp/Curve.cpp
index f5473f8..c593afb 100644
--- a/src/ReedsShepp/Curve.cpp
+++ b/src/ReedsShepp/Curve.cpp
@@ -298,14 +298,11 @@ bool Curve::has_next()
         std::cerr << "*** [RS] SEVERE CODE ERROR, ITERATION NOT STARTED ***" << std::endl;
     }
 
-    if(m_output_number < m_sequence.size()) {
-
-        return m_sequence[m_output_number]->has_next() || m_output_number < m_sequence.size() - 1;
-
-    } else {
+    // all segments are followed by the goal
+    if(m_output_number > m_sequence.size()) {
         m_iterating = false;
-        return false;
     }
+    return m_iterating;
 }
 
 Pose2d Curve::next()
@@ -314,17 +311,19 @@ Pose2d Curve::next()
         std::cerr << "*** [RS] SEVERE CODE ERROR, ITERATION NOT STARTED ***" << std::endl;
     }
 
-    CurveSegment* current_segment = m_sequence[m_output_number];
+    // skip the segments that do not have another point
+    while(m_output_number < m_sequence.size() && !m_sequence[m_output_number]->has_next()) {
+        m_output_number++;
+    }
 
-    if(current_segment->has_next()) {
+    if(m_output_number < m_sequence.size()) {
         // current segment has another point
-        return current_segment->next();
+        return m_sequence[m_output_number]->next();
 
-    } else if(has_next()) {
-        // current segment doesn't have another point, but there's another segment
+    } else if(m_output_number == m_sequence.size()) {
+        // there are no more segments, the curve ends at the goal
         m_output_number++;
-        m_sequence[m_output_number]->reset_iteration();
-        return next();
+        return m_goal;
 
     } else {
         // there are no more points, should never happen if has_next() is used.
diff --git a/src/ReedsShepp/LineSegment.cpp b/src/ReedsShepp/LineSegment.cpp
index 72f8278..bb728b3 100644
--- a/src/ReedsShepp/LineSegment.cpp
+++ b/src/ReedsShepp/LineSegment.cpp
@@ -100,7 +100,7 @@ void LineSegment::reset_iteration()
 {
     m_iterating = true;
     m_output = 0;
-    m_segments = m_start.distance_to(m_end) / m_max_distance;
+    m_segments = std::ceil(m_start.distance_to(m_end) / m_max_distance);
 }
 
 bool LineSegment::has_next()
-- 
2.43.0


From da83966b36a28b79060775377ddca07346f7c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 29/59] fix: only the driven part of a circle has to be inside
 of the map

---
 src/ReedsShepp/CircleSegment.cpp | 76 ++++++++++++++++----------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index 9dc5a04..bf0d0d2 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -198,50 +198,50 @@ bool CircleSegment::test4Points(int cx, int cy, int x, int y, bool ignore_obstac
 
 bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacles)
 {
-    if(m_map->isInMap(x, y)) {
-        float angle = atan2(y-cy, x-cx);
-        bool on_segment = false;
-
-        float start = NORMALIZE(m_angle_start);
-        float end = NORMALIZE(m_angle_end);
-
-        bool increasing = m_angle_step_size > 0;//(m_arc_length > 0) ^ (m_direction == BACKWARD);
-        bool decreasing = !increasing;
-
-        if(start > end) {
-            if(decreasing) {
-                // start > end  &&  angle decreasing  -> no possible overflow
-                on_segment = angle <= start && angle >= end;
-            } else {
-                // start > end  &&  angle increasing  ->  possible overflow
-                on_segment = angle >= start || angle <= end;
-            }
+    float angle = atan2(y-cy, x-cx);
+    bool on_segment = false;
+
+    float start = NORMALIZE(m_angle_start);
+    float end = NORMALIZE(m_angle_end);
+
+    bool increasing = m_angle_step_size > 0;//(m_arc_length > 0) ^ (m_direction == BACKWARD);
+    bool decreasing = !increasing;
+
+    if(start > end) {
+        if(decreasing) {
+            // start > end  &&  angle decreasing  -> no possible overflow
+            on_segment = angle <= start && angle >= end;
+        } else {
+            // start > end  &&  angle increasing  ->  possible overflow
+            on_segment = angle >= start || angle <= end;
+        }
+    } else {
+        // start <= end
+        if(increasing) {
+            // start <= end  &&  angle increasing  -> no possible overflow
+            on_segment = angle >= start && angle <= end;
         } else {
-            // start <= end
-            if(increasing) {
-                // start <= end  &&  angle increasing  -> no possible overflow
-                on_segment = angle >= start && angle <= end;
-            } else {
-                // start <= end  &&  angle decreasing  -> possible overflow
-                on_segment = angle <= start || angle >= end;
-            }
+            // start <= end  &&  angle decreasing  -> possible overflow
+            on_segment = angle <= start || angle >= end;
+        }
+    }
+
+    if(on_segment) {
+        if(!m_map->isInMap(x, y)) {
+            return false;
         }
 
-        if(on_segment) {
-            m_weight += max(m_min_cell_cost, m_map->getValue(x, y));
-            bool free = m_map->isFree(x, y);
-            if(m_trace != -1) {
+        m_weight += max(m_min_cell_cost, m_map->getValue(x, y));
+        bool free = m_map->isFree(x, y);
+        if(m_trace != -1) {
 //                TODO: trace is disabled to be able to make the map const
 //                m_map->setValue(x, y, free ? 240 : 40);
-            }
-            if(ignore_obstacles) {
-                return true;
-            } else {
-                return free;
-            }
         }
-    } else {
-        return false;
+        if(ignore_obstacles) {
+            return true;
+        } else {
+            return free;
+        }
     }
 
     return true;
-- 
2.43.0


From 86c2bcd931244e0676217b47ae24d4c747c2fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 30/59] fix: do not take expensive curves for blocked ones

---
 include/cslibs_path_planning/ReedsShepp/CurveSegment.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/ReedsShepp/CurveSegment.h b/include/cslibs_path_planning/ReedsShepp/CurveSegment.h
index 6b89b2b..ce40434 100644
--- a/include/cslibs_path_planning/ReedsShepp/CurveSegment.h
+++ b/include/cslibs_path_planning/ReedsShepp/CurveSegment.h
@@ -14,8 +14,10 @@
 
 /// SYSTEM
 #include <assert.h>
+#include <limits>
 
-#define NOT_FREE 999999
+// weight of segments that cannot be driven, greater than any other weight
+#define NOT_FREE (std::numeric_limits<float>::infinity())
 
 namespace lib_path
 {
-- 
2.43.0


From 16fbad83f58c5267d7805d534f6afbf335bb381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 31/59] fix: do not check the full circle when no turn is
 needed

---
 src/ReedsShepp/CircleSegment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index bf0d0d2..2c7dfc7 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -112,7 +112,8 @@ Point2d CircleSegment::get_end_point() const
 float CircleSegment::weight(bool ignore_obstacles)
 {
     m_weight = 0;
-    bool is_free = checkCircle(m_center.x, m_center.y, m_radius, ignore_obstacles);
+    // without an arc, no part of the circle is driven
+    bool is_free = m_arc_length == 0 || checkCircle(m_center.x, m_center.y, m_radius, ignore_obstacles);
 
     if(ignore_obstacles || is_free) {
         float cost = (m_direction == CurveSegment::BACKWARD) ? m_cost_backwards : m_cost_forwards;
-- 
2.43.0


From 464e57d122ca18d24813fe72f5b117700b3e0bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 32/59] fix: compare the headings of path poses in both
 directions

---
 include/cslibs_path_planning/geometry/shape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/geometry/shape.h b/include/cslibs_path_planning/geometry/shape.h
index e35a06a..c76d0e3 100644
--- a/include/cslibs_path_planning/geometry/shape.h
+++ b/include/cslibs_path_planning/geometry/shape.h
@@ -88,7 +88,7 @@ public:
     bool isIdentical(const PathPose& other, double dist_tol=path_geom::DIST_EPS,
                      double angle_tol=path_geom::ANGLE_EPS) {
         return ((pos_-other.pos_).norm()<dist_tol &&
-              MathHelper::AngleDelta( theta_, other.theta_)<angle_tol);
+              std::fabs(MathHelper::AngleDelta( theta_, other.theta_))<angle_tol);
     }
 
     bool isIdentical(const Eigen::Vector2d& other, double dist_tol=path_geom::DIST_EPS) {
-- 
2.43.0


From 78fe8fd6ef91f6302cef2bacf3d7586d796ad58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 33/59] fix: set the last pose of a line

---
 src/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/line.cpp b/src/geometry/line.cpp
index 4f4ccb0..29f2dac 100644
--- a/src/geometry/line.cpp
+++ b/src/geometry/line.cpp
@@ -76,7 +76,7 @@ void Line::toPoses(double resolution, PathPoseVec &poses, int move_direction, bo
         poses.resize(n);
         p=p+step;
     }
-    for (int i=0;i<n;++i) {
+    for (size_t i=0;i<poses.size();++i) {
         poses[i].pos_=p;
         poses[i].theta_ = theta;
         p+=step;
-- 
2.43.0


From 838020f304a60cc51aac4909d6f134aced49904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 34/59] fix: compare the distance from a line with the
 tolerance

---
 src/geometry/line.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/geometry/line.cpp b/src/geometry/line.cpp
index 29f2dac..9c85541 100644
--- a/src/geometry/line.cpp
+++ b/src/geometry/line.cpp
@@ -112,9 +112,7 @@ void Line::toPoints(double resolution, std::vector<Eigen::Vector2d> &points)
 
 int Line::pointRelativePosition(const Vector2d &c, double tol) const
 {
-    Vector2d ab = end_-start_;
-    Vector2d ac = c-start_;
-    double d = (ab.x())*(ac.y()) - (ab.y())*(ac.x());
+    double d = pointSignedDistance(c);
     if (d>fabs(tol)) {
         return 1;
     } else if (d<-fabs(tol)) {
-- 
2.43.0


From e54ac357d74c22515880c9d4527b0bcedea5c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 35/59] fix: use center and direction for the points of an arc

---
 src/geometry/circle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index d6cdc21..9880283 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -183,12 +183,12 @@ void Circle::toPoints(double resolution, std::vector<Vector2d> &points)
     double arc_length = getArcLength() ;
     double arc_angle = getArcAngle();
     int steps = abs(arc_length/resolution);
-    double dphi = arc_angle/steps;
+    double dphi = arc_direction_*arc_angle/steps;
     points.resize(steps);
     double phi = start_angle_;
     for (int i=0;i<steps;++i) {
-        points[i].x() = radius_*cos(phi);
-        points[i].y() = radius_*sin(phi);
+        points[i].x() = center_.x()+radius_*cos(phi);
+        points[i].y() = center_.y()+radius_*sin(phi);
         phi+=dphi;
 
     }
-- 
2.43.0


From 867b996f1de8e841ae7236d56277276ec4c318fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 36/59] fix: apply the tolerance to the ends of an arc

---
 src/geometry/circle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/circle.cpp b/src/geometry/circle.cpp
index 9880283..8a1ed21 100644
--- a/src/geometry/circle.cpp
+++ b/src/geometry/circle.cpp
@@ -307,7 +307,8 @@ bool Circle::isPointOnArc(const Vector2d &p, double tol) const
             }
         }
     }
-    return false;
+    // the ends belong to the arc, up to the tolerance
+    return (p-startPoint()).norm()<=tol || (p-endPoint()).norm()<=tol;
 }
 
 
-- 
2.43.0


From c849297c0e92214c539ce2d70042b311106d2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 37/59] fix: clear the result for concentric circles

---
 src/geometry/intersector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/intersector.cpp b/src/geometry/intersector.cpp
index b1013fe..d248469 100644
--- a/src/geometry/intersector.cpp
+++ b/src/geometry/intersector.cpp
@@ -42,6 +42,7 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
                             double tol)
 {
     tol=fabs(tol);
+    res_points.clear();
     //Calculate distance between centres of circle
     Vector2d c1c2 = c2.center()-c1.center();
     double d = (c1c2).norm();
@@ -52,7 +53,6 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
     double r2 = c2.radius();
     double m = r1+r2;
     double n = fabs(r1-r2);
-    res_points.clear();
     //No solns
     if ( d > m+tol )
         return;
-- 
2.43.0


From b9f4c2aa8bba993a972da360a232140a49ed396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 38/59] fix: apply the tolerance to circles touching from
 inside

---
 src/geometry/intersector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometry/intersector.cpp b/src/geometry/intersector.cpp
index d248469..52977a5 100644
--- a/src/geometry/intersector.cpp
+++ b/src/geometry/intersector.cpp
@@ -70,8 +70,9 @@ void Intersector::intersect(const Circle &c1, const Circle &c2, std::vector<Eige
             c1.center().y() + ( a / d ) * ( c1c2.y() ));
 
     //1 soln , circles are touching
-    if ( fabs(r1 + r2 -d)<tol|| d+fabs(r1-r2)<tol) {
-        res_points.push_back(p);
+    if ( fabs(r1 + r2 -d)<tol|| fabs(d-n)<tol) {
+        // touch point on the first circle
+        res_points.push_back(c1.center() + std::copysign(r1, a) / d * c1c2);
 
         return;
     } else {
-- 
2.43.0


From da239c043c8c1f79413a034cebd5b70d48db1e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 39/59] fix: limit tangent arcs starting at the small circle to
 their touch points

---
 src/geometry/tangentor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 572fccf..0174105 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -243,9 +243,12 @@ void Tangentor::tangentPath(const Circle &small, const Circle &large, double rad
         Intersector::intersectArcs(tcircle, large, ipoints_large,tol);
         if (ipoints_small.size()==1 && ipoints_large.size()==1) {
             std::cout << "touches both small and large" << std::endl;
-            if (!from_small) {
-                tcircle.selectStartPoint(ipoints_large.front());
-                tcircle.selectEndPoint(ipoints_small.front());
+            if (from_small) {
+                tcircle.setStartAngle(ipoints_small.front());
+                tcircle.setEndAngle(ipoints_large.front());
+            } else {
+                tcircle.setStartAngle(ipoints_large.front());
+                tcircle.setEndAngle(ipoints_small.front());
             }
             tangent_arcs.push_back(tcircle);
         } else {
-- 
2.43.0


From b45f2b266b751ebb42a609a44154e3ff4b2d1b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 40/59] fix: find tangent arcs for all positions of their touch
 points

---
 src/geometry/tangentor.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/geometry/tangentor.cpp b/src/geometry/tangentor.cpp
index 0174105..ed0d9a1 100644
--- a/src/geometry/tangentor.cpp
+++ b/src/geometry/tangentor.cpp
@@ -312,11 +312,13 @@ void Tangentor::tangentInnerArcs(const Circle &circle1, const Circle &circle2, d
         Intersector::intersectArcs(circle1, tangent_circle, ipoints,tol);
         //std::cout << "intersection points circle 1 to arc:"<<ipoints.size() << std::endl;
         if (ipoints.size()==1) {
-            tangent_circle.setStartAngle(ipoints[0]);
-            Intersector::intersectArcs(tangent_circle, circle2, ipoints,tol);
+            // search both touch points on the full tangent circle
+            std::vector<Eigen::Vector2d> ipoints2;
+            Intersector::intersectArcs(tangent_circle, circle2, ipoints2,tol);
           //  std::cout << "intersection points arc to circle 2 :"<<ipoints.size() << std::endl;
-            if (ipoints.size()==1) {
-                tangent_circle.setEndAngle(ipoints[0]);
+            if (ipoints2.size()==1) {
+                tangent_circle.setStartAngle(ipoints[0]);
+                tangent_circle.setEndAngle(ipoints2[0]);
                 arcs.push_back(tangent_circle);
             }
         }
-- 
2.43.0


From b37c811417d46155be36a5c65d2d13a98159e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 41/59] fix: weight the direct approach of a goal region by 1.0
 as documented

---
 src/sampling/CentroidRadiusGoalRegion.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sampling/CentroidRadiusGoalRegion.cpp b/src/sampling/CentroidRadiusGoalRegion.cpp
index 4a370d4..d82f609 100644
--- a/src/sampling/CentroidRadiusGoalRegion.cpp
+++ b/src/sampling/CentroidRadiusGoalRegion.cpp
@@ -52,13 +52,14 @@ bool CentroidRadiusGoalRegion::getNextGoal (Pose2d &goal, double& gain)
   goal.y = center_.y - radius_ * sin (theta_);
   goal.theta = theta_;
 
+  // Direct approach 1.0 -> approach from max angle 2.0
+  gain = 1.0;
+  if (samples_num_ > 1)
+    gain += fabs (2.0*counter_ / (samples_num_-1) - 1.0);
+
   counter_++;
   theta_ = MathHelper::AngleClamp (theta_ + theta_step_);
 
-  // Direct approach 1.0 -> approach from max angle 2.0
-  int32_t diff = (int32_t)(counter_ - (samples_num_/2));
-  gain = 1.0 + 2.0*abs (diff) / samples_num_;
-
   return true;
 }
 
-- 
2.43.0


From 4f2a880c7d1c0a8cc60674ee5c4bb026f7b8a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 42/59] fix: set the gain of the goals on a ring

---
 src/sampling/RingGoalRegion.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sampling/RingGoalRegion.cpp b/src/sampling/RingGoalRegion.cpp
index 4a6913f..e269c59 100644
--- a/src/sampling/RingGoalRegion.cpp
+++ b/src/sampling/RingGoalRegion.cpp
@@ -55,6 +55,7 @@ bool RingGoalRegion::getNextGoal(Pose2d &goal, double& gain)
     goal.theta =alpha+(direction_-0.5)*M_PI;
     goal.theta=MathHelper::AngleClamp(goal.theta);
     std::cout << "r="<<r <<" x="<<goal.x << " y="<<goal.y << " theta="<<goal.theta*180.0/M_PI<<"deg"<<std::endl;
+    gain=1.0;
     ++counter_;
     return true;
   }
-- 
2.43.0


From ac031f329005ad2be503175cca92808047014a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 43/59] fix: do not drop expensive curves to sampled goals

---
 src/sampling/SamplingPlanner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sampling/SamplingPlanner.cpp b/src/sampling/SamplingPlanner.cpp
index e666ecf..e646733 100644
--- a/src/sampling/SamplingPlanner.cpp
+++ b/src/sampling/SamplingPlanner.cpp
@@ -7,6 +7,7 @@
 
 */ 
 #include <float.h>
+#include <math.h>
 #include <stdio.h>
 #include <cslibs_path_planning/sampling/SamplingPlanner.h>
 
@@ -35,7 +36,7 @@ Curve* SamplingPlanner::createPath(const Pose2d& start, GoalRegion *region, int
   Pose2d goal;
   Curve* best_curve=0;
   double gain = 1.0;
-  double min_cost = 999999;
+  double min_cost = HUGE_VAL;
   while (region->getNextGoal(goal, gain)) {
     Pose2d goal_map = pos2map(goal, *map_);
     //std::cout << "goal map pose "<<goal_map.x << " "<<goal_map.y << " "<<goal_map.theta*180.0/M_PI<<"deg" << std::endl;
-- 
2.43.0


From 9085a25aec8dd573f12e9cc231a42ceb3782914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:55 +0000
Subject: [PATCH 44/59] fix: account for the rotation when converting poses of
 rotated maps

---
 src/common/MapMath.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/MapMath.cpp b/src/common/MapMath.cpp
index df08110..9014216 100644
--- a/src/common/MapMath.cpp
+++ b/src/common/MapMath.cpp
@@ -14,20 +14,22 @@ namespace lib_path {
 
 void pos2map(double px, double py, double& mx, double&my, const GridMap2d& map)
 {
-  mx = (px - map.getOrigin().x) / map.getResolution();
-  my = (py - map.getOrigin().y) / map.getResolution();
+  const Point2d p = (Point2d(px, py) - map.getOrigin()).rotate(-map.getRotation());
+  mx = p.x / map.getResolution();
+  my = p.y / map.getResolution();
 }
 
 void map2pos(double mx, double my, double& px, double&py, const GridMap2d& map)
 {
-  px = map.getResolution()*mx + map.getOrigin().x;
-  py = map.getResolution()*my + map.getOrigin().y;
+  const Point2d p = (Point2d(mx, my) * map.getResolution()).rotate(map.getRotation()) + map.getOrigin();
+  px = p.x;
+  py = p.y;
 }
 
 Pose2d pos2map(const Pose2d& p, const GridMap2d& mapinfo)
 {
   Pose2d res;
-  res.theta = p.theta;
+  res.theta = p.theta - mapinfo.getRotation();
   pos2map(p.x,p.y,res.x,res.y,mapinfo);
   return res;
 }
@@ -35,7 +37,7 @@ Pose2d pos2map(const Pose2d& p, const GridMap2d& mapinfo)
 Pose2d map2pos(const Pose2d& p, const GridMap2d& mapinfo)
 {
   Pose2d res;
-  res.theta = p.theta;
+  res.theta = p.theta + mapinfo.getRotation();
   map2pos(p.x,p.y,res.x,res.y,mapinfo);
   return res;
 }
-- 
2.43.0


From cfd290e1eb7712a33102dc9c57fbd34b3935abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 45/59] fix: print the heading of a pose in degrees

---
 include/cslibs_path_planning/common/Pose2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/common/Pose2d.h b/include/cslibs_path_planning/common/Pose2d.h
index 14dde77..b2abd6d 100644
--- a/include/cslibs_path_planning/common/Pose2d.h
+++ b/include/cslibs_path_planning/common/Pose2d.h
@@ -87,7 +87,7 @@ inline double dot(const Pose2d& lhs, const Pose2d& rhs) {
 }
 
 inline std::ostream& operator << (std::ostream& ostr, const Pose2d& p){
-  ostr << "(" << p.x << " / " << p.y << " / " << (M_PI * 2.0f * p.theta) << "°)";
+  ostr << "(" << p.x << " / " << p.y << " / " << (p.theta * 180.0 / M_PI) << "°)";
   return ostr;
 }
 
-- 
2.43.0


From ccee26a4417b7096abcbaa4a8c0b879da0426418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 46/59] fix: allow to expand the start node analytically

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 6df5b35..dafa63e 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -586,10 +586,11 @@ protected:
                 PathT expansion;
                 AnalyticExpansionType::getPath(&expansion);
 
-                NodeT tmp = *current;
-                tmp.theta = expansion.begin()->theta;
-
-                PathT path = backtrack(&tmp);
+                // the node itself might be a start node, a copy of it is not
+                PathT path = backtrack(current);
+                if(!path.empty()) {
+                    path.back().theta = expansion.begin()->theta;
+                }
                 path.insert(path.end(), expansion.begin(), expansion.end());
                 result = path;
                 return true;
-- 
2.43.0


From f91c0a10cc7bca20d8c90603053f8873f1762101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 47/59] fix: count the touched nodes of the current search only

---
 include/cslibs_path_planning/generic/SearchAlgorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index dafa63e..1f87d49 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -452,6 +452,7 @@ protected:
     {
         expansions = 0;
         multi_expansions = 0;
+        touched = 0;
         updates = 0;
 
         result = {};
-- 
2.43.0


From 697dc22d376b2206d4a12ab82c0ae5be914a9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:31 +0000
Subject: [PATCH 48/59] fix: forget the previous search when planning again
 without setting the map

---
 .../cslibs_path_planning/generic/SearchAlgorithm.hpp   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 1f87d49..4c507f2 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -125,7 +125,7 @@ public:
 
 public:
     GenericSearchAlgorithm()
-        : heuristic_goal(NULL), has_cost_(false), expansions(0), multi_expansions(0), touched(0), updates(0), time_limit_(-1.0)
+        : heuristic_goal(NULL), nodes_used_(false), has_cost_(false), expansions(0), multi_expansions(0), touched(0), updates(0), time_limit_(-1.0)
     {}
 
     virtual void setMap(const MapT* map) {
@@ -133,6 +133,7 @@ public:
         open.clear();
 
         map_.setMap(map);
+        nodes_used_ = false;
         NeighborhoodType::setResolution(map->getResolution());
     }
 
@@ -460,6 +461,12 @@ protected:
         goal_candidates = std::priority_queue<GoalCandidate, std::vector<GoalCandidate>, PairDistance>();
         open.clear();
 
+        // the nodes have to forget a previous search on the same map
+        if(nodes_used_) {
+            map_.setMap(map_.getMap());
+        }
+        nodes_used_ = true;
+
         start.clear();
         goal.clear();
         heuristic_goal = NULL;
@@ -742,6 +749,7 @@ protected:
     double first_candidate_weight;
     PathT result;
 
+    bool nodes_used_;
     bool has_cost_;
 
     int expansions;
-- 
2.43.0


From 41031bad6d3679f68dcb0c3f92e01bf089d1269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 49/59] fix: a line that ends outside of the map is not free

---
 src/ReedsShepp/LineSegment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReedsShepp/LineSegment.cpp b/src/ReedsShepp/LineSegment.cpp
index bb728b3..ea4622b 100644
--- a/src/ReedsShepp/LineSegment.cpp
+++ b/src/ReedsShepp/LineSegment.cpp
@@ -50,7 +50,7 @@ float LineSegment::weight(bool ignore_obstacles)
     int x1 = m_end.x;
     int y1 = m_end.y;
 
-    if(!m_map->isInMap(x0, y0) && !ignore_obstacles) {
+    if((!m_map->isInMap(x0, y0) || !m_map->isInMap(x1, y1)) && !ignore_obstacles) {
         return NOT_FREE;
     }
 
-- 
2.43.0


From 815412077b632cb607a3bed5e2577b43e28ea3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 50/59] fix: do not mistake very short arcs for full circles in
 collision checks

---
 src/ReedsShepp/CircleSegment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ReedsShepp/CircleSegment.cpp b/src/ReedsShepp/CircleSegment.cpp
index 2c7dfc7..a3ec256 100644
--- a/src/ReedsShepp/CircleSegment.cpp
+++ b/src/ReedsShepp/CircleSegment.cpp
@@ -199,11 +199,12 @@ bool CircleSegment::test4Points(int cx, int cy, int x, int y, bool ignore_obstac
 
 bool CircleSegment::testPixel(int cx, int cy, int x, int y, bool ignore_obstacles)
 {
-    float angle = atan2(y-cy, x-cx);
+    // single precision cannot tell a very short arc from a full circle
+    double angle = atan2(y-cy, x-cx);
     bool on_segment = false;
 
-    float start = NORMALIZE(m_angle_start);
-    float end = NORMALIZE(m_angle_end);
+    double start = NORMALIZE(m_angle_start);
+    double end = NORMALIZE(m_angle_end);
 
     bool increasing = m_angle_step_size > 0;//(m_arc_length > 0) ^ (m_direction == BACKWARD);
     bool decreasing = !increasing;
-- 
2.43.0


From 1871d1e9bc9253df40c3abb08262827c7c852162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 51/59] fix: report problems of start and goal for the right
 pose in reversed searches

---
 .../generic/SearchAlgorithm.hpp               | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index 4c507f2..d3b44cd 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -214,7 +214,7 @@ public:
         search_options = so;
 
         if(NeighborhoodType::reversed) {
-            PathT path = findPathPose<generic::NoIntermission>(to, from, boost::function<void()>());
+            PathT path = findPathPoseReversed<generic::NoIntermission>(from, to, boost::function<void()>());
             std::reverse(path.begin(), path.end());
             return path;
 
@@ -239,10 +239,10 @@ public:
     {
         search_options = so;
         if(NeighborhoodType::reversed) {
-            PathT path = findPathPose<
+            PathT path = findPathPoseReversed<
                     generic::CallbackIntermission<INTERMISSION_N_STEPS, INTERMISSION_START_STEPS>
                     >
-                    (to, from, intermission);
+                    (from, to, intermission);
             reverse(path);
             return path;
 
@@ -346,6 +346,25 @@ protected:
                 (GoalTest(this), intermission);
     }
 
+    // searches from the goal to the start, problems are reported for the pose that has them
+    template <class Intermission>
+    PathT findPathPoseReversed(const PointT& from, const PointT& to,
+                               boost::function<void()> intermission)
+    {
+        try {
+            return findPathPose<Intermission>(to, from, intermission);
+
+        } catch(const StartOutOfMapException&) {
+            throw GoalOutOfMapException();
+        } catch(const StartNotFreeException&) {
+            throw GoalNotFreeException();
+        } catch(const GoalOutOfMapException&) {
+            throw StartOutOfMapException();
+        } catch(const GoalNotFreeException&) {
+            throw StartNotFreeException();
+        }
+    }
+
     template <class GoalTest, class Intermission>
     PathT findPathMapPose(const PointT& from, const GoalTest& goal_test,
                           boost::function<void()> intermission)
-- 
2.43.0


From 5ea19ea10ee8a212826ee362147d3784eb5531ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:01 +0000
Subject: [PATCH 52/59] fix: nodes without a heuristic offer start nodes, so
 that Dijkstra searches compile

---
 include/cslibs_path_planning/generic/Common.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/cslibs_path_planning/generic/Common.hpp b/include/cslibs_path_planning/generic/Common.hpp
index 145078b..da87407 100644
--- a/include/cslibs_path_planning/generic/Common.hpp
+++ b/include/cslibs_path_planning/generic/Common.hpp
@@ -102,6 +102,15 @@ struct Node : public PointT {
         memory.custom = 0;
     }
 
+    template <class AnyPoint, class Map>
+    static std::vector<NodeType*> getPoses(Map& map, const AnyPoint& p)
+    {
+        NodeType n;
+        NodeType::init(n, p);
+
+        return std::vector<NodeType*>(1, map.lookup(n));
+    }
+
     double distance;
     char marked;
     char custom;
-- 
2.43.0


From d4d18fdd8c8bc043b6407c2a20f56d03960a69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:01 +0000
Subject: [PATCH 53/59] fix: let steering searches look up nodes in the static
 directional state space

---
 include/cslibs_path_planning/generic/MapManager.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 467741b..acb760b 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -408,6 +408,9 @@ public:
         }
         return lookup((int) std::floor(x), (int) std::floor(y), theta, forward);
     }
+    NodeType* lookup(const double x, const double y, double theta, int /*steering_angle*/, bool forward) {
+        return lookup(x, y, theta, forward);
+    }
 
 private:
     unsigned dimension;
-- 
2.43.0


From 82244bacf948185a7bd9eccd696cd9435fe8d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:34 +0000
Subject: [PATCH 54/59] fix: count the cells of a maze with the width they are
 drawn with

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 3706ab6..7ebe764 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -11,8 +11,8 @@ public:
     Maze(int width, cv::Mat orig_map)
         : width(std::max(2, width)), orig_map(orig_map), border(1)
     {
-        w = orig_map.rows / width;
-        h = orig_map.cols / width;
+        w = orig_map.rows / this->width;
+        h = orig_map.cols / this->width;
         N = w * h;
 
         border = std::max(1, width/4);
-- 
2.43.0


From b3ece74e733c979b8a4d0b211fd81623b835ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:34 +0000
Subject: [PATCH 55/59] fix: do not leave the cells of a maze when the start
 lies behind the last one

---
 include/cslibs_path_planning/evaluation/MapGenerators.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/evaluation/MapGenerators.hpp b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
index 7ebe764..ee9cbc3 100644
--- a/include/cslibs_path_planning/evaluation/MapGenerators.hpp
+++ b/include/cslibs_path_planning/evaluation/MapGenerators.hpp
@@ -21,7 +21,13 @@ public:
     }
 
     virtual void run(const Pt& start, const Pt& goal) {
-        cv::Point s(start.x / width, start.y / width);
+        if(N == 0) {
+            // there is no room for a cell
+            return;
+        }
+
+        // the map may end with a part of a cell
+        cv::Point s(std::min<int>(start.x / width, h - 1), std::min<int>(start.y / width, w - 1));
         cv::Point g(goal.x / width, goal.y / width);
 
         expanded = 0;
-- 
2.43.0


From 525c0a3cc397417646006825ed99f12a67f5b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:15 +0000
Subject: [PATCH 56/59] fix: ask the map with the vehicle's heading when a move
 is driven backward

---
 .../generic/DynamicSteeringNeighborhood.h              |  2 +-
 include/cslibs_path_planning/generic/MapManager.hpp    | 10 ++++++----
 .../generic/SteeringNeighborhood.hpp                   |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
index 36f8fd3..94b5f9f 100644
--- a/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
+++ b/include/cslibs_path_planning/generic/DynamicSteeringNeighborhood.h
@@ -317,7 +317,7 @@ struct DynamicSteeringNeighborhood : public NeighborhoodBase
 
                 if(map.contains(to_x, to_y)) {
 //                    bool free = !map.isOccupied(reference->x,reference->y, to_x,to_y);
-                    bool free_or_unknown = map.isFreeOrUnknown(reference->x,reference->y, to_x,to_y);
+                    bool free_or_unknown = map.isFreeOrUnknown(reference->x,reference->y, to_x,to_y, forward == reversed);
                     bool can_be_used = free_or_unknown;// free_or_unknown;// free || (free_or_unknown && forward);
                     if(can_be_used) {
                         NodeType* n = map.lookup(to_x, to_y, to_theta, steering_angle, forward);
diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index acb760b..9c139d5 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -97,7 +97,8 @@ public:
         return true;
     }
 
-    bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
+    // driving backward, the vehicle's heading is opposite to the direction of travel
+    bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey, bool backward = false) const {
         assert(sx >= 0);
         assert(sy >= 0);
         assert(ex >= 0);
@@ -105,7 +106,7 @@ public:
 
         bresenham.setGrid(map_, std::floor(sx), std::floor(sy), std::floor(ex),std::floor(ey));
 
-        double theta = std::atan2(ey-sy,ex-sx);
+        double theta = backward ? std::atan2(sy-ey,sx-ex) : std::atan2(ey-sy,ex-sx);
 
         unsigned x,y;
         while(bresenham.next()) {
@@ -681,10 +682,11 @@ public:
         return isFree((int) std::floor(ex), (int) std::floor(ey), theta);
     }
 
-    bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey) const {
+    // driving backward, the vehicle's heading is opposite to the direction of travel
+    bool isFreeOrUnknown(const double sx, const double sy, const double ex, const double ey, bool backward = false) const {
         bresenham.setGrid((int) std::floor(sx), (int) std::floor(sy), (int) std::floor(ex), (int) std::floor(ey));
 
-        double theta = std::atan2(ey-sy,ex-sx);
+        double theta = backward ? std::atan2(sy-ey,sx-ex) : std::atan2(ey-sy,ex-sx);
 
         int skip = 0;
 
diff --git a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
index a22743f..81e97d9 100644
--- a/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
+++ b/include/cslibs_path_planning/generic/SteeringNeighborhood.hpp
@@ -309,7 +309,7 @@ struct SteeringNeighborhood :
 
                 if(map.contains(to_x, to_y)) {
 //                    bool free = !map.isOccupied(reference->x,reference->y, to_x,to_y);
-                    bool free_or_unknown = map.isFreeOrUnknown(reference->x,reference->y, to_x,to_y);
+                    bool free_or_unknown = map.isFreeOrUnknown(reference->x,reference->y, to_x,to_y, forward == reversed);
                     bool can_be_used = free_or_unknown;// free_or_unknown;// free || (free_or_unknown && forward);
                     if(can_be_used) {
                         NodeType* n = map.lookup(to_x, to_y, to_theta, steering_angle, forward);
-- 
2.43.0


From b8c72f4e0ad473bde82bce3e7dbd5d64506ba1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:15 +0000
Subject: [PATCH 57/59] fix: reject moves over occupied and unknown cells in
 the static state spaces

---
 include/cslibs_path_planning/generic/MapManager.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index 9c139d5..ed922b3 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -111,7 +111,8 @@ public:
         unsigned x,y;
         while(bresenham.next()) {
             bresenham.coordinates(x,y);
-            if(!map_->isNoInformation(x,y,theta) && !map_->isFree(x,y,theta)) {
+            // a footprint may cover unknown and occupied cells at once
+            if(map_->isOccupied(x,y,theta) || (!map_->isNoInformation(x,y,theta) && !map_->isFree(x,y,theta))) {
                 return false;
             }
         }
-- 
2.43.0


From d48f210b3ae1b0828ac7044f8dd829df2f510bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:15 +0000
Subject: [PATCH 58/59] fix: check the end of moves within one cell in the
 static state spaces

---
 include/cslibs_path_planning/generic/MapManager.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cslibs_path_planning/generic/MapManager.hpp b/include/cslibs_path_planning/generic/MapManager.hpp
index ed922b3..6fb20da 100644
--- a/include/cslibs_path_planning/generic/MapManager.hpp
+++ b/include/cslibs_path_planning/generic/MapManager.hpp
@@ -117,7 +117,10 @@ public:
             }
         }
 
-        return true;
+        // the heading counts at the end as well, also if the move stays in one cell
+        x = std::floor(ex);
+        y = std::floor(ey);
+        return !map_->isOccupied(x,y,theta);
     }
 
     bool isFree(int x, int y, double theta) const {
-- 
2.43.0


From c493d739bdebe91032d542e083fc806404fa839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:15 +0000
Subject: [PATCH 59/59] fix: check start and goal with the heading of the pose,
 not of its slot

---
 .../cslibs_path_planning/generic/SearchAlgorithm.hpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
index d3b44cd..e75764a 100644
--- a/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
+++ b/include/cslibs_path_planning/generic/SearchAlgorithm.hpp
@@ -498,11 +498,12 @@ protected:
         try {
             auto start_poses = NodeT::getPoses(map_, pose);
             for(NodeT* s : start_poses) {
+                s->theta = pose.theta;
+
                 if(!map_.isOccupied(s)) {
                     // put start node in open data structure
                     s->distance = 0;
                     s->mark(NodeT::MARK_OPEN);
-                    s->theta = pose.theta;
 
                     open.add(s);
                     start.insert(s);
@@ -532,12 +533,13 @@ protected:
         try {
             auto start_poses = NodeT::getPoses(map_, node);
             for(NodeT* s : start_poses) {
+                s->theta = node.theta;
+
                 if(!map_.isOccupied(s)) {
                     // put start node in open data structure
 //                    *s = node;
                     s->distance = 0;
                     s->mark(NodeT::MARK_OPEN);
-                    s->theta = node.theta;
                     s->depth = 0;
 
                     open.add(s);
@@ -583,10 +585,10 @@ protected:
         try {
             auto goal_poses = NodeT::getPoses(map_, pose);
             for(NodeT* g : goal_poses) {
+                g->theta = pose.theta;
+
                 if(!map_.isOccupied(g)) {
                     // put start node in open data structure
-                    g->theta = pose.theta;
-
                     goal.insert(g);
                 } else {
                     occupied = true;
-- 
2.43.0

