From 708a4e2e35d3bb9da88c20b47b086ad64d6a73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 01/42] fix: scale the superellipse gradient by its semi-axes
 in the 2D Minkowski sum

The outward normal of x = (a cos^eps, b sin^eps) is (cos^(2-eps)/a,
sin^(2-eps)/b). Without the division the offset point used a wrong normal
for every a != b, so the boundary lay strictly inside the true Minkowski
sum (and outside the true difference) and C-obstacles were too small.
---
 src/geometry/SuperEllipse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SuperEllipse.cpp b/src/geometry/SuperEllipse.cpp
index 38cd234..af6272b 100644
--- a/src/geometry/SuperEllipse.cpp
+++ b/src/geometry/SuperEllipse.cpp
@@ -88,9 +88,9 @@ hrm::BoundaryPoints hrm::SuperEllipse::getMinkSum2D(const SuperEllipse &shapeB,
     for (auto i = 0; i < int(num_); i++) {
         the(0, i) = 2 * i * PI / (static_cast<double>(num_) - 1);
         gradPhi(0, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, false);
+            2 / (a1 * eps1) * exponentialFunction(the(0, i), 2 - eps1, false);
         gradPhi(1, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true);
+            2 / (b1 * eps1) * exponentialFunction(the(0, i), 2 - eps1, true);
     }
     xMinkowski =
         getOriginShape() +
-- 
2.43.0


From a021a55941f2d351e103999df44a9d3c67428161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 02/42] fix: build every C-slice from the robot at that slice's
 orientation

The free space computator keeps its own copy of the robot, but the planners
only rotated theirs, so all C-slices used the Minkowski boundaries of the
robot pose at construction: slices with another heading (or joint values)
contained vertices and edges in collision.
---
 include/hrm/planners/HRM2D.h   |  4 ++++
 include/hrm/planners/HRM2DKC.h |  2 ++
 src/planners/HRM2D.cpp         |  5 +++++
 src/planners/HRM2DKC.cpp       | 14 +++++++++-----
 src/planners/HRM3D.cpp         |  1 +
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/hrm/planners/HRM2D.h b/include/hrm/planners/HRM2D.h
index 331837d..cabaf73 100644
--- a/include/hrm/planners/HRM2D.h
+++ b/include/hrm/planners/HRM2D.h
@@ -63,6 +63,10 @@ class HRM2D : public HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
 
     virtual void setTransform(const std::vector<Coordinate>& v) override;
 
+    /** \brief Pass the robot at its current pose to the free space computator
+     */
+    virtual void setFreeSpaceRobot();
+
     /** \brief Compute Tightly-Fitted Ellipse (TFE) to enclose robot parts when
      * rotating around its center
      * \param thetaA Start heading angle of the robot
diff --git a/include/hrm/planners/HRM2DKC.h b/include/hrm/planners/HRM2DKC.h
index 454af82..8630e1b 100644
--- a/include/hrm/planners/HRM2DKC.h
+++ b/include/hrm/planners/HRM2DKC.h
@@ -25,6 +25,8 @@ class HRM2DKC : public HRM2D {
     ~HRM2DKC();
 
   private:
+    void setFreeSpaceRobot() override;
+
     void connectMultiSlice() override;
 
     /** \brief Add a middle vertex between two vertices for edge connection
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index f1b2f23..3ed5b0a 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -20,6 +20,7 @@ hrm::planners::HRM2D::~HRM2D() = default;
 void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
     // Set rotation matrix to robot
     setTransform({0.0, 0.0, headings_.at(sliceIdx)});
+    setFreeSpaceRobot();
 
     // Generate new C-slice
     if (!isRefine_) {
@@ -349,6 +350,10 @@ void hrm::planners::HRM2D::setTransform(const std::vector<Coordinate>& v) {
     robot_.robotTF(g);
 }
 
+void hrm::planners::HRM2D::setFreeSpaceRobot() {
+    freeSpacePtr_->setRobot(robot_);
+}
+
 void hrm::planners::HRM2D::computeTFE(const double thetaA, const double thetaB,
                                       std::vector<SuperEllipse>& tfe) {
     tfe.clear();
diff --git a/src/planners/HRM2DKC.cpp b/src/planners/HRM2DKC.cpp
index e5d331f..2fbbf7f 100644
--- a/src/planners/HRM2DKC.cpp
+++ b/src/planners/HRM2DKC.cpp
@@ -7,6 +7,15 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
                                 const std::vector<SuperEllipse>& obs,
                                 const PlanningRequest& req)
     : HRM2D(robot, arena, obs, req) {
+    // Update robot in the free space computator
+    setFreeSpaceRobot();
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
+}
+
+hrm::planners::HRM2DKC::~HRM2DKC() = default;
+
+void hrm::planners::HRM2DKC::setFreeSpaceRobot() {
     // Enlarge the robot
     SuperEllipse baseInflated = robot_.getBase();
     baseInflated.setSemiAxis(
@@ -14,14 +23,9 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
          baseInflated.getSemiAxis().at(1) * (1 + inflationFactor_)});
     MultiBodyTree2D robot_infla(baseInflated);
 
-    // Update robot in the free space computator
     freeSpacePtr_->setRobot(robot_infla);
-    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
-                         param_.boundaryLimits[1]);
 }
 
-hrm::planners::HRM2DKC::~HRM2DKC() = default;
-
 void hrm::planners::HRM2DKC::connectMultiSlice() {
     Index n = res_.graphStructure.vertex.size();
     Index n11;
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d5295b1..0162eb8 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -29,6 +29,7 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     } else {
         setTransform(v_.at(sliceIdx));
     }
+    freeSpacePtr_->setRobot(robot_);
 
     // Add new C-slice
     if (!isRefine_) {
-- 
2.43.0


From a344b636b304d57438a2d47c31629271134a1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 03/42] fix: resize the sweep-line storage when the roadmap is
 refined

refineExistRoadmap doubles the number of sweep lines, but the free space
computator was only sized in the constructor: every planning problem that
needed a refinement threw std::out_of_range.
---
 src/planners/HRM2D.cpp | 4 ++++
 src/planners/HRM3D.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 3ed5b0a..f6c9abf 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -61,6 +61,10 @@ void hrm::planners::HRM2D::sweepLineProcess() {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
     }
 
+    // The number of sweep lines grows after each refinement
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
+
     // Find intersecting points to C-obstacles for each raster scan line
     std::vector<std::vector<Coordinate>> tLine{ty};
     freeSpacePtr_->computeIntersectionInterval(tLine);
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 0162eb8..c2b01f7 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -73,6 +73,10 @@ void hrm::planners::HRM3D::sweepLineProcess() {
         ty[i] = param_.boundaryLimits[2] + static_cast<double>(i) * dy;
     }
 
+    // The number of sweep lines grows after each refinement
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
+                         param_.boundaryLimits[5]);
+
     // Find intersections along each sweep line
     freeSegOneSlice_.tx.clear();
     freeSegOneSlice_.freeSegmentYZ.clear();
-- 
2.43.0


From 328cd51c4e9474ef30e0c64988ed423dcd9ac89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/42] fix: sweep the C-slice that was asked for

When refining slice i (and in getFreeSegmentOneSlice) the sweep lines were
intersected with the boundaries the free space computator last built, i.e.
with those of the last slice, not with those of the requested one.
---
 include/hrm/datastructure/FreeSpace.h | 6 ++++++
 src/planners/HRM2D.cpp                | 1 +
 src/planners/HRM3D.cpp                | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index 66a5509..e0c6344 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -65,6 +65,12 @@ class FreeSpaceComputator {
      * \param robot A new robot */
     void setRobot(const RobotType& robot) { robot_ = robot; }
 
+    /** \brief Set C-space boundary of an already constructed C-slice
+     * \param boundary C-arena/C-obstacle boundary points */
+    void setCSpaceBoundary(const BoundaryInfo& boundary) {
+        cSpaceBoundary_ = boundary;
+    }
+
     /** \brief Get C-space obstacles boundary
      * \return BoundaryInfo */
     const BoundaryInfo& getCSpaceBoundary() const { return cSpaceBoundary_; }
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index f6c9abf..47829cf 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -64,6 +64,7 @@ void hrm::planners::HRM2D::sweepLineProcess() {
     // The number of sweep lines grows after each refinement
     freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
                          param_.boundaryLimits[1]);
+    freeSpacePtr_->setCSpaceBoundary(sliceBound_);
 
     // Find intersecting points to C-obstacles for each raster scan line
     std::vector<std::vector<Coordinate>> tLine{ty};
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index c2b01f7..cd21dd5 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -45,6 +45,7 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
         sliceBoundMesh_ = sliceBoundMeshAll_.at(sliceIdx);
+        freeSpacePtr_->computeCSpaceBoundaryMesh(sliceBound_);
     }
 
     // Sweep-line process to generate collision free line segments
@@ -76,6 +77,7 @@ void hrm::planners::HRM3D::sweepLineProcess() {
     // The number of sweep lines grows after each refinement
     freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
                          param_.boundaryLimits[5]);
+    freeSpacePtr_->setCSpaceBoundary(sliceBound_);
 
     // Find intersections along each sweep line
     freeSegOneSlice_.tx.clear();
-- 
2.43.0


From 3c34246992782fa38505b4466fa5a7ff502ad511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 05/42] fix: report the cost of the path that was found

The cost was summed from the edge weight list indexed by vertex ids: an
unrelated number, read out of bounds whenever there are fewer edges than
vertices.
---
 include/hrm/planners/HighwayRoadMap-inl.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index a14b876..c1a104e 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -148,15 +148,12 @@ void HighwayRoadMap<RobotType, ObjectType>::search() {
             } catch (AStarFoundGoal found) {
                 // Record path and cost
                 num = 0;
-                res_.solutionPath.cost = 0.0;
+                res_.solutionPath.cost = d[idxG];
                 res_.solutionPath.PathId.push_back(int(idxG));
                 while (res_.solutionPath.PathId[num] != int(idxS) &&
                        num <= num_vtx) {
                     res_.solutionPath.PathId.push_back(
                         int(p[size_t(res_.solutionPath.PathId[num])]));
-                    res_.solutionPath.cost +=
-                        res_.graphStructure
-                            .weight[size_t(res_.solutionPath.PathId[num])];
                     num++;
                 }
                 std::reverse(std::begin(res_.solutionPath.PathId),
-- 
2.43.0


From 7dab4f3b64e1dc5f6b5906acedcb748a1196bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 06/42] fix: initialise the closest orientation in the 3D
 nearest-neighbor search

minQuat was read uninitialised when the first C-slice is the closest one.
---
 src/planners/HRM3D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index cd21dd5..bce2c09 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -457,7 +457,7 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     std::vector<Vertex> idx;
 
     Eigen::Quaterniond queryQuat(vertex[3], vertex[4], vertex[5], vertex[6]);
-    Eigen::Quaterniond minQuat;
+    Eigen::Quaterniond minQuat = q_[0];
 
     // Find the closest C-slice
     minQuatDist = queryQuat.angularDistance(q_[0]);
-- 
2.43.0


From 2cd45b6395764293a86f8774443188921a6cb220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 07/42] fix: do not take vertex 0 as neighbor in a C-slice
 without vertices

An empty C-slice (or an empty roadmap) made the nearest-neighbor search fall
back to vertex 0: an out-of-bounds read when there is no vertex at all, and
otherwise start/goal attached to a vertex of an unrelated orientation.
---
 src/planners/HRM2D.cpp | 13 +++++++++++--
 src/planners/HRM3D.cpp |  5 +++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 47829cf..a79a8bc 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -290,6 +290,11 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
 std::vector<hrm::planners::Vertex>
 hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     const std::vector<Coordinate>& vertex, const Index k, const double radius) {
+    // No neighbor in an empty roadmap
+    if (res_.graphStructure.vertex.empty()) {
+        return {};
+    }
+
     // Find the closest roadmap vertex
     double minEuclideanDist = INFINITY;
     double minAngleDist = INFINITY;
@@ -324,8 +329,7 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     // line gaps) at each C-slice
     for (double angCur : angList) {
         Vertex idxSlice = 0;
-        minEuclideanDist =
-            vectorEuclidean(vertex, res_.graphStructure.vertex[0]);
+        minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
             euclideanDist =
                 vectorEuclidean(vertex, res_.graphStructure.vertex[i]);
@@ -337,6 +341,11 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex in this C-slice
+        if (std::isinf(minEuclideanDist)) {
+            continue;
+        }
+
         if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
             radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                 static_cast<double>(param_.numLineY)) {
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index bce2c09..c257405 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -501,6 +501,11 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex in this C-slice
+        if (std::isinf(minEuclideanDist)) {
+            continue;
+        }
+
         if (std::abs(vertex[0] - res_.graphStructure.vertex[idxSlice][0]) <
                 radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                     static_cast<double>(param_.numLineX) &&
-- 
2.43.0


From 29e9d2224b3f71ca3a1869c831c029993279e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 08/42] fix: use every intersection between a line and a
 boundary

Only the first two hits were used. A line through a vertex or an edge shared
by two elements hits the same place twice (and the pole strips of a
superquadric mesh overlap), which made the two ends of the blocked interval
coincide: the obstacle vanished from that sweep line. A line with a single
hit was read out of bounds.
---
 src/datastructure/FreeSpace2D.cpp | 23 +++++++++++++----------
 src/datastructure/FreeSpace3D.cpp | 24 ++++++++++++++++--------
 src/geometry/LineIntersection.cpp |  8 --------
 src/planners/HRM2D.cpp            |  5 +++--
 src/planners/HRM3D.cpp            | 31 +++++++++++++------------------
 5 files changed, 45 insertions(+), 46 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 0a5e643..96eda9a 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -3,6 +3,8 @@
 #include "hrm/datastructure/FreeSpace2D.h"
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
+
 hrm::FreeSpace2D::FreeSpace2D(const MultiBodyTree2D& robot,
                               const std::vector<SuperEllipse>& arena,
                               const std::vector<SuperEllipse>& obstacle)
@@ -22,12 +24,12 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
-                intersect_.arenaLow.at(i).at(j) = std::fmin(
-                    lowBound_,
-                    std::fmin(intersectPointArena[0], intersectPointArena[1]));
-                intersect_.arenaUpp.at(i).at(j) = std::fmax(
-                    upBound_,
-                    std::fmax(intersectPointArena[0], intersectPointArena[1]));
+                const auto range = std::minmax_element(
+                    intersectPointArena.begin(), intersectPointArena.end());
+                intersect_.arenaLow.at(i).at(j) =
+                    std::fmin(lowBound_, *range.first);
+                intersect_.arenaUpp.at(i).at(j) =
+                    std::fmax(upBound_, *range.second);
             }
         }
 
@@ -40,10 +42,11 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
-                intersect_.obstacleLow.at(i).at(j) = std::fmin(
-                    intersectPointObstacle[0], intersectPointObstacle[1]);
-                intersect_.obstacleUpp.at(i).at(j) = std::fmax(
-                    intersectPointObstacle[0], intersectPointObstacle[1]);
+                const auto range =
+                    std::minmax_element(intersectPointObstacle.begin(),
+                                        intersectPointObstacle.end());
+                intersect_.obstacleLow.at(i).at(j) = *range.first;
+                intersect_.obstacleUpp.at(i).at(j) = *range.second;
             }
         }
     }
diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 7d6e8e9..cb4d1b0 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -3,6 +3,8 @@
 #include "hrm/datastructure/FreeSpace3D.h"
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
+
 hrm::FreeSpace3D::FreeSpace3D(const MultiBodyTree3D& robot,
                               const std::vector<SuperQuadrics>& arena,
                               const std::vector<SuperQuadrics>& obstacle)
@@ -28,6 +30,10 @@ void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
 
 void hrm::FreeSpace3D::computeIntersectionInterval(
     const std::vector<std::vector<Coordinate>>& tLine) {
+    const auto lowerZ = [](const Point3D& a, const Point3D& b) {
+        return a(2) < b(2);
+    };
+
     for (auto i = 0; i < tLine.at(1).size(); ++i) {
         // Find intersections along each sweep line
         Line3D lineZ(6);
@@ -41,12 +47,13 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
+                const auto range = std::minmax_element(
+                    intersectPointArena.begin(), intersectPointArena.end(),
+                    lowerZ);
                 intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, std::fmin(intersectPointArena[0](2),
-                                                   intersectPointArena[1](2)));
+                    std::fmin(lowBound_, (*range.first)(2));
                 intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, std::fmax(intersectPointArena[0](2),
-                                                  intersectPointArena[1](2)));
+                    std::fmax(upBound_, (*range.second)(2));
             }
         }
 
@@ -58,10 +65,11 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
-                intersect_.obstacleLow.at(i).at(j) = std::fmin(
-                    intersectPointObstacle[0](2), intersectPointObstacle[1](2));
-                intersect_.obstacleUpp.at(i).at(j) = std::fmax(
-                    intersectPointObstacle[0](2), intersectPointObstacle[1](2));
+                const auto range = std::minmax_element(
+                    intersectPointObstacle.begin(),
+                    intersectPointObstacle.end(), lowerZ);
+                intersect_.obstacleLow.at(i).at(j) = (*range.first)(2);
+                intersect_.obstacleUpp.at(i).at(j) = (*range.second)(2);
             }
         }
     }
diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 0af8445..7af611f 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -44,10 +44,6 @@ std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
     return points;
@@ -114,10 +110,6 @@ std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
         if (hasIntersect) {
             points.push_back(pt);
         }
-
-        if (points.size() == 2) {
-            break;
-        }
     }
 
     return points;
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index a79a8bc..e253f2e 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -277,8 +277,9 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
         auto intersectObs = intersectHorizontalLinePolygon2D(v[1], bound);
 
         if (!intersectObs.empty()) {
-            if (v[0] > std::fmin(intersectObs[0], intersectObs[1]) &&
-                v[0] < std::fmax(intersectObs[0], intersectObs[1])) {
+            const auto range =
+                std::minmax_element(intersectObs.begin(), intersectObs.end());
+            if (v[0] > *range.first && v[0] < *range.second) {
                 return false;
             }
         }
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index c257405..3192c5c 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -341,24 +341,15 @@ bool hrm::planners::HRM3D::isSameSliceTransitionFree(
             : line_(std::move(line)), t1_(std::move(t1)), t2_(std::move(t2)) {}
 
         bool operator()(const MeshMatrix& obs) const {
-            bool isIntersect = false;
             const auto intersectObs = intersectLineMesh3D(line_, obs);
 
-            // Check line segments overlapping
-            if (!intersectObs.empty()) {
-                // Dot product between vectors (t1->intersect) and
-                // (t2->intersect)
-                const auto s0 =
-                    (intersectObs[0] - t1_).dot(intersectObs[0] - t2_);
-                const auto s1 =
-                    (intersectObs[1] - t1_).dot(intersectObs[1] - t2_);
-
-                // Intersect within segment (t1, t2) iff dot product
-                // less than 0
-                isIntersect = ((s0 < 0) || (s1 < 0));
-            }
-
-            return isIntersect;
+            // Check line segments overlapping: intersect within segment
+            // (t1, t2) iff dot product between vectors (t1->intersect) and
+            // (t2->intersect) is less than 0
+            return std::any_of(intersectObs.cbegin(), intersectObs.cend(),
+                               [this](const Point3D& pt) {
+                                   return (pt - t1_).dot(pt - t2_) < 0;
+                               });
         }
 
         Line3D line_;
@@ -414,9 +405,13 @@ bool hrm::planners::HRM3D::isPtInCFree(const Index bdIdx,
                 intersectVerticalLineMesh3D(lineZ_, bound);
 
             if (!intersectObs.empty()) {
+                const auto range = std::minmax_element(
+                    intersectObs.begin(), intersectObs.end(),
+                    [](const Point3D& a, const Point3D& b) {
+                        return a(2) < b(2);
+                    });
                 isIntersect =
-                    v_[2] > std::fmin(intersectObs[0][2], intersectObs[1][2]) &&
-                    v_[2] < std::fmax(intersectObs[0][2], intersectObs[1][2]);
+                    v_[2] > (*range.first)[2] && v_[2] < (*range.second)[2];
             }
 
             return isIntersect;
-- 
2.43.0


From f995dfe99805892b3d3157713f8cef31b1bf1ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 09/42] fix: plan in 2D with only one or two C-slices

---
 src/planners/HRM2D.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index e253f2e..82a7c68 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -45,7 +45,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
-    const double dr = 2 * PI / (static_cast<double>(param_.numSlice) - 1);
+    const double dr =
+        param_.numSlice > 1
+            ? 2 * PI / (static_cast<double>(param_.numSlice) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numSlice; ++i) {
         headings_.push_back(-PI + dr * static_cast<double>(i));
     }
@@ -118,7 +121,11 @@ void hrm::planners::HRM2D::connectMultiSlice() {
         endIdCur = vertexIdx_.at(i).slice;
 
         // Find the nearest C-slice
-        if (i == param_.numSlice - 1 && param_.numSlice != 2) {
+        if (i == vertexIdx_.size() - 1) {
+            // Two C-slices are already connected
+            if (vertexIdx_.size() == 2) {
+                break;
+            }
             j = 0;
         } else {
             j = i + 1;
-- 
2.43.0


From 451dc4e6a4a889adc37348761c0e0da00f999083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 10/42] fix: orient the minimum volume concentric ellipsoid
 along its principal axes

---
 src/geometry/TightFitEllipsoid.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/geometry/TightFitEllipsoid.cpp b/src/geometry/TightFitEllipsoid.cpp
index 9f1fe89..4341767 100644
--- a/src/geometry/TightFitEllipsoid.cpp
+++ b/src/geometry/TightFitEllipsoid.cpp
@@ -34,7 +34,7 @@ hrm::SuperEllipse hrm::getMVCE2D(const std::vector<double>& a,
     const Eigen::Matrix2d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const double angleC = acos(svd.matrixU()(0, 0));
+    const double angleC = std::atan2(svd.matrixU()(1, 0), svd.matrixU()(0, 0));
     const Eigen::Array2d c = svd.singularValues().array().pow(-0.5);
 
     return SuperEllipse({c(0), c(1)}, 1, {0, 0}, angleC, num);
@@ -74,7 +74,12 @@ hrm::SuperQuadrics hrm::getMVCE3D(const std::vector<double>& a,
     const Eigen::Matrix3d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const Eigen::Quaterniond quatC(svd.matrixU());
+    Eigen::Matrix3d rotC = svd.matrixU();
+    if (rotC.determinant() < 0) {
+        // Principal axes have to form a right-handed frame
+        rotC.col(2) *= -1.0;
+    }
+    const Eigen::Quaterniond quatC(rotC);
     const Eigen::Array3d c = svd.singularValues().array().pow(-0.5);
 
     return SuperQuadrics({c(0), c(1), c(2)}, {1, 1}, {0, 0, 0}, quatC, num);
-- 
2.43.0


From 5250840f1170b3139c029efab8c3c974c7455702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 11/42] fix: return both end poses when no interpolation step
 is requested

---
 src/util/InterpolateSE3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/InterpolateSE3.cpp b/src/util/InterpolateSE3.cpp
index 8b9410d..fb4eefb 100644
--- a/src/util/InterpolateSE3.cpp
+++ b/src/util/InterpolateSE3.cpp
@@ -34,7 +34,7 @@ std::vector<std::vector<hrm::Coordinate>> hrm::interpolateCompoundSE3Rn(
     std::vector<std::vector<Coordinate>> vInterp;
 
     if (numStep == 0) {
-        vInterp = std::vector<std::vector<Coordinate>>({vStart, vEnd});
+        return {vStart, vEnd};
     }
 
     if (vStart.size() == 7) {
-- 
2.43.0


From 8039529c7b293c4ef5725d1ca91ca530cb7c65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 12/42] fix: interpolate the 3D solution path that plan()
 reports

---
 include/hrm/planners/HRM3D.h |  2 +-
 src/planners/HRM3D.cpp       | 24 ++++++++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index fca0225..429f20a 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -28,7 +28,7 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
 
     /** \brief Get the resulting solved path and the interpolated one */
     std::vector<std::vector<Coordinate>> getInterpolatedSolutionPath(
-        const Index num);
+        const unsigned int num) override;
 
     /** \brief Get free line segment at one specific C-slice
      * \param bd Pointer to Minkowski boundaries
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 3192c5c..d3b2edd 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -277,21 +277,29 @@ void hrm::planners::HRM3D::connectExistSlice(const Index sliceId) {
 }
 
 std::vector<std::vector<hrm::Coordinate>>
-hrm::planners::HRM3D::getInterpolatedSolutionPath(const Index num) {
+hrm::planners::HRM3D::getInterpolatedSolutionPath(const unsigned int num) {
     std::vector<std::vector<Coordinate>> pathInterp;
 
-    // Compute distance per step
+    // Compute distance per step, from start to goal
+    double length = 0.0;
+    for (size_t i = 0; i + 1 < res_.solutionPath.solvedPath.size(); ++i) {
+        length += vectorEuclidean(res_.solutionPath.solvedPath.at(i),
+                                  res_.solutionPath.solvedPath.at(i + 1));
+    }
     const double distanceStep =
-        res_.solutionPath.cost /
+        length /
         (static_cast<double>(num) *
          (static_cast<double>(res_.solutionPath.solvedPath.size()) - 1.0));
 
     // Iteratively store interpolated poses along the solved path
-    for (size_t i = 0; i < res_.solutionPath.solvedPath.size() - 1; ++i) {
-        const auto numStep = static_cast<int>(
-            vectorEuclidean(res_.solutionPath.solvedPath.at(i),
-                            res_.solutionPath.solvedPath.at(i + 1)) /
-            distanceStep);
+    for (size_t i = 0; i + 1 < res_.solutionPath.solvedPath.size(); ++i) {
+        const auto numStep =
+            distanceStep > 0.0
+                ? static_cast<Index>(
+                      vectorEuclidean(res_.solutionPath.solvedPath.at(i),
+                                      res_.solutionPath.solvedPath.at(i + 1)) /
+                      distanceStep)
+                : 0;
 
         std::vector<std::vector<Coordinate>> stepInterp =
             interpolateCompoundSE3Rn(res_.solutionPath.solvedPath.at(i),
-- 
2.43.0


From eeeb81a66c69dddd4289e7764e47f093045d6a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 13/42] fix: release the kinematic tree of articulated planners

---
 include/hrm/planners/ProbHRM3D.h                        | 4 +++-
 include/hrm/planners/ompl_interface/OMPL3DArticulated.h | 4 +++-
 src/planners/ProbHRM3D.cpp                              | 2 +-
 src/planners/ompl_interface/OMPL3DArticulated.cpp       | 2 +-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/hrm/planners/ProbHRM3D.h b/include/hrm/planners/ProbHRM3D.h
index 8c3ec93..3203b88 100644
--- a/include/hrm/planners/ProbHRM3D.h
+++ b/include/hrm/planners/ProbHRM3D.h
@@ -5,6 +5,8 @@
 #include "HRM3D.h"
 #include "hrm/util/ParseURDF.h"
 
+#include <memory>
+
 namespace hrm {
 namespace planners {
 
@@ -52,7 +54,7 @@ class ProbHRM3D : public HRM3D {
 
   private:
     /** \brief KDL parser for URDF file */
-    ParseURDF* kdl_;
+    std::shared_ptr<ParseURDF> kdl_;
 
     /** \brief Name of URDF file */
     std::string urdfFile_;
diff --git a/include/hrm/planners/ompl_interface/OMPL3DArticulated.h b/include/hrm/planners/ompl_interface/OMPL3DArticulated.h
index a8cab81..176bbd8 100644
--- a/include/hrm/planners/ompl_interface/OMPL3DArticulated.h
+++ b/include/hrm/planners/ompl_interface/OMPL3DArticulated.h
@@ -7,6 +7,8 @@
 
 #include "ompl/base/spaces/RealVectorStateSpace.h"
 
+#include <memory>
+
 namespace hrm {
 namespace planners {
 namespace ompl_interface {
@@ -45,7 +47,7 @@ class OMPL3DArticulated : public OMPL3D {
 
   private:
     /** \brief KDL model */
-    ParseURDF* kdl_;
+    std::shared_ptr<ParseURDF> kdl_;
 
     /** \brief URDF file name */
     const std::string urdfFile_;
diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 4067c4f..0fdbf60 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -10,7 +10,7 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
                                     const std::vector<SuperQuadrics>& obs,
                                     const PlanningRequest& req)
     : HRM3D::HRM3D(robot, arena, obs, req), urdfFile_(std::move(urdfFile)) {
-    kdl_ = new ParseURDF(urdfFile_);
+    kdl_ = std::make_shared<ParseURDF>(urdfFile_);
 }
 
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
diff --git a/src/planners/ompl_interface/OMPL3DArticulated.cpp b/src/planners/ompl_interface/OMPL3DArticulated.cpp
index f214fdb..032d68e 100644
--- a/src/planners/ompl_interface/OMPL3DArticulated.cpp
+++ b/src/planners/ompl_interface/OMPL3DArticulated.cpp
@@ -10,7 +10,7 @@ hrm::planners::ompl_interface::OMPL3DArticulated::OMPL3DArticulated(
     : OMPL3D(lowBound, highBound, robot, arena, obs, obsMesh),
       urdfFile_(urdfFile) {
     // Parse URDF file and construct KDL tree
-    kdl_ = new ParseURDF(urdfFile_);
+    kdl_ = std::make_shared<ParseURDF>(urdfFile_);
     numJoint_ = kdl_->getKDLTree().getNrOfJoints();
 
     setStateSpace(lowBound, highBound);
-- 
2.43.0


From e7eb041208f08b25b737c33cc8ee9279b7c8d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 14/42] fix: give refined vertices the joint angles of their
 own C-slice

---
 include/hrm/planners/HRM3D.h | 3 +++
 src/planners/HRM3D.cpp       | 2 ++
 src/planners/ProbHRM3D.cpp   | 7 ++++---
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index 429f20a..4f4ee97 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -107,6 +107,9 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
     /** \param Sampled orientations (Quaternion) of the robot */
     std::vector<Eigen::Quaterniond> q_;
 
+    /** \param Index of the C-slice under construction */
+    Index sliceIdx_ = 0;
+
     /** \param Boundary surface as mesh */
     BoundaryMesh sliceBoundMesh_;
 
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d3b2edd..edfc0ef 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -22,6 +22,8 @@ hrm::planners::HRM3D::HRM3D(const MultiBodyTree3D& robot,
 hrm::planners::HRM3D::~HRM3D() = default;
 
 void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
+    sliceIdx_ = sliceIdx;
+
     // Set rotation matrix to robot (rigid)
     if (isRobotRigid_) {
         setTransform({0.0, 0.0, 0.0, q_.at(sliceIdx).w(), q_.at(sliceIdx).x(),
diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 0fdbf60..992e351 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -165,7 +165,8 @@ void hrm::planners::ProbHRM3D::connectMultiSlice() {
 void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
                                                 const FreeSegment2D& freeSeg) {
     numVertex_.plane.clear();
-    std::vector<Coordinate> vertex(v_.back().size());
+    const std::vector<Coordinate>& config = v_.at(sliceIdx_);
+    std::vector<Coordinate> vertex(config.size());
 
     for (size_t i = 0; i < freeSeg.ty.size(); ++i) {
         numVertex_.plane.push_back(res_.graphStructure.vertex.size());
@@ -181,8 +182,8 @@ void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
             vertex.at(6) = robot_.getBase().getQuaternion().z();
 
             // Configuration of joints
-            for (size_t m = 7; m < v_.back().size(); ++m) {
-                vertex.at(m) = v_.back().at(m);
+            for (size_t m = 7; m < config.size(); ++m) {
+                vertex.at(m) = config.at(m);
             }
 
             // Construct a std::vector of vertex
-- 
2.43.0


From 8cc34e4ba4ae69fc17d9e1c74487081b0de6f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 15/42] fix: do not append a new path to one that was already
 found

---
 include/hrm/planners/HighwayRoadMap-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index c1a104e..910138b 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -149,6 +149,7 @@ void HighwayRoadMap<RobotType, ObjectType>::search() {
                 // Record path and cost
                 num = 0;
                 res_.solutionPath.cost = d[idxG];
+                res_.solutionPath.PathId.clear();
                 res_.solutionPath.PathId.push_back(int(idxG));
                 while (res_.solutionPath.PathId[num] != int(idxS) &&
                        num <= num_vtx) {
-- 
2.43.0


From d145e420b6803d884891010810b4d2b9c3ce7caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 16/42] fix: return only the roots of the polynomial

---
 src/util/EllipsoidSeparation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSeparation.cpp b/src/util/EllipsoidSeparation.cpp
index 8e44f78..2afd040 100644
--- a/src/util/EllipsoidSeparation.cpp
+++ b/src/util/EllipsoidSeparation.cpp
@@ -190,7 +190,7 @@ bool hrm::isEllipseSeparated(const SuperEllipse& ellipsoidA,
 std::vector<std::complex<double>> hrm::getRootsPolynomial(
     const std::vector<double>& coeffs) {
     const auto matsz = static_cast<Eigen::Index>(coeffs.size() - 1);
-    std::vector<std::complex<double>> vret(matsz);
+    std::vector<std::complex<double>> vret;
     Eigen::MatrixXd companionMatrix = Eigen::MatrixXd::Zero(matsz, matsz);
 
     // Construct the companion matrix
-- 
2.43.0


From f2e126d6cd6ceb62181cfeb547c3767007990370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 17/42] fix: read CSV cells in double precision

---
 src/util/Parse2dCsvFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Parse2dCsvFile.cpp b/src/util/Parse2dCsvFile.cpp
index f910e75..8101dea 100644
--- a/src/util/Parse2dCsvFile.cpp
+++ b/src/util/Parse2dCsvFile.cpp
@@ -22,7 +22,7 @@ std::vector<std::vector<double>> hrm::parse2DCsvFile(
                     break;
                 }
                 try {
-                    record.emplace_back(stof(line));
+                    record.emplace_back(stod(line));
                 } catch (const std::invalid_argument& e) {
                     std::cout << "NaN found in file " << filename << " line "
                               << l << std::endl;
-- 
2.43.0


From 01897f970c1a2b996f107b990a466ffd71af0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 18/42] fix: order the free segments of the last sweep line too

---
 include/hrm/datastructure/FreeSpace-inl.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/hrm/datastructure/FreeSpace-inl.h b/include/hrm/datastructure/FreeSpace-inl.h
index 819790a..6c02a53 100644
--- a/include/hrm/datastructure/FreeSpace-inl.h
+++ b/include/hrm/datastructure/FreeSpace-inl.h
@@ -65,7 +65,6 @@ void FreeSpaceComputator<RobotType, ObjectType>::computeFreeSegment(
     segment_.xL.clear();
     segment_.xU.clear();
     segment_.xM.clear();
-    std::vector<Interval> interval[ty.size()];
 
     // y-coord
     segment_.ty = ty;
@@ -74,17 +73,18 @@ void FreeSpaceComputator<RobotType, ObjectType>::computeFreeSegment(
     for (Index i = 0; i < ty.size(); ++i) {
         // Construct intervals at each sweep line
         const auto lineIdx = static_cast<Eigen::Index>(i);
-        interval[i] = computeSweepLineFreeSegment(lineIdx);
+        const std::vector<Interval> interval =
+            computeSweepLineFreeSegment(lineIdx);
 
         // x-(z-)coords
         std::vector<Coordinate> xL;
         std::vector<Coordinate> xU;
         std::vector<Coordinate> xM;
 
-        for (Index j = 0; j < interval[i].size(); ++j) {
-            xL.push_back(interval[i][j].s());
-            xU.push_back(interval[i][j].e());
-            xM.push_back((interval[i][j].s() + interval[i][j].e()) / 2.0);
+        for (Index j = 0; j < interval.size(); ++j) {
+            xL.push_back(interval[j].s());
+            xU.push_back(interval[j].e());
+            xM.push_back((interval[j].s() + interval[j].e()) / 2.0);
         }
         segment_.xL.push_back(xL);
         segment_.xU.push_back(xU);
@@ -133,7 +133,7 @@ void FreeSpaceComputator<RobotType, ObjectType>::enhanceFreeSegment() {
     FreeSegment2D enhanced = segment_;
 
     // Add new vertices within on sweep line
-    for (size_t i = 0; i < segment_.ty.size() - 1; ++i) {
+    for (size_t i = 0; i + 1 < segment_.ty.size(); ++i) {
         for (size_t j1 = 0; j1 < segment_.xM[i].size(); ++j1) {
             for (size_t j2 = 0; j2 < segment_.xM[i + 1].size(); ++j2) {
                 if (enhanced.xM[i][j1] < enhanced.xL[i + 1][j2] &&
@@ -161,7 +161,10 @@ void FreeSpaceComputator<RobotType, ObjectType>::enhanceFreeSegment() {
                 }
             }
         }
+    }
 
+    // Reorder segments along each sweep line, including the last one
+    for (size_t i = 0; i < segment_.ty.size(); ++i) {
         sort(enhanced.xL[i].begin(), enhanced.xL[i].end(),
              [](double a, double b) { return a < b; });
         sort(enhanced.xU[i].begin(), enhanced.xU[i].end(),
-- 
2.43.0


From 9cf9eb49d3a291deba4ee917fae5da232fabfb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 19/42] fix: do not connect the first 3D C-slice with itself

---
 src/planners/HRM3D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index edfc0ef..d5a394e 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -169,7 +169,7 @@ void hrm::planners::HRM3D::connectMultiSlice() {
         return;
     }
 
-    for (size_t i = 0; i < vertexIdx_.size(); ++i) {
+    for (size_t i = 1; i < vertexIdx_.size(); ++i) {
         // Find the nearest C-slices
         double minDist = INFINITY;
         int minIdx = 0;
-- 
2.43.0


From 12fa0485c86c9b9bff38db47053836a7c62ded8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 20/42] fix: mesh each C-space boundary with its own resolution

---
 src/datastructure/FreeSpace3D.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index cb4d1b0..f9ed857 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -14,17 +14,18 @@ hrm::FreeSpace3D::FreeSpace3D(const MultiBodyTree3D& robot,
 hrm::FreeSpace3D::~FreeSpace3D() = default;
 
 void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
-    // Generate mesh for the boundaries
+    // Generate mesh for the boundaries, one for each robot body
+    const Index numBody = 1 + robot_.getNumLinks();
     cSpaceBoundaryMesh_.arena.resize(bound.arena.size());
     cSpaceBoundaryMesh_.obstacle.resize(bound.obstacle.size());
 
     for (size_t i = 0; i < bound.arena.size(); ++i) {
         cSpaceBoundaryMesh_.arena.at(i) = getMeshFromParamSurface(
-            bound.arena.at(i), arena_.at(0).getNumParam());
+            bound.arena.at(i), arena_.at(i / numBody).getNumParam());
     }
     for (size_t i = 0; i < bound.obstacle.size(); ++i) {
         cSpaceBoundaryMesh_.obstacle.at(i) = getMeshFromParamSurface(
-            bound.obstacle.at(i), obstacle_.at(0).getNumParam());
+            bound.obstacle.at(i), obstacle_.at(i / numBody).getNumParam());
     }
 }
 
-- 
2.43.0


From a118579ea6946abbeccb833a1602bb21b27c12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 21/42] fix: keep free segments inside the C-arena

---
 src/datastructure/FreeSpace2D.cpp | 9 +++++----
 src/datastructure/FreeSpace3D.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 96eda9a..96fb010 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -21,15 +21,16 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
             const auto intersectPointArena = intersectHorizontalLinePolygon2D(
                 tLine.at(0).at(i), cSpaceBoundary_.arena.at(j));
             if (intersectPointArena.empty()) {
-                intersect_.arenaLow.at(i).at(j) = lowBound_;
-                intersect_.arenaUpp.at(i).at(j) = upBound_;
+                // Sweep line entirely out of the C-arena
+                intersect_.arenaLow.at(i).at(j) = upBound_;
+                intersect_.arenaUpp.at(i).at(j) = lowBound_;
             } else {
                 const auto range = std::minmax_element(
                     intersectPointArena.begin(), intersectPointArena.end());
                 intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, *range.first);
+                    std::fmax(lowBound_, *range.first);
                 intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, *range.second);
+                    std::fmin(upBound_, *range.second);
             }
         }
 
diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index f9ed857..8763427 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -45,16 +45,17 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 lineZ, cSpaceBoundaryMesh_.arena.at(j));
 
             if (intersectPointArena.empty()) {
-                intersect_.arenaLow.at(i).at(j) = lowBound_;
-                intersect_.arenaUpp.at(i).at(j) = upBound_;
+                // Sweep line entirely out of the C-arena
+                intersect_.arenaLow.at(i).at(j) = upBound_;
+                intersect_.arenaUpp.at(i).at(j) = lowBound_;
             } else {
                 const auto range = std::minmax_element(
                     intersectPointArena.begin(), intersectPointArena.end(),
                     lowerZ);
                 intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, (*range.first)(2));
+                    std::fmax(lowBound_, (*range.first)(2));
                 intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, (*range.second)(2));
+                    std::fmin(upBound_, (*range.second)(2));
             }
         }
 
-- 
2.43.0


From a9cb551a9a575f81db82f34c5f3b1b757c74edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 22/42] fix: relate the 2D search range to the gap between
 sweep lines

---
 src/planners/HRM2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 82a7c68..218e112 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -355,7 +355,7 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
         }
 
         if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
-            radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
+            radius * (param_.boundaryLimits[3] - param_.boundaryLimits[2]) /
                 static_cast<double>(param_.numLineY)) {
             idx.push_back(idxSlice);
         }
-- 
2.43.0


From a485ce53dd80dea9b5eefb29dc93c651c4b51941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 23/42] fix: start from an empty roadmap each time plan() is
 called

---
 include/hrm/planners/HRM3D.h              |  2 ++
 include/hrm/planners/HighwayRoadMap-inl.h | 12 ++++++++++++
 include/hrm/planners/HighwayRoadMap.h     |  3 +++
 src/planners/HRM2D.cpp                    |  1 +
 src/planners/HRM3D.cpp                    |  6 ++++++
 src/planners/ProbHRM3D.cpp                |  2 ++
 6 files changed, 26 insertions(+)

diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index 4f4ee97..8a0e27b 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -56,6 +56,8 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
     }
 
   protected:
+    void reset() override;
+
     void constructOneSlice(const Index sliceIdx) override;
 
     virtual void sampleOrientations() override;
diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index 910138b..9001670 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -63,6 +63,8 @@ HighwayRoadMap<RobotType, ObjectType>::~HighwayRoadMap() {}
 
 template <class RobotType, class ObjectType>
 void HighwayRoadMap<RobotType, ObjectType>::plan(const double timeLim) {
+    reset();
+
     // Plan and timing
     auto start = Clock::now();
     buildRoadmap();
@@ -88,6 +90,16 @@ void HighwayRoadMap<RobotType, ObjectType>::plan(const double timeLim) {
     }
 }
 
+template <class RobotType, class ObjectType>
+void HighwayRoadMap<RobotType, ObjectType>::reset() {
+    res_ = PlanningResult();
+    isRefine_ = false;
+    sliceBoundAll_.clear();
+    v_.clear();
+    vertexIdx_.clear();
+    vertexIdxAll_.clear();
+}
+
 template <class RobotType, class ObjectType>
 void HighwayRoadMap<RobotType, ObjectType>::buildRoadmap() {
     sampleOrientations();
diff --git a/include/hrm/planners/HighwayRoadMap.h b/include/hrm/planners/HighwayRoadMap.h
index cdeadab..c415f06 100644
--- a/include/hrm/planners/HighwayRoadMap.h
+++ b/include/hrm/planners/HighwayRoadMap.h
@@ -104,6 +104,9 @@ class HighwayRoadMap {
     virtual void plan(const double timeLim);
 
   protected:
+    /** \brief Discard the roadmap and results of a previous planning round */
+    virtual void reset();
+
     /** \brief Subroutine for building roadmap */
     void buildRoadmap();
 
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 218e112..3b74df2 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -45,6 +45,7 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
+    headings_.clear();
     const double dr =
         param_.numSlice > 1
             ? 2 * PI / (static_cast<double>(param_.numSlice) - 1)
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d5a394e..e2cfb5e 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -21,6 +21,12 @@ hrm::planners::HRM3D::HRM3D(const MultiBodyTree3D& robot,
 
 hrm::planners::HRM3D::~HRM3D() = default;
 
+void hrm::planners::HRM3D::reset() {
+    HighwayRoadMap<MultiBodyTree3D, SuperQuadrics>::reset();
+    q_.clear();
+    sliceBoundMeshAll_.clear();
+}
+
 void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     sliceIdx_ = sliceIdx;
 
diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 992e351..6ec79bb 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -16,6 +16,8 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
 
 void hrm::planners::ProbHRM3D::plan(const double timeLim) {
+    reset();
+
     auto start = Clock::now();
     param_.numSlice = 0;
 
-- 
2.43.0


From 373779ce72da9708cbf5ee916b711c09c00c41f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 24/42] fix: report all vertices and edges of the 2D OMPL
 planners

---
 src/planners/ompl_interface/OMPL2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planners/ompl_interface/OMPL2D.cpp b/src/planners/ompl_interface/OMPL2D.cpp
index b4a8cf1..e650437 100644
--- a/src/planners/ompl_interface/OMPL2D.cpp
+++ b/src/planners/ompl_interface/OMPL2D.cpp
@@ -45,7 +45,7 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
     // Save vertices and edges
     const ob::State *state;
     vertex_.clear();
-    for (auto i = 0; i < numValidStates_; ++i) {
+    for (auto i = 0; i < numGraphVertex_; ++i) {
         state = pd.getVertex(i).getState()->as<ob::State>();
         vertex_.push_back(
             {state->as<ob::SE2StateSpace::StateType>()->getX(),
@@ -53,9 +53,9 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
              state->as<ob::SE2StateSpace::StateType>()->getYaw()});
     }
 
-    std::vector<std::vector<unsigned int>> edgeInfo(numValidStates_);
+    std::vector<std::vector<unsigned int>> edgeInfo(numGraphVertex_);
     edge_.clear();
-    for (auto i = 0; i < numValidStates_; i++) {
+    for (auto i = 0; i < numGraphVertex_; i++) {
         pd.getEdges(i, edgeInfo[i]);
         for (auto edgeI : edgeInfo[i]) {
             edge_.emplace_back(std::make_pair(i, edgeI));
-- 
2.43.0


From b5e2784dc55a9943d0c8934bf298ea6eed6a804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 25/42] fix: keep the bounds that OMPL planners are constructed
 with

---
 include/hrm/planners/ompl_interface/OMPLInterface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface.h b/include/hrm/planners/ompl_interface/OMPLInterface.h
index d993783..f1b3a7e 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface.h
@@ -159,10 +159,10 @@ class OMPLInterface {
     std::vector<ObjectType> arena_;
 
     /** \brief Lower bound of the arena */
-    const std::vector<double>& lowBound_;
+    const std::vector<double> lowBound_;
 
     /** \brief Upper bound of the arena */
-    const std::vector<double>& highBound_;
+    const std::vector<double> highBound_;
 
     /** \brief Obstacles model */
     std::vector<ObjectType> obstacle_;
-- 
2.43.0


From b717a7186b08555c064e3d0a8875563cf23fe18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 26/42] fix: answer the current query when an OMPL planner is
 used again

---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 15fba8f..c4b3d46 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -66,6 +66,12 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
         return isSolved_;
     }
 
+    // Discard the previous query
+    ss_->clear();
+    path_.clear();
+    path_interp_.clear();
+    lengthPath_ = 0;
+
     // Set start and goal states for planning
     setStartAndGoalState(start, goal);
 
-- 
2.43.0


From 76481505d9f514e432f5c93c23d17cb3749642e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 27/42] fix: tell from plan() whether an OMPL planner solved
 the query

---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index c4b3d46..a864111 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -99,7 +99,7 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
     // Get planning results
     getSolution();
 
-    return true;
+    return isSolved_;
 }
 
 template <typename RobotType, typename ObjectType>
-- 
2.43.0


From 4295220e6e4a30cdb2a909138af8cbc43dbd54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 28/42] fix: report the interpolated path of the 2D OMPL
 planners

---
 src/planners/ompl_interface/OMPL2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planners/ompl_interface/OMPL2D.cpp b/src/planners/ompl_interface/OMPL2D.cpp
index e650437..4ac53c8 100644
--- a/src/planners/ompl_interface/OMPL2D.cpp
+++ b/src/planners/ompl_interface/OMPL2D.cpp
@@ -30,6 +30,7 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
                  state->as<ob::SE2StateSpace::StateType>()->getY(),
                  state->as<ob::SE2StateSpace::StateType>()->getYaw()});
         }
+        path_interp_ = path_;
     }
 
     // Retrieve planning data
-- 
2.43.0


From a2dec68548b0b0965d6e61cdca3bf8260a879bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 29/42] fix: use the superellipse exponent in the plane of the
 collision model

---
 src/util/EllipsoidSQCollisionFCL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 8c9e94b..4d860c6 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -86,7 +86,7 @@ fcl::CollisionObject<double> hrm::setCollisionObjectFromSQ(
     // Mesh model
     const SuperQuadrics objAux(
         {object.getSemiAxis().at(0), object.getSemiAxis().at(1), 0.1},
-        {object.getEpsilon(), 0.1}, {0.0, 0.0, 0.0},
+        {0.1, object.getEpsilon()}, {0.0, 0.0, 0.0},
         Eigen::Quaterniond::Identity(), 10);
     const Mesh objMesh = getMeshFromSQ(objAux);
     auto modelPtr = std::make_shared<fcl::BVHModel<fcl::OBBRSS<double>>>();
-- 
2.43.0


From f06c6d10cb2c2a4ef647633746dfb134ec3205cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 30/42] fix: bridge slice of a link follows the turn of the
 base

---
 src/planners/HRM2D.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 3b74df2..6d55213 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -387,15 +387,13 @@ void hrm::planners::HRM2D::computeTFE(const double thetaA, const double thetaB,
                            param_.numPoint, robot_.getBase().getNum()));
 
     for (size_t i = 0; i < robot_.getNumLinks(); ++i) {
-        Eigen::Rotation2Dd rotLink(
+        // Links turn with the base, all the way from thetaA to thetaB
+        const Eigen::Rotation2Dd rotLink(
             Eigen::Matrix2d(robot_.getTF().at(i).topLeftCorner(2, 2)));
-        Eigen::Rotation2Dd rotA(Eigen::Rotation2Dd(thetaA).toRotationMatrix() *
-                                rotLink);
-        Eigen::Rotation2Dd rotB(Eigen::Rotation2Dd(thetaB).toRotationMatrix() *
-                                rotLink);
 
         tfe.push_back(getTFE2D(
-            robot_.getLinks().at(i).getSemiAxis(), rotA.angle(), rotB.angle(),
+            robot_.getLinks().at(i).getSemiAxis(), thetaA + rotLink.angle(),
+            thetaB + rotLink.angle(),
             uint(param_.numPoint), robot_.getLinks().at(i).getNum()));
     }
 }
-- 
2.43.0


From a45bcf6da8a9625de2c1e72d7b62decaf102e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 31/42] fix: keep bridge vertices of a spatial C-slice inside
 the C-arena

---
 include/hrm/planners/HRM3D.h              |  2 ++
 include/hrm/planners/HighwayRoadMap-inl.h |  4 ++--
 include/hrm/planners/HighwayRoadMap.h     |  6 ++++++
 src/planners/HRM3D.cpp                    | 22 ++++++++++++++++++++++
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index 8a0e27b..0ef2759 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -101,6 +101,8 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
     bool isPtInCFree(const Index bdIdx,
                      const std::vector<Coordinate>& v) override;
 
+    bool isPtInCArena(const std::vector<Coordinate>& v) override;
+
     /** \brief uniform random sample SO(3) */
     void sampleSO3();
 
diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index 9001670..9954621 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -316,10 +316,10 @@ void HighwayRoadMap<RobotType, ObjectType>::bridgeVertex(const Index idx1,
     auto vNew = v1;
 
     // Check validity of potential connections
-    if (isSameSliceTransitionFree(v1, vNew1) &&
+    if (isPtInCArena(vNew1) && isSameSliceTransitionFree(v1, vNew1) &&
         isSameSliceTransitionFree(vNew1, v2)) {
         vNew = vNew1;
-    } else if (isSameSliceTransitionFree(v1, vNew2) &&
+    } else if (isPtInCArena(vNew2) && isSameSliceTransitionFree(v1, vNew2) &&
                isSameSliceTransitionFree(vNew2, v2)) {
         vNew = vNew2;
     } else {
diff --git a/include/hrm/planners/HighwayRoadMap.h b/include/hrm/planners/HighwayRoadMap.h
index c415f06..907caea 100644
--- a/include/hrm/planners/HighwayRoadMap.h
+++ b/include/hrm/planners/HighwayRoadMap.h
@@ -174,6 +174,12 @@ class HighwayRoadMap {
     virtual bool isPtInCFree(const Index bdIdx,
                              const std::vector<Coordinate>& v) = 0;
 
+    /** \brief Check whether one vertex of the current C-slice is within the
+     * C-arena. By default, vertices are only generated within the C-arena */
+    virtual bool isPtInCArena(const std::vector<Coordinate>& v) {
+        return true;
+    }
+
     /** \brief Find the nearest neighbors of a pose on the graph
      * \param vertex the queried vertex
      * \param k number of neighbors
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index e2cfb5e..e6587b8 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -442,6 +442,28 @@ bool hrm::planners::HRM3D::isPtInCFree(const Index bdIdx,
                         intersect(lineZ, v));
 }
 
+bool hrm::planners::HRM3D::isPtInCArena(const std::vector<Coordinate>& v) {
+    // Vertical line through the point, as used for sweeping the C-slice
+    Line3D lineZ(6);
+    lineZ << v[0], v[1], v[2], 0, 0, 1;
+
+    for (const auto& bound : sliceBoundMesh_.arena) {
+        const auto intersectArena = intersectVerticalLineMesh3D(lineZ, bound);
+        if (intersectArena.empty()) {
+            return false;
+        }
+
+        const auto range = std::minmax_element(
+            intersectArena.begin(), intersectArena.end(),
+            [](const Point3D& a, const Point3D& b) { return a(2) < b(2); });
+        if (v[2] < (*range.first)[2] || v[2] > (*range.second)[2]) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 void hrm::planners::HRM3D::sampleSO3() {
     srand(unsigned(std::time(nullptr)));
 
-- 
2.43.0


From 124b52afcdb26b8c11af8e350541fbce5bb50e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 32/42] fix: segments crossing a polygon through its vertices

---
 src/geometry/LineIntersection.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 7af611f..ed22edc 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -165,6 +165,8 @@ bool hrm::intersectLineTriangle3D(const Line3D& line, const Eigen::Vector3d& t0,
 bool hrm::isIntersectSegPolygon2D(
     const std::pair<std::vector<double>, std::vector<double>>& seg,
     const Eigen::Matrix2Xd& shape) {
+    const double tol = 1e-12;
+
     double px1 = seg.first.at(0);
     double py1 = seg.first.at(1);
     double px2 = seg.second.at(0);
@@ -194,9 +196,17 @@ bool hrm::isIntersectSegPolygon2D(
         b(0) = x1 - px1;
         b(1) = y1 - py1;
 
-        Eigen::Vector2d sol = A.colPivHouseholderQr().solve(b);
+        // ignore the degenerated edge, or the one parallel to the segment
+        if (std::fabs(A.determinant()) <=
+            tol * A.col(0).norm() * A.col(1).norm()) {
+            continue;
+        }
+
+        const Eigen::Vector2d sol = A.inverse() * b;
 
-        if ((sol(0) > 0 && sol(0) < 1) && (sol(1) > 0 && sol(1) < 1)) {
+        // crossing through the end points of an edge also counts
+        if ((sol(0) > 0 && sol(0) < 1) &&
+            (sol(1) >= -tol && sol(1) <= 1 + tol)) {
             return true;
         }
     }
-- 
2.43.0


From 525c3e090b8c29d57027f5472f2a13eb818a0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 33/42] fix: Minkowski sums of links in terms of the base
 wherever the robot is

---
 src/datastructure/MultiBodyTree3D.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/MultiBodyTree3D.cpp b/src/datastructure/MultiBodyTree3D.cpp
index eff2e76..ce4ae4c 100644
--- a/src/datastructure/MultiBodyTree3D.cpp
+++ b/src/datastructure/MultiBodyTree3D.cpp
@@ -95,10 +95,12 @@ std::vector<hrm::BoundaryPoints> hrm::MultiBodyTree3D::minkSum(
     // Minkowski sums for Base
     mink.push_back(s1.getMinkSum3D(base_, k));
 
-    // Minkowski sums for Links
+    // Minkowski sums for Links, in terms of the center of Base
+    const Point3D baseTc(base_.getPosition().data());
     for (size_t i = 0; i < numLinks_; ++i) {
-        mink.emplace_back(s1.getMinkSum3D(link_.at(i), k).colwise() -
-                          Point3D(link_.at(i).getPosition().data()));
+        mink.emplace_back(
+            s1.getMinkSum3D(link_.at(i), k).colwise() -
+            (Point3D(link_.at(i).getPosition().data()) - baseTc));
     }
 
     return mink;
-- 
2.43.0


From f4969f31563ea45bd0daae5bafa218a06e86ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 34/42] fix: distinct random orientations for C-slices sampled
 within one second

---
 src/planners/ProbHRM3D.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 6ec79bb..3b0f8a3 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -18,6 +18,9 @@ hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
 void hrm::planners::ProbHRM3D::plan(const double timeLim) {
     reset();
 
+    // Seed once: slices sampled within the same second must still differ
+    srand(unsigned(std::time(nullptr)));
+
     auto start = Clock::now();
     param_.numSlice = 0;
 
@@ -68,7 +71,6 @@ void hrm::planners::ProbHRM3D::plan(const double timeLim) {
 
 void hrm::planners::ProbHRM3D::sampleOrientations() {
     // Iteratively add slices with random orientations
-    srand(unsigned(std::time(nullptr)));
     ompl::RNG rng;
 
     // Randomly sample rotation of base
-- 
2.43.0


From d14438a7908584867431199038e98da8b4c66996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 35/42] fix: ProbHRM3D always plans for an articulated robot

---
 src/planners/ProbHRM3D.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 3b0f8a3..2db6eeb 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -11,6 +11,9 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
                                     const PlanningRequest& req)
     : HRM3D::HRM3D(robot, arena, obs, req), urdfFile_(std::move(urdfFile)) {
     kdl_ = std::make_shared<ParseURDF>(urdfFile_);
+
+    // Joint angles are always part of the configuration
+    isRobotRigid_ = false;
 }
 
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
-- 
2.43.0


From f18cf4a27076cfc61ff9a1545f157b63ca93184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 36/42] fix: an object inside a mesh collision model collides
 with it

---
 src/util/EllipsoidSQCollisionFCL.cpp | 45 ++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 4d860c6..ef5a504 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -4,6 +4,45 @@
 
 using GeometryPtr = std::shared_ptr<fcl::CollisionGeometry<double>>;
 
+namespace {
+
+// Whether the center of one object is in the interior of the other. A mesh model
+// is hollow, so an object that is fully contained does not touch it.
+bool isCenterInside(const hrm::SuperQuadrics& object,
+                    const hrm::SuperQuadrics& other) {
+    const Eigen::Vector3d center =
+        object.getQuaternion().conjugate() *
+        (Eigen::Vector3d(other.getPosition().data()) -
+         Eigen::Vector3d(object.getPosition().data()));
+    const auto& axis = object.getSemiAxis();
+    const auto& eps = object.getEpsilon();
+
+    return std::pow(
+               std::pow(std::fabs(center(0) / axis.at(0)), 2.0 / eps.at(1)) +
+                   std::pow(std::fabs(center(1) / axis.at(1)),
+                            2.0 / eps.at(1)),
+               eps.at(1) / eps.at(0)) +
+               std::pow(std::fabs(center(2) / axis.at(2)), 2.0 / eps.at(0)) <
+           1.0;
+}
+
+bool isCenterInside(const hrm::SuperEllipse& object,
+                    const hrm::SuperEllipse& other) {
+    const Eigen::Vector2d center =
+        Eigen::Rotation2Dd(-object.getAngle()) *
+        (Eigen::Vector2d(other.getPosition().data()) -
+         Eigen::Vector2d(object.getPosition().data()));
+    const auto& axis = object.getSemiAxis();
+
+    return std::pow(std::fabs(center(0) / axis.at(0)),
+                    2.0 / object.getEpsilon()) +
+               std::pow(std::fabs(center(1) / axis.at(1)),
+                        2.0 / object.getEpsilon()) <
+           1.0;
+}
+
+}  // namespace
+
 bool hrm::isCollision(const SuperQuadrics& object1,
                       fcl::CollisionObject<double> collisionObject1,
                       const SuperQuadrics& object2,
@@ -21,7 +60,8 @@ bool hrm::isCollision(const SuperQuadrics& object1,
     fcl::CollisionResult<double> result;
     fcl::collide(&collisionObject1, &collisionObject2, request, result);
 
-    return result.isCollision();
+    return result.isCollision() || isCenterInside(object1, object2) ||
+           isCenterInside(object2, object1);
 }
 
 bool hrm::isCollision(const SuperEllipse& object1,
@@ -48,7 +88,8 @@ bool hrm::isCollision(const SuperEllipse& object1,
     fcl::CollisionResult<double> result;
     fcl::collide(&collisionObject1, &collisionObject2, request, result);
 
-    return result.isCollision();
+    return result.isCollision() || isCenterInside(object1, object2) ||
+           isCenterInside(object2, object1);
 }
 
 fcl::CollisionObject<double> hrm::setCollisionObjectFromSQ(
-- 
2.43.0


From 0044364ca08439a056c99f457091081aa94dcdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 37/42] fix: planning again starts from the requested number of
 sweep lines, not the refined one

---
 include/hrm/planners/HighwayRoadMap-inl.h | 2 ++
 include/hrm/planners/HighwayRoadMap.h     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index 9954621..2b78141 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -56,6 +56,7 @@ HighwayRoadMap<RobotType, ObjectType>::HighwayRoadMap(
       start_(req.start),
       goal_(req.goal),
       param_(req.parameters),
+      paramRequest_(req.parameters),
       isRobotRigid_(req.isRobotRigid) {}
 
 template <class RobotType, class ObjectType>
@@ -93,6 +94,7 @@ void HighwayRoadMap<RobotType, ObjectType>::plan(const double timeLim) {
 template <class RobotType, class ObjectType>
 void HighwayRoadMap<RobotType, ObjectType>::reset() {
     res_ = PlanningResult();
+    param_ = paramRequest_;
     isRefine_ = false;
     sliceBoundAll_.clear();
     v_.clear();
diff --git a/include/hrm/planners/HighwayRoadMap.h b/include/hrm/planners/HighwayRoadMap.h
index 907caea..fa324f2 100644
--- a/include/hrm/planners/HighwayRoadMap.h
+++ b/include/hrm/planners/HighwayRoadMap.h
@@ -211,6 +211,9 @@ class HighwayRoadMap {
     /** \param Planning parameters */
     PlannerParameter param_;
 
+    /** \param Planning parameters as requested, before any refinement */
+    PlannerParameter paramRequest_;
+
     /** \param Planning results */
     PlanningResult res_;
 
-- 
2.43.0


From 74971c1fad93ea43f976ddaa7c90aef3f4056e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 38/42] fix: nearest C-slices of a query are the closest ones,
 not the first within the search radius

---
 src/planners/HRM2D.cpp | 14 +++++++++-----
 src/planners/HRM3D.cpp | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 6d55213..33819f3 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -322,16 +322,20 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
         }
     }
 
-    // Search for k-nn C-slices
+    // Search for k-nn C-slices, the closest first
     std::vector<double> angList;
     for (auto heading : headings_) {
         if (std::fabs(minAngle - heading) < radius) {
             angList.push_back(heading);
         }
-
-        if (angList.size() >= k) {
-            break;
-        }
+    }
+    std::stable_sort(angList.begin(), angList.end(),
+                     [&vertex](const double a, const double b) {
+                         return std::fabs(vertex[2] - a) <
+                                std::fabs(vertex[2] - b);
+                     });
+    if (angList.size() > k) {
+        angList.resize(k);
     }
 
     // Find the close vertex within a range (relative to the size of sweep
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index e6587b8..4012e14 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -502,16 +502,20 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
         }
     }
 
-    // Search for k-nn C-slices
+    // Search for k-nn C-slices, the closest first
     std::vector<Eigen::Quaterniond> quatList;
     for (const auto& q : q_) {
         if (minQuat.angularDistance(q) < radius) {
             quatList.push_back(q);
         }
-
-        if (quatList.size() >= k) {
-            break;
-        }
+    }
+    std::stable_sort(
+        quatList.begin(), quatList.end(),
+        [&queryQuat](const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) {
+            return queryQuat.angularDistance(a) < queryQuat.angularDistance(b);
+        });
+    if (quatList.size() > k) {
+        quatList.resize(k);
     }
 
     // Find the close vertex within a range (relative to the size of sweep line
-- 
2.43.0


From 118aa3ea5ade303fd1684d90cd92f8cf586eb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:10 +0000
Subject: [PATCH 39/42] fix: plan for articulated robots with the
 projection-based OMPL planners

---
 src/planners/ompl_interface/OMPL3DArticulated.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/planners/ompl_interface/OMPL3DArticulated.cpp b/src/planners/ompl_interface/OMPL3DArticulated.cpp
index 032d68e..421cda9 100644
--- a/src/planners/ompl_interface/OMPL3DArticulated.cpp
+++ b/src/planners/ompl_interface/OMPL3DArticulated.cpp
@@ -51,6 +51,10 @@ void hrm::planners::ompl_interface::OMPL3DArticulated::setStateSpace(
         ->as<ob::RealVectorStateSpace>()
         ->setBounds(jointBounds);
 
+    // A compound space has no default projection: project onto the robot base
+    space->registerDefaultProjection(
+        std::make_shared<ob::SubspaceProjectionEvaluator>(space.get(), 0));
+
     ss_ = std::make_shared<og::SimpleSetup>(space);
 }
 
-- 
2.43.0


From 5fcfa1b7641db3ed8c7ae4c397dd74fe0a6d0e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 40/42] fix: do not read blank lines of CSV files as empty
 records

---
 src/util/Parse2dCsvFile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/Parse2dCsvFile.cpp b/src/util/Parse2dCsvFile.cpp
index 8101dea..f7993a5 100644
--- a/src/util/Parse2dCsvFile.cpp
+++ b/src/util/Parse2dCsvFile.cpp
@@ -30,7 +30,10 @@ std::vector<std::vector<double>> hrm::parse2DCsvFile(
                 }
             }
 
-            data.push_back(record);
+            // A blank line holds no record
+            if (!record.empty()) {
+                data.push_back(record);
+            }
         }
     }
 
-- 
2.43.0


From dcf35a6da1870f5efe3996a8a216c06a528dd9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:07 +0000
Subject: [PATCH 41/42] fix: sweep rotations between C-slices the way the
 roadmap takes them

---
 src/planners/HRM3D.cpp | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 4012e14..9f00ea1 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -196,8 +196,19 @@ void hrm::planners::HRM3D::connectMultiSlice() {
         Index start = vertexIdx_.at(minIdx).startId;
         Index n2 = vertexIdx_.at(minIdx).slice;
 
-        // Construct the middle slice
-        computeTFE(q_.at(i), q_.at(minIdx), tfe_);
+        if (n22 == n_2 || start == n2) {
+            continue;
+        }
+
+        // Construct the middle slice, for the orientations as they are stored
+        // in the vertices of both slices
+        const auto& vCur = res_.graphStructure.vertex.at(n22);
+        const auto& vNear = res_.graphStructure.vertex.at(start);
+        computeTFE(
+            Eigen::Quaterniond(vCur.at(3), vCur.at(4), vCur.at(5), vCur.at(6)),
+            Eigen::Quaterniond(vNear.at(3), vNear.at(4), vNear.at(5),
+                               vNear.at(6)),
+            tfe_);
         bridgeSlice();
 
         // Nearest vertex btw slices
@@ -577,12 +588,25 @@ void hrm::planners::HRM3D::computeTFE(const Eigen::Quaterniond& q1,
     tfe.push_back(getTFE3D(robot_.getBase().getSemiAxis(), q1, q2,
                            param_.numPoint, robot_.getBase().getNumParam()));
 
+    // Links turn with the base, the same way around from q1 to q2
+    const std::vector<Eigen::Quaterniond> baseQuat =
+        interpolateSlerp(q1, q2, param_.numPoint);
     for (size_t i = 0; i < robot_.getNumLinks(); ++i) {
-        Eigen::Matrix3d rotLink = robot_.getTF().at(i).topLeftCorner(3, 3);
-        tfe.push_back(
-            getTFE3D(robot_.getLinks().at(i).getSemiAxis(),
-                     Eigen::Quaterniond(q1.toRotationMatrix() * rotLink),
-                     Eigen::Quaterniond(q2.toRotationMatrix() * rotLink),
-                     param_.numPoint, robot_.getLinks().at(i).getNumParam()));
+        const Eigen::Matrix3d rotLink =
+            robot_.getTF().at(i).topLeftCorner(3, 3);
+        const auto& link = robot_.getLinks().at(i);
+
+        SuperQuadrics enclosure = getMVCE3D(
+            link.getSemiAxis(), link.getSemiAxis(),
+            Eigen::Quaterniond(q1.toRotationMatrix() * rotLink),
+            Eigen::Quaterniond(q2.toRotationMatrix() * rotLink),
+            link.getNumParam());
+        for (size_t j = 1; j < static_cast<size_t>(param_.numPoint); ++j) {
+            enclosure = getMVCE3D(
+                link.getSemiAxis(), enclosure.getSemiAxis(),
+                Eigen::Quaterniond(baseQuat.at(j).toRotationMatrix() * rotLink),
+                enclosure.getQuaternion(), link.getNumParam());
+        }
+        tfe.push_back(enclosure);
     }
 }
-- 
2.43.0


From f33b5662332d9e284ec4ec51594cda4d43a162b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:26 +0000
Subject: [PATCH 42/42] fix: sweep transitions of articulated robots the way
 the roadmap takes them

---
 src/planners/ProbHRM3D.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 2db6eeb..ad09ea0 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -134,8 +134,14 @@ void hrm::planners::ProbHRM3D::connectMultiSlice() {
     Index start = vertexIdx_.at(minIdx).startId;
     const Index n1 = vertexIdx_.at(minIdx).slice;
 
-    // Construct bridge C-slice
-    computeTFE(v_.back(), v_.at(minIdx), tfe_);
+    if (n12 == n2 || start == n1) {
+        return;
+    }
+
+    // Construct bridge C-slice, for the configurations as they are stored in
+    // the vertices of both slices
+    computeTFE(res_.graphStructure.vertex.at(n12),
+               res_.graphStructure.vertex.at(start), tfe_);
     bridgeSlice();
 
     // Nearest vertex btw slices
-- 
2.43.0

