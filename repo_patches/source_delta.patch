From 4f2c4324955e92fc632f9e32b07eb7fb9827233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:47 +0000
Subject: [PATCH 01/64] fix: register the undo of snapping a 2D mesh to land
 boundaries under its own instance id

The undo action was added without an id, so undo reported no instance, the per-instance counts ignored it and it
outlived both new edits and the removal of the instance it refers to.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 6435847..72b7743 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -500,7 +500,7 @@ namespace meshkernelapi
             landBoundary.FindNearestMeshBoundary(meshkernel::LandBoundaries::ProjectToLandBoundaryOption::InnerAndOuterMeshBoundaryToLandBoundary);
 
             // Execute algorithm
-            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries());
+            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries(), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 3f304e48d8d3badc5153da06127ebde327901d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:47 +0000
Subject: [PATCH 02/64] fix: undo of network1d_set restores the previous
 network

The network was overwritten in place after the undo snapshot had taken a pointer to the same object.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 72b7743..166e660 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -661,8 +661,8 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Do not change the pointer, just the object it is pointing to
-            *meshKernelState[meshKernelId].m_network1d = meshkernel::Network1D(localPolylines, meshKernelState[meshKernelId].m_projection);
+            // The undo action keeps the current network, so a new object is required
+            meshKernelState[meshKernelId].m_network1d = std::make_shared<meshkernel::Network1D>(localPolylines, meshKernelState[meshKernelId].m_projection);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From 9ddafb7da69aebf04972baed00bbbf659da6cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:01 +0000
Subject: [PATCH 03/64] fix: undo of the circular grid generation restores the
 previous curvilinear grid

The grid was overwritten in place after the undo snapshot had taken a pointer to the same object.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 166e660..5f45eab 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4286,8 +4286,10 @@ namespace meshkernelapi
             }
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-            *meshKernelState[meshKernelId].m_curvilinearGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
-                                                                                                                        meshKernelState[meshKernelId].m_projection);
+            // The undo action keeps the current grid, so a new object is required
+            auto circularGrid = std::make_shared<meshkernel::CurvilinearGrid>(meshKernelState[meshKernelId].m_projection);
+            *circularGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters, meshKernelState[meshKernelId].m_projection);
+            meshKernelState[meshKernelId].m_curvilinearGrid = circularGrid;
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From c4142ee15fdc1434669be7cf46a4fa2c3a760ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:20 +0000
Subject: [PATCH 04/64] fix: copying or moving a curvilinear grid keeps its
 projection and its index offsets

The offsets hide grid lines whose insertion was undone; without them the copy made by the directional smoothing showed
those lines again, and every copy became cartesian.
---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 5ed31d5..d7269c0 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -39,23 +39,27 @@
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridNodeIndices;
 
-CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(grid.m_projection),
                                                                 m_gridNodes(grid.m_gridNodes),
                                                                 m_gridFacesMask(grid.m_gridFacesMask),
                                                                 m_gridNodesTypes(grid.m_gridNodesTypes),
-                                                                m_gridIndices(grid.m_gridIndices)
+                                                                m_gridIndices(grid.m_gridIndices),
+                                                                m_startOffset(grid.m_startOffset),
+                                                                m_endOffset(grid.m_endOffset)
 {
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
 }
 
-CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(grid.m_projection),
                                                                     m_gridNodes(std::move(grid.m_gridNodes)),
                                                                     m_gridFacesMask(std::move(grid.m_gridFacesMask)),
                                                                     m_gridNodesTypes(std::move(grid.m_gridNodesTypes)),
                                                                     m_gridIndices(std::move(grid.m_gridIndices)),
-                                                                    m_RTrees(std::move(grid.m_RTrees)) {}
+                                                                    m_RTrees(std::move(grid.m_RTrees)),
+                                                                    m_startOffset(grid.m_startOffset),
+                                                                    m_endOffset(grid.m_endOffset) {}
 
 CurvilinearGrid::CurvilinearGrid(Projection projection) : m_projection(projection)
 {
-- 
2.43.0


From 9209221a9d1f33c3be5cbd117db4efa3d4548b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:31 +0000
Subject: [PATCH 05/64] fix: undo of the directional curvilinear smoothing
 restores the unsmoothed grid

The grid was smoothed in place before being replaced, so the undo snapshot held the smoothed grid.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 5f45eab..3f0488a 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4512,8 +4512,9 @@ namespace meshkernelapi
             meshkernel::Point const lowerLeft{xLowerLeftCornerSmoothingArea, yLowerLeftCornerSmoothingArea};
             meshkernel::Point const upperRight{xUpperRightCornerSmootingArea, yUpperRightCornerSmootingArea};
 
-            // Execute
-            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(*meshKernelState[meshKernelId].m_curvilinearGrid, smoothingIterations);
+            // Execute on a copy, the undo action keeps the current grid
+            meshkernel::CurvilinearGrid smoothedGrid(*meshKernelState[meshKernelId].m_curvilinearGrid);
+            meshkernel::CurvilinearGridSmoothing curvilinearGridSmoothing(smoothedGrid, smoothingIterations);
 
             curvilinearGridSmoothing.SetLine(firstNode, secondNode);
             curvilinearGridSmoothing.SetBlock(lowerLeft, upperRight);
-- 
2.43.0


From 6abe67afb7dece2094c20f755b35593ad2288520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:31 +0000
Subject: [PATCH 06/64] fix: get_projection rejects an unknown instance id
 instead of creating that instance

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 3f0488a..4208435 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -5307,7 +5307,19 @@ namespace meshkernelapi
     MKERNEL_API int mkernel_get_projection(int meshKernelId, int& projection)
     {
         lastExitCode = meshkernel::ExitCode::Success;
-        projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        try
+        {
+            if (!meshKernelState.contains(meshKernelId))
+            {
+                throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
+            }
+
+            projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        }
+        catch (...)
+        {
+            lastExitCode = HandleException();
+        }
         return lastExitCode;
     }
 
-- 
2.43.0


From 027006906c30692c127c2148f2a9de44a34b8543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:43 +0000
Subject: [PATCH 07/64] fix: get_closest_node stops when the node search failed

An unknown instance id was inserted as an empty state and its missing mesh dereferenced.
---
 libs/MeshKernelApi/src/MeshKernel.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 4208435..f160e3f 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2845,7 +2845,7 @@ namespace meshkernelapi
         lastExitCode = meshkernel::ExitCode::Success;
         try
         {
-            int nodeIndex;
+            int nodeIndex = meshkernel::constants::missing::intValue;
             lastExitCode = static_cast<meshkernel::ExitCode>(mkernel_mesh2d_get_node_index(meshKernelId,
                                                                                            xCoordinateIn,
                                                                                            yCoordinateIn,
@@ -2856,6 +2856,11 @@ namespace meshkernelapi
                                                                                            yUpperRightBoundingBox,
                                                                                            nodeIndex));
 
+            if (lastExitCode != meshkernel::ExitCode::Success)
+            {
+                return lastExitCode;
+            }
+
             // Set the node coordinate
             const auto foundNode = meshKernelState[meshKernelId].m_mesh2d->Node(nodeIndex);
             xCoordinateOut = foundNode.x;
-- 
2.43.0


From 7ddff7c95418c0eae532c490cc9e911b97c73170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:54 +0000
Subject: [PATCH 08/64] fix: the minimum edge length skips invalidated edges

Merging nodes of a 2D mesh with a deleted edge read out of bounds.
---
 libs/MeshKernel/src/Mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9eb78f7..e50859e 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -576,6 +576,10 @@ double Mesh::ComputeMinEdgeLength(const Polygons& polygon) const
     for (UInt e = 0; e < numEdges; e++)
     {
         const auto& [firstNode, secondNode] = m_edges[e];
+        if (firstNode == constants::missing::uintValue || secondNode == constants::missing::uintValue)
+        {
+            continue;
+        }
         if (isNodeInPolygon[firstNode] || isNodeInPolygon[secondNode])
         {
             result = std::min(result, m_edgeLengths[e]);
-- 
2.43.0


From ef6639358e59b0d8eb14f370176c2da88b1e92c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:49 +0000
Subject: [PATCH 09/64] fix: undo of deleting the exterior of a curvilinear
 block restores all nodes

The four regions were restored one by one, and after each of them the nodes not yet part of a valid face were
invalidated again.
---
 .../CurvilinearGrid/CurvilinearGridDeleteExterior.cpp  | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
index 9577589..6257edf 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
@@ -29,7 +29,6 @@
 #include "MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp"
 #include "MeshKernel/CurvilinearGrid/CurvilinearGridLine.hpp"
 #include "MeshKernel/CurvilinearGrid/UndoActions/CurvilinearGridBlockUndoAction.hpp"
-#include "MeshKernel/UndoActions/CompoundUndoAction.hpp"
 
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridLine;
@@ -48,12 +47,9 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
-
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), lowerLimitJ}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, lowerLimitJ}, {lowerLimitI, upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {upperLimitI, lowerLimitJ}, {m_grid.NumN(), upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, upperLimitJ + 1}, {m_grid.NumN(), m_grid.NumM()}));
+    // A single block for all nodes: restoring the regions one by one would invalidate the nodes
+    // whose faces also depend on a region that has not been restored yet.
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     // Split into 4 regions, setting the nodes in each region to invalid
     //
-- 
2.43.0


From 8a3845d30f3a1fd1489ebf5de247590317f304c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:49 +0000
Subject: [PATCH 10/64] fix: undo of deleting a curvilinear grid node restores
 the nodes invalidated with it

Deleting a node also invalidates the nodes that are left without a valid face; only the node itself was saved.
---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index d7269c0..14769fe 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1049,13 +1049,12 @@ meshkernel::UndoActionPtr CurvilinearGrid::DeleteNode(Point const& point)
     auto const nodeToDeleteIndex = FindLocationIndex(point, Location::Nodes);
     const auto nodeToDelete = m_gridIndices[nodeToDeleteIndex];
 
-    std::unique_ptr<ResetCurvilinearNodeAction> undoAction;
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction;
 
     if (nodeToDelete.IsValid())
     {
-        undoAction = ResetCurvilinearNodeAction::Create(*this, nodeToDelete, GetNode(nodeToDelete),
-                                                        {constants::missing::doubleValue, constants::missing::doubleValue},
-                                                        true /* recomputeNodeTypes */);
+        // Nodes left without a valid face are invalidated too, so all nodes have to be saved
+        undoAction = CurvilinearGridBlockUndoAction::Create(*this, {0, 0}, {NumN(), NumM()});
 
         // Invalidate gridnodes
         GetNode(nodeToDelete.m_n, nodeToDelete.m_m) = {constants::missing::doubleValue, constants::missing::doubleValue};
-- 
2.43.0


From b6ba57d8f76daedee478da9ece7602951cdc5c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:10 +0000
Subject: [PATCH 11/64] fix: undo of a projection conversion restores the
 projection of the instance

---
 libs/MeshKernelApi/src/MKStateUndoAction.cpp |  1 +
 libs/MeshKernelApi/src/MeshKernel.cpp        | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MKStateUndoAction.cpp b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
index c0ce513..3732a1e 100644
--- a/libs/MeshKernelApi/src/MKStateUndoAction.cpp
+++ b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
@@ -54,6 +54,7 @@ void meshkernelapi::MKStateUndoAction::SwapContents()
     std::swap(m_mkState.m_network1d, m_mkStateReference.m_network1d);
     std::swap(m_mkState.m_contacts, m_mkStateReference.m_contacts);
     std::swap(m_mkState.m_curvilinearGrid, m_mkStateReference.m_curvilinearGrid);
+    std::swap(m_mkState.m_projection, m_mkStateReference.m_projection);
 }
 
 void meshkernelapi::MKStateUndoAction::DoCommit()
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index f160e3f..165a803 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1093,14 +1093,20 @@ namespace meshkernelapi
                 if (sourceProjection == meshkernel::Projection::cartesian)
                 {
                     meshkernel::ConvertCartesianToSpherical conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                 }
                 else if (sourceProjection == meshkernel::Projection::spherical)
                 {
                     meshkernel::ConvertSphericalToCartesian conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                 }
                 else
                 {
-- 
2.43.0


From f95da4d73992fa09e27e0f7f08bb3a81d7f39484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:34 +0000
Subject: [PATCH 12/64] fix: intersecting a mesh with a polyline ends when an
 edge without faces is crossed

Such an edge was never marked as visited and selected as the seed of the search over and over again.
---
 libs/MeshKernel/src/Mesh2DIntersections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DIntersections.cpp b/libs/MeshKernel/src/Mesh2DIntersections.cpp
index 952acd3..51b6b4b 100644
--- a/libs/MeshKernel/src/Mesh2DIntersections.cpp
+++ b/libs/MeshKernel/src/Mesh2DIntersections.cpp
@@ -286,6 +286,9 @@ void Mesh2DIntersections::Compute(const std::vector<Point>& polyLine)
 
         crossingEdges.push({crossedEdgeIndex, crossedSegmentIndex});
 
+        // an edge without faces is not visited by the search below and must not be selected as seed again
+        vistedEdges[crossedEdgeIndex] = true;
+
         // use breadth search along the current polyline
         while (!crossingEdges.empty())
         {
-- 
2.43.0


From a5cf893a78bf216381505480db1387c4954f0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:57 +0000
Subject: [PATCH 13/64] fix: converting a 2D mesh to a curvilinear grid ignores
 edges that belong to no face

The face of such an edge was read out of bounds.
---
 libs/MeshKernel/src/Mesh2DToCurvilinear.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
index 9eea743..ffd76c5 100644
--- a/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
+++ b/libs/MeshKernel/src/Mesh2DToCurvilinear.cpp
@@ -305,6 +305,11 @@ bool Mesh2DToCurvilinear::CheckGridLine(const UInt validNode, const UInt candida
         const auto edgeIndex = m_mesh.m_nodesEdges[candidateNode][e];
         const auto otherNode = OtherNodeOfEdge(m_mesh.GetEdge(edgeIndex), candidateNode);
 
+        if (m_mesh.m_edgesNumFaces[edgeIndex] == 0)
+        {
+            continue;
+        }
+
         bool doCheck = m_mesh.GetNumFaceEdges(m_mesh.m_edgesFaces[edgeIndex][0]) == geometric::numNodesInQuadrilateral;
 
         if (m_mesh.m_edgesNumFaces[edgeIndex] == 2)
-- 
2.43.0


From 138851547e8ee5cd8c9745ff5f5b84bc07f1bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:21 +0000
Subject: [PATCH 14/64] fix: undo of merging nodes restores the node left
 unconnected by the merge

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index e50859e..bd5f833 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -461,7 +461,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
         }
     }
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
     return undoAction;
 }
 
-- 
2.43.0


From 2211467eccd09df7de49998415f5ff7fff681125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:45 +0000
Subject: [PATCH 15/64] fix: bilinear interpolation on gridded samples skips
 invalidated edges

---
 .../MeshKernel/BilinearInterpolationOnGriddedSamples.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
index 73480e9..b7f4c7d 100644
--- a/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
+++ b/libs/MeshKernel/include/MeshKernel/BilinearInterpolationOnGriddedSamples.hpp
@@ -161,6 +161,12 @@ namespace meshkernel
         for (UInt e = 0; e < numEdges; ++e)
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
+
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             m_edgeResults[e] = 0.5 * (m_nodeResults[first] + m_nodeResults[second]);
         }
 
-- 
2.43.0


From c8a75cf920b39d4730c765407bb4bb544a387042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:58 +0000
Subject: [PATCH 16/64] fix: averaging interpolation on edges skips invalidated
 edges

---
 libs/MeshKernel/src/AveragingInterpolation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/AveragingInterpolation.cpp b/libs/MeshKernel/src/AveragingInterpolation.cpp
index 570ed54..1eb7f38 100644
--- a/libs/MeshKernel/src/AveragingInterpolation.cpp
+++ b/libs/MeshKernel/src/AveragingInterpolation.cpp
@@ -93,6 +93,11 @@ void AveragingInterpolation::Compute()
         {
             const auto& [first, second] = m_mesh.GetEdge(e);
 
+            if (first == constants::missing::uintValue || second == constants::missing::uintValue)
+            {
+                continue;
+            }
+
             const auto& firstValue = m_nodeResults[first];
             const auto& secondValue = m_nodeResults[second];
 
-- 
2.43.0


From a829e32ff1f6016e681d1f8526f355a4ec785ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:45 +0000
Subject: [PATCH 17/64] fix: the boundary line type of a curvilinear grid is
 found within the visible grid after an undo

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 14769fe..567a7b8 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -828,7 +828,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     // Corner nodes
     if (firstNode.m_m == secondNode.m_m) // Left or Right
     {
-        if (firstNode.m_m + 1 < m_gridNodes.cols() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
+        if (firstNode.m_m + 1 < NumM() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
         {
             return BoundaryGridLineType::Left;
         }
@@ -836,7 +836,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     }
     if (firstNode.m_n == secondNode.m_n) // Bottom or top
     {
-        if (firstNode.m_n + 1 < m_gridNodes.rows() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
+        if (firstNode.m_n + 1 < NumN() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
         {
             return BoundaryGridLineType::Bottom;
         }
-- 
2.43.0


From 6e30b6b2f502edc7a2c7c4a2c134a8d7656327c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:45 +0000
Subject: [PATCH 18/64] fix: undo and redo of curvilinear grid edits update the
 face location tree

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 567a7b8..167d95d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1149,6 +1149,7 @@ void CurvilinearGrid::RestoreAction(const AddGridLineUndoAction& undoAction)
     // The node and edge trees need to be rebuilt
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
 
     // Since the size of the grid has changed the node-vector needs to be reset
@@ -1161,6 +1162,7 @@ void CurvilinearGrid::CommitAction(const AddGridLineUndoAction& undoAction)
     m_endOffset -= undoAction.EndOffset();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
@@ -1170,6 +1172,7 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     ComputeGridNodeTypes();
 }
 
@@ -1178,6 +1181,7 @@ void CurvilinearGrid::CommitAction(CurvilinearGridBlockUndoAction& undoAction)
     undoAction.Swap(*this);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     ComputeGridNodeTypes();
 }
 
@@ -1186,6 +1190,7 @@ void CurvilinearGrid::RestoreAction(CurvilinearGridRefinementUndoAction& undoAct
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
@@ -1195,6 +1200,7 @@ void CurvilinearGrid::CommitAction(CurvilinearGridRefinementUndoAction& undoActi
     undoAction.Swap(m_gridNodes, m_startOffset, m_endOffset);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     m_gridIndices = ComputeNodeIndices();
     ComputeGridNodeTypes();
 }
-- 
2.43.0


From cbd28ae17a404b623e78ab7a29e71a497e03d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:51 +0000
Subject: [PATCH 19/64] fix: undo and redo of whole-mesh changes update the
 node and edge location trees

---
 libs/MeshKernel/src/Mesh.cpp   | 12 ++++++++++++
 libs/MeshKernel/src/Mesh2D.cpp |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index bd5f833..a0162cf 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1232,16 +1232,22 @@ void Mesh::CommitAction(const DeleteNodeAction& undoAction)
 void Mesh::CommitAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
     Administrate();
 }
 
@@ -1286,15 +1292,21 @@ void Mesh::RestoreAction(const DeleteNodeAction& undoAction)
 void Mesh::RestoreAction(NodeTranslationAction& undoAction)
 {
     undoAction.Swap(m_nodes);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(MeshConversionAction& undoAction)
 {
     undoAction.Swap(m_nodes, m_projection);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
 {
     undoAction.Swap(m_nodes, m_edges);
+    m_nodesRTreeRequiresUpdate = true;
+    m_edgesRTreeRequiresUpdate = true;
     Administrate();
 }
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index da66358..f61711f 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -820,11 +820,15 @@ std::unique_ptr<meshkernel::SphericalCoordinatesOffsetAction> Mesh2D::OffsetSphe
 void Mesh2D::CommitAction(const SphericalCoordinatesOffsetAction& undoAction)
 {
     undoAction.ApplyOffset(m_nodes);
+    SetNodesRTreeRequiresUpdate(true);
+    SetEdgesRTreeRequiresUpdate(true);
 }
 
 void Mesh2D::RestoreAction(const SphericalCoordinatesOffsetAction& undoAction)
 {
     undoAction.UndoOffset(m_nodes);
+    SetNodesRTreeRequiresUpdate(true);
+    SetEdgesRTreeRequiresUpdate(true);
 }
 
 meshkernel::Point Mesh2D::ComputeFaceCircumenter(std::vector<Point>& polygon,
-- 
2.43.0


From 2a3a49e963534ef6aa84719c6703d2e489354aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:07 +0000
Subject: [PATCH 20/64] fix: editing a mesh, and undoing it, updates the face
 location tree

---
 libs/MeshKernel/src/Mesh.cpp   | 21 +++++++++++++++++++++
 libs/MeshKernel/src/Mesh2D.cpp |  5 +++++
 2 files changed, 26 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index a0162cf..b355636 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -402,6 +402,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     return undoAction;
 }
 
@@ -756,6 +757,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MoveNode(Point newPoint, UInt node
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     return undoAction;
 }
 
@@ -1009,6 +1011,7 @@ Mesh& Mesh::operator+=(Mesh const& rhs)
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 
     Administrate();
 
@@ -1196,12 +1199,14 @@ void Mesh::CommitAction(const AddNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesNumEdges[undoAction.NodeId()] = 0;
     m_nodesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const ResetNodeAction& undoAction)
@@ -1209,24 +1214,28 @@ void Mesh::CommitAction(const ResetNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = undoAction.UpdatedNode();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.UpdatedEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = {constants::missing::doubleValue, constants::missing::doubleValue};
     m_nodesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(NodeTranslationAction& undoAction)
@@ -1234,6 +1243,7 @@ void Mesh::CommitAction(NodeTranslationAction& undoAction)
     undoAction.Swap(m_nodes);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(MeshConversionAction& undoAction)
@@ -1241,6 +1251,7 @@ void Mesh::CommitAction(MeshConversionAction& undoAction)
     undoAction.Swap(m_nodes, m_projection);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
@@ -1248,6 +1259,7 @@ void Mesh::CommitAction(FullUnstructuredGridUndo& undoAction)
     undoAction.Swap(m_nodes, m_edges);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     Administrate();
 }
 
@@ -1256,12 +1268,14 @@ void Mesh::RestoreAction(const AddNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = Point(constants::missing::doubleValue, constants::missing::doubleValue);
     m_nodesNumEdges[undoAction.NodeId()] = 0;
     m_nodesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const AddEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = {constants::missing::uintValue, constants::missing::uintValue};
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const ResetNodeAction& undoAction)
@@ -1269,24 +1283,28 @@ void Mesh::RestoreAction(const ResetNodeAction& undoAction)
     m_nodes[undoAction.NodeId()] = undoAction.InitialNode();
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const ResetEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.InitialEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const DeleteEdgeAction& undoAction)
 {
     m_edges[undoAction.EdgeId()] = undoAction.GetEdge();
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(const DeleteNodeAction& undoAction)
 {
     m_nodes[undoAction.NodeId()] = undoAction.Node();
     m_nodesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(NodeTranslationAction& undoAction)
@@ -1294,6 +1312,7 @@ void Mesh::RestoreAction(NodeTranslationAction& undoAction)
     undoAction.Swap(m_nodes);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(MeshConversionAction& undoAction)
@@ -1301,6 +1320,7 @@ void Mesh::RestoreAction(MeshConversionAction& undoAction)
     undoAction.Swap(m_nodes, m_projection);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
 }
 
 void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
@@ -1308,5 +1328,6 @@ void Mesh::RestoreAction(FullUnstructuredGridUndo& undoAction)
     undoAction.Swap(m_nodes, m_edges);
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
+    m_facesRTreeRequiresUpdate = true;
     Administrate();
 }
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index f61711f..fb7a344 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -141,6 +141,7 @@ Mesh2D::Mesh2D(const std::vector<Point>& inputNodes, const Polygons& polygons, P
 
     SetNodesRTreeRequiresUpdate(true);
     SetEdgesRTreeRequiresUpdate(true);
+    SetFacesRTreeRequiresUpdate(true);
 
     m_edges = edges;
     m_nodes = inputNodes;
@@ -822,6 +823,7 @@ void Mesh2D::CommitAction(const SphericalCoordinatesOffsetAction& undoAction)
     undoAction.ApplyOffset(m_nodes);
     SetNodesRTreeRequiresUpdate(true);
     SetEdgesRTreeRequiresUpdate(true);
+    SetFacesRTreeRequiresUpdate(true);
 }
 
 void Mesh2D::RestoreAction(const SphericalCoordinatesOffsetAction& undoAction)
@@ -829,6 +831,7 @@ void Mesh2D::RestoreAction(const SphericalCoordinatesOffsetAction& undoAction)
     undoAction.UndoOffset(m_nodes);
     SetNodesRTreeRequiresUpdate(true);
     SetEdgesRTreeRequiresUpdate(true);
+    SetFacesRTreeRequiresUpdate(true);
 }
 
 meshkernel::Point Mesh2D::ComputeFaceCircumenter(std::vector<Point>& polygon,
@@ -1388,6 +1391,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::TriangulateFaces()
     }
 
     SetEdgesRTreeRequiresUpdate(true);
+    SetFacesRTreeRequiresUpdate(true);
 
     return triangulationAction;
 }
@@ -1802,6 +1806,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh2D::DeleteMesh(const Polygons& polyg
 
     SetNodesRTreeRequiresUpdate(true);
     SetEdgesRTreeRequiresUpdate(true);
+    SetFacesRTreeRequiresUpdate(true);
 
     Administrate(deleteMeshAction.get());
     return deleteMeshAction;
-- 
2.43.0


From ac2602258e2322d9841633b973f86de276947159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:24 +0000
Subject: [PATCH 21/64] fix: a location query in another bounding box updates
 every location tree

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp    | 18 ++++++++++++------
 libs/MeshKernel/src/Mesh.cpp                   | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 167d95d..6826fc9 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -254,34 +254,40 @@ void CurvilinearGrid::Delete(std::shared_ptr<Polygons> polygons, UInt polygonInd
 
 void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    // The location trees are restricted to the bounding box: a different one makes all of them outdated
+    if (m_boundingBoxCache != boundingBox)
+    {
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             const auto faceCenters = ComputeFaceCenters();
             m_RTrees.at(Location::Faces)->BuildTree(faceCenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             const auto nodes = ComputeNodes();
             m_RTrees.at(Location::Nodes)->BuildTree(nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             m_edges = ComputeEdges();
             const auto edgeCenters = ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(edgeCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index b355636..d1f802f 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1158,32 +1158,38 @@ bool Mesh::IsValidEdge(const UInt edgeId) const
 
 void Mesh::BuildTree(Location location, const BoundingBox& boundingBox)
 {
+    // The location trees are restricted to the bounding box: a different one makes all of them outdated
+    if (m_boundingBoxCache != boundingBox)
+    {
+        m_nodesRTreeRequiresUpdate = true;
+        m_edgesRTreeRequiresUpdate = true;
+        m_facesRTreeRequiresUpdate = true;
+        m_boundingBoxCache = boundingBox;
+    }
+
     switch (location)
     {
     case Location::Faces:
-        if (m_facesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_facesRTreeRequiresUpdate)
         {
             Administrate();
             m_RTrees.at(Location::Faces)->BuildTree(m_facesCircumcenters, boundingBox);
             m_facesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Nodes:
-        if (m_nodesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_nodesRTreeRequiresUpdate)
         {
             m_RTrees.at(Location::Nodes)->BuildTree(m_nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Edges:
-        if (m_edgesRTreeRequiresUpdate || m_boundingBoxCache != boundingBox)
+        if (m_edgesRTreeRequiresUpdate)
         {
             ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(m_edgesCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-            m_boundingBoxCache = boundingBox;
         }
         break;
     case Location::Unknown:
-- 
2.43.0


From ba0051541d2741434c322d8e2184f6364c38e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:49 +0000
Subject: [PATCH 22/64] fix: a failing contacts computation leaves the existing
 contacts in place

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 165a803..f3cc23d 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3555,8 +3555,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeSingleContacts(meshKernel1DNodeMask, meshKernelPolygons, projectionFactor);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3586,8 +3587,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeMultipleContacts(meshKernel1DNodeMask);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3623,9 +3625,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask,
-                                                                                  meshKernelPolygons);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPolygons(meshKernel1DNodeMask, meshKernelPolygons);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3658,8 +3660,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeContactsWithPoints(meshKernel1DNodeMask, meshKernelPoints);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
@@ -3757,8 +3760,9 @@ namespace meshkernelapi
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
             // Execute
-            meshKernelState[meshKernelId].m_contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
-            meshKernelState[meshKernelId].m_contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            auto contacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            contacts->ComputeBoundaryContacts(meshKernel1DNodeMask, meshKernelPolygons, searchRadius);
+            meshKernelState[meshKernelId].m_contacts = std::move(contacts);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From d41717311e0d6b2b7fe6e0ca112a4d7faa42ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:21 +0000
Subject: [PATCH 23/64] fix: a failing orthogonalization leaves the mesh and
 the undo history unchanged

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index f3cc23d..bd72fd8 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1245,8 +1245,17 @@ namespace meshkernelapi
                                                                        std::move(landBoundary),
                                                                        static_cast<meshkernel::LandBoundaries::ProjectToLandBoundaryOption>(projectToLandBoundaryOption),
                                                                        orthogonalizationParameters);
-            meshKernelUndoStack.Add(ortogonalization.Initialize(), meshKernelId);
-            ortogonalization.Compute();
+            auto undoAction = ortogonalization.Initialize();
+            try
+            {
+                ortogonalization.Compute();
+            }
+            catch (...)
+            {
+                undoAction->Restore();
+                throw;
+            }
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From dab3403b3293d1810928e5537ff1b5af15108ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:12 +0000
Subject: [PATCH 24/64] fix: finding curvilinear grid nodes by position uses
 the node indices of the current grid

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 6826fc9..5927e1b 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -277,6 +277,7 @@ void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBo
         if (m_nodesRTreeRequiresUpdate)
         {
             const auto nodes = ComputeNodes();
+            m_gridIndices = ComputeNodeIndices();
             m_RTrees.at(Location::Nodes)->BuildTree(nodes, boundingBox);
             m_nodesRTreeRequiresUpdate = false;
         }
@@ -285,6 +286,7 @@ void CurvilinearGrid::BuildTree(Location location, const BoundingBox& boundingBo
         if (m_edgesRTreeRequiresUpdate)
         {
             m_edges = ComputeEdges();
+            m_gridIndices = ComputeNodeIndices();
             const auto edgeCenters = ComputeEdgesCenters();
             m_RTrees.at(Location::Edges)->BuildTree(edgeCenters, boundingBox);
             m_edgesRTreeRequiresUpdate = false;
-- 
2.43.0


From 5f37fdd99616a2d456f13672de44de2cd57ce194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:53 +0000
Subject: [PATCH 25/64] fix: merging two nodes with many edges does not write
 past the edge list

---
 libs/MeshKernel/src/Mesh.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index d1f802f..06d979a 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -353,8 +353,8 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     }
 
     // add all valid edges starting at secondNode
-    std::vector<UInt> secondNodeEdges(m_maximumNumberOfEdgesPerNode, constants::missing::uintValue);
-    UInt numSecondNodeEdges = 0;
+    std::vector<UInt> secondNodeEdges;
+    secondNodeEdges.reserve(m_nodesNumEdges[secondNodeIndex] + m_nodesNumEdges[firstNodeIndex]);
 
     for (UInt n = 0; n < m_nodesNumEdges[secondNodeIndex]; n++)
     {
@@ -362,8 +362,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
 
         if (m_edges[edgeIndex].first != constants::missing::uintValue)
         {
-            secondNodeEdges[numSecondNodeEdges] = edgeIndex;
-            numSecondNodeEdges++;
+            secondNodeEdges.push_back(edgeIndex);
         }
     }
 
@@ -374,7 +373,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
 
         if (m_edges[edgeIndex].first != constants::missing::uintValue)
         {
-            secondNodeEdges[numSecondNodeEdges] = edgeIndex;
+            secondNodeEdges.push_back(edgeIndex);
 
             if (m_edges[edgeIndex].first == firstNodeIndex)
             {
@@ -384,14 +383,12 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
             {
                 undoAction->Add(ResetEdge(edgeIndex, {m_edges[edgeIndex].first, secondNodeIndex}));
             }
-
-            numSecondNodeEdges++;
         }
     }
 
     // re-assign edges to second node
-    m_nodesEdges[secondNodeIndex] = std::vector<UInt>(secondNodeEdges.begin(), secondNodeEdges.begin() + numSecondNodeEdges);
-    m_nodesNumEdges[secondNodeIndex] = numSecondNodeEdges;
+    m_nodesNumEdges[secondNodeIndex] = static_cast<UInt>(secondNodeEdges.size());
+    m_nodesEdges[secondNodeIndex] = std::move(secondNodeEdges);
 
     // remove edges to first node
     m_nodesEdges[firstNodeIndex] = std::vector<UInt>(0);
-- 
2.43.0


From 5780e19dbc37d4f7c7d983bb2aec793f5a1a9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:23 +0000
Subject: [PATCH 26/64] fix: a failing Casulli refinement leaves the mesh
 unchanged

---
 libs/MeshKernel/src/CasulliRefinement.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/libs/MeshKernel/src/CasulliRefinement.cpp b/libs/MeshKernel/src/CasulliRefinement.cpp
index ccace28..0c343ba 100644
--- a/libs/MeshKernel/src/CasulliRefinement.cpp
+++ b/libs/MeshKernel/src/CasulliRefinement.cpp
@@ -31,6 +31,7 @@
 #include "MeshKernel/Exceptions.hpp"
 #include "MeshKernel/UndoActions/AddNodeAction.hpp"
 #include "MeshKernel/UndoActions/CompoundUndoAction.hpp"
+#include "MeshKernel/UndoActions/FullUnstructuredGridUndo.hpp"
 
 std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(Mesh2D& mesh)
 {
@@ -48,9 +49,21 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::CasulliRefinement::Compute(M
     const UInt numEdges = mesh.GetNumEdges();
     const UInt numFaces = mesh.GetNumFaces();
 
-    refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
-    refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
-    refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
+    const std::unique_ptr<FullUnstructuredGridUndo> originalMesh = FullUnstructuredGridUndo::Create(mesh);
+
+    try
+    {
+        refinementAction->Add(ComputeNewNodes(mesh, newNodes, nodeMask));
+        refinementAction->Add(ConnectNewNodes(mesh, newNodes, numNodes, numEdges, numFaces, nodeMask));
+        refinementAction->Add(Administrate(mesh, numNodes, nodeMask));
+    }
+    catch (...)
+    {
+        // The refinement failed, restore the original mesh
+        originalMesh->Restore();
+        throw;
+    }
+
     return refinementAction;
 }
 
-- 
2.43.0


From 1f2fb577fc010e0267f3b88e0dbfaa1a61569c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:33 +0000
Subject: [PATCH 27/64] fix: refining or de-refining a curvilinear grid after
 an undone grid line uses the whole refined grid

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp         | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 5927e1b..71c4050 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -129,10 +129,11 @@ CurvilinearGrid& CurvilinearGrid::operator=(const CurvilinearGrid& copy)
 
         m_edges = copy.m_edges;
 
+        SetGridNodes(m_gridNodes);
+
         m_startOffset = copy.m_startOffset;
         m_endOffset = copy.m_endOffset;
-
-        SetGridNodes(m_gridNodes);
+        m_gridIndices = copy.m_gridIndices;
     }
 
     return *this;
@@ -147,6 +148,10 @@ void CurvilinearGrid::SetGridNodes(const lin_alg::Matrix<Point>& gridNodes)
 
     m_gridNodes = gridNodes;
 
+    // All given nodes are part of the grid
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
+
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
     m_facesRTreeRequiresUpdate = true;
@@ -163,6 +168,10 @@ void CurvilinearGrid::SetGridNodes(lin_alg::Matrix<Point>&& gridNodes)
 
     m_gridNodes = std::move(gridNodes);
 
+    // All given nodes are part of the grid
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
+
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
     m_facesRTreeRequiresUpdate = true;
-- 
2.43.0


From 68b1eb6bf83a9f81eb6ad35a2a659b6bc9ae8f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:10 +0000
Subject: [PATCH 28/64] fix: deleting an edge with an index out of range is
 refused

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 06d979a..3a09606 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -517,7 +517,7 @@ void Mesh::SetNode(const UInt nodeId, const Point& newValue)
 
 std::unique_ptr<meshkernel::DeleteEdgeAction> Mesh::DeleteEdge(UInt edge)
 {
-    if (edge == constants::missing::uintValue) [[unlikely]]
+    if (edge >= GetNumEdges()) [[unlikely]]
     {
         throw std::invalid_argument("Mesh::DeleteEdge: The index of the edge to be deleted does not exist.");
     }
-- 
2.43.0


From 37e37c48fe89cb02aae02c6efa66d35228504238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:10 +0000
Subject: [PATCH 29/64] fix: connecting nodes with an index out of range is
 refused

---
 libs/MeshKernel/src/Mesh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 3a09606..4875807 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -479,6 +479,11 @@ std::tuple<meshkernel::UInt, std::unique_ptr<meshkernel::AddNodeAction>> Mesh::I
 
 std::tuple<meshkernel::UInt, std::unique_ptr<meshkernel::AddEdgeAction>> Mesh::ConnectNodes(UInt startNode, UInt endNode)
 {
+    if (startNode >= GetNumNodes() || endNode >= GetNumNodes()) [[unlikely]]
+    {
+        throw std::invalid_argument("Mesh::ConnectNodes: The index of a node to be connected does not exist.");
+    }
+
     if (FindEdge(startNode, endNode) != constants::missing::uintValue)
     {
         return {constants::missing::uintValue, nullptr};
-- 
2.43.0


From 4d0edf690739d969cb238a6e986d9f736e797b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:58 +0000
Subject: [PATCH 30/64] fix: curvilinear grid algorithms use the visible grid
 only after an undone grid line

---
 .../MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp | 14 +++++++++++---
 .../CurvilinearGridRefinementUndoAction.cpp        |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 94e9f69..8456474 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -398,17 +398,25 @@ namespace meshkernel
         /// @brief Get a copy of the nodes matrix
         /// @note:the m dimension is the first (or row) index, the n dimension is the second (or column) index
         /// @return a copy of the matrix
-        lin_alg::Matrix<Point> GetNodes() const { return m_gridNodes; }
+        lin_alg::Matrix<Point> GetNodes() const { return m_gridNodes.block(m_startOffset.m_n, m_startOffset.m_m, NumN(), NumM()); }
 
         /// @brief Get the array of nodes at an m-dimension index
         /// @param [in] m the m-dimension index
         /// @return a vector of N nodes
-        std::vector<Point> GetNodeVectorAtM(UInt m) const { return lin_alg::MatrixRowToSTLVector(m_gridNodes, m + m_startOffset.m_m); }
+        std::vector<Point> GetNodeVectorAtM(UInt m) const
+        {
+            const auto line = lin_alg::MatrixRowToSTLVector(m_gridNodes, m + m_startOffset.m_n);
+            return {line.begin() + m_startOffset.m_m, line.end() - m_endOffset.m_m};
+        }
 
         /// @brief Get the array of nodes at an n-dimension index
         /// @param [in] n the n-dimension index
         /// @return a vector of M nodes
-        std::vector<Point> GetNodeVectorAtN(UInt n) const { return lin_alg::MatrixColToSTLVector(m_gridNodes, n + m_startOffset.m_n); }
+        std::vector<Point> GetNodeVectorAtN(UInt n) const
+        {
+            const auto line = lin_alg::MatrixColToSTLVector(m_gridNodes, n + m_startOffset.m_m);
+            return {line.begin() + m_startOffset.m_n, line.end() - m_endOffset.m_n};
+        }
 
         /// @brief Compute a sequence of one or more outer boundary polygons separated by geometry separators
         /// @param[in]  lowerLeft   The node index of the lower left corner
diff --git a/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp b/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp
index 357cb9f..d061fb6 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/UndoActions/CurvilinearGridRefinementUndoAction.cpp
@@ -7,7 +7,7 @@ std::unique_ptr<meshkernel::CurvilinearGridRefinementUndoAction> meshkernel::Cur
 }
 
 meshkernel::CurvilinearGridRefinementUndoAction::CurvilinearGridRefinementUndoAction(CurvilinearGrid& grid)
-    : BaseMeshUndoAction<CurvilinearGridRefinementUndoAction, CurvilinearGrid>(grid), m_nodes(grid.GetNodes()), m_startOffset(grid.StartOffset()), m_endOffset(grid.EndOffset()) {}
+    : BaseMeshUndoAction<CurvilinearGridRefinementUndoAction, CurvilinearGrid>(grid), m_nodes(grid.GetNodes()), m_startOffset(0, 0), m_endOffset(0, 0) {}
 
 void meshkernel::CurvilinearGridRefinementUndoAction::Swap(lin_alg::Matrix<Point>& nodes, CurvilinearGridNodeIndices& startOffset, CurvilinearGridNodeIndices& endOffset)
 {
-- 
2.43.0


From cec8eab47b400224e1ceedaa9e9335028cd5f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:10 +0000
Subject: [PATCH 31/64] fix: inserting an edge by coordinates uses the lengths
 of the current edges

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index bd72fd8..5cbd967 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2231,10 +2231,20 @@ namespace meshkernelapi
             meshkernel::Point const secondNodeCoordinates{secondNodeX, secondNodeY};
 
             const auto newEdgeLength = ComputeDistance(firstNodeCoordinates, secondNodeCoordinates, meshKernelState[meshKernelId].m_projection);
-            const auto& edgeLengths = meshKernelState[meshKernelId].m_mesh2d->m_edgeLengths;
             constexpr auto lengthFraction = 0.01;
 
-            const auto minMeshEdgeLength = edgeLengths.empty() ? newEdgeLength : *std::ranges::min_element(edgeLengths);
+            // The shortest of the valid edges, as they are now
+            auto minMeshEdgeLength = newEdgeLength;
+            for (const auto& [start, end] : meshKernelState[meshKernelId].m_mesh2d->Edges())
+            {
+                if (start != meshkernel::constants::missing::uintValue && end != meshkernel::constants::missing::uintValue)
+                {
+                    minMeshEdgeLength = std::min(minMeshEdgeLength,
+                                                 ComputeDistance(meshKernelState[meshKernelId].m_mesh2d->Node(start),
+                                                                 meshKernelState[meshKernelId].m_mesh2d->Node(end),
+                                                                 meshKernelState[meshKernelId].m_projection));
+                }
+            }
             const auto searchRadius = std::min(newEdgeLength * lengthFraction, minMeshEdgeLength * lengthFraction);
 
             if (searchRadius <= 0.0)
-- 
2.43.0


From 5a4836c3722212bbddbba03288c19598f83895d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:15 +0000
Subject: [PATCH 32/64] fix: deleted nodes are not selected as nodes outside a
 polygon

---
 libs/MeshKernel/src/Mesh2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index fb7a344..a8d4f51 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -2092,7 +2092,7 @@ std::vector<int> Mesh2D::NodeMaskFromPolygon(const Polygons& polygon, bool insid
             isInPolygon = !isInPolygon;
         }
         nodeMask[i] = 0;
-        if (isInPolygon)
+        if (isInPolygon && m_nodes[i].IsValid())
         {
             nodeMask[i] = 1;
         }
-- 
2.43.0


From a8928a358af68714adc8428ef6cc60816ef2f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:15 +0000
Subject: [PATCH 33/64] fix: the dimension of the face polygons is zero when no
 face matches

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 5cbd967..f04e46c 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2474,6 +2474,7 @@ namespace meshkernelapi
             }
             meshKernelState[meshKernelId].m_mesh2d->Administrate();
             const auto numFaces = meshKernelState[meshKernelId].m_mesh2d->GetNumFaces();
+            geometryListDimension = 0;
             int numMatchingFaces = 0;
             for (meshkernel::UInt f = 0; f < numFaces; ++f)
             {
-- 
2.43.0


From 5d16dc1061811d59a1fd641f93940fb4e4bac5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:49 +0000
Subject: [PATCH 34/64] fix: the points included in a polygon are reported for
 every point, also for repeated points

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index f04e46c..75376b3 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2910,7 +2910,10 @@ namespace meshkernelapi
             }
             auto const polygonVector = ConvertGeometryListToPointVector(selectingPolygon);
 
-            auto const points = ConvertGeometryListToPointVector(polygonToSelect);
+            // One result for each point, also for a point that is the same as the one before
+            const auto points = meshkernel::ConvertToNodesVector(polygonToSelect.num_coordinates,
+                                                                 polygonToSelect.coordinates_x,
+                                                                 polygonToSelect.coordinates_y);
 
             const meshkernel::Polygons localPolygon(polygonVector, meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-- 
2.43.0


From 603cb2b1d4c7c80c2f5560d4e6dc15ec017fcfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:41 +0000
Subject: [PATCH 35/64] fix: inserting a face at an edge shared by two faces is
 refused

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp           | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 71c4050..768e5f2 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -689,6 +689,17 @@ meshkernel::UndoActionPtr CurvilinearGrid::InsertFace(Point const& point)
     // Compute the grid node types
     ComputeGridNodeTypes();
 
+    // A face can only be inserted at the boundary, an edge shared by two faces has no room for another face
+    const UInt n = std::min(firstNode.m_n, secondNode.m_n);
+    const UInt m = std::min(firstNode.m_m, secondNode.m_m);
+    const bool isEdgeInternal = firstNode.m_n == secondNode.m_n
+                                    ? n > 0 && n + 1 < NumN() && IsFaceMaskValid(n - 1, m) && IsFaceMaskValid(n, m)
+                                    : m > 0 && m + 1 < NumM() && IsFaceMaskValid(n, m - 1) && IsFaceMaskValid(n, m);
+    if (isEdgeInternal)
+    {
+        throw std::invalid_argument("CurvilinearGrid::InsertFace: Not a boundary grid line");
+    }
+
     // Add a new edge
     UndoActionPtr undoAction = AddEdge(firstNode, secondNode);
 
-- 
2.43.0


From 1347597791b0318e8eee55575d4df63fb139570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:41 +0000
Subject: [PATCH 36/64] fix: the lower-left lines of the block are not among
 the internal nodes of the curvilinear grid orthogonalization

---
 .../src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
index 0bd5669..07f781f 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridOrthogonalization.cpp
@@ -268,8 +268,8 @@ void CurvilinearGridOrthogonalization::Solve()
     const double factor = 0.9 * 0.9;
 
     // Only the internal nodes of the orthogonalization box
-    const auto minMInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_m);
-    const auto minNInternal = std::max(static_cast<UInt>(1), m_lowerLeft.m_n);
+    const auto minMInternal = m_lowerLeft.m_m + 1;
+    const auto minNInternal = m_lowerLeft.m_n + 1;
 
     const auto maxMInternal = std::min(m_upperRight.m_m, m_grid.NumM() - 1);
     const auto maxNInternal = std::min(m_upperRight.m_n, m_grid.NumN() - 1);
-- 
2.43.0


From 81c94508b90589c02005581da48dea078633ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:58 +0000
Subject: [PATCH 37/64] fix: mirroring the left line of a curvilinear grid
 saves the nodes of the new line for undo

---
 .../src/CurvilinearGrid/CurvilinearGridLineMirror.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index b7d8ce8..70aba04 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -91,8 +91,8 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
         upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
         break;
     case Left:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_lines[0].m_startCoordinate + 1};
+        lowerLeft = {m_lines[0].m_startCoordinate, 0};
+        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
         break;
     default:
         throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
-- 
2.43.0


From 45cd1d41ad2803916f2d225cb34ae1b8646e2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:27 +0000
Subject: [PATCH 38/64] fix: a grid line that is added again after an undo
 starts without the undone nodes

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 768e5f2..39bc619 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -755,6 +755,8 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
                 else
                 {
                     m_startOffset.m_n -= 1;
+                    // The line may still hold the nodes of an undone action
+                    m_gridNodes.row(m_startOffset.m_n).setConstant(Point());
                 }
 
                 undoAction = AddGridLineUndoAction::Create(*this, {1, 0}, {0, 0});
@@ -774,6 +776,8 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
                 else
                 {
                     m_endOffset.m_n -= 1;
+                    // The line may still hold the nodes of an undone action
+                    m_gridNodes.row(FullNumN() - 1 - m_endOffset.m_n).setConstant(Point());
                 }
 
                 undoAction = AddGridLineUndoAction::Create(*this, {0, 0}, {1, 0});
@@ -793,6 +797,8 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
                 else
                 {
                     m_endOffset.m_m -= 1;
+                    // The line may still hold the nodes of an undone action
+                    m_gridNodes.col(FullNumM() - 1 - m_endOffset.m_m).setConstant(Point());
                 }
 
                 undoAction = AddGridLineUndoAction::Create(*this, {0, 0}, {0, 1});
@@ -814,6 +820,8 @@ std::tuple<bool, meshkernel::UndoActionPtr> CurvilinearGrid::AddGridLineAtBounda
                 else
                 {
                     m_startOffset.m_m -= 1;
+                    // The line may still hold the nodes of an undone action
+                    m_gridNodes.col(m_startOffset.m_m).setConstant(Point());
                 }
 
                 undoAction = AddGridLineUndoAction::Create(*this, {0, 1}, {0, 0});
-- 
2.43.0


From 6d728b41f07aae5d4bbc40bd446d5f6afb2e0d3a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:21:46 +0000
Subject: [PATCH 39/64] fix: contacts with points and polygons respect the 1d
 node mask

ComputeContactsWithPoints ignored the mask, and ComputeContactsWithPolygons
failed as soon as the 1d node nearest to a face was masked out.
---
 .../include/MeshKernel/Contacts.hpp           |  8 ++++
 libs/MeshKernel/src/Contacts.cpp              | 45 ++++++++++++++-----
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/Contacts.hpp b/libs/MeshKernel/include/MeshKernel/Contacts.hpp
index e0553dc..d5c6e21 100644
--- a/libs/MeshKernel/include/MeshKernel/Contacts.hpp
+++ b/libs/MeshKernel/include/MeshKernel/Contacts.hpp
@@ -27,8 +27,11 @@
 
 #pragma once
 
+#include <memory>
+
 #include <MeshKernel/Mesh1D.hpp>
 #include <MeshKernel/Mesh2D.hpp>
+#include <MeshKernel/Utilities/RTreeBase.hpp>
 
 /// \namespace meshkernel
 /// @brief Contains the logic of the C++ static library
@@ -164,6 +167,11 @@ namespace meshkernel
         void Connect1dNodesWithCrossingFaces(UInt node,
                                              double projectionFactor);
 
+        /// @brief Builds a search tree of the 1d nodes that may be connected
+        /// @param[in] oneDNodeMask The mask to apply to 1d nodes (true = connect node, false = do not generate contacts)
+        /// @return The search tree
+        [[nodiscard]] std::unique_ptr<RTreeBase> BuildConnectableNodesTree(const std::vector<bool>& oneDNodeMask) const;
+
         /// @brief Validate checking mesh1d and mesh2d are not empty, throws an exception otherwise
         void Validate() const;
 
diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 52a0f47..571115f 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -244,6 +244,23 @@ void Contacts::ComputeMultipleContacts(const std::vector<bool>& oneDNodeMask)
     m_areComputed = true;
 }
 
+std::unique_ptr<meshkernel::RTreeBase> Contacts::BuildConnectableNodesTree(const std::vector<bool>& oneDNodeMask) const
+{
+    // invalid points are not added to the tree
+    std::vector<Point> nodes(m_mesh1d.Nodes());
+    for (UInt n = 0; n < nodes.size(); ++n)
+    {
+        if (!oneDNodeMask[n])
+        {
+            nodes[n].SetInvalid();
+        }
+    }
+
+    auto rtree = RTreeFactory::Create(m_mesh1d.m_projection);
+    rtree->BuildTree(nodes);
+    return rtree;
+}
+
 void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask,
                                            const Polygons& polygons)
 {
@@ -279,18 +296,23 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     std::vector<double> minimalDistance(polygons.GetNumPolygons(), constants::missing::doubleValue);
     std::vector<UInt> closest1dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
     std::vector<UInt> closest2dNodeIndices(polygons.GetNumPolygons(), constants::missing::uintValue);
-    m_mesh1d.BuildTree(Location::Nodes);
+    const auto rtree = BuildConnectableNodesTree(oneDNodeMask);
 
     for (UInt faceIndex = 0; faceIndex < m_mesh2d.GetNumFaces(); ++faceIndex)
     {
-        // if face is not within a polygon, continue
-        if (!faceInPolygon[faceIndex])
+        // if face is not within a polygon or no 1d node can be connected, continue
+        if (!faceInPolygon[faceIndex] || rtree->Empty())
         {
             continue;
         }
         const auto polygonIndex = facePolygonIndex[faceIndex];
         const auto faceMassCenter = m_mesh2d.m_facesMassCenters[faceIndex];
-        const auto close1DNodeIndex = m_mesh1d.FindLocationIndex(faceMassCenter, Location::Nodes, oneDNodeMask);
+        rtree->SearchNearestPoint(faceMassCenter);
+        if (!rtree->HasQueryResults())
+        {
+            continue;
+        }
+        const auto close1DNodeIndex = rtree->GetQueryResult(0);
 
         const auto close1DNode = m_mesh1d.Node(close1DNodeIndex);
         const auto squaredDistance = ComputeSquaredDistance(faceMassCenter, close1DNode, m_mesh2d.m_projection);
@@ -326,13 +348,12 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
                              m_mesh1d.GetNumNodes());
     }
 
-    // perform mesh1d administration (m_nodesRTree will also be build if necessary)
+    // perform mesh1d administration
     m_mesh1d.AdministrateNodesEdges();
 
     Validate();
 
-    m_mesh1d.BuildTree(Location::Nodes);
-    auto& rtree = m_mesh1d.GetRTree(Location::Nodes);
+    const auto rtree = BuildConnectableNodesTree(oneDNodeMask);
 
     // find the face indices containing the 1d points
     const auto pointsFaceIndices = m_mesh2d.PointFaceIndices(points);
@@ -340,23 +361,23 @@ void Contacts::ComputeContactsWithPoints(const std::vector<bool>& oneDNodeMask,
     // for each 1d node in the 2d mesh, find the closest 1d node.
     for (UInt i = 0; i < points.size(); ++i)
     {
-        // point not in the mesh
-        if (pointsFaceIndices[i] == constants::missing::uintValue)
+        // point not in the mesh or no 1d node can be connected
+        if (pointsFaceIndices[i] == constants::missing::uintValue || rtree->Empty())
         {
             continue;
         }
 
         // get the closest 1d node
-        rtree.SearchNearestPoint(points[i]);
+        rtree->SearchNearestPoint(points[i]);
 
         // if nothing found continue
-        if (rtree.GetQueryResultSize() == 0)
+        if (!rtree->HasQueryResults())
         {
             continue;
         }
 
         // form the 1d-2d contact
-        m_mesh1dIndices.emplace_back(rtree.GetQueryResult(0));
+        m_mesh1dIndices.emplace_back(rtree->GetQueryResult(0));
         m_mesh2dIndices.emplace_back(pointsFaceIndices[i]);
     }
 
-- 
2.43.0


From 397fe87606afba8a28ffa57f9be20f583b239b38 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:21:46 +0000
Subject: [PATCH 40/64] fix: no invalid contacts for polygons without 2d faces

---
 libs/MeshKernel/src/Contacts.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/MeshKernel/src/Contacts.cpp b/libs/MeshKernel/src/Contacts.cpp
index 571115f..462862d 100644
--- a/libs/MeshKernel/src/Contacts.cpp
+++ b/libs/MeshKernel/src/Contacts.cpp
@@ -330,6 +330,11 @@ void Contacts::ComputeContactsWithPolygons(const std::vector<bool>& oneDNodeMask
     // connect 1D nodes to closest 2d node in a polygon
     for (UInt polygonIndex = 0; polygonIndex < polygons.GetNumPolygons(); ++polygonIndex)
     {
+        // no face or no 1d node to connect for this polygon
+        if (closest1dNodeIndices[polygonIndex] == constants::missing::uintValue)
+        {
+            continue;
+        }
         m_mesh1dIndices.emplace_back(closest1dNodeIndices[polygonIndex]);
         m_mesh2dIndices.emplace_back(closest2dNodeIndices[polygonIndex]);
     }
-- 
2.43.0


From 5e04bc3bc37a5fb1555fff68c027dc6a9b67d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:50 +0000
Subject: [PATCH 41/64] fix: a 1d mesh from a network of three or more
 polylines connects the nodes of all of them

---
 libs/MeshKernel/src/Mesh1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh1D.cpp b/libs/MeshKernel/src/Mesh1D.cpp
index 4630073..3b658a6 100644
--- a/libs/MeshKernel/src/Mesh1D.cpp
+++ b/libs/MeshKernel/src/Mesh1D.cpp
@@ -62,7 +62,7 @@ Mesh1D::Mesh1D(Network1D& network1d, double minFaceSize)
             edges.emplace_back(i, i + 1);
         }
         // Poly lines are separated. If the end of one polyline coincides with the start of another, the two nodes will be merged later on.
-        numNodes = numNodes + static_cast<UInt>(nodes.size());
+        numNodes = static_cast<UInt>(nodes.size());
     }
 
     // Sets the edges, nodes and projections
-- 
2.43.0


From 7ddd88e63474f72f2762267ed222302a3ab40890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:50 +0000
Subject: [PATCH 42/64] fix: a fixed chainage at the start of a polyline does
 not replace its end chainage

---
 libs/MeshKernel/src/Network1D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Network1D.cpp b/libs/MeshKernel/src/Network1D.cpp
index d700494..bcd1dd8 100644
--- a/libs/MeshKernel/src/Network1D.cpp
+++ b/libs/MeshKernel/src/Network1D.cpp
@@ -73,7 +73,8 @@ void Network1D::ComputeFixedChainages(std::vector<std::vector<double>> const& fi
         double const endChainage = m_chainages[p][1];
 
         double previousChainage = startChainage;
-        bool previousChainageIsAFixedPoint = IsEqual(previousChainage, fixedChainagesByPolyline[p].front()) ? true : false;
+        // true when the last chainage has been added for a fixed point
+        bool previousChainageIsAFixedPoint = false;
         for (auto const& fixedChainage : fixedChainagesByPolyline[p])
         {
             if (const auto chainageBeforeFixedPoint = fixedChainage - fixedChainagesOffset; chainageBeforeFixedPoint - previousChainage >= minFaceSize && chainageBeforeFixedPoint > startChainage)
-- 
2.43.0


From 1270b5472991500cf0be040846a79f9d41fc69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 43/64] fix: the fourth corner of a transfinite grid wraps
 around the start of a clockwise polygon

---
 .../src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp    | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 4262773..0e5637b 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -127,13 +127,7 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
     }
 
     // get the fourth node
-    auto fourthNode = thirdNode + direction * (numMNodes - 1);
-
-    // This can never be true now
-    if (fourthNode < start)
-    {
-        fourthNode += numPolygonNodes;
-    }
+    auto fourthNode = direction == 1 ? thirdNode + (numMNodes - 1) : thirdNode + numPolygonNodes - (numMNodes - 1);
 
     if (fourthNode >= numPolygonNodes)
     {
-- 
2.43.0


From 7418b31b2b0212377eb1f1dcb43b3ded62e09d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:40 +0000
Subject: [PATCH 44/64] fix: the discretization of a polyline skips all
 segments shorter than the distance between two chainages

---
 libs/MeshKernel/src/Operations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index df7ddba..ce13d3a 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -1625,7 +1625,7 @@ namespace meshkernel
         std::sort(chainages.begin(), chainages.end());
         for (auto const& chainage : chainages)
         {
-            if (chainage > polylineNodalCoordinate[curentNodalIndex + 1])
+            while (curentNodalIndex + 2 < polyline.size() && chainage > polylineNodalCoordinate[curentNodalIndex + 1])
             {
                 curentNodalIndex++;
             }
-- 
2.43.0


From 6a3ff51a6345b3f5019ce9ec236c5975d5e0b1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:48 +0000
Subject: [PATCH 45/64] fix: the offset of several polygons, or of a polygon
 with holes, keeps its polygons apart

---
 libs/MeshKernel/src/Polygons.cpp | 47 ++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/libs/MeshKernel/src/Polygons.cpp b/libs/MeshKernel/src/Polygons.cpp
index 2d3aa21..917739b 100644
--- a/libs/MeshKernel/src/Polygons.cpp
+++ b/libs/MeshKernel/src/Polygons.cpp
@@ -190,39 +190,44 @@ std::vector<meshkernel::Point> Polygons::LinearRefinePolygon(UInt polygonIndex,
 
 meshkernel::Polygons Polygons::OffsetCopy(double distance, bool innerAndOuter) const
 {
-    UInt totalNumberOfPoints = GetNumNodes();
-    // TODO Should the invalid points between enclosures be added too.
-    // TODO use the correct separators between enclosures and inner polygons.
-    std::vector<Point> newPolygonPoints(totalNumberOfPoints + (innerAndOuter ? totalNumberOfPoints + 1 : 0), Point());
+    const Point outerSeparator{constants::missing::doubleValue, constants::missing::doubleValue};
+    const Point innerSeparator{constants::missing::innerOuterSeparator, constants::missing::innerOuterSeparator};
 
-    UInt innerCount = 0;
-    UInt outerCount = totalNumberOfPoints;
+    std::vector<Point> newPolygonPoints;
+    // The polygons at the other side, only if innerAndOuter
+    std::vector<Point> otherPolygonPoints;
 
-    for (const PolygonalEnclosure& enclosure : m_enclosures)
+    const auto appendOffset = [&](const Polygon& polygon, const Point& separator)
     {
-        std::vector<Point> outerOffsetPoints(enclosure.Outer().ComputeOffset(distance, innerAndOuter));
+        const std::vector<Point> offsetPoints(polygon.ComputeOffset(distance, innerAndOuter));
+        const auto firstEnd = offsetPoints.begin() + polygon.Size();
 
-        for (size_t i = 0; i < outerOffsetPoints.size(); ++i)
+        if (!newPolygonPoints.empty())
         {
-            newPolygonPoints[innerCount] = outerOffsetPoints[i];
-            ++innerCount;
+            newPolygonPoints.emplace_back(separator);
         }
 
-        for (size_t i = 0; i < enclosure.NumberOfInner(); ++i)
+        newPolygonPoints.insert(newPolygonPoints.end(), offsetPoints.begin(), firstEnd);
+
+        if (innerAndOuter)
         {
-            std::vector<Point> innerOffsetPoints(enclosure.Inner(i).ComputeOffset(distance, innerAndOuter));
-            // Probably add inner separator here (if not the last)
-
-            for (size_t j = 0; j < outerOffsetPoints.size(); ++j)
-            {
-                newPolygonPoints[outerCount] = outerOffsetPoints[j];
-                ++outerCount;
-            }
+            otherPolygonPoints.emplace_back(otherPolygonPoints.empty() ? outerSeparator : separator);
+            otherPolygonPoints.insert(otherPolygonPoints.end(), std::next(firstEnd), offsetPoints.end());
         }
+    };
+
+    for (const PolygonalEnclosure& enclosure : m_enclosures)
+    {
+        appendOffset(enclosure.Outer(), outerSeparator);
 
-        // Probably add outer separator here (if not the last)
+        for (UInt i = 0; i < enclosure.NumberOfInner(); ++i)
+        {
+            appendOffset(enclosure.Inner(i), innerSeparator);
+        }
     }
 
+    newPolygonPoints.insert(newPolygonPoints.end(), otherPolygonPoints.begin(), otherPolygonPoints.end());
+
     // set the new polygon
     Polygons newPolygon{newPolygonPoints, m_projection};
     return newPolygon;
-- 
2.43.0


From b8b03efbd8ea8ce64bc62fff8fed805ee0c276a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:14 +0000
Subject: [PATCH 46/64] fix: snapping one of several polygons to a land
 boundary leaves the others as they are

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 75376b3..c769eac 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3299,14 +3299,15 @@ namespace meshkernelapi
             const auto [enclosureIndex, polygonStartNode, polygonEndNode] = polygons.PolygonIndex(startIndex, endIndex);
 
             //--------------------------------
-            // Now copy back the polygon values
+            // Now copy back the polygon values, of the polygon that has been snapped
 
             const std::vector<meshkernel::Point>& snappedPolygonPoints = polygons.Enclosure(enclosureIndex).Outer().Nodes();
+            const auto offset = static_cast<size_t>(startIndex) - polygonStartNode;
 
-            for (int i = 0; i < polygon.num_coordinates; ++i)
+            for (size_t i = 0; i < snappedPolygonPoints.size(); ++i)
             {
-                polygon.coordinates_x[i] = snappedPolygonPoints[i].x;
-                polygon.coordinates_y[i] = snappedPolygonPoints[i].y;
+                polygon.coordinates_x[offset + i] = snappedPolygonPoints[i].x;
+                polygon.coordinates_y[offset + i] = snappedPolygonPoints[i].y;
             }
         }
         catch (...)
-- 
2.43.0


From 164770c9fa5964c1ddb25b5804cb783e52e72c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:14 +0000
Subject: [PATCH 47/64] fix: linear refinement of a polygon gives no invalid
 points when it stops after its last iteration

---
 libs/MeshKernel/src/Polygon.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/MeshKernel/src/Polygon.cpp b/libs/MeshKernel/src/Polygon.cpp
index a8814be..081a64e 100644
--- a/libs/MeshKernel/src/Polygon.cpp
+++ b/libs/MeshKernel/src/Polygon.cpp
@@ -610,6 +610,15 @@ std::vector<meshkernel::Point> meshkernel::Polygon::LinearRefine(const UInt star
         outerIter++;
     }
 
+    if (outerIter == maxOuterIter)
+    {
+        // The number of points has been changed by the last iteration
+        for (UInt i = 0; i < cumulativeDistances.size(); ++i)
+        {
+            result[i] = interpolatePointOnPolyline(polygonNodes, initialCumulativeDistances, cumulativeDistances[i]);
+        }
+    }
+
     if (endIndex > startIndex)
     {
         result.insert(result.begin(), m_nodes.begin(), m_nodes.begin() + startIndex);
-- 
2.43.0


From 63a5af21db430ad08bf335df34b11da104fab9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:17 +0000
Subject: [PATCH 48/64] fix: a point on the extension of a polygon side, but
 not on the side, is not inside the polygon

---
 libs/MeshKernel/src/Operations.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Operations.cpp b/libs/MeshKernel/src/Operations.cpp
index ce13d3a..0106e83 100644
--- a/libs/MeshKernel/src/Operations.cpp
+++ b/libs/MeshKernel/src/Operations.cpp
@@ -226,9 +226,11 @@ namespace meshkernel
 
                 const auto crossProductValue = crossProduct(polygonNodes[n], polygonNodes[n + 1], polygonNodes[n], point, Projection::cartesian);
 
-                if (IsEqual(crossProductValue, 0.0))
+                if (IsEqual(crossProductValue, 0.0) &&
+                    point.x >= std::min(polygonNodes[n].x, polygonNodes[n + 1].x) && point.x <= std::max(polygonNodes[n].x, polygonNodes[n + 1].x) &&
+                    point.y >= std::min(polygonNodes[n].y, polygonNodes[n + 1].y) && point.y <= std::max(polygonNodes[n].y, polygonNodes[n + 1].y))
                 {
-                    // point on the line
+                    // point on the line segment
                     return true;
                 }
 
-- 
2.43.0


From b500148f100c102a9c9c394a653900e40a0f53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:52 +0000
Subject: [PATCH 49/64] fix: flipping edges makes no edge along two collinear
 sides of the mesh

---
 libs/MeshKernel/src/FlipEdges.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/FlipEdges.cpp b/libs/MeshKernel/src/FlipEdges.cpp
index 7657b38..1350d88 100644
--- a/libs/MeshKernel/src/FlipEdges.cpp
+++ b/libs/MeshKernel/src/FlipEdges.cpp
@@ -126,7 +126,12 @@ std::unique_ptr<meshkernel::UndoAction> FlipEdges::Compute() const
                                                            false,
                                                            m_mesh.m_projection);
 
-            if (!areEdgesCrossing)
+            // If a node of the edge lies on the other diagonal then the two triangles form a triangle:
+            // the flipped edge would coincide with two of its sides
+            constexpr double tolerance = 1.0e-8;
+            const bool isAtEdgeNode = firstRatio < tolerance || firstRatio > 1.0 - tolerance;
+
+            if (!areEdgesCrossing || isAtEdgeNode)
             {
                 continue;
             }
-- 
2.43.0


From bee567c96f0e9fce0356742c39ba70f23aa57ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:45 +0000
Subject: [PATCH 50/64] fix: the edges of faces given with a mesh follow the
 order of their nodes

---
 libs/MeshKernel/src/Mesh2D.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index a8d4f51..1905952 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -557,11 +557,31 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
         local_nodes.clear();
         local_node_indices.clear();
 
+        // The face edges connect the consecutive face nodes
+        for (UInt n = 0; n < m_facesNodes[f].size(); ++n)
+        {
+            const auto edge = FindEdge(m_facesNodes[f][n], m_facesNodes[f][NextCircularForwardIndex(n, static_cast<UInt>(m_facesNodes[f].size()))]);
+            if (edge == constants::missing::uintValue)
+            {
+                break;
+            }
+            local_edges.emplace_back(edge);
+            local_nodes.emplace_back(m_nodes[m_facesNodes[f][n]]);
+        }
+
+        const bool areFaceEdgesFound = local_edges.size() == m_facesNodes[f].size();
+        if (!areFaceEdgesFound)
+        {
+            // The face nodes are not in order
+            local_edges.clear();
+            local_nodes.clear();
+            local_nodes.emplace_back(m_nodes[m_facesNodes[f][0]]);
+            local_node_indices.emplace_back(m_facesNodes[f][0]);
+        }
+
         auto node = m_facesNodes[f][0];
-        local_nodes.emplace_back(m_nodes[node]);
-        local_node_indices.emplace_back(node);
         UInt index = 0;
-        while (index < m_nodesEdges[node].size())
+        while (!areFaceEdgesFound && index < m_nodesEdges[node].size())
         {
             const auto edge = m_nodesEdges[node][index];
             const auto other_node = OtherNodeOfEdge(m_edges[edge], node);
@@ -592,7 +612,7 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
         m_facesEdges.emplace_back(local_edges);
         for (const auto& e : local_edges)
         {
-            if (m_edgesNumFaces[e] > 2)
+            if (m_edgesNumFaces[e] >= 2)
             {
                 throw AlgorithmError("FindFacesGivenMappings: m_edgesNumFaces > 2.");
             }
-- 
2.43.0


From a44365639a3567f6a1911b6fa4dbe5229ca7255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:06 +0000
Subject: [PATCH 51/64] fix: a node dropped by the administration is no longer
 found in location searches

---
 libs/MeshKernel/src/Mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 4875807..fef45e6 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -173,6 +173,7 @@ void Mesh::InvalidateUnConnectedNodes(const std::vector<bool>& connectedNodes, U
             if (undoAction == nullptr)
             {
                 m_nodes[n].SetInvalid();
+                m_nodesRTreeRequiresUpdate = true;
             }
             else
             {
-- 
2.43.0


From a672d0cdeef2bf87437bac1c971a27b0ad61916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:29 +0000
Subject: [PATCH 52/64] fix: splitting a row of quadrilaterals that starts at a
 face with more than four corners

---
 libs/MeshKernel/src/SplitRowColumnOfMesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
index 16353ef..a3bb3c3 100644
--- a/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
+++ b/libs/MeshKernel/src/SplitRowColumnOfMesh.cpp
@@ -285,7 +285,8 @@ void meshkernel::SplitRowColumnOfMesh::CollectElementsOneSideOfEdge(const Mesh2D
         firstIteration = false;
     }
 
-    if (IsValid(currentEdgeId))
+    // The seed edge is already in the sequence if there are no elements to be split on the second side
+    if (IsValid(currentEdgeId) && (whichSide == 0 || !firstIteration))
     {
         partialEdgeIds.push_back(currentEdgeId);
     }
-- 
2.43.0


From 2948c77b5db43aa417016634e2670da8157eadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:34 +0000
Subject: [PATCH 53/64] fix: connecting a mesh along four hanging nodes follows
 the direction of the next edges

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index 0ff2797..a0b099b 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -580,8 +580,19 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::FreeFourHangi
     }
 
     const UInt firstNextOppositeEdge = mesh.FindOppositeEdge(firstNextFace, edgeId);
-    const UInt firstNextOppositeStartNode = mesh.GetEdge(firstNextOppositeEdge).first;
-    const UInt firstNextOppositeEndNode = mesh.GetEdge(firstNextOppositeEdge).second;
+    UInt firstNextOppositeStartNode = mesh.GetEdge(firstNextOppositeEdge).first;
+    UInt firstNextOppositeEndNode = mesh.GetEdge(firstNextOppositeEdge).second;
+
+    // The opposite edge may be directed the other way
+    if (std::get<0>(AreSegmentsCrossing(mesh.Node(startNode),
+                                        mesh.Node(firstNextOppositeStartNode),
+                                        mesh.Node(endNode),
+                                        mesh.Node(firstNextOppositeEndNode),
+                                        false,
+                                        mesh.m_projection)))
+    {
+        std::swap(firstNextOppositeStartNode, firstNextOppositeEndNode);
+    }
 
     //--------------------------------
     // Create 2 new nodes (labelled 4 and 5 in ASCII diagram)
-- 
2.43.0


From b2c821a32a93469d79f41132e225ed470f0935bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:51 +0000
Subject: [PATCH 54/64] fix: steps of the curvilinear line shift without its
 initialisation are refused

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index c769eac..bc0bcc0 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4615,6 +4615,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshkernel::Point const firstNode{xFirstGridLineNode, yFirstGridLineNode};
             meshkernel::Point const secondNode{xSecondGridLineNode, ySecondGridLineNode};
 
@@ -4677,6 +4682,11 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
 
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshkernel::Point const lowerLeftPoint{xLowerLeftCorner, yLowerLeftCorner};
             meshkernel::Point const upperRightPoint{xUpperRightCorner, yUpperRightCorner};
 
@@ -4702,6 +4712,12 @@ namespace meshkernelapi
             {
                 throw meshkernel::MeshKernelError("The selected mesh kernel state does not exist.");
             }
+
+            if (meshKernelState[meshKernelId].m_curvilinearGridLineShift == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Curvilinear grid line shift algorithm instance is null.");
+            }
+
             meshkernel::Point const fromPoint{xFromCoordinate, yFromCoordinate};
             meshkernel::Point const toPoint{xToCoordinate, yToCoordinate};
             meshKernelUndoStack.Add(meshKernelState[meshKernelId].m_curvilinearGridLineShift->MoveNode(fromPoint, toPoint), meshKernelId);
-- 
2.43.0


From dbe51c476afd49910db138225dc7ca19efaaed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:51 +0000
Subject: [PATCH 55/64] fix: steps of the mesh orthogonalization without its
 initialisation are refused

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index bc0bcc0..389e120 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1326,6 +1326,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Orthogonalization algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->PrepareOuterIteration();
         }
         catch (...)
@@ -1350,6 +1355,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Orthogonalization algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->Solve();
         }
         catch (...)
@@ -1408,6 +1418,11 @@ namespace meshkernelapi
                 return lastExitCode;
             }
 
+            if (meshKernelState[meshKernelId].m_meshOrthogonalization == nullptr)
+            {
+                throw meshkernel::MeshKernelError("Orthogonalization algorithm instance is null.");
+            }
+
             meshKernelState[meshKernelId].m_meshOrthogonalization->FinalizeOuterIteration();
         }
         catch (...)
-- 
2.43.0


From cdb5fe9c72a52cd0149dfb6a241e2f02f5b21b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:53 +0000
Subject: [PATCH 56/64] fix: snapping a mesh with a node exactly on the land
 boundary

---
 libs/MeshKernel/src/LandBoundaries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/LandBoundaries.cpp b/libs/MeshKernel/src/LandBoundaries.cpp
index 6ced51f..f141f8b 100644
--- a/libs/MeshKernel/src/LandBoundaries.cpp
+++ b/libs/MeshKernel/src/LandBoundaries.cpp
@@ -961,7 +961,7 @@ std::tuple<double, meshkernel::Point, meshkernel::UInt, double> LandBoundaries::
 
         const auto [distanceFromLandBoundary, normalPoint, ratio] = DistanceFromLine(node, m_landBoundary.Node(n), m_landBoundary.Node(n + 1), m_mesh.m_projection);
 
-        if (distanceFromLandBoundary > 0.0 && distanceFromLandBoundary < minimumDistance)
+        if (distanceFromLandBoundary >= 0.0 && distanceFromLandBoundary < minimumDistance)
         {
             minimumDistance = distanceFromLandBoundary;
             pointOnLandBoundary = normalPoint;
-- 
2.43.0


From 3917be7f07c6435a703c05e93bd37a6bb653e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:09 +0000
Subject: [PATCH 57/64] fix: the middle of the three blocks in a triangle lies
 inside it when its sides have different numbers of points

---
 .../src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
index 0e5637b..3f9a235 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp
@@ -303,8 +303,8 @@ std::unique_ptr<CurvilinearGrid> CurvilinearGridFromPolygon::Compute(UInt firstN
 
     // compute triangle middle point
     const auto xia = static_cast<double>(n1) / static_cast<double>(numPointsFirstSide);
-    const auto xib = static_cast<double>(n2) / static_cast<double>(numPointsSecondSide);
-    const auto xic = static_cast<double>(n3) / static_cast<double>(numPointsThirdSide);
+    const auto xib = static_cast<double>(n3) / static_cast<double>(numPointsSecondSide);
+    const auto xic = static_cast<double>(n2) / static_cast<double>(numPointsThirdSide);
 
     auto const& polygonNodes = m_polygon.Nodes();
 
-- 
2.43.0


From 6b87ccb72583f74934102953252d1bb53d322416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:10 +0000
Subject: [PATCH 58/64] fix: a mesh with an edge or a face of a node that does
 not exist is refused

---
 libs/MeshKernel/src/Mesh.cpp   | 10 ++++++++++
 libs/MeshKernel/src/Mesh2D.cpp |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index fef45e6..d238f51 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -62,6 +62,16 @@ Mesh::Mesh(const std::vector<Edge>& edges,
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
+
+    const auto isUnknownNode = [this](const UInt node)
+    { return node != constants::missing::uintValue && node >= m_nodes.size(); };
+
+    if (std::ranges::any_of(m_edges, [&isUnknownNode](const Edge& edge)
+                            { return isUnknownNode(edge.first) || isUnknownNode(edge.second); }))
+    {
+        throw ConstraintError("An edge refers to a node that does not exist, the number of nodes is {}", m_nodes.size());
+    }
+
     DeleteInvalidNodesAndEdges();
 }
 
diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index 1905952..5ae7116 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -557,6 +557,12 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
         local_nodes.clear();
         local_node_indices.clear();
 
+        if (std::ranges::any_of(m_facesNodes[f], [this](const UInt node)
+                                { return node >= m_nodes.size(); }))
+        {
+            throw ConstraintError("A face refers to a node that does not exist, the number of nodes is {}", m_nodes.size());
+        }
+
         // The face edges connect the consecutive face nodes
         for (UInt n = 0; n < m_facesNodes[f].size(); ++n)
         {
-- 
2.43.0


From fd66f45ac7b3f7a8c9c536e1c814da565009d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:10 +0000
Subject: [PATCH 59/64] fix: orthogonalizing a mesh with edges that bound no
 face does not read outside the smoother's tables

---
 .../src/OrthogonalizationAndSmoothing.cpp           |  2 +-
 libs/MeshKernel/src/Smoother.cpp                    | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
index 0067c38..0410fa2 100644
--- a/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
+++ b/libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp
@@ -208,7 +208,7 @@ void OrthogonalizationAndSmoothing::ComputeLinearSystemTerms()
             double wwy = 0.0;
 
             // Smoother
-            if (atpf1Loc > 0.0 && m_mesh.m_nodesTypes[n] == 1)
+            if (atpf1Loc > 0.0 && m_mesh.m_nodesTypes[n] == 1 && nn < static_cast<int>(m_smoother->GetNumConnectedNodes(n)))
             {
                 wwx = atpf1Loc * m_smoother->GetWeight(n, nn);
                 wwy = atpf1Loc * m_smoother->GetWeight(n, nn);
diff --git a/libs/MeshKernel/src/Smoother.cpp b/libs/MeshKernel/src/Smoother.cpp
index 8b0b220..7d5b2df 100644
--- a/libs/MeshKernel/src/Smoother.cpp
+++ b/libs/MeshKernel/src/Smoother.cpp
@@ -249,6 +249,11 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
     // the current topology index
     const auto currentTopology = m_nodeTopologyMapping[currentNode];
 
+    if (m_mesh.m_nodesNumEdges[currentNode] > m_topologySharedFaces[currentTopology].size())
+    {
+        throw MeshGeometryError(currentNode, Location::Nodes, "An edge of the node is not connected to a face");
+    }
+
     for (UInt f = 0; f < m_topologySharedFaces[currentTopology].size(); f++)
     {
         if (m_topologySharedFaces[currentTopology][f] == constants::missing::uintValue || m_mesh.m_nodesTypes[currentNode] == 3)
@@ -278,6 +283,12 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         {
             // for triangular faces
             const auto nodeIndex = FindIndex(m_mesh.m_facesNodes[m_topologySharedFaces[currentTopology][f]], currentNode);
+
+            if (nodeIndex == constants::missing::uintValue)
+            {
+                throw std::invalid_argument("Smoother::ComputeOperatorsNode: The node is not a node of the face.");
+            }
+
             const auto nodeLeft = NextCircularBackwardIndex(nodeIndex, numFaceNodes);
             const auto nodeRight = NextCircularForwardIndex(nodeIndex, numFaceNodes);
 
@@ -322,7 +333,7 @@ void Smoother::ComputeOperatorsNode(UInt currentNode)
         const auto leftFace = m_mesh.m_edgesFaces[edgeIndex][0];
         faceLeftIndex = FindIndex(m_topologySharedFaces[currentTopology], leftFace);
 
-        if (m_topologySharedFaces[currentTopology][faceLeftIndex] != leftFace)
+        if (faceLeftIndex == constants::missing::uintValue)
         {
             throw std::invalid_argument(std::string("Smoother::ComputeOperatorsNode: Face could not be found,") +
                                         std::string("this happens when the face is outside of the polygon or maximumNumberOfEdgesPerFace is too low"));
-- 
2.43.0


From 5c06156945c3adefb4248a93fcbbe2717c462f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:10 +0000
Subject: [PATCH 60/64] fix: snapping one of several splines to a land boundary
 uses the points of that spline

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 389e120..a69e10d 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -3228,7 +3228,7 @@ namespace meshkernelapi
             meshkernel::LandBoundary landBoundary(landBoundaryPoints);
             meshkernel::Splines splineValues(meshKernelState[meshKernelId].m_mesh2d->m_projection);
 
-            splineValues.AddSpline(splinePoints, startSplineIndex, static_cast<meshkernel::UInt>(splinePoints.size()));
+            splineValues.AddSpline(splinePoints, startSplineIndex, static_cast<meshkernel::UInt>(endSplineIndex - startSplineIndex + 1));
 
             //--------------------------------
             // Snap specified splines to the land boundary
@@ -3242,7 +3242,7 @@ namespace meshkernelapi
             // Now copy back to spline (geometry-list)
             for (int i = startSplineIndex; i <= endSplineIndex; ++i)
             {
-                const meshkernel::Point& splinePoint = splineValues.m_splineNodes[0][i];
+                const meshkernel::Point& splinePoint = splineValues.m_splineNodes[0][i - startSplineIndex];
                 splines.coordinates_x[splinePointIndex] = splinePoint.x;
                 splines.coordinates_y[splinePointIndex] = splinePoint.y;
                 ++splinePointIndex;
-- 
2.43.0


From dcf96aa0f97bb1b935800fc5aa980cee561e0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:10 +0000
Subject: [PATCH 61/64] fix: setting contacts can be undone

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index a69e10d..b8f363f 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1065,7 +1065,13 @@ namespace meshkernelapi
                 mesh2dIndices[i] = contacts.mesh2d_indices[i];
             }
 
-            meshKernelState[meshKernelId].m_contacts->SetIndices(mesh1dIndices, mesh2dIndices);
+            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
+
+            auto newContacts = std::make_unique<meshkernel::Contacts>(*meshKernelState[meshKernelId].m_mesh1d, *meshKernelState[meshKernelId].m_mesh2d);
+            newContacts->SetIndices(mesh1dIndices, mesh2dIndices);
+            meshKernelState[meshKernelId].m_contacts = std::move(newContacts);
+
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From f1da7d0d7adc88ade66ca2f7a35fa00fe65ae262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:10 +0000
Subject: [PATCH 62/64] fix: computing the chainages of a network can be undone

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index b8f363f..a383a55 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -690,7 +690,13 @@ namespace meshkernelapi
             }
             const auto fixedChainagesByPolyline = ConvertVectorToVectorOfVectors(localFixedChainages, mkernel_get_separator());
 
-            meshKernelState[meshKernelId].m_network1d->ComputeFixedChainages(fixedChainagesByPolyline, minFaceSize, fixedChainagesOffset);
+            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
+
+            auto network1d = std::make_unique<meshkernel::Network1D>(*meshKernelState[meshKernelId].m_network1d);
+            network1d->ComputeFixedChainages(fixedChainagesByPolyline, minFaceSize, fixedChainagesOffset);
+            meshKernelState[meshKernelId].m_network1d = std::move(network1d);
+
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
@@ -709,7 +715,13 @@ namespace meshkernelapi
                 throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
             }
 
-            meshKernelState[meshKernelId].m_network1d->ComputeOffsettedChainages(offset);
+            auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
+
+            auto network1d = std::make_unique<meshkernel::Network1D>(*meshKernelState[meshKernelId].m_network1d);
+            network1d->ComputeOffsettedChainages(offset);
+            meshKernelState[meshKernelId].m_network1d = std::move(network1d);
+
+            meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From 09e426bdd9221867ae08a77bfa843883c9209555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:33 +0000
Subject: [PATCH 63/64] fix: connecting meshes with more than five elements
 along an edge is refused

---
 libs/MeshKernel/src/ConnectMeshes.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index a0b099b..d77c6d1 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -149,6 +149,11 @@ void meshkernel::ConnectMeshes::GatherHangingNodeIds(const Mesh2D& mesh,
                 continue;
             }
 
+            if (edgeInfo.edgeCount >= m_maximumNumberOfIrregularElementsAlongEdge)
+            {
+                throw NotImplementedError("Cannot handle more than {} elements along irregular edge", m_maximumNumberOfIrregularElementsAlongEdge);
+            }
+
             edgeInfo.hangingNodes[edgeInfo.edgeCount] = j;
             ++edgeInfo.edgeCount;
 
@@ -239,7 +244,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
     nodesToMerge.reserve(m_maximumNumberOfIrregularElementsAlongEdge * numberOfEdges);
 
     std::vector<UInt> hangingNodesOnEdge(numberOfEdges);
-    std::vector<MergeIndicator> mergeIndicator(numberOfEdges, MergeIndicator::Initial);
+    std::vector<MergeIndicator> mergeIndicator(mesh.GetNumNodes(), MergeIndicator::Initial);
 
     std::unique_ptr<meshkernel::CompoundUndoAction> conectMeshesAction = CompoundUndoAction::Create();
 
@@ -692,6 +697,13 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::FreeHangingNo
 
     std::unique_ptr<CompoundUndoAction> freeHangingNodesAction = CompoundUndoAction::Create();
 
+    if (numberOfHangingNodes > m_maximumNumberOfIrregularElementsAlongEdge)
+    {
+        throw NotImplementedError("Cannot handle more than {} hanging nodes along irregular edge, number is: {}",
+                                  m_maximumNumberOfIrregularElementsAlongEdge,
+                                  numberOfHangingNodes);
+    }
+
     BoundedIntegerArray hangingNodes;
     GetOrderedDistanceFromPoint(mesh, hangingNodesOnEdge, numberOfHangingNodes, boundaryNode, hangingNodes);
 
-- 
2.43.0


From 8c2628474dcf466fbbe0ab64d852b2e6397dfae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:57 +0000
Subject: [PATCH 64/64] Revert "fix: connecting meshes with more than five
 elements along an edge is refused"

This reverts commit 09e426bdd9221867ae08a77bfa843883c9209555.
---
 libs/MeshKernel/src/ConnectMeshes.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/libs/MeshKernel/src/ConnectMeshes.cpp b/libs/MeshKernel/src/ConnectMeshes.cpp
index d77c6d1..a0b099b 100644
--- a/libs/MeshKernel/src/ConnectMeshes.cpp
+++ b/libs/MeshKernel/src/ConnectMeshes.cpp
@@ -149,11 +149,6 @@ void meshkernel::ConnectMeshes::GatherHangingNodeIds(const Mesh2D& mesh,
                 continue;
             }
 
-            if (edgeInfo.edgeCount >= m_maximumNumberOfIrregularElementsAlongEdge)
-            {
-                throw NotImplementedError("Cannot handle more than {} elements along irregular edge", m_maximumNumberOfIrregularElementsAlongEdge);
-            }
-
             edgeInfo.hangingNodes[edgeInfo.edgeCount] = j;
             ++edgeInfo.edgeCount;
 
@@ -244,7 +239,7 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::Compute(Mesh2
     nodesToMerge.reserve(m_maximumNumberOfIrregularElementsAlongEdge * numberOfEdges);
 
     std::vector<UInt> hangingNodesOnEdge(numberOfEdges);
-    std::vector<MergeIndicator> mergeIndicator(mesh.GetNumNodes(), MergeIndicator::Initial);
+    std::vector<MergeIndicator> mergeIndicator(numberOfEdges, MergeIndicator::Initial);
 
     std::unique_ptr<meshkernel::CompoundUndoAction> conectMeshesAction = CompoundUndoAction::Create();
 
@@ -697,13 +692,6 @@ std::unique_ptr<meshkernel::UndoAction> meshkernel::ConnectMeshes::FreeHangingNo
 
     std::unique_ptr<CompoundUndoAction> freeHangingNodesAction = CompoundUndoAction::Create();
 
-    if (numberOfHangingNodes > m_maximumNumberOfIrregularElementsAlongEdge)
-    {
-        throw NotImplementedError("Cannot handle more than {} hanging nodes along irregular edge, number is: {}",
-                                  m_maximumNumberOfIrregularElementsAlongEdge,
-                                  numberOfHangingNodes);
-    }
-
     BoundedIntegerArray hangingNodes;
     GetOrderedDistanceFromPoint(mesh, hangingNodesOnEdge, numberOfHangingNodes, boundaryNode, hangingNodes);
 
-- 
2.43.0

