From 8d7ed58a8027430d97334d6f979e45f953a3cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:19 +0000
Subject: [PATCH 01/24] fix: terminate polyline intersection when a crossed
 edge has no faces

---
 libs/MeshKernel/src/Mesh2DIntersections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh2DIntersections.cpp b/libs/MeshKernel/src/Mesh2DIntersections.cpp
index 952acd3..4b035b4 100644
--- a/libs/MeshKernel/src/Mesh2DIntersections.cpp
+++ b/libs/MeshKernel/src/Mesh2DIntersections.cpp
@@ -309,6 +309,9 @@ void Mesh2DIntersections::Compute(const std::vector<Point>& polyLine)
                                    crossingEdges);
             }
         }
+
+        // an edge without faces is never reached through a face: mark the seed to prevent finding it again
+        vistedEdges[crossedEdgeIndex] = true;
     }
 
     // Sort the edges for each face
-- 
2.43.0


From cbfef42037aba05a8938e550380076bfba5802b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:19 +0000
Subject: [PATCH 02/24] fix: record nodes and edges invalidated by merging
 nodes in the undo action

---
 libs/MeshKernel/src/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 9eb78f7..0d1fd12 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -434,7 +434,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
     filteredNodes.resize(filteredNodeCount);
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
 
     // Update the R-Tree of the mesh nodes
     const auto nodesRtree = RTreeFactory::Create(m_projection);
@@ -461,7 +461,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
         }
     }
 
-    AdministrateNodesEdges();
+    AdministrateNodesEdges(undoAction.get());
     return undoAction;
 }
 
-- 
2.43.0


From e8fcc9ca1f0998a4d81df59ef012f6d74af71873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:59 +0000
Subject: [PATCH 03/24] fix: do not write past the edge list when merging two
 nodes with many edges

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 0d1fd12..141fb63 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -353,7 +353,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeTwoNodes(UInt firstNodeIndex,
     }
 
     // add all valid edges starting at secondNode
-    std::vector<UInt> secondNodeEdges(m_maximumNumberOfEdgesPerNode, constants::missing::uintValue);
+    std::vector<UInt> secondNodeEdges(m_nodesNumEdges[firstNodeIndex] + m_nodesNumEdges[secondNodeIndex], constants::missing::uintValue);
     UInt numSecondNodeEdges = 0;
 
     for (UInt n = 0; n < m_nodesNumEdges[secondNodeIndex]; n++)
-- 
2.43.0


From 722253a8dc6d6ed74761a7331d981b52b401f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:59 +0000
Subject: [PATCH 04/24] fix: skip invalid nodes when merging nodes in a polygon

---
 libs/MeshKernel/src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 141fb63..31fd136 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -417,7 +417,7 @@ std::unique_ptr<meshkernel::UndoAction> Mesh::MergeNodesInPolygon(const Polygons
     UInt filteredNodeCount = 0;
     for (UInt i = 0; i < numNodes; ++i)
     {
-        if (isNodeInPolygon[i])
+        if (isNodeInPolygon[i] && m_nodes[i].IsValid())
         {
             filteredNodes[filteredNodeCount] = m_nodes[i];
             originalNodeIndices[filteredNodeCount] = i;
-- 
2.43.0


From 900f5462e7a3b1067c222b6dca96f2477c09d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:00 +0000
Subject: [PATCH 05/24] fix: inverse distance weighting compares the number of
 samples, not the sum of weights, with the minimum

---
 .../AveragingStrategies/InverseWeightedAveragingStrategy.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
index 6582106..3f70ef6 100644
--- a/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
+++ b/libs/MeshKernel/src/AveragingStrategies/InverseWeightedAveragingStrategy.cpp
@@ -47,7 +47,7 @@ namespace meshkernel::averaging
             result += weight * samples[i].value;
         }
 
-        return wall >= static_cast<double>(m_minNumSamples) ? result / wall : constants::missing::doubleValue;
+        return samples.size() >= m_minNumSamples ? result / wall : constants::missing::doubleValue;
     }
 
 } // namespace meshkernel::averaging
-- 
2.43.0


From bc0844bd71fda8950048db32bca92112ceb999bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:23 +0000
Subject: [PATCH 06/24] fix: an edge listed in more than two given faces no
 longer overruns its face array

---
 libs/MeshKernel/src/Mesh2D.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index da66358..b38aaa8 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -591,9 +591,9 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
         m_facesEdges.emplace_back(local_edges);
         for (const auto& e : local_edges)
         {
-            if (m_edgesNumFaces[e] > 2)
+            if (m_edgesNumFaces[e] >= 2)
             {
-                throw AlgorithmError("FindFacesGivenMappings: m_edgesNumFaces > 2.");
+                throw AlgorithmError("FindFacesGivenMappings: m_edgesNumFaces >= 2.");
             }
             m_edgesFaces[e][m_edgesNumFaces[e]] = f;
             m_edgesNumFaces[e] += 1;
-- 
2.43.0


From 21a40b4ce8d126970dae382ef726f03e4715b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:23 +0000
Subject: [PATCH 07/24] fix: GetNodeIndex accepts every node index when some
 nodes are invalid

---
 libs/MeshKernel/src/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index 31fd136..dde83f8 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -1081,9 +1081,9 @@ meshkernel::UInt Mesh::GetNodeIndex(const UInt elementId, const UInt nodeId) con
         throw ConstraintError("Element id is greater than the number of elements: {} >= {}", elementId, GetNumFaces());
     }
 
-    if (nodeId >= GetNumValidNodes())
+    if (nodeId >= GetNumNodes())
     {
-        throw ConstraintError("node id is greater than the number of nodes: {} >= {}", nodeId, GetNumValidNodes());
+        throw ConstraintError("node id is greater than the number of nodes: {} >= {}", nodeId, GetNumNodes());
     }
 
     const std::vector<UInt>& nodeIds = m_facesNodes[elementId];
-- 
2.43.0


From b35d250e50f849de6c385ad0838f75458d3077d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:15 +0000
Subject: [PATCH 08/24] fix: edges of given faces follow the ring of their
 nodes when other nodes of the face are connected too

---
 libs/MeshKernel/src/Mesh2D.cpp | 39 +++++++++-------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/libs/MeshKernel/src/Mesh2D.cpp b/libs/MeshKernel/src/Mesh2D.cpp
index b38aaa8..90979f5 100644
--- a/libs/MeshKernel/src/Mesh2D.cpp
+++ b/libs/MeshKernel/src/Mesh2D.cpp
@@ -549,43 +549,24 @@ void Mesh2D::FindFacesGivenFaceNodesMapping(const std::vector<std::vector<UInt>>
 
     std::vector<UInt> local_edges;
     std::vector<Point> local_nodes;
-    std::vector<UInt> local_node_indices;
     for (UInt f = 0; f < m_facesNodes.size(); ++f)
     {
         local_edges.clear();
         local_nodes.clear();
-        local_node_indices.clear();
 
-        auto node = m_facesNodes[f][0];
-        local_nodes.emplace_back(m_nodes[node]);
-        local_node_indices.emplace_back(node);
-        UInt index = 0;
-        while (index < m_nodesEdges[node].size())
+        const auto& face_nodes = m_facesNodes[f];
+        for (UInt n = 0; n < face_nodes.size(); ++n)
         {
-            const auto edge = m_nodesEdges[node][index];
-            const auto other_node = OtherNodeOfEdge(m_edges[edge], node);
-            const auto edge_iter = std::find(local_edges.begin(), local_edges.end(), edge);
-            if (std::find(m_facesNodes[f].begin(), m_facesNodes[f].end(), other_node) != m_facesNodes[f].end() &&
-                edge_iter == local_edges.end() &&
-                std::find(local_node_indices.begin(), local_node_indices.end(), other_node) == local_node_indices.end())
-
+            // each edge of the face connects a node with the next one, the last edge closes the loop
+            const auto node = face_nodes[n];
+            const auto next_node = face_nodes[n + 1 == face_nodes.size() ? 0 : n + 1];
+            const auto edge = FindEdge(node, next_node);
+            if (edge == constants::missing::uintValue)
             {
-
-                local_edges.emplace_back(edge);
-                local_nodes.emplace_back(m_nodes[other_node]);
-                local_node_indices.emplace_back(other_node);
-                node = other_node;
-                index = 0;
-                continue;
+                throw AlgorithmError("FindFacesGivenMappings: nodes {} and {} of face {} are not connected by an edge.", node, next_node, f);
             }
-            if (other_node == m_facesNodes[f][0] && edge_iter == local_edges.end())
-            {
-                // loop closed
-                local_edges.emplace_back(edge);
-                break;
-            }
-
-            index++;
+            local_edges.emplace_back(edge);
+            local_nodes.emplace_back(m_nodes[node]);
         }
 
         m_facesEdges.emplace_back(local_edges);
-- 
2.43.0


From 719a8e133c3c7b65aaefcc709c0eb34fc73fe54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 09/24] fix: a copied or moved curvilinear grid keeps its
 projection and the offsets of its hidden grid lines

---
 .../src/CurvilinearGrid/CurvilinearGrid.cpp          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 5ed31d5..d7269c0 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -39,23 +39,27 @@
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridNodeIndices;
 
-CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(const CurvilinearGrid& grid) : m_projection(grid.m_projection),
                                                                 m_gridNodes(grid.m_gridNodes),
                                                                 m_gridFacesMask(grid.m_gridFacesMask),
                                                                 m_gridNodesTypes(grid.m_gridNodesTypes),
-                                                                m_gridIndices(grid.m_gridIndices)
+                                                                m_gridIndices(grid.m_gridIndices),
+                                                                m_startOffset(grid.m_startOffset),
+                                                                m_endOffset(grid.m_endOffset)
 {
     m_RTrees.emplace(Location::Nodes, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Edges, RTreeFactory::Create(m_projection));
     m_RTrees.emplace(Location::Faces, RTreeFactory::Create(m_projection));
 }
 
-CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(Projection::cartesian),
+CurvilinearGrid::CurvilinearGrid(CurvilinearGrid&& grid) noexcept : m_projection(grid.m_projection),
                                                                     m_gridNodes(std::move(grid.m_gridNodes)),
                                                                     m_gridFacesMask(std::move(grid.m_gridFacesMask)),
                                                                     m_gridNodesTypes(std::move(grid.m_gridNodesTypes)),
                                                                     m_gridIndices(std::move(grid.m_gridIndices)),
-                                                                    m_RTrees(std::move(grid.m_RTrees)) {}
+                                                                    m_RTrees(std::move(grid.m_RTrees)),
+                                                                    m_startOffset(grid.m_startOffset),
+                                                                    m_endOffset(grid.m_endOffset) {}
 
 CurvilinearGrid::CurvilinearGrid(Projection projection) : m_projection(projection)
 {
-- 
2.43.0


From 5cd7ac606331c3228f10240458ee777076288fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 10/24] fix: setting the nodes of a curvilinear grid shows all
 of them; assigning a grid keeps its hidden lines hidden

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index d7269c0..b4bf0af 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -131,8 +131,6 @@ CurvilinearGrid& CurvilinearGrid::operator=(const CurvilinearGrid& copy)
 
         m_startOffset = copy.m_startOffset;
         m_endOffset = copy.m_endOffset;
-
-        SetGridNodes(m_gridNodes);
     }
 
     return *this;
@@ -146,6 +144,8 @@ void CurvilinearGrid::SetGridNodes(const lin_alg::Matrix<Point>& gridNodes)
     }
 
     m_gridNodes = gridNodes;
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
@@ -162,6 +162,8 @@ void CurvilinearGrid::SetGridNodes(lin_alg::Matrix<Point>&& gridNodes)
     }
 
     m_gridNodes = std::move(gridNodes);
+    m_startOffset = {0, 0};
+    m_endOffset = {0, 0};
 
     m_nodesRTreeRequiresUpdate = true;
     m_edgesRTreeRequiresUpdate = true;
-- 
2.43.0


From b5d12b6fd573dc28ec9791bb74b28bc4086b692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 11/24] fix: grid lines hidden by an undone insertion take no
 part in grid line vectors and smoothing

---
 .../include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp | 7 +++++--
 .../src/CurvilinearGrid/CurvilinearGridSmoothing.cpp       | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
index 94e9f69..5472e56 100644
--- a/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
+++ b/libs/MeshKernel/include/MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp
@@ -400,15 +400,18 @@ namespace meshkernel
         /// @return a copy of the matrix
         lin_alg::Matrix<Point> GetNodes() const { return m_gridNodes; }
 
+        /// @brief Get a copy of the nodes of the active part of the grid, i.e. without the grid lines hidden by the start and end offsets.
+        lin_alg::Matrix<Point> ActiveNodes() const { return m_gridNodes.block(m_startOffset.m_n, m_startOffset.m_m, NumN(), NumM()); }
+
         /// @brief Get the array of nodes at an m-dimension index
         /// @param [in] m the m-dimension index
         /// @return a vector of N nodes
-        std::vector<Point> GetNodeVectorAtM(UInt m) const { return lin_alg::MatrixRowToSTLVector(m_gridNodes, m + m_startOffset.m_m); }
+        std::vector<Point> GetNodeVectorAtM(UInt m) const { return lin_alg::MatrixRowToSTLVector(ActiveNodes(), m); }
 
         /// @brief Get the array of nodes at an n-dimension index
         /// @param [in] n the n-dimension index
         /// @return a vector of M nodes
-        std::vector<Point> GetNodeVectorAtN(UInt n) const { return lin_alg::MatrixColToSTLVector(m_gridNodes, n + m_startOffset.m_n); }
+        std::vector<Point> GetNodeVectorAtN(UInt n) const { return lin_alg::MatrixColToSTLVector(ActiveNodes(), n); }
 
         /// @brief Compute a sequence of one or more outer boundary polygons separated by geometry separators
         /// @param[in]  lowerLeft   The node index of the lower left corner
diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp
index 49be1c2..a0d3c75 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridSmoothing.cpp
@@ -107,7 +107,7 @@ void CurvilinearGridSmoothing::SolveDirectional()
 {
 
     // assign current nodal values to the m_gridNodesCache
-    m_gridNodesCache = m_grid.GetNodes();
+    m_gridNodesCache = m_grid.ActiveNodes();
 
     auto isInvalidValidNode = [this](auto const& n, auto const& m)
     {
@@ -181,7 +181,7 @@ void CurvilinearGridSmoothing::Solve()
     double const b = 1.0 - a;
 
     // assign current nodal values to the m_gridNodesCache
-    m_gridNodesCache = m_grid.GetNodes();
+    m_gridNodesCache = m_grid.ActiveNodes();
 
     // Apply smoothing
     for (auto n = m_lowerLeft.m_n; n <= m_upperRight.m_n; ++n)
-- 
2.43.0


From 253219a763a10da39f45590dfac7e344dda403eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 12/24] fix: undoing the deletion of a curvilinear grid node
 restores the neighbours that lost their last face

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index b4bf0af..6532d78 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -1051,13 +1051,14 @@ meshkernel::UndoActionPtr CurvilinearGrid::DeleteNode(Point const& point)
     auto const nodeToDeleteIndex = FindLocationIndex(point, Location::Nodes);
     const auto nodeToDelete = m_gridIndices[nodeToDeleteIndex];
 
-    std::unique_ptr<ResetCurvilinearNodeAction> undoAction;
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction;
 
     if (nodeToDelete.IsValid())
     {
-        undoAction = ResetCurvilinearNodeAction::Create(*this, nodeToDelete, GetNode(nodeToDelete),
-                                                        {constants::missing::doubleValue, constants::missing::doubleValue},
-                                                        true /* recomputeNodeTypes */);
+        // Computing the node types also removes neighbouring nodes that are left without a face, so these must be saved too
+        const CurvilinearGridNodeIndices blockStart(nodeToDelete.m_n - std::min(nodeToDelete.m_n, 1u), nodeToDelete.m_m - std::min(nodeToDelete.m_m, 1u));
+        const CurvilinearGridNodeIndices blockEnd(std::min(nodeToDelete.m_n + 2, NumN()), std::min(nodeToDelete.m_m + 2, NumM()));
+        undoAction = CurvilinearGridBlockUndoAction::Create(*this, blockStart, blockEnd);
 
         // Invalidate gridnodes
         GetNode(nodeToDelete.m_n, nodeToDelete.m_m) = {constants::missing::doubleValue, constants::missing::doubleValue};
-- 
2.43.0


From 714e407a03b1a091efb3d69e19eb2af07c9f83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 13/24] fix: undoing the deletion of a curvilinear grid
 interior restores all nodes that were removed

---
 .../src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
index e02cd67..2cde8e7 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteInterior.cpp
@@ -47,7 +47,7 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteInterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, m_upperRight);
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, m_lowerLeft, {upperLimitI + 1, upperLimitJ + 1});
 
     for (UInt n = lowerLimitI + 1; n < upperLimitI; ++n)
     {
-- 
2.43.0


From 45980c36ca9083cbf7c9602d17e4e83d9e69b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 14/24] fix: undoing the deletion of a curvilinear grid
 exterior restores its regions together

---
 .../CurvilinearGrid/CurvilinearGridDeleteExterior.cpp    | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
index 9577589..da0031b 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridDeleteExterior.cpp
@@ -29,7 +29,6 @@
 #include "MeshKernel/CurvilinearGrid/CurvilinearGrid.hpp"
 #include "MeshKernel/CurvilinearGrid/CurvilinearGridLine.hpp"
 #include "MeshKernel/CurvilinearGrid/UndoActions/CurvilinearGridBlockUndoAction.hpp"
-#include "MeshKernel/UndoActions/CompoundUndoAction.hpp"
 
 using meshkernel::CurvilinearGrid;
 using meshkernel::CurvilinearGridLine;
@@ -48,12 +47,8 @@ meshkernel::UndoActionPtr meshkernel::CurvilinearGridDeleteExterior::Compute()
     const UInt lowerLimitJ = m_lowerLeft.m_m;
     const UInt upperLimitJ = m_upperRight.m_m;
 
-    std::unique_ptr<CompoundUndoAction> undoAction = CompoundUndoAction::Create();
-
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), lowerLimitJ}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, lowerLimitJ}, {lowerLimitI, upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {upperLimitI, lowerLimitJ}, {m_grid.NumN(), upperLimitJ + 1}));
-    undoAction->Add(CurvilinearGridBlockUndoAction::Create(m_grid, {0, upperLimitJ + 1}, {m_grid.NumN(), m_grid.NumM()}));
+    // The regions must be restored together: restoring them one by one would remove nodes that are temporarily without a face
+    std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {0, 0}, {m_grid.NumN(), m_grid.NumM()});
 
     // Split into 4 regions, setting the nodes in each region to invalid
     //
-- 
2.43.0


From e7e930ded252421afdbdbe11e135d5895960104d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 15/24] fix: undoing a curvilinear line shift restores a line
 that is not in the shifted block

---
 .../src/CurvilinearGrid/CurvilinearGridLineShift.cpp     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
index e744f87..3558e4d 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineShift.cpp
@@ -49,10 +49,11 @@ meshkernel::UndoActionPtr CurvilinearGridLineShift::Compute()
         throw std::invalid_argument("CurvilinearGridLineShift::Compute No candidate line to shift has been selected");
     }
 
-    auto const startN = m_lines[0].IsNGridLine() ? m_lines[0].m_startCoordinate : m_lowerLeft.m_n;
-    auto const endN = m_lines[0].IsNGridLine() ? m_lines[0].m_endCoordinate : m_upperRight.m_n;
-    auto const startM = m_lines[0].IsMGridLine() ? m_lines[0].m_startCoordinate : m_lowerLeft.m_m;
-    auto const endM = m_lines[0].IsMGridLine() ? m_lines[0].m_endCoordinate : m_upperRight.m_m;
+    // The nodes that can move: those on the line and those next to it in the block, the line is not necessarily in the block
+    auto const startN = m_lines[0].IsNGridLine() ? m_lines[0].m_startCoordinate : std::min(m_lowerLeft.m_n, m_lines[0].m_constantCoordinate);
+    auto const endN = m_lines[0].IsNGridLine() ? m_lines[0].m_endCoordinate : std::max(m_upperRight.m_n, m_lines[0].m_constantCoordinate);
+    auto const startM = m_lines[0].IsMGridLine() ? m_lines[0].m_startCoordinate : std::min(m_lowerLeft.m_m, m_lines[0].m_constantCoordinate);
+    auto const endM = m_lines[0].IsMGridLine() ? m_lines[0].m_endCoordinate : std::max(m_upperRight.m_m, m_lines[0].m_constantCoordinate);
 
     std::unique_ptr<CurvilinearGridBlockUndoAction> undoAction = CurvilinearGridBlockUndoAction::Create(m_grid, {startN, startM}, {endN + 1, endM + 1});
 
-- 
2.43.0


From 3f103c87397da8b97fc589c8833bfcc4ef805d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 16/24] fix: undoing a curvilinear line mirror at the left side
 restores the mirrored line

---
 .../src/CurvilinearGrid/CurvilinearGridLineMirror.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
index b7d8ce8..70aba04 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridLineMirror.cpp
@@ -91,8 +91,8 @@ meshkernel::UndoActionPtr CurvilinearGridLineMirror::Compute()
         upperRight = {m_lines[0].m_endCoordinate + 1, m_grid.NumM() - 0};
         break;
     case Left:
-        lowerLeft = {0, m_lines[0].m_startCoordinate};
-        upperRight = {m_lines[0].m_endCoordinate + 1, m_lines[0].m_startCoordinate + 1};
+        lowerLeft = {m_lines[0].m_startCoordinate, 0};
+        upperRight = {m_lines[0].m_endCoordinate + 1, 1};
         break;
     default:
         throw std::invalid_argument("CurvilinearGridLineMirror:: Invalid grid line type");
-- 
2.43.0


From 497027114454846b4f71322619a6cccfea93d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:13 +0000
Subject: [PATCH 17/24] fix: the side of a curvilinear boundary line is not
 taken from hidden grid lines

---
 libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
index 6532d78..d05c2d2 100644
--- a/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
+++ b/libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp
@@ -830,7 +830,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     // Corner nodes
     if (firstNode.m_m == secondNode.m_m) // Left or Right
     {
-        if (firstNode.m_m + 1 < m_gridNodes.cols() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
+        if (firstNode.m_m + 1 < NumM() && GetNode(firstNode.m_n, firstNode.m_m + 1).IsValid() && GetNode(secondNode.m_n, secondNode.m_m + 1).IsValid())
         {
             return BoundaryGridLineType::Left;
         }
@@ -838,7 +838,7 @@ CurvilinearGrid::BoundaryGridLineType CurvilinearGrid::GetBoundaryGridLineType(C
     }
     if (firstNode.m_n == secondNode.m_n) // Bottom or top
     {
-        if (firstNode.m_n + 1 < m_gridNodes.rows() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
+        if (firstNode.m_n + 1 < NumN() && GetNode(firstNode.m_n + 1, firstNode.m_m).IsValid() && GetNode(secondNode.m_n + 1, secondNode.m_m).IsValid())
         {
             return BoundaryGridLineType::Bottom;
         }
-- 
2.43.0


From 4bb0c3fea4cfbdbccd80b3520b089d56da04dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 18/24] fix: snapping a mesh to land boundaries is recorded in
 the history of its own state

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 6435847..72b7743 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -500,7 +500,7 @@ namespace meshkernelapi
             landBoundary.FindNearestMeshBoundary(meshkernel::LandBoundaries::ProjectToLandBoundaryOption::InnerAndOuterMeshBoundaryToLandBoundary);
 
             // Execute algorithm
-            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries());
+            meshKernelUndoStack.Add(landBoundary.SnapMeshToLandBoundaries(), meshKernelId);
         }
         catch (...)
         {
-- 
2.43.0


From bbe100cbc23a0e903dc174dcec930153cf5a1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 19/24] fix: undoing mkernel_network1d_set restores the
 previous network

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 72b7743..7157015 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -661,8 +661,8 @@ namespace meshkernelapi
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
 
-            // Do not change the pointer, just the object it is pointing to
-            *meshKernelState[meshKernelId].m_network1d = meshkernel::Network1D(localPolylines, meshKernelState[meshKernelId].m_projection);
+            // The undo action shares the current network, so it is replaced, not overwritten
+            meshKernelState[meshKernelId].m_network1d = std::make_shared<meshkernel::Network1D>(localPolylines, meshKernelState[meshKernelId].m_projection);
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From e05e89d79cef76e3f28458cfbb818aee8d30ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 20/24] fix: undoing mkernel_curvilinear_compute_circular_grid
 restores the previous grid

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 7157015..1a1bf9c 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -4286,8 +4286,9 @@ namespace meshkernelapi
             }
 
             auto undoAction = MKStateUndoAction::Create(meshKernelState[meshKernelId]);
-            *meshKernelState[meshKernelId].m_curvilinearGrid = meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
-                                                                                                                        meshKernelState[meshKernelId].m_projection);
+            // The undo action shares the current grid, so it is replaced, not overwritten
+            meshKernelState[meshKernelId].m_curvilinearGrid = std::make_shared<meshkernel::CurvilinearGrid>(meshkernel::CurvilinearGridGenerateCircularGrid::Compute(parameters,
+                                                                                                                                                                       meshKernelState[meshKernelId].m_projection));
 
             meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
         }
-- 
2.43.0


From 7d4b096db46d29854187256ae1343bb53dcaa3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 21/24] fix: undoing mkernel_mesh2d_convert_projection restores
 the projection of the state

---
 libs/MeshKernelApi/src/MKStateUndoAction.cpp |  1 +
 libs/MeshKernelApi/src/MeshKernel.cpp        | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/MeshKernelApi/src/MKStateUndoAction.cpp b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
index c0ce513..3732a1e 100644
--- a/libs/MeshKernelApi/src/MKStateUndoAction.cpp
+++ b/libs/MeshKernelApi/src/MKStateUndoAction.cpp
@@ -54,6 +54,7 @@ void meshkernelapi::MKStateUndoAction::SwapContents()
     std::swap(m_mkState.m_network1d, m_mkStateReference.m_network1d);
     std::swap(m_mkState.m_contacts, m_mkStateReference.m_contacts);
     std::swap(m_mkState.m_curvilinearGrid, m_mkStateReference.m_curvilinearGrid);
+    std::swap(m_mkState.m_projection, m_mkStateReference.m_projection);
 }
 
 void meshkernelapi::MKStateUndoAction::DoCommit()
diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index 1a1bf9c..b9dc939 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -1093,14 +1093,20 @@ namespace meshkernelapi
                 if (sourceProjection == meshkernel::Projection::cartesian)
                 {
                     meshkernel::ConvertCartesianToSpherical conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                 }
                 else if (sourceProjection == meshkernel::Projection::spherical)
                 {
                     meshkernel::ConvertSphericalToCartesian conversion(zoneString);
-                    meshKernelUndoStack.Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion), meshKernelId);
+                    auto undoAction = meshkernel::CompoundUndoAction::Create();
+                    undoAction->Add(MKStateUndoAction::Create(meshKernelState[meshKernelId]));
+                    undoAction->Add(meshkernel::MeshConversion::Compute(*meshKernelState[meshKernelId].m_mesh2d, conversion));
                     meshKernelState[meshKernelId].m_projection = conversion.TargetProjection();
+                    meshKernelUndoStack.Add(std::move(undoAction), meshKernelId);
                 }
                 else
                 {
-- 
2.43.0


From f8119960053bc93db4d22e8f7bf15c0d61150454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 22/24] fix: mkernel_get_projection refuses an id that does not
 exist instead of creating its state

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index b9dc939..e533a40 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -5311,7 +5311,19 @@ namespace meshkernelapi
     MKERNEL_API int mkernel_get_projection(int meshKernelId, int& projection)
     {
         lastExitCode = meshkernel::ExitCode::Success;
-        projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        try
+        {
+            if (!meshKernelState.contains(meshKernelId))
+            {
+                throw meshkernel::MeshKernelError("The selected mesh kernel id does not exist.");
+            }
+
+            projection = static_cast<int>(meshKernelState[meshKernelId].m_projection);
+        }
+        catch (...)
+        {
+            lastExitCode = HandleException();
+        }
         return lastExitCode;
     }
 
-- 
2.43.0


From acff5940a00e09c06b91bec46b459d3700044daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 23/24] fix: mkernel_mesh2d_get_closest_node does not use a
 state or a node that was not found

---
 libs/MeshKernelApi/src/MeshKernel.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libs/MeshKernelApi/src/MeshKernel.cpp b/libs/MeshKernelApi/src/MeshKernel.cpp
index e533a40..cb88df1 100644
--- a/libs/MeshKernelApi/src/MeshKernel.cpp
+++ b/libs/MeshKernelApi/src/MeshKernel.cpp
@@ -2862,10 +2862,18 @@ namespace meshkernelapi
                                                                                            yUpperRightBoundingBox,
                                                                                            nodeIndex));
 
-            // Set the node coordinate
-            const auto foundNode = meshKernelState[meshKernelId].m_mesh2d->Node(nodeIndex);
-            xCoordinateOut = foundNode.x;
-            yCoordinateOut = foundNode.y;
+            if (lastExitCode == meshkernel::ExitCode::Success)
+            {
+                if (nodeIndex < 0)
+                {
+                    throw meshkernel::AlgorithmError("No node found within the search radius.");
+                }
+
+                // Set the node coordinate
+                const auto foundNode = meshKernelState[meshKernelId].m_mesh2d->Node(nodeIndex);
+                xCoordinateOut = foundNode.x;
+                yCoordinateOut = foundNode.y;
+            }
         }
         catch (...)
         {
-- 
2.43.0


From 3e56162967fa5546bad68d6917298e2576382ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:05 +0000
Subject: [PATCH 24/24] fix: Mesh::ComputeMinEdgeLength skips invalid edges
 instead of reading their missing nodes

---
 libs/MeshKernel/src/Mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/MeshKernel/src/Mesh.cpp b/libs/MeshKernel/src/Mesh.cpp
index dde83f8..5dc3f96 100644
--- a/libs/MeshKernel/src/Mesh.cpp
+++ b/libs/MeshKernel/src/Mesh.cpp
@@ -576,6 +576,10 @@ double Mesh::ComputeMinEdgeLength(const Polygons& polygon) const
     for (UInt e = 0; e < numEdges; e++)
     {
         const auto& [firstNode, secondNode] = m_edges[e];
+        if (firstNode == constants::missing::uintValue || secondNode == constants::missing::uintValue)
+        {
+            continue;
+        }
         if (isNodeInPolygon[firstNode] || isNodeInPolygon[secondNode])
         {
             result = std::min(result, m_edgeLengths[e]);
-- 
2.43.0

