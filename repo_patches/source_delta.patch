From 4f850d5759284ffe5e6e7d248cf060e5104083af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 01/85] fix: CompressAndWriteToFile reports writes that fail
 when the stream is flushed

---
 src/arc_utilities/zlib_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index b7222ad..ac3e7cd 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -186,7 +186,7 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
   }
   output_file.write(reinterpret_cast<const char*>(compressed.data()), (std::streamsize)compressed.size());
   output_file.close();
-  if (output_file.bad()) {
+  if (output_file.fail()) {
     throw_arc_exception(std::runtime_error, "Error writing to file");
   }
 }
-- 
2.43.0


From 9f9eb12738b9b2abca56cdc578b0215f6846d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 02/85] fix: base64 Decode does not index its table with
 negative characters

---
 src/arc_utilities/base64_helpers.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/base64_helpers.cpp b/src/arc_utilities/base64_helpers.cpp
index 90d0f82..57cce3f 100644
--- a/src/arc_utilities/base64_helpers.cpp
+++ b/src/arc_utilities/base64_helpers.cpp
@@ -24,8 +24,10 @@ static const std::array<int32_t, 256> B64IndexTable = {
     10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 0,  0,  0,  0,  63, 0,  26, 27, 28,
     29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51};
 
-std::vector<uint8_t> Decode(const std::string& encoded) {
-  const size_t encoded_length = encoded.size();
+std::vector<uint8_t> Decode(const std::string& encoded_string) {
+  // Unsigned, so that bytes above 127 do not index before the start of the table
+  const uint8_t* const encoded = reinterpret_cast<const uint8_t*>(encoded_string.c_str());
+  const size_t encoded_length = encoded_string.size();
   const size_t pad = encoded_length > 0 && (encoded_length % 4 || encoded[encoded_length - 1] == '=');
   const size_t L = ((encoded_length + 3) / 4 - pad) * 4;
   std::vector<uint8_t> buffer(L / 4 * 3 + pad, 0x00);
-- 
2.43.0


From f85e8cb5b01cb08e063841e02f7a2d0ac9727405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 03/85] fix: addEdgeBetweenNodes returns the edge it added,
 also between nodes that already share one

---
 include/arc_utilities/graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index e2209ba..b91651b 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -482,7 +482,7 @@ class Graph {
     const GraphEdge new_edge(from_index, to_index, edge_weight);
     from_node.addOutEdge(new_edge);
     to_node.addInEdge(new_edge);
-    return from_node.getEdgeTo(to_index);
+    return from_node.getOutEdges().back();
   }
 
   std::pair<const GraphEdge, const GraphEdge> addEdgesBetweenNodes(const int64_t first_index,
-- 
2.43.0


From fb3145848a9a117fb03a5f336af1483932e719ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 04/85] fix: getConnectedComponentsUndirected labels the node a
 component starts from

---
 include/arc_utilities/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index b91651b..e22dd44 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -276,6 +276,7 @@ class Graph {
     // avoid duplication, unlike what is used in CollisionMapGrid::MarkConnectedComponent
     std::queue<int64_t> working_queue;
     working_queue.push(starting_node_idx);
+    components[starting_node_idx] = component_id;
     size_t num_marked = 1;
 
     while (working_queue.size() > 0) {
-- 
2.43.0


From beb8dd949b467d88e4bd0c5c0d8137ecb129b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 05/85] fix: SerializeDijstrasResult compiles

---
 include/arc_utilities/dijkstras.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/dijkstras.hpp b/include/arc_utilities/dijkstras.hpp
index 8295751..35dfdae 100644
--- a/include/arc_utilities/dijkstras.hpp
+++ b/include/arc_utilities/dijkstras.hpp
@@ -94,15 +94,15 @@ class SimpleDijkstrasAlgorithm {
       const std::function<uint64_t(const NodeValueType&, std::vector<uint8_t>&)>& value_serializer) {
     const uint64_t start_buffer_size = buffer.size();
     // Serialize the graph
-    result.first.SerializeSelf(buffer, value_serializer);
+    result.first.serializeSelf(buffer, value_serializer);
     // Serialize the previous index
     const auto index_serializer =
         std::bind(arc_utilities::SerializeFixedSizePOD<int64_t>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.first, index_serializer);
+    arc_utilities::SerializeVector<int64_t>(result.second.first, buffer, index_serializer);
     // Serialze the distances
     const auto distance_serializer =
         std::bind(arc_utilities::SerializeFixedSizePOD<double>, std::placeholders::_1, std::placeholders::_2);
-    SerializeVector(result.second.second, distance_serializer);
+    arc_utilities::SerializeVector<double>(result.second.second, buffer, distance_serializer);
     // Figure out how many bytes were written
     const uint64_t end_buffer_size = buffer.size();
     const uint64_t bytes_written = end_buffer_size - start_buffer_size;
-- 
2.43.0


From a236f6bd879a8f6c285cd9a827c7831cde5d04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 06/85] fix: PRM start states with an asymmetric distance get
 each edge's own distance

---
 include/arc_utilities/simple_prm_planner.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 95834d5..d042617 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -68,10 +68,11 @@ class SimpleGeometricPrmPlanner {
         if (distance_is_symmetric) {
           nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, nearest_neighbor_distance);
         } else {
-          const double reverse_graph_distance = distance_fn(state, roadmap.getNode(nearest_neighbor_index).getValue());
           if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+            const double reverse_graph_distance = distance_fn(state, nearest_neighbor_state);
             nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, reverse_graph_distance);
-          } else if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+          } else if (nn_distance_direction == NEW_STATE_TO_ROADMAP) {
+            const double reverse_graph_distance = distance_fn(nearest_neighbor_state, state);
             nearest_neighbors_distances[idx] = std::make_pair(reverse_graph_distance, nearest_neighbor_distance);
           } else {
             assert(false && "This code should not be reachable");
-- 
2.43.0


From f79d1af91fbdc74adf25a40fcf38fc1278245ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 07/85] fix: UpdateRoadMapEdges compiles

---
 include/arc_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index d042617..b102b03 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -143,7 +143,7 @@ class SimpleGeometricPrmPlanner {
   static void UpdateRoadMapEdges(arc_dijkstras::Graph<T, Allocator>& roadmap,
                                  const std::function<bool(const T&, const T&)>& edge_validity_check_fn,
                                  const std::function<double(const T&, const T&)>& distance_fn) {
-    if (roadmap.CheckGraphLinkage() == false) {
+    if (roadmap.checkGraphLinkage() == false) {
       throw std::invalid_argument("Provided roadmap has invalid linkage");
     }
 #ifdef ENABLE_PARALLEL_ROADMAP
-- 
2.43.0


From 0fcd860cfbf2496edaea005821e6ebb09fe07a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 08/85] fix: simple_prm_planner.hpp includes what it uses

---
 include/arc_utilities/simple_prm_planner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index b102b03..cee1de6 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -3,6 +3,7 @@
 
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/dijkstras.hpp>
+#include <arc_utilities/math_helpers.hpp>
 #include <chrono>
 #include <functional>
 #include <random>
-- 
2.43.0


From 93279a0af5c5c667f83691ecd253f296ddbe84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 09/85] fix: simple_rrt_planner.hpp compiles

---
 include/arc_utilities/simple_rrt_planner.hpp | 47 +++++++++++---------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 1aa7a55..51bbd1e 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -1,9 +1,12 @@
 #include <stdlib.h>
 
 #include <Eigen/Dense>
+#include <algorithm>
 #include <arc_utilities/serialization.hpp>
 #include <chrono>
 #include <functional>
+#include <iostream>
+#include <map>
 #include <memory>
 #include <random>
 #include <stdexcept>
@@ -503,16 +506,16 @@ class SimpleHybridRRTPlanner {
    */
   template <typename T, typename Allocator = std::allocator<T>>
   static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
-      std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>& tree,
-      const std::function<int64_t(const std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&,
-                                  const SampleType&)>& nearest_neighbor_fn,
-      const std::function<void(std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&, const int64_t)>&
+      std::vector<SimpleRRTPlannerState<T, Allocator>>& tree,
+      const std::function<int64_t(const std::vector<SimpleRRTPlannerState<T, Allocator>>&,
+                                  const T&)>& nearest_neighbor_fn,
+      const std::function<void(std::vector<SimpleRRTPlannerState<T, Allocator>>&, const int64_t)>&
           state_added_fn,
-      const std::function<bool(const StateType&)>& goal_reached_fn,
-      const std::function<void(std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&, const int64_t)>&
+      const std::function<bool(const T&)>& goal_reached_fn,
+      const std::function<void(std::vector<SimpleRRTPlannerState<T, Allocator>>&, const int64_t)>&
           goal_reached_callback_fn,
-      const std::function<SampleType(void)>& sampling_fn,
-      const std::function<std::vector<std::pair<StateType, int64_t>>(const StateType&, const SampleType&)>&
+      const std::function<T(void)>& sampling_fn,
+      const std::function<std::vector<std::pair<T, int64_t>>(const T&, const T&)>&
           forward_propagation_fn,
       const std::function<bool(void)>& termination_check_fn) {
     // Make sure we've been given a start state
@@ -543,20 +546,20 @@ class SimpleHybridRRTPlanner {
     // Plan
     while (!termination_check_fn()) {
       // Sample a random goal
-      const StateType random_target = sampling_fn();
+      const T random_target = sampling_fn();
       // Get the nearest neighbor
-      const int64_t nearest_neighbor_index = nearest_neighbor_fn(nodes, random_target);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      const int64_t nearest_neighbor_index = nearest_neighbor_fn(tree, random_target);
+      if (nearest_neighbor_index < 0) {
         break;
       }
-      const T& nearest_neighbor = nodes.at(nearest_neighbor_index).GetValueImmutable();
+      const T& nearest_neighbor = tree.at(nearest_neighbor_index).GetValueImmutable();
       // Forward propagate towards the goal
-      std::vector<std::pair<StateType, int64_t>> propagated = forward_propagation_fn(nearest_neighbor, random_target);
+      std::vector<std::pair<T, int64_t>> propagated = forward_propagation_fn(nearest_neighbor, random_target);
       if (!propagated.empty()) {
         statistics["total_samples"] += 1.0;
         statistics["successful_samples"] += 1.0;
         for (size_t idx = 0; idx < propagated.size(); idx++) {
-          const std::pair<StateType, int64_t>& current_propagation = propagated[idx];
+          const std::pair<T, int64_t>& current_propagation = propagated[idx];
           // Determine the parent index of the new state
           // This process deserves some explanation
           // The "current relative parent index" is the index of the parent, relative to the list of propagated nodes.
@@ -581,9 +584,9 @@ class SimpleHybridRRTPlanner {
           const T& current_propagated = current_propagation.first;
           const SimpleRRTPlannerState<T, Allocator> new_state(current_propagated, node_parent_index);
           // Add the state to the tree
-          nodes.push_back(new_state);
-          const int64_t new_node_index = (int64_t)nodes.size() - 1;
-          nodes[node_parent_index].AddChildIndex(new_node_index);
+          tree.push_back(new_state);
+          const int64_t new_node_index = (int64_t)tree.size() - 1;
+          tree[node_parent_index].AddChildIndex(new_node_index);
           // Call the state added callback
           state_added_fn(tree, new_node_index);
           // Check if we've reached the goal
@@ -602,14 +605,14 @@ class SimpleHybridRRTPlanner {
     if (CheckTreeLinkage(tree) == false) {
       throw std::runtime_error("Tree linkage was corrupted during planning");
     }
-    const std::vector<std::vector<StateType, StateAllocator>> planned_paths =
+    const std::vector<std::vector<T, Allocator>> planned_paths =
         ExtractSolutionPaths(tree, goal_state_indices);
     const std::chrono::time_point<std::chrono::steady_clock> cur_time = std::chrono::steady_clock::now();
     const std::chrono::duration<double> planning_time(cur_time - start_time);
     statistics["planning_time"] = planning_time.count();
     statistics["total_states"] = tree.size();
     statistics["solutions"] = (double)planned_paths.size();
-    return std::pair<std::vector<std::vector<StateType, StateAllocator>>, std::map<std::string, double>>(planned_paths,
+    return std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>>(planned_paths,
                                                                                                          statistics);
   }
 
@@ -817,8 +820,8 @@ class SimpleHybridBiRRTPlanner {
    * statistics - map of string keys/double values of planner statistics (i.e. run time, #states explored, #states in
    * solution
    */
-  template <typename T, typename Allocator = std::allocator<T>>
-  static std::pair<std::vector<std::vector<T>>, std::map<std::string, double>> PlanMultiPath(
+  template <typename RNG, typename T, typename Allocator = std::allocator<T>>
+  static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
       const T& start, const T& goal,
       const std::function<int64_t(const std::vector<SimpleRRTPlannerState<T, Allocator>>&, const T&)>&
           nearest_neighbor_fn,
@@ -915,7 +918,7 @@ class SimpleHybridBiRRTPlanner {
           (sample_from_tree) ? target_tree.at(target_tree_node_index).GetValueImmutable() : state_sampling_fn();
       // Get the nearest neighbor
       const int64_t nearest_neighbor_index = nearest_neighbor_fn(active_tree, target_state);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      if (nearest_neighbor_index < 0) {
         break;
       }
       const StateType& nearest_neighbor = active_tree.at(nearest_neighbor_index).GetValueImmutable();
-- 
2.43.0


From 89f18157343732bb9c3ccc0c19bf8c9e876c671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 10/85] fix: CheckTreeLinkage rejects parent indices past the
 end of the tree

---
 include/arc_utilities/simple_rrt_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 51bbd1e..356866c 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -651,7 +651,7 @@ class SimpleHybridRRTPlanner {
                     << " [Indices can't be the same]" << std::endl;
           return false;
         }
-      } else if (parent_index < -1) {
+      } else if (parent_index != -1) {
         std::cerr << "Invalid parent index " << parent_index << " for state " << current_index << std::endl;
         return false;
       }
-- 
2.43.0


From 847c23ca1b0134be0289b73d9494802b74301aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 11/85] fix: voxel grid locations just below the grid are not
 in its first cell

---
 include/arc_utilities/voxel_grid.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index 64f13f7..b175b53 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -757,23 +757,23 @@ class VoxelGrid {
   }
 
   inline GRID_INDEX PointInFrameToGridIndex(const double x, const double y, const double z) const {
-    const int64_t x_cell = (int64_t)(x * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(y * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(z * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(x * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(y * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(z * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex3d(const Eigen::Vector3d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex4d(const Eigen::Vector4d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
-- 
2.43.0


From 973ac2b6518bd5f35ed69bc2205dda734abba334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 12/85] fix: voxel grid queries at huge or non-finite locations
 do not overflow the cell index

---
 include/arc_utilities/voxel_grid.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index b175b53..7c53428 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -6,7 +6,9 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_typedefs.hpp>
 #include <arc_utilities/serialization_eigen.hpp>
+#include <cmath>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -756,24 +758,30 @@ class VoxelGrid {
     inverse_origin_transform_ = origin_transform_.inverse();
   }
 
+  // Locations too far away for a cell index (or NaN) get an index that is never in bounds
+  static inline int64_t ScaledToCell(const double scaled) {
+    const double cell = std::floor(scaled);
+    return (std::abs(cell) < 9.0e18) ? (int64_t)cell : std::numeric_limits<int64_t>::min();
+  }
+
   inline GRID_INDEX PointInFrameToGridIndex(const double x, const double y, const double z) const {
-    const int64_t x_cell = (int64_t)std::floor(x * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)std::floor(y * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)std::floor(z * inv_cell_z_size_);
+    const int64_t x_cell = ScaledToCell(x * inv_cell_x_size_);
+    const int64_t y_cell = ScaledToCell(y * inv_cell_y_size_);
+    const int64_t z_cell = ScaledToCell(z * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex3d(const Eigen::Vector3d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = ScaledToCell(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = ScaledToCell(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = ScaledToCell(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex4d(const Eigen::Vector4d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = ScaledToCell(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = ScaledToCell(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = ScaledToCell(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
-- 
2.43.0


From 967775e7c341543d2bc8ae650cf0060c8c36a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 13/85] fix: SetChunkValue by coordinates sets the chunk

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 1220884..a892645 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -538,12 +538,12 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, const T& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, T&& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline CHUNK_REGION GetContainingChunkRegion(const Eigen::Vector3d& grid_location) const {
-- 
2.43.0


From 26f97eec1266cee6850771b5fe7f2fbd50b82fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 14/85] fix: hashed voxel grid works with a non-default
 allocator

---
 .../arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index a892645..b44af81 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -568,7 +568,7 @@ class DynamicSpatialHashedVoxelGrid {
     CHUNK_REGION region = GetContainingChunkRegion(grid_location);
     auto found_chunk_itr = chunks_.find(region);
     if (found_chunk_itr != chunks_.end()) {
-      const DynamicSpatialHashedVoxelGridChunk<T>& chunk = found_chunk_itr->second;
+      const DynamicSpatialHashedVoxelGridChunk<T, Allocator>& chunk = found_chunk_itr->second;
       if (chunk.IsCellInitialized()) {
         // Get the data
         std::pair<const T&, bool> found_in_cell = chunk.GetCellImmutable(grid_location);
@@ -593,7 +593,7 @@ class DynamicSpatialHashedVoxelGrid {
     CHUNK_REGION region = GetContainingChunkRegion(grid_location);
     auto found_chunk_itr = chunks_.find(region);
     if (found_chunk_itr != chunks_.end()) {
-      DynamicSpatialHashedVoxelGridChunk<T>& chunk = found_chunk_itr->second;
+      DynamicSpatialHashedVoxelGridChunk<T, Allocator>& chunk = found_chunk_itr->second;
       if (chunk.IsCellInitialized()) {
         // Get the data
         std::pair<T&, bool> found_in_cell = chunk.GetCellMutable(grid_location);
@@ -618,7 +618,7 @@ class DynamicSpatialHashedVoxelGrid {
     CHUNK_REGION region = GetContainingChunkRegion(grid_location);
     auto found_chunk_itr = chunks_.find(region);
     if (found_chunk_itr != chunks_.end()) {
-      DynamicSpatialHashedVoxelGridChunk<T>& chunk = found_chunk_itr->second;
+      DynamicSpatialHashedVoxelGridChunk<T, Allocator>& chunk = found_chunk_itr->second;
       if (chunk.IsCellInitialized()) {
         if (chunk.SetCellValue(grid_location, value)) {
           return SET_CELL;
@@ -803,7 +803,7 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline Eigen::Isometry3d GetOriginTransform() const { return origin_transform_; }
 
-  inline const std::unordered_map<CHUNK_REGION, DynamicSpatialHashedVoxelGridChunk<T>>& GetInternalChunks() const {
+  inline const std::unordered_map<CHUNK_REGION, DynamicSpatialHashedVoxelGridChunk<T, Allocator>>& GetInternalChunks() const {
     return chunks_;
   }
 };
-- 
2.43.0


From f16374a18ef9eab3a5b7cade26ae1405405c45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 15/85] fix: hashed voxel grid cells on a chunk boundary can be
 set

---
 .../dynamic_spatial_hashed_voxel_grid.hpp     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index b44af81..f1c0c25 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -7,6 +7,7 @@
 #include <arc_utilities/pretty_print.hpp>
 #include <arc_utilities/voxel_grid.hpp>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <unordered_map>
@@ -133,11 +134,13 @@ class DynamicSpatialHashedVoxelGridChunk {
 
   inline int64_t GetLocationDataIndex(const Eigen::Vector3d& location) const {
     Eigen::Vector3d location_in_chunk = location - region_.base;
+    // A location on the boundary of the chunk can end up just outside of it by rounding
+    const Eigen::Vector3d chunk_size(chunk_x_size_, chunk_y_size_, chunk_z_size_);
+    const Eigen::Vector3d slack = (location.cwiseAbs() + chunk_size) * (4.0 * std::numeric_limits<double>::epsilon());
     // First, make sure the location is in the range this chunk covers
-    if (location_in_chunk.x() < 0.0 || location_in_chunk.y() < 0.0 || location_in_chunk.z() < 0.0) {
+    if ((location_in_chunk.array() < -slack.array()).any()) {
       return -1;
-    } else if (location_in_chunk.x() > chunk_x_size_ || location_in_chunk.y() > chunk_y_size_ ||
-               location_in_chunk.z() > chunk_z_size_) {
+    } else if ((location_in_chunk.array() > (chunk_size + slack).array()).any()) {
       return -1;
     }
     // Ok, we're inside the chunk
@@ -145,12 +148,10 @@ class DynamicSpatialHashedVoxelGridChunk {
       int64_t x_cell = (int64_t)(location_in_chunk.x() / cell_x_size_);
       int64_t y_cell = (int64_t)(location_in_chunk.y() / cell_y_size_);
       int64_t z_cell = (int64_t)(location_in_chunk.z() / cell_z_size_);
-      if (x_cell < 0 || y_cell < 0 || z_cell < 0 || x_cell >= num_x_cells_ || y_cell >= num_y_cells_ ||
-          z_cell >= num_z_cells_) {
-        return -1;
-      } else {
-        return GetDataIndex(x_cell, y_cell, z_cell);
-      }
+      x_cell = std::min(std::max(x_cell, (int64_t)0), num_x_cells_ - 1);
+      y_cell = std::min(std::max(y_cell, (int64_t)0), num_y_cells_ - 1);
+      z_cell = std::min(std::max(z_cell, (int64_t)0), num_z_cells_ - 1);
+      return GetDataIndex(x_cell, y_cell, z_cell);
     }
   }
 
-- 
2.43.0


From 68ed6b38c68e1181b78fff22fc76405449cf0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 16/85] fix: stop hierarchical clustering when there is no pair
 left to merge

---
 include/arc_utilities/simple_hierarchical_clustering.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_hierarchical_clustering.hpp b/include/arc_utilities/simple_hierarchical_clustering.hpp
index 945960a..67e498f 100644
--- a/include/arc_utilities/simple_hierarchical_clustering.hpp
+++ b/include/arc_utilities/simple_hierarchical_clustering.hpp
@@ -259,7 +259,9 @@ class SimpleHierarchicalClustering {
           closest_element_pair.first;
       closest_distance = closest_element_pair.second;
       // std::cout << "Element pair: " << PrettyPrint::PrettyPrint(closest_element_pair, true) << std::endl;
-      if (closest_distance <= max_cluster_distance) {
+      // No pair is left once everything has been merged
+      const bool pair_found = (closest_elements.first.second >= 0) && (closest_elements.second.second >= 0);
+      if (pair_found && closest_distance <= max_cluster_distance) {
         const std::pair<bool, int64_t>& first_element = closest_elements.first;
         const std::pair<bool, int64_t>& second_element = closest_elements.second;
         // If both elements are points, create a new cluster
-- 
2.43.0


From 50fd6e0dff7ce96a1b291c71ebf063cd1cb927f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 17/85] fix: use the subset's own weights in preliminary
 weighted k-means

---
 include/arc_utilities/simple_kmeans_clustering.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index fd90f64..9a78ecb 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -299,20 +299,23 @@ class SimpleKMeansClustering {
       }
       std::vector<Datatype, Allocator> random_subset;
       random_subset.reserve(subset_size);
+      std::vector<double> random_subset_weights;
+      random_subset_weights.reserve(subset_size);
       for (auto itr = index_map.begin(); itr != index_map.end(); ++itr) {
         if (itr->second == 1u) {
           const size_t random_index = itr->first;
           const Datatype& random_element = data[random_index];
           random_subset.push_back(random_element);
+          random_subset_weights.push_back(weights[random_index]);
         }
       }
       assert(random_subset.size() == subset_size);
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels =
-          ClusterWeighted(random_subset, weights, distance_fn, average_fn, num_clusters, false);
+          ClusterWeighted(random_subset, random_subset_weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
-      cluster_centers =
-          ComputeClusterCentersWeighted(random_subset, weights, random_subset_labels, average_fn, num_clusters);
+      cluster_centers = ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels,
+                                                      average_fn, num_clusters);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From 734b9baa5f1410b1a019a36a47995aebf69a8700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 18/85] fix: keep the previous center of an empty k-means
 cluster

---
 .../simple_kmeans_clustering.hpp              | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index 9a78ecb..3d8d4eb 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -55,7 +55,9 @@ class SimpleKMeansClustering {
   template <typename Datatype, typename Allocator = std::allocator<Datatype>>
   static std::vector<Datatype, Allocator> ComputeClusterCenters(
       const std::vector<Datatype, Allocator>& data, const std::vector<uint32_t>& cluster_labels,
-      const std::function<Datatype(const std::vector<Datatype, Allocator>&)>& average_fn, const uint32_t num_clusters) {
+      const std::function<Datatype(const std::vector<Datatype, Allocator>&)>& average_fn,
+      std::vector<Datatype, Allocator> cluster_centers) {
+    const uint32_t num_clusters = (uint32_t)cluster_centers.size();
     assert(data.size() == cluster_labels.size());
     // Separate the datapoints into their clusters
     std::vector<std::vector<Datatype, Allocator>> clustered_data(num_clusters);
@@ -64,11 +66,12 @@ class SimpleKMeansClustering {
       const uint32_t label = cluster_labels[idx];
       clustered_data[label].push_back(datapoint);
     }
-    // Compute the center of each cluster
-    std::vector<Datatype, Allocator> cluster_centers(num_clusters);
+    // Compute the center of each cluster (a cluster without data keeps its previous center)
     for (uint32_t cluster = 0; cluster < num_clusters; cluster++) {
       const std::vector<Datatype, Allocator>& cluster_data = clustered_data[cluster];
-      cluster_centers[cluster] = average_fn(cluster_data);
+      if (cluster_data.size() > 0) {
+        cluster_centers[cluster] = average_fn(cluster_data);
+      }
     }
     return cluster_centers;
   }
@@ -78,7 +81,8 @@ class SimpleKMeansClustering {
       const std::vector<Datatype, Allocator>& data, const std::vector<double>& weights,
       const std::vector<uint32_t>& cluster_labels,
       const std::function<Datatype(const std::vector<Datatype, Allocator>&, const std::vector<double>&)>& average_fn,
-      const uint32_t num_clusters) {
+      std::vector<Datatype, Allocator> cluster_centers) {
+    const uint32_t num_clusters = (uint32_t)cluster_centers.size();
     assert(data.size() == cluster_labels.size());
 
     // Separate the datapoints into their clusters
@@ -93,12 +97,13 @@ class SimpleKMeansClustering {
       clustered_weights[label].push_back(weight);
     }
 
-    // Compute the center of each cluster
-    std::vector<Datatype, Allocator> cluster_centers(num_clusters);
+    // Compute the center of each cluster (a cluster without data keeps its previous center)
     for (uint32_t cluster = 0; cluster < num_clusters; cluster++) {
       const std::vector<Datatype, Allocator>& cluster_data = clustered_data[cluster];
       const std::vector<double>& cluster_weights = clustered_weights[cluster];
-      cluster_centers[cluster] = average_fn(cluster_data, cluster_weights);
+      if (cluster_data.size() > 0) {
+        cluster_centers[cluster] = average_fn(cluster_data, cluster_weights);
+      }
     }
     return cluster_centers;
   }
@@ -133,7 +138,7 @@ class SimpleKMeansClustering {
     uint32_t iteration = 1u;
     while (!converged) {
       // Update cluster centers
-      cluster_centers = ComputeClusterCenters(data, cluster_labels, average_fn, num_clusters);
+      cluster_centers = ComputeClusterCenters(data, cluster_labels, average_fn, cluster_centers);
       // Cluster with the new centers
       std::vector<uint32_t> new_cluster_labels = PerformSingleClusteringIteration(data, distance_fn, cluster_centers);
       // Check for convergence
@@ -201,7 +206,8 @@ class SimpleKMeansClustering {
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels = Cluster(random_subset, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
-      cluster_centers = ComputeClusterCenters(random_subset, random_subset_labels, average_fn, num_clusters);
+      cluster_centers.assign(random_subset.begin(), random_subset.begin() + num_clusters);
+      cluster_centers = ComputeClusterCenters(random_subset, random_subset_labels, average_fn, cluster_centers);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
@@ -238,7 +244,7 @@ class SimpleKMeansClustering {
     uint32_t iteration = 1u;
     while (!converged) {
       // Update cluster centers
-      cluster_centers = ComputeClusterCentersWeighted(data, weights, cluster_labels, average_fn, num_clusters);
+      cluster_centers = ComputeClusterCentersWeighted(data, weights, cluster_labels, average_fn, cluster_centers);
       // Cluster with the new centers
       std::vector<uint32_t> new_cluster_labels = PerformSingleClusteringIteration(data, distance_fn, cluster_centers);
       // Check for convergence
@@ -314,8 +320,9 @@ class SimpleKMeansClustering {
       std::vector<uint32_t> random_subset_labels =
           ClusterWeighted(random_subset, random_subset_weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
+      cluster_centers.assign(random_subset.begin(), random_subset.begin() + num_clusters);
       cluster_centers = ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels,
-                                                      average_fn, num_clusters);
+                                                      average_fn, cluster_centers);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From 3d46509c539775e765651965f7141ddb0f75aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 19/85] fix: take the true minimum of the three predecessors in
 DTW

---
 include/arc_utilities/simple_dtw.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index f4f021c..4aae90f 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 
 #include <Eigen/Geometry>
+#include <algorithm>
 #include <functional>
 #include <iostream>
 #include <mutex>
@@ -54,19 +55,12 @@ class SimpleDTW {
       for (ssize_t j = 1; j <= (ssize_t)second_sequence.size(); j++) {
         const SecondDatatype& second_item = second_sequence[(size_t)j - 1];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
         // Get the three neighboring values from the matrix to use for the update
-        double im1j = dtw_matrix_(i - 1, j);
-        double im1jm1 = dtw_matrix_(i - 1, j - 1);
-        double ijm1 = dtw_matrix_(i, j - 1);
+        const double im1j = dtw_matrix_(i - 1, j);
+        const double im1jm1 = dtw_matrix_(i - 1, j - 1);
+        const double ijm1 = dtw_matrix_(i, j - 1);
         // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1) {
-          prev_cost = im1j;
-        } else if (ijm1 < im1j && ijm1 < im1jm1) {
-          prev_cost = ijm1;
-        } else {
-          prev_cost = im1jm1;
-        }
+        const double prev_cost = std::min(im1jm1, std::min(im1j, ijm1));
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From 3ae48c5a3663a3c4e1d0380335ee78eac94ea1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 20/85] fix: build the rectangular distance matrix between two
 data sets

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 379e1a4..65ca776 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -509,7 +509,7 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
 #if defined(_OPENMP)
 #pragma omp parallel for
 #endif
@@ -517,7 +517,6 @@ inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
@@ -548,12 +547,11 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixSerial(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
   for (size_t idx = 0; idx < data1.size(); idx++) {
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
-- 
2.43.0


From 1f9bb5a74b7a8ea6a1cd5ed522e41e56f2b2bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 21/85] fix: restart the XorShift1024* sequence when it is
 re-seeded

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 65ca776..e407091 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -902,10 +902,7 @@ class XorShift1024StarPRNG {
   }
 
  public:
-  inline XorShift1024StarPRNG(const uint64_t seed_val) {
-    seed(seed_val);
-    p = 0;
-  }
+  inline XorShift1024StarPRNG(const uint64_t seed_val) { seed(seed_val); }
 
   static constexpr uint64_t min(void) { return 0u; }
 
@@ -916,6 +913,7 @@ class XorShift1024StarPRNG {
     for (size_t idx = 0u; idx < state_.size(); idx++) {
       state_[idx] = temp_seed_gen();
     }
+    p = 0;
   }
 
   inline void discard(const unsigned long long z) {
-- 
2.43.0


From b52865486634b7471d3511ec84275ddc09d0484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 22/85] fix: draw bounded-tail truncated normal candidates from
 the standardized bounds

---
 include/arc_utilities/arc_helpers.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index e407091..3567e25 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1102,7 +1102,7 @@ class TruncatedNormalDistribution {
   inline TruncatedNormalDistribution(const double mean, const double stddev, const double lower_bound,
                                      const double upper_bound)
       : uniform_unit_dist_(0.0, 1.0),
-        uniform_range_dist_(lower_bound, upper_bound),
+        uniform_range_dist_(0.0, 1.0),
         exponential_dist_(1.0),
         normal_dist_(0.0, 1.0) {
     // Set operating parameters
@@ -1136,6 +1136,9 @@ class TruncatedNormalDistribution {
           case_ = TYPE_4;
         }
       }
+      if (case_ == TYPE_4) {
+        uniform_range_dist_ = std::uniform_real_distribution<double>(std_lower_bound_, std_upper_bound_);
+      }
       assert((case_ == TYPE_1) || (case_ == TYPE_2) || (case_ == TYPE_3) || (case_ == TYPE_4));
     }
   }
-- 
2.43.0


From 60279edaae415da432511376bbdb8bc8f7c12c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 23/85] fix: sample truncated normals with close bounds around
 the mean in bounded time

---
 include/arc_utilities/arc_helpers.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 3567e25..8524759 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1062,7 +1062,7 @@ class TruncatedNormalDistribution {
         rho = exp((pow(lower_bound, 2) - pow(z, 2)) / 2);
       } else if (upper_bound < 0) {
         rho = exp((pow(upper_bound, 2) - pow(z, 2)) / 2);
-      } else if (0 < upper_bound && lower_bound < 0) {
+      } else {
         rho = exp(-pow(z, 2) / 2);
       }
       const double u = uniform_unit_dist_(
@@ -1117,7 +1117,8 @@ class TruncatedNormalDistribution {
       // Set the operating case - i.e. which sampling method we will use
       case_ = NONE;
       if (0.0 <= std_upper_bound_ && 0.0 >= std_lower_bound_) {
-        case_ = TYPE_1;
+        // Rejecting from the whole normal distribution is hopeless when the bounds are close together
+        case_ = ((std_upper_bound_ - std_lower_bound_) < sqrt(2.0 * M_PI)) ? TYPE_4 : TYPE_1;
       }
       if (0.0 < std_lower_bound_ && std_upper_bound_ == INFINITY) {
         case_ = TYPE_2;
-- 
2.43.0


From 995941dd32700e0c4c612759daba766f5066474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 24/85] fix: sample lower tails of truncated normals as
 efficiently as upper tails

---
 include/arc_utilities/arc_helpers.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 8524759..6b3c0e3 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1123,11 +1123,15 @@ class TruncatedNormalDistribution {
       if (0.0 < std_lower_bound_ && std_upper_bound_ == INFINITY) {
         case_ = TYPE_2;
       }
-      if (0.0 > std_upper_bound_ && std_lower_bound_ == -INFINITY) {
-        std_lower_bound_ = -1 * std_upper_bound_;
-        std_upper_bound_ = INFINITY;
+      if (0.0 > std_upper_bound_) {
+        // Mirror a lower tail into the upper tail, which is the one the algorithms below are efficient for
+        const double mirrored_lower_bound = -1 * std_upper_bound_;
+        std_upper_bound_ = -1 * std_lower_bound_;
+        std_lower_bound_ = mirrored_lower_bound;
         stddev_ = -1 * stddev_;
-        case_ = TYPE_2;
+        if (std_upper_bound_ == INFINITY) {
+          case_ = TYPE_2;
+        }
       }
       if ((0.0 > std_upper_bound_ || 0.0 < std_lower_bound_) &&
           !(std_upper_bound_ == INFINITY || std_lower_bound_ == -INFINITY)) {
-- 
2.43.0


From 03d144e5551c296917bb9490df7c68893524bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:50 +0000
Subject: [PATCH 25/85] fix: keep truncated normal samples within the bounds
 despite rounding

---
 include/arc_utilities/arc_helpers.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 6b3c0e3..61ffa26 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1004,6 +1004,8 @@ class TruncatedNormalDistribution {
  protected:
   double mean_;
   double stddev_;
+  double lower_bound_;
+  double upper_bound_;
   double std_lower_bound_;
   double std_upper_bound_;
 
@@ -1108,6 +1110,8 @@ class TruncatedNormalDistribution {
     // Set operating parameters
     mean_ = mean;
     stddev_ = stddev;
+    lower_bound_ = lower_bound;
+    upper_bound_ = upper_bound;
     if (fabs(stddev_) == 0.0) {
       case_ = NONE;
     } else {
@@ -1150,7 +1154,8 @@ class TruncatedNormalDistribution {
 
   template <typename Generator>
   inline double operator()(Generator& prng) {
-    return Sample(prng);
+    // Undoing the standardization is subject to rounding
+    return std::min(upper_bound_, std::max(lower_bound_, Sample(prng)));
   }
 };
 
-- 
2.43.0


From bf42d77edc6e311fc9a604b53362ea07a2cde857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:59 +0000
Subject: [PATCH 26/85] fix: return the signed distance across the wrap-around
 with the right sign

---
 include/arc_utilities/math_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/math_helpers.hpp b/include/arc_utilities/math_helpers.hpp
index 4f81a18..790f7ec 100644
--- a/include/arc_utilities/math_helpers.hpp
+++ b/include/arc_utilities/math_helpers.hpp
@@ -179,9 +179,9 @@ inline double ContinuousRevoluteSignedDistance(const double p1, const double p2)
   const double raw_distance = real_p2 - real_p1;
   if ((raw_distance <= -M_PI) || (raw_distance > M_PI)) {
     if (raw_distance <= -M_PI) {
-      return (-(2.0 * M_PI) - raw_distance);
+      return (raw_distance + (2.0 * M_PI));
     } else if (raw_distance > M_PI) {
-      return ((2.0 * M_PI) - raw_distance);
+      return (raw_distance - (2.0 * M_PI));
     } else {
       return raw_distance;
     }
-- 
2.43.0


From 569bccea4f44f759e5a446d60c2c956a32efe177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 27/85] fix: build cone pyramids around the diagonal

---
 include/arc_utilities/eigen_helpers.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index cfd2ab7..2e373b1 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -911,6 +911,10 @@ inline VectorVector3d ConvertConeToPyramid(const Eigen::Vector3d& cone_direction
   auto tmp = VectorRejection(cone_direction, Eigen::Vector3d::UnitX());
   tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitY());
   tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitZ());
+  // The above cancels out if cone_direction is (nearly) parallel to (1, 1, 1), in which case any single axis will do
+  if (tmp.norm() < 1e-3) {
+    tmp = VectorRejection(cone_direction, Eigen::Vector3d::UnitX());
+  }
 
   assert(tmp.norm() > 1e-6);
   tmp.normalize();
-- 
2.43.0


From 61b6deca7bb9774cbd54d333f17aba186d11067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:33 +0000
Subject: [PATCH 28/85] fix: measure the distance to a line relative to its
 reference point

---
 include/arc_utilities/eigen_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 2e373b1..2dd7d29 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -890,8 +890,8 @@ inline std::pair<double, double> DistanceToLine(const Eigen::Vector3d& point_on_
 
   const auto delta = x - point_on_line;
   const double displacement_along_line = real_unit_vector.dot(delta);
-  const auto x_projected_onto_line = point_on_line + real_unit_vector * displacement_along_line;
-  const double distance_to_line = (x_projected_onto_line - x).norm();
+  // Computed relative to the point on the line, so that it stays accurate far away from the origin
+  const double distance_to_line = (delta - real_unit_vector * displacement_along_line).norm();
 
   // A simple neccescary (but not sufficient) check to look for math errors
   assert(IsApprox(distance_to_line * distance_to_line + displacement_along_line * displacement_along_line,
-- 
2.43.0


From 55651c3531c51bdd3e40900ecf54257a0dcbb316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:29 +0000
Subject: [PATCH 29/85] fix: keep the distance between nearly equal rotation
 matrices a number

---
 include/arc_utilities/eigen_helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 2dd7d29..b1905cf 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -347,7 +347,8 @@ inline double Distance(const Eigen::Quaterniond& q1, const Eigen::Quaterniond& q
 inline double Distance(const Eigen::Matrix3d& r1, const Eigen::Matrix3d& r2) {
   const auto delta = r1 * r2.transpose();
   const auto tr = delta.trace();
-  return acos((tr - 1.0) / 2.0);
+  // Rounding can push the cosine of (nearly) equal or opposite rotations just out of range
+  return acos(std::max(-1.0, std::min((tr - 1.0) / 2.0, 1.0)));
 }
 
 inline double Distance(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2, const double alpha = 0.5) {
-- 
2.43.0


From 528c2b5f337c2b56035f16ff472f7a0b12928edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 30/85] fix: let the twist between two transforms compile

---
 include/arc_utilities/eigen_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index b1905cf..fbda04e 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -213,7 +213,7 @@ inline Eigen::Matrix<double, 6, 1> TwistBetweenTransforms(const Eigen::Transform
                                                           const Eigen::Transform<double, 3, _Mode>& end) {
   EIGEN_STATIC_ASSERT(_Mode == Eigen::Affine || _Mode == Eigen::Isometry,
                       "THIS FUNCTION IS ONLY INTENDED FOR HOMOGENEOUS TRANSFORMS!!!");
-  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse(_Mode) * end;
+  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse((Eigen::TransformTraits)_Mode) * end;
   return TwistUnhat(t_diff.matrix().log());
 }
 
-- 
2.43.0


From 65407dd22d7949f114537eb7474061a4ac476103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 31/85] fix: give each copied path its own segments

---
 .../time_optimal_trajectory_parametrization.hpp        |  2 ++
 .../time_optimal_trajectory_parametrization.cpp        | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
index 3ef54ab..a373118 100644
--- a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
+++ b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
@@ -41,6 +41,8 @@ class Path {
 
   Path(const Path& path);
 
+  Path& operator=(const Path& path);
+
   ~Path();
 
   double Length() const;
diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index ab1ee4b..5bbe166 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -161,6 +161,16 @@ Path::Path(const Path& path) : length_(path.length_), switching_points_(path.swi
   }
 }
 
+Path& Path::operator=(const Path& path) {
+  if (this != &path) {
+    Path copy(path);
+    std::swap(length_, copy.length_);
+    switching_points_.swap(copy.switching_points_);
+    path_segments_.swap(copy.path_segments_);
+  }
+  return *this;
+}
+
 Path::~Path() {
   for (std::list<PathSegment*>::iterator it = path_segments_.begin(); it != path_segments_.end(); it++) {
     delete *it;
-- 
2.43.0


From daf1c96c79f40bfb88cbca93898886a0e7160a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 32/85] fix: do not share the cached segment between copied
 trajectories

---
 .../time_optimal_trajectory_parametrization.hpp          | 3 +++
 .../time_optimal_trajectory_parametrization.cpp          | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
index a373118..f76607f 100644
--- a/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
+++ b/include/arc_utilities/time_optimal_trajectory_parametrization.hpp
@@ -76,6 +76,9 @@ class Trajectory {
   Trajectory(const Path& path_, const Eigen::VectorXd& max_velocity_, const Eigen::VectorXd& max_acceleration_,
              double timestep = 0.001);
 
+  // The cached segment refers to the trajectory it was found in, so it is not copied
+  Trajectory(const Trajectory& other);
+
   ~Trajectory(void);
 
   // Returns the optimal duration of the trajectory
diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index 5bbe166..22028aa 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -291,6 +291,15 @@ Trajectory::Trajectory(const Path& path, const Eigen::VectorXd& max_velocity, co
   }
 }
 
+Trajectory::Trajectory(const Trajectory& other)
+    : path_(other.path_),
+      max_velocity_(other.max_velocity_),
+      max_acceleration_(other.max_acceleration_),
+      n_(other.n_),
+      trajectory_(other.trajectory_),
+      time_step_(other.time_step_),
+      cached_time_(std::numeric_limits<double>::max()) {}
+
 Trajectory::~Trajectory(void) {}
 
 void Trajectory::OutputPhasePlaneTrajectory() const {
-- 
2.43.0


From bb86b11529d47be426021ff6bd18f3c35bb17c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 33/85] fix: upsample only the requested portion of a path

---
 include/arc_utilities/path_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/path_utils.hpp b/include/arc_utilities/path_utils.hpp
index b31fa13..f38181c 100644
--- a/include/arc_utilities/path_utils.hpp
+++ b/include/arc_utilities/path_utils.hpp
@@ -167,7 +167,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
 
   // Return early with no message if the number of points already matches
   if (end_ind - start_ind == num_points) {
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   }
   // Abort with a warning if the number of points is already too many
   else if (end_ind - start_ind > num_points) {
@@ -175,7 +175,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
                  "number of points\n"
               << "Start ind: " << start_ind << "    End ind: " << end_ind << "    Num points: " << num_points
               << std::endl;
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   } else {
     const ssize_t num_segments = end_ind - start_ind - 1;
     assert(num_segments > 0);
-- 
2.43.0


From eb8f1bc263df4472aff39138f1bc8f264cefd399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 34/85] fix: compute link poses from the base outwards

---
 include/arc_utilities/simple_linked_robot_model.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 89097c0..2d71304 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -332,10 +332,14 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
   inline void UpdateTransforms() {
     // Update the transform for the first link
     links_[0].UpdateLinkTransform(base_transform_);
-    // Go out the kinematic chain
-    for (size_t idx = 0; idx < joints_.size(); idx++) {
+    // Go out the kinematic tree, parents before children, whatever order the joints are listed in
+    std::vector<int64_t> joint_order = kinematic_skeleton_[0].child_joint_indices_;
+    for (size_t idx = 0; idx < joint_order.size(); idx++) {
       // Get the current joint
-      const RobotJoint& current_joint = joints_[idx];
+      const RobotJoint& current_joint = joints_[(size_t)joint_order[idx]];
+      const std::vector<int64_t>& next_joints =
+          kinematic_skeleton_[(size_t)current_joint.ChildLinkIndex()].child_joint_indices_;
+      joint_order.insert(joint_order.end(), next_joints.begin(), next_joints.end());
       // Get the parent link
       const RobotLink& parent_link = links_[(size_t)current_joint.ParentLinkIndex()];
       // Get the child link
-- 
2.43.0


From a79b6b744826cf8c90d8674ea20d67c1b5a3335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 35/85] fix: rotate prismatic axes without moving them

---
 include/arc_utilities/simple_linked_robot_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 2d71304..80b312f 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -837,7 +837,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis.cross(world_point - joint_transform.translation());
         jacobian.block<3, 1>(3, active_joint_index) = joint_axis;
       } else if (parent_joint.JointModel().IsPrismatic()) {
-        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform * parent_joint.JointAxis());
+        const Eigen::Vector3d joint_axis = (Eigen::Vector3d)(joint_transform.rotation() * parent_joint.JointAxis());
         jacobian.block<3, 1>(0, active_joint_index) = joint_axis;
       } else {
         // We do nothing for fixed joints
-- 
2.43.0


From c05c15729bd35888c5e2300e3dd26690452b60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 36/85] fix: keep the inverse base transform up to date

---
 include/arc_utilities/simple_linked_robot_model.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 80b312f..e75bedb 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -621,6 +621,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void UpdateBaseTransform(const Eigen::Isometry3d& base_transform) {
     base_transform_ = base_transform;
+    inverse_base_transform_ = base_transform_.inverse();
     UpdateTransforms();
   }
 
-- 
2.43.0


From 4d280dd109724e69a1761eb722bdbaba013713e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 37/85] fix: reject joints between links that do not exist

---
 include/arc_utilities/simple_linked_robot_model.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index e75bedb..362012a 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -553,6 +553,11 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       // Add the edge into the kinematic skeleton
       const int64_t parent_link_index = current_joint.ParentLinkIndex();
       const int64_t child_link_index = current_joint.ChildLinkIndex();
+      if (parent_link_index < 0 || parent_link_index >= (int64_t)links.size() || child_link_index < 0 ||
+          child_link_index >= (int64_t)links.size()) {
+        std::cerr << "Joint " << current_joint.JointName() << " connects links that do not exist" << std::endl;
+        return std::make_pair(std::vector<KinematicSkeletonElement>(), false);
+      }
       // Set the child->parent relationship
       kinematic_skeleton[(size_t)child_link_index].parent_link_index_ = parent_link_index;
       kinematic_skeleton[(size_t)child_link_index].parent_joint_index_ = joint_idx;
-- 
2.43.0


From 1fbebbd51ba4a4b6c72c561346f6c3e514c788ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 38/85] fix: allow a robot's own position to be set on it

---
 include/arc_utilities/simple_linked_robot_model.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index 362012a..b1b4841 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -372,7 +372,9 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
 
   inline void SetConfig(const SimpleLinkedConfiguration& new_config) {
     if (new_config.size() == num_active_joints_) {
-      config_.clear();
+      // Build the new configuration on the side, new_config may be a reference to the current one
+      SimpleLinkedConfiguration updated_config;
+      updated_config.reserve(num_active_joints_);
       size_t config_idx = 0u;
       for (size_t idx = 0; idx < joints_.size(); idx++) {
         RobotJoint& current_joint = joints_[idx];
@@ -383,13 +385,14 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
           if (config_idx < new_config.size()) {
             const SimpleJointModel& new_joint = new_config[config_idx];
             current_joint.JointModel().SetValue(new_joint.GetValue());
-            config_.push_back(current_joint.JointModel());
+            updated_config.push_back(current_joint.JointModel());
             config_idx++;
           } else {
             throw std::runtime_error("config_idx out of range");
           }
         }
       }
+      config_ = updated_config;
       // Update forward kinematics
       UpdateTransforms();
     } else {
-- 
2.43.0


From cc7a96f65619cbec46b69ed2c16faf1b816ba2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 39/85] fix: reject joint axes that are not numbers

---
 include/arc_utilities/simple_linked_robot_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_linked_robot_model.hpp b/include/arc_utilities/simple_linked_robot_model.hpp
index b1b4841..27f94de 100644
--- a/include/arc_utilities/simple_linked_robot_model.hpp
+++ b/include/arc_utilities/simple_linked_robot_model.hpp
@@ -549,7 +549,7 @@ class SimpleLinkedRobot : public simple_robot_model_interface::SimpleRobotModelI
       // Check the joint axes
       const double joint_axis_norm = current_joint.JointAxis().norm();
       const double error = std::abs(joint_axis_norm - 1.0);
-      if (error > std::numeric_limits<double>::epsilon()) {
+      if (!(error <= std::numeric_limits<double>::epsilon())) {
         std::cerr << "Joint axis is not a unit vector" << std::endl;
         return std::make_pair(std::vector<KinematicSkeletonElement>(), false);
       }
-- 
2.43.0


From 7847da75875cd61151f1896beb1154e09c06f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 40/85] fix: serialize rigid-body robot configurations with
 functions that exist

---
 include/arc_utilities/simple_robot_models.hpp    | 1 +
 include/arc_utilities/simple_se2_robot_model.hpp | 5 +++--
 include/arc_utilities/simple_se3_robot_model.hpp | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/simple_robot_models.hpp b/include/arc_utilities/simple_robot_models.hpp
index 71f50ed..a7c4234 100644
--- a/include/arc_utilities/simple_robot_models.hpp
+++ b/include/arc_utilities/simple_robot_models.hpp
@@ -9,6 +9,7 @@
 #include <arc_utilities/simple_se2_robot_model.hpp>
 #include <arc_utilities/simple_se3_robot_model.hpp>
 #include <map>
+#include <memory>
 #include <random>
 #include <vector>
 
diff --git a/include/arc_utilities/simple_se2_robot_model.hpp b/include/arc_utilities/simple_se2_robot_model.hpp
index 4640fea..36c7c0c 100644
--- a/include/arc_utilities/simple_se2_robot_model.hpp
+++ b/include/arc_utilities/simple_se2_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE2ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenMatrixD31Serializer"); }
 
   static inline uint64_t Serialize(const SimpleSE2Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE2Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Matrix<double, 3, 1>>(buffer, current);
+    return arc_utilities::DeserializeEigen<Eigen::Matrix<double, 3, 1>>(buffer, current);
   }
 };
 
diff --git a/include/arc_utilities/simple_se3_robot_model.hpp b/include/arc_utilities/simple_se3_robot_model.hpp
index ae153ad..0c2491d 100644
--- a/include/arc_utilities/simple_se3_robot_model.hpp
+++ b/include/arc_utilities/simple_se3_robot_model.hpp
@@ -4,6 +4,7 @@
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/eigen_helpers.hpp>
 #include <arc_utilities/pretty_print.hpp>
+#include <arc_utilities/serialization_eigen.hpp>
 #include <arc_utilities/simple_robot_model_interface.hpp>
 #include <map>
 #include <random>
@@ -21,12 +22,12 @@ class SimpleSE3ConfigSerializer {
   static inline std::string TypeName() { return std::string("EigenIsometry3dSerializer"); }
 
   static inline uint64_t Serialize(const SimpleSE3Configuration& value, std::vector<uint8_t>& buffer) {
-    return EigenHelpers::Serialize(value, buffer);
+    return arc_utilities::SerializeEigen(value, buffer);
   }
 
   static inline std::pair<SimpleSE3Configuration, uint64_t> Deserialize(const std::vector<uint8_t>& buffer,
                                                                         const uint64_t current) {
-    return EigenHelpers::Deserialize<Eigen::Isometry3d>(buffer, current);
+    return arc_utilities::DeserializeEigen<Eigen::Isometry3d>(buffer, current);
   }
 };
 
-- 
2.43.0


From 9b8f845ac0ea4d39aafc7cd7dbf6fc6411b50590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 41/85] fix: print the summary of a profiled name with no data

---
 src/arc_utilities/timing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index cce5239..cfa090f 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -93,7 +93,8 @@ double Profiler::recordDouble(std::string timer_name, double datum) {
 
 std::vector<double> Profiler::getData(std::string name) {
   Profiler* m = getInstance();
-  return m->data[name];
+  const auto found = m->data.find(name);
+  return (found != m->data.end()) ? found->second : std::vector<double>();
 }
 
 void Profiler::printSingleSummary(std::string name) {
@@ -104,7 +105,7 @@ void Profiler::printSingleSummary(std::string name) {
   std::cout << "|| " << name << " || Summary :\n";
   std::cout << " '" << box << "' "
             << "\n";
-  if (m->data.find(name) == m->data.end()) {
+  if (m->data.find(name) == m->data.end() || m->data[name].empty()) {
     std::cout << name << " never called\n\n";
     return;
   }
-- 
2.43.0


From f491ca225cdc9d7bff2e3f16c0f29fd9e006329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 42/85] fix: reset the values recorded for a profiled name too

---
 src/arc_utilities/timing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index cfa090f..36fe072 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -38,6 +38,10 @@ void Profiler::reset(std::string name) {
     m->data[name].resize(0);
     startTimer(name);
   }
+  if (m->timed_double_data.find(name) != m->timed_double_data.end()) {
+    m->timed_double_data[name].clear();
+    startTimer(name);
+  }
 }
 
 void Profiler::addData(std::string name, double datum) {
-- 
2.43.0


From b671b24c8db95289b3f770c9d2711c8e36fb96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 43/85] fix: report each profiled name once

---
 src/arc_utilities/timing.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 36fe072..91bba6f 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -192,6 +192,7 @@ std::vector<std::string> Profiler::getAllNames() {
   }
 
   std::sort(all_names.begin(), all_names.end());
+  all_names.erase(std::unique(all_names.begin(), all_names.end()), all_names.end());
   return all_names;
 }
 
@@ -294,15 +295,7 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   addHeader(outfile);
 
-  std::vector<std::string> all_names;
-  for (auto const& imap : m->data) {
-    all_names.push_back(imap.first);
-  }
-  for (auto const& imap : m->timed_double_data) {
-    all_names.push_back(imap.first);
-  }
-
-  std::sort(all_names.begin(), all_names.end());
+  const std::vector<std::string> all_names = getAllNames();
 
   std::size_t label_len =
       max_element(all_names.begin(), all_names.end(),
-- 
2.43.0


From 5ea80a12238b0f4453bd97f8bdc445aa94fa25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 44/85] fix: summarize an empty list of profiled names

---
 src/arc_utilities/timing.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 91bba6f..2b1b9ce 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -131,17 +131,21 @@ void Profiler::printSingleSummary(std::string name) {
   std::cout << "\n";
 }
 
+static std::size_t labelLength(const std::vector<std::string>& names) {
+  std::size_t longest = 0;
+  for (const auto& name : names) {
+    longest = std::max(longest, name.length());
+  }
+  return longest + 2;
+}
+
 void Profiler::printGroupSummary(const std::vector<std::string>& names) {
   Profiler* m = getInstance();
   std::cout << " .=======================. \n";
   std::cout << "||    Profile Summary    ||\n";
   std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
+  std::size_t label_len = labelLength(names);
 
   label_len = std::max(label_len, (size_t)8);
 
@@ -224,11 +228,7 @@ void Profiler::writeGroupSummary(const std::string& filename, const std::vector<
   // std::cout << "||    Profile Summary    ||\n";
   // std::cout << " '=======================' \n";
 
-  std::size_t label_len =
-      max_element(names.begin(), names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
+  std::size_t label_len = labelLength(names);
 
   label_len = std::max(label_len, (size_t)8);
 
@@ -297,11 +297,7 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   const std::vector<std::string> all_names = getAllNames();
 
-  std::size_t label_len =
-      max_element(all_names.begin(), all_names.end(),
-                  [](const std::string& a, const std::string& b) { return a.length() < b.length(); })
-          ->length() +
-      2;
+  std::size_t label_len = labelLength(all_names);
 
   label_len = std::max(label_len, (size_t)8);
 
-- 
2.43.0


From 84c4ab8b0a96823abe3007fc488a00a49b4db1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 45/85] fix: survive profile files that cannot be opened

---
 src/arc_utilities/timing.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 2b1b9ce..52252d1 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -220,6 +220,10 @@ void addHeader(FILE* outfile) {
 void Profiler::writeGroupSummary(const std::string& filename, const std::vector<std::string>& names) {
   FILE* outfile;
   outfile = std::fopen(filename.c_str(), "a+");
+  if (outfile == NULL) {
+    std::cerr << "Could not open " << filename << " to write profiling data\n";
+    return;
+  }
 
   addHeader(outfile);
 
@@ -292,6 +296,10 @@ void Profiler::writeAll(const std::string& filename, size_t limit_per_name) {
 
   FILE* outfile;
   outfile = std::fopen(filename.c_str(), "a+");
+  if (outfile == NULL) {
+    std::cerr << "Could not open " << filename << " to write profiling data\n";
+    return;
+  }
 
   addHeader(outfile);
 
-- 
2.43.0


From 683158986a918290b5eaa05f68fdd6e89b6ebfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 46/85] fix: average nothing to zero in profile summaries

---
 src/arc_utilities/timing.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/timing.cpp b/src/arc_utilities/timing.cpp
index 52252d1..41c9f34 100644
--- a/src/arc_utilities/timing.cpp
+++ b/src/arc_utilities/timing.cpp
@@ -176,7 +176,7 @@ void Profiler::printGroupSummary(const std::vector<std::string>& names) {
         tot_time += val;
       }
       num_calls = data.size();
-      avg_time = tot_time / (double)num_calls;
+      avg_time = num_calls > 0 ? tot_time / (double)num_calls : 0.0;
     }
     printf(" %15f %15ld %15f\n", tot_time, num_calls, avg_time);
   }
@@ -269,7 +269,7 @@ void Profiler::writeGroupSummary(const std::string& filename, const std::vector<
         tot_time += val;
       }
       num_calls = data.size();
-      avg_time = tot_time / (double)num_calls;
+      avg_time = num_calls > 0 ? tot_time / (double)num_calls : 0.0;
       fprintf(outfile, " %15f %15ld %15f\n", tot_time, num_calls, avg_time);
     } else if (m->timed_double_data.find(name) != m->timed_double_data.end()) {
       double tot_value = 0;
@@ -280,8 +280,8 @@ void Profiler::writeGroupSummary(const std::string& filename, const std::vector<
         tot_value += val.value;
       }
       num_calls = data.size();
-      avg_time = tot_time / (double)num_calls;
-      avg_value = tot_value / (double)num_calls;
+      avg_time = num_calls > 0 ? tot_time / (double)num_calls : 0.0;
+      avg_value = num_calls > 0 ? tot_value / (double)num_calls : 0.0;
       fprintf(outfile, " %15f %15ld %15f %15f %15f\n", tot_time, num_calls, avg_time, tot_value, avg_value);
     } else {
       fprintf(outfile, " %15f %15ld %15f\n", tot_time, num_calls, avg_time);
-- 
2.43.0


From 168a8ba4af6937066ef99e2bf3273d8f040d6696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 47/85] fix: log to a file in the current directory

---
 include/arc_utilities/log.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index c6dc7b3..14a76a8 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -32,7 +32,9 @@ class Log {
   Log(const std::string& filename, bool add_header = false) : filename_(filename) {
     // Create the parent folder if needed
     boost::filesystem::path p(filename_);
-    arc_utilities::CreateDirectory(p.parent_path());
+    if (p.has_parent_path()) {
+      arc_utilities::CreateDirectory(p.parent_path());
+    }
 
     out_file_.open(filename, std::ios_base::out | std::ios_base::trunc);
     // check if we've succesfully opened the file
-- 
2.43.0


From a4788b1c404b17601b48da0ae910cd805a5056df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 48/85] fix: append to a log so that its copies' messages
 survive

---
 include/arc_utilities/log.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/log.hpp b/include/arc_utilities/log.hpp
index 14a76a8..afffa3c 100644
--- a/include/arc_utilities/log.hpp
+++ b/include/arc_utilities/log.hpp
@@ -36,7 +36,9 @@ class Log {
       arc_utilities::CreateDirectory(p.parent_path());
     }
 
-    out_file_.open(filename, std::ios_base::out | std::ios_base::trunc);
+    // Start from an empty file, then append to it like all copies of this log do
+    std::ofstream(filename, std::ios_base::out | std::ios_base::trunc).close();
+    out_file_.open(filename, std::ios_base::out | std::ios_base::app);
     // check if we've succesfully opened the file
     if (!out_file_.is_open()) {
       std::cerr << "\x1b[31;1m Unable to create folder/file to log to: " << filename << "\x1b[37m \n";
-- 
2.43.0


From 1e1b51b38499509f73b70f5fa4420a26fdfe59c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 49/85] fix: read the upper bits of 64-bit integers

---
 include/arc_utilities/arc_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 61ffa26..6f19787 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -172,7 +172,7 @@ inline T SetBit(const T current, const uint32_t bit_position, const bool bit_val
 template <typename T>
 inline bool GetBit(const T current, const uint32_t bit_position) {
   // Type safety checks are performed in the SetBit() function
-  const uint32_t mask = arc_helpers::SetBit((T)0, bit_position, true);
+  const T mask = arc_helpers::SetBit((T)0, bit_position, true);
   return (mask & current) > 0;
 }
 
-- 
2.43.0


From 5edf0b3a28b30c9aad7bda04be6e2a2d3efc8c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 50/85] fix: close the status file when checking for a debugger

---
 include/arc_utilities/arc_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 6f19787..9613ddc 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -67,6 +67,7 @@ inline bool IsDebuggerPresent() {
   }
   char buf[1024];
   const ssize_t num_read = read(status_fd, buf, sizeof(buf) - 1);
+  close(status_fd);
   if (num_read > 0) {
     static const char TracerPid[] = "TracerPid:";
     char* tracer_pid;
-- 
2.43.0


From f7f6debf1c785274da3f6db2658174a658526020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 51/85] fix: add vectors of any element type

---
 include/arc_utilities/vector_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/vector_math.hpp b/include/arc_utilities/vector_math.hpp
index fb14a89..154588f 100644
--- a/include/arc_utilities/vector_math.hpp
+++ b/include/arc_utilities/vector_math.hpp
@@ -116,7 +116,7 @@ inline std::vector<T1> Add(const std::vector<T1>& vec, const T2 scalar) {
 }
 
 template <typename T>
-inline std::vector<double> Add(const std::vector<T>& vec1, const std::vector<T>& vec2) {
+inline std::vector<T> Add(const std::vector<T>& vec1, const std::vector<T>& vec2) {
   if (vec1.size() == vec2.size()) {
     std::vector<T> added(vec1.size(), 0.0);
     for (size_t idx = 0; idx < added.size(); idx++) {
-- 
2.43.0


From 1336848088b38a253997f53ab0ba45c168405292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 52/85] fix: divide integer vectors by scalars without losing
 one

---
 include/arc_utilities/vector_math.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/vector_math.hpp b/include/arc_utilities/vector_math.hpp
index 154588f..eff380b 100644
--- a/include/arc_utilities/vector_math.hpp
+++ b/include/arc_utilities/vector_math.hpp
@@ -87,8 +87,12 @@ inline std::vector<T> Multiply(const std::vector<T>& vec1, const std::vector<T>&
 
 template <typename T1, typename T2>
 inline std::vector<T1> Divide(const std::vector<T1>& vec, const T2 scalar) {
-  const double inv_scalar = 1.0 / scalar;
-  return Multiply(vec, inv_scalar);
+  std::vector<T1> divided(vec.size(), 0.0);
+  for (size_t idx = 0; idx < divided.size(); idx++) {
+    const double element = vec[idx];
+    divided[idx] = element / scalar;
+  }
+  return divided;
 }
 
 template <typename T>
-- 
2.43.0


From 791d1ba3adada96b5cd586db34ef556133428797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 53/85] fix: convert an Eigen vector without reading past its
 end

---
 include/arc_utilities/eigen_std_conversions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/eigen_std_conversions.hpp b/include/arc_utilities/eigen_std_conversions.hpp
index c0d6819..0a313d1 100644
--- a/include/arc_utilities/eigen_std_conversions.hpp
+++ b/include/arc_utilities/eigen_std_conversions.hpp
@@ -9,8 +9,8 @@ template <typename Output>
 Output ConvertTo(Eigen::VectorXd const &vec);
 
 template <>
-std::vector<double> ConvertTo<std::vector<double>>(Eigen::VectorXd const &vec) {
-  return std::vector<double>(vec.data(), vec.data() + static_cast<unsigned long>(vec.size()) * sizeof(double));
+inline std::vector<double> ConvertTo<std::vector<double>>(Eigen::VectorXd const &vec) {
+  return std::vector<double>(vec.data(), vec.data() + vec.size());
 }
 
 #endif  // LGV_EIGEN_STD_CONVERSIONS
-- 
2.43.0


From 8fbe122fb9a24f9a9e635f957030c2a23d2301be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 54/85] fix: flatten lists of dynamically sized Eigen vectors

---
 include/arc_utilities/eigen_helpers.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index fbda04e..b554ca6 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -613,10 +613,11 @@ inline Eigen::Matrix<T, Eigen::Dynamic, 1> VectorEigenVectorToEigenVectorX(
   assert(vector_eigen_input.size() > 0);
 
   Eigen::Matrix<T, Eigen::Dynamic, 1> eigen_result;
-  eigen_result.resize((ssize_t)vector_eigen_input.size() * vector_eigen_input[0].rows());
+  const ssize_t length = vector_eigen_input[0].rows();
+  eigen_result.resize((ssize_t)vector_eigen_input.size() * length);
 
   for (size_t idx = 0; idx < vector_eigen_input.size(); idx++) {
-    eigen_result.segment((ssize_t)idx * LENGTH, LENGTH) = vector_eigen_input[idx];
+    eigen_result.segment((ssize_t)idx * length, length) = vector_eigen_input[idx];
   }
 
   return eigen_result;
-- 
2.43.0


From 288802ad73a03ad54b2e1f3df90a0790a070aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 55/85] fix: serialize ROS messages without reading past their
 end

---
 include/arc_utilities/serialization_ros.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/serialization_ros.hpp b/include/arc_utilities/serialization_ros.hpp
index abfdfd2..ccf6a92 100644
--- a/include/arc_utilities/serialization_ros.hpp
+++ b/include/arc_utilities/serialization_ros.hpp
@@ -201,8 +201,11 @@ inline std::pair<geometry_msgs::TransformStamped, uint64_t> DeserializeTransform
 template <typename MessageType>
 inline uint64_t RosMessageSerializationWrapper(const MessageType& message, std::vector<uint8_t>& buffer) {
   const ros::SerializedMessage serialized_message = ros::serialization::serializeMessage(message);
-  buffer.insert(buffer.end(), serialized_message.message_start,
-                serialized_message.message_start + serialized_message.num_bytes);
+  // message_start is after the length marker, but num_bytes includes it
+  const uint8_t* const message_end = serialized_message.buf.get() + serialized_message.num_bytes;
+  buffer.insert(buffer.end(), (const uint8_t*)serialized_message.message_start, message_end);
+  // RosMessageDeserializationWrapper(...) expects num_bytes to be used
+  buffer.resize(buffer.size() + (serialized_message.message_start - serialized_message.buf.get()), 0);
   return serialized_message.num_bytes;
 }
 
-- 
2.43.0


From 50f37cfee4185767959fb56dd72edf6ea30efb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 56/85] fix: convert affine transforms to stamped poses

---
 include/arc_utilities/eigen_helpers_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers_conversions.hpp b/include/arc_utilities/eigen_helpers_conversions.hpp
index 9371016..1ac8e9c 100644
--- a/include/arc_utilities/eigen_helpers_conversions.hpp
+++ b/include/arc_utilities/eigen_helpers_conversions.hpp
@@ -157,7 +157,7 @@ inline geometry_msgs::PoseStamped EigenIsometry3dToGeometryPoseStamped(const Eig
   return pose_stamped;
 }
 
-inline geometry_msgs::PoseStamped EigenAffine3dToGeometryPoseStamped(const Eigen::Isometry3d& transform,
+inline geometry_msgs::PoseStamped EigenAffine3dToGeometryPoseStamped(const Eigen::Affine3d& transform,
                                                                      const std::string& frame_id) {
   geometry_msgs::PoseStamped pose_stamped;
   pose_stamped.header.frame_id = frame_id;
-- 
2.43.0


From 11b53a4a4011ed5a11c7272b7fe15d76088d6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 57/85] fix: allow building mesh triangles in several files

---
 include/arc_utilities/shape_msgs_builders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/shape_msgs_builders.hpp b/include/arc_utilities/shape_msgs_builders.hpp
index 3bff9ba..d9726e7 100644
--- a/include/arc_utilities/shape_msgs_builders.hpp
+++ b/include/arc_utilities/shape_msgs_builders.hpp
@@ -5,7 +5,7 @@
 
 namespace arc_utilities {
 namespace rmb {
-shape_msgs::MeshTriangle MakeMeshTriangle(const uint32_t v1, const uint32_t v2, const uint32_t v3) {
+inline shape_msgs::MeshTriangle MakeMeshTriangle(const uint32_t v1, const uint32_t v2, const uint32_t v3) {
   shape_msgs::MeshTriangle t;
   t.vertex_indices = {v1, v2, v3};
   return t;
-- 
2.43.0


From 6b4892652dfd80c9eb25eca490773da6b9c82aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 58/85] fix: allow transforming translation pairs in several
 files

---
 include/arc_utilities/eigen_transforms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_transforms.hpp b/include/arc_utilities/eigen_transforms.hpp
index 55cb05f..ec97e07 100644
--- a/include/arc_utilities/eigen_transforms.hpp
+++ b/include/arc_utilities/eigen_transforms.hpp
@@ -9,7 +9,7 @@ std::pair<T1, T2> Transform(Pose const& transform, std::pair<T1, T2> const& inpu
   return {transform * input.first, transform * input.second};
 }
 
-std::pair<Pose, Pose> Transform(Pose const& transform,
+inline std::pair<Pose, Pose> Transform(Pose const& transform,
                                 std::pair<Eigen::Translation3d, Eigen::Translation3d> const& input) {
   return {transform * input.first, transform * input.second};
 }
-- 
2.43.0


From ba5c4e51047713251956dcfc961045fc19280eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 59/85] fix: compare all joint names when appending
 trajectories

---
 src/arc_utilities/trajectory_utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arc_utilities/trajectory_utils.cpp b/src/arc_utilities/trajectory_utils.cpp
index f8feefd..ed6f702 100644
--- a/src/arc_utilities/trajectory_utils.cpp
+++ b/src/arc_utilities/trajectory_utils.cpp
@@ -7,8 +7,7 @@ void append(trajectory_msgs::JointTrajectory &trajectory1, trajectory_msgs::Join
   // first check they have the same joint names
   if (trajectory1.joint_names.empty()) {
     trajectory1.joint_names = trajectory2.joint_names;
-  } else if (not std::equal(trajectory1.joint_names.cbegin(), trajectory1.joint_names.cend(),
-                            trajectory2.joint_names.cbegin())) {
+  } else if (trajectory1.joint_names != trajectory2.joint_names) {
     ROS_ERROR_STREAM("Tried to append trajectory but the joint names differ");
     ROS_ERROR_STREAM("joint 1 names:");
     for (auto const &name1 : trajectory1.joint_names) {
-- 
2.43.0


From 002b5865f342470d043d6e8be241d8affc9e8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 60/85] fix: append a trajectory to itself

---
 src/arc_utilities/trajectory_utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/trajectory_utils.cpp b/src/arc_utilities/trajectory_utils.cpp
index ed6f702..3fcf27c 100644
--- a/src/arc_utilities/trajectory_utils.cpp
+++ b/src/arc_utilities/trajectory_utils.cpp
@@ -30,9 +30,11 @@ void append(trajectory_msgs::JointTrajectory &trajectory1, trajectory_msgs::Join
     }
     return ros::Duration(0);
   }();
-  for (auto const &point2 : trajectory2.points) {
-    auto point2_retimed = point2;
-    point2_retimed.time_from_start = last_trajectory1_time + point2.time_from_start;
+  // By index and size beforehand, as both can be the same trajectory
+  auto const num_points = trajectory2.points.size();
+  for (size_t idx = 0; idx < num_points; ++idx) {
+    auto point2_retimed = trajectory2.points[idx];
+    point2_retimed.time_from_start = last_trajectory1_time + point2_retimed.time_from_start;
     trajectory1.points.emplace_back(point2_retimed);
   }
 }
-- 
2.43.0


From 0534d630505a573b04898688f992c79964f4872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 61/85] fix: keep a listener's message alive until its spinner
 stops

---
 include/arc_utilities/listener.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/listener.hpp b/include/arc_utilities/listener.hpp
index 27811ed..770766e 100644
--- a/include/arc_utilities/listener.hpp
+++ b/include/arc_utilities/listener.hpp
@@ -10,11 +10,12 @@ template <class T>
 class Listener {
  protected:
   std::string topic_;
+  // The callback uses these until the spinner is destroyed
+  std::mutex mtx_;
+  typename T::ConstPtr msg_;
   ros::CallbackQueue queue_;
   ros::AsyncSpinner spinner_;
   ros::Subscriber sub_;
-  std::mutex mtx_;
-  typename T::ConstPtr msg_;
 
   void callback(typename T::ConstPtr const& msg) {
     std::lock_guard<std::mutex> lock(mtx_);
@@ -23,7 +24,7 @@ class Listener {
 
  public:
   Listener(ros::NodeHandle& nh, std::string const& topic, bool const autostart = true)
-      : topic_(topic), queue_(), spinner_(1, &queue_), msg_(nullptr) {
+      : topic_(topic), msg_(nullptr), queue_(), spinner_(1, &queue_) {
     auto options =
         ros::SubscribeOptions::create<T>(topic, 1, boost::bind(&Listener::callback, this, _1), ros::VoidPtr(), &queue_);
     sub_ = nh.subscribe(options);
-- 
2.43.0


From 54488fbd2f0e8be9d5b5c2260c9c120eff12882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 62/85] fix: print forward lists, which have no size()

---
 include/arc_utilities/pretty_print.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/pretty_print.hpp b/include/arc_utilities/pretty_print.hpp
index 15d6c76..79547f2 100644
--- a/include/arc_utilities/pretty_print.hpp
+++ b/include/arc_utilities/pretty_print.hpp
@@ -345,7 +345,7 @@ template <typename T, typename Allocator>
 inline std::string PrettyPrint(const std::forward_list<T, Allocator>& listtoprint, const bool add_delimiters,
                                const std::string& separator) {
   std::ostringstream strm;
-  if (listtoprint.size() > 0) {
+  if (!listtoprint.empty()) {
     if (add_delimiters) {
       strm << "[";
       typename std::forward_list<T, Allocator>::const_iterator itr;
-- 
2.43.0


From 5baaab62dcd5b4dc43f55d47f3dc049b1f26b177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 63/85] fix: keep the padding of Aligned4Vector3 at one in
 place

---
 include/arc_utilities/aligned_eigen_types.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/aligned_eigen_types.hpp b/include/arc_utilities/aligned_eigen_types.hpp
index 4e3dc0f..98cc248 100644
--- a/include/arc_utilities/aligned_eigen_types.hpp
+++ b/include/arc_utilities/aligned_eigen_types.hpp
@@ -115,6 +115,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator+=(const Aligned4Vector3& other) {
     m_coeffs += other.m_coeffs;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -122,8 +123,9 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
     return Aligned4Vector3(m_coeffs - other.m_coeffs);
   }
 
-  inline Aligned4Vector3 operator-=(const Aligned4Vector3& other) {
+  inline Aligned4Vector3& operator-=(const Aligned4Vector3& other) {
     m_coeffs -= other.m_coeffs;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -135,6 +137,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator*=(const Scalar& s) {
     m_coeffs *= s;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -142,6 +145,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Aligned4Vector3& operator/=(const Scalar& s) {
     m_coeffs /= s;
+    m_coeffs.w() = Scalar(1);
     return *this;
   }
 
@@ -151,7 +155,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
     return m_coeffs.dot(other.m_coeffs) - Scalar(1);
   }
 
-  inline void normalize() { m_coeffs /= norm(); }
+  inline void normalize() { *this /= norm(); }
 
   inline Aligned4Vector3 normalized() const { return Aligned4Vector3(m_coeffs / norm()); }
 
-- 
2.43.0


From 7d4c0fc19f6d9049422e79ffc0b7525d49c5227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 64/85] fix: do not round small Aligned4Vector3 against their
 padding

---
 include/arc_utilities/aligned_eigen_types.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/aligned_eigen_types.hpp b/include/arc_utilities/aligned_eigen_types.hpp
index 98cc248..42d2851 100644
--- a/include/arc_utilities/aligned_eigen_types.hpp
+++ b/include/arc_utilities/aligned_eigen_types.hpp
@@ -152,7 +152,7 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
   inline Scalar dot(const Aligned4Vector3& other) const {
     eigen_assert(m_coeffs.w() == Scalar(1));
     eigen_assert(other.m_coeffs.w() == Scalar(1));
-    return m_coeffs.dot(other.m_coeffs) - Scalar(1);
+    return m_coeffs.template head<3>().dot(other.m_coeffs.template head<3>());
   }
 
   inline void normalize() { *this /= norm(); }
@@ -161,12 +161,12 @@ class Aligned4Vector3 : public MatrixBase<Aligned4Vector3<_Scalar> > {
 
   inline Scalar sum() const {
     eigen_assert(m_coeffs.w() == Scalar(1));
-    return m_coeffs.sum() - Scalar(1);
+    return m_coeffs.template head<3>().sum();
   }
 
   inline Scalar squaredNorm() const {
     eigen_assert(m_coeffs.w() == Scalar(1));
-    return m_coeffs.squaredNorm() - Scalar(1);
+    return m_coeffs.template head<3>().squaredNorm();
   }
 
   inline Scalar norm() const {
-- 
2.43.0


From e6b4b6fd013a6fa10e01f2c17ac1e20cd3c9e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 65/85] fix: zip_repeat_shorter with fewer than two arguments

---
 src/arc_utilities/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/algorithms.py b/src/arc_utilities/algorithms.py
index bfec369..765dbed 100644
--- a/src/arc_utilities/algorithms.py
+++ b/src/arc_utilities/algorithms.py
@@ -35,7 +35,7 @@ def repeat_last(x: List):
 
 
 def zip_repeat_shorter(*args):
-    longest_len = max(*[len(x) for x in args])
+    longest_len = max((len(x) for x in args), default=0)
     zipped = zip(*[repeat_last(x) for x in args])
     for i in range(longest_len):
         yield next(zipped)
-- 
2.43.0


From bd96a235e818bc7973aecbcc61768e7cff7760b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:08 +0000
Subject: [PATCH 66/85] fix: nested_dict_update replacing a value by a dict

---
 src/arc_utilities/algorithms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/algorithms.py b/src/arc_utilities/algorithms.py
index 765dbed..bfa7ec5 100644
--- a/src/arc_utilities/algorithms.py
+++ b/src/arc_utilities/algorithms.py
@@ -13,7 +13,10 @@ def nested_dict_update(base_dict: Dict, update_dict: Optional[Dict]):
         return base_dict
     for k, v in update_dict.items():
         if isinstance(v, collections.abc.Mapping):
-            base_dict[k] = nested_dict_update(base_dict.get(k, {}), v)
+            base_v = base_dict.get(k)
+            if not isinstance(base_v, collections.abc.Mapping):
+                base_v = {}
+            base_dict[k] = nested_dict_update(base_v, v)
         else:
             base_dict[k] = v
     return base_dict
-- 
2.43.0


From 3ee0f94fd4dbf599fb2feda4992ded0863c737bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 67/85] fix: rm_tree deleting through symbolic links

---
 src/arc_utilities/filesystem_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index fa341d9..244ee1b 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -74,11 +74,15 @@ def count_files_recursive(path):
 
 def rm_tree(path):
     path = pathlib.Path(path)
+    if path.is_symlink():
+        # never follow links, only remove them
+        path.unlink()
+        return
     for child in path.glob('*'):
-        if child.is_file():
-            child.unlink()
-        else:
+        if child.is_dir() and not child.is_symlink():
             rm_tree(child)
+        else:
+            child.unlink()
     path.rmdir()
 
 
-- 
2.43.0


From bb86ea3c41fcc4e115da089ddca117c62a0579cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 68/85] fix: ask_to_remove_directories given a one-shot
 iterable

---
 src/arc_utilities/filesystem_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 244ee1b..9602e46 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -46,6 +46,7 @@ def append_str_to_path(p: pathlib.Path, s: str):
 
 
 def ask_to_remove_directories(directories_to_remove: Iterable[pathlib.Path]):
+    directories_to_remove = list(directories_to_remove)
     print("Ok to delete these directories?")
     for d in directories_to_remove:
         print(d.as_posix())
-- 
2.43.0


From 584948ac472fda83db65d79c93679ea1785134f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 69/85] fix: count_files_recursive following symbolic links

---
 src/arc_utilities/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/filesystem_utils.py b/src/arc_utilities/filesystem_utils.py
index 9602e46..ee16f3f 100644
--- a/src/arc_utilities/filesystem_utils.py
+++ b/src/arc_utilities/filesystem_utils.py
@@ -66,7 +66,7 @@ def count_files_recursive(path):
     count = 0
     path = pathlib.Path(path)
     for child in path.iterdir():
-        if child.is_dir():
+        if child.is_dir() and not child.is_symlink():
             count += count_files_recursive(child)
         else:
             count += 1
-- 
2.43.0


From b0ea04eba35453a587be81f892d7724a057c8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 70/85] fix: reversing an empty trajectory

---
 src/arc_utilities/path_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arc_utilities/path_utils.py b/src/arc_utilities/path_utils.py
index b9e7a4d..1aaab5c 100644
--- a/src/arc_utilities/path_utils.py
+++ b/src/arc_utilities/path_utils.py
@@ -163,6 +163,8 @@ def path_length(path):
 def reverse_trajectory(trajectory: JointTrajectory):
     reversed_trajectory = deepcopy(trajectory)
     reversed_trajectory.points = deepcopy(trajectory.points[::-1])
+    if len(reversed_trajectory.points) == 0:
+        return reversed_trajectory
     reversed_trajectory.points[0].time_from_start = rospy.Duration(0)
 
     time_from_start = rospy.Duration(0)
-- 
2.43.0


From 31ef86565e4e4272ce3b36568a85e40ac2b6a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 71/85] fix: InvertMatrix raising AttributeError

---
 src/arc_utilities/transformation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index 1d81eea..a27a6c6 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -152,7 +152,7 @@ def ComposeMatrices(matrix1, matrix2):
 
 
 def InvertMatrix(old_matrix):
-    return np.np.linalg.inv(old_matrix)
+    return np.linalg.inv(old_matrix)
 
 
 def ComposeQuaternions(q1, q2):
-- 
2.43.0


From 5aff1595a59b15bc37f2832bd817920d587d0ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 72/85] fix: wrong term in AngleBetweenQuaternionsRos

---
 src/arc_utilities/transformation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index a27a6c6..f80ffec 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -211,7 +211,7 @@ def AngleBetweenQuaternions(q1, q2):
 def AngleBetweenQuaternionsRos(q1, q2):
     nq1 = NormalizeQuaternionRos(q1)
     nq2 = NormalizeQuaternionRos(q2)
-    dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.z * nq2.w)
+    dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.w * nq2.w)
     if dot_product < 0.9999:
         return np.arccos(2.0 * (dot_product ** 2) - 1.0)
     else:
-- 
2.43.0


From 9d2993d36c4365ff01201597a5818cdf53fe70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 73/85] fix: Denavit-Hartenberg matrix using the twist as link
 length

---
 src/arc_utilities/transformation_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index f80ffec..db53950 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -393,8 +393,8 @@ def BuildMatrixFromTransRot(trans, rot):
 def BuildMatrixFromDH(d, a, theta, alpha):
     # Do math here
     tfmatrix = np.array([
-        [cos(theta), -sin(theta) * cos(alpha), sin(theta) * sin(alpha), alpha * cos(theta)],
-        [sin(theta), cos(theta) * cos(alpha), -cos(theta) * sin(alpha), alpha * sin(theta)],
+        [cos(theta), -sin(theta) * cos(alpha), sin(theta) * sin(alpha), a * cos(theta)],
+        [sin(theta), cos(theta) * cos(alpha), -cos(theta) * sin(alpha), a * sin(theta)],
         [0.0, sin(alpha), cos(alpha), d], [0.0, 0.0, 0.0, 1.0]])
     return tfmatrix
 
-- 
2.43.0


From 28e76fe171e77a8b0a96e21ca870d4c8ccc5bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 74/85] fix: angle between close quaternions reported as zero

---
 src/arc_utilities/transformation_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/transformation_helper.py b/src/arc_utilities/transformation_helper.py
index db53950..b4a94ae 100644
--- a/src/arc_utilities/transformation_helper.py
+++ b/src/arc_utilities/transformation_helper.py
@@ -202,7 +202,7 @@ def AngleBetweenQuaternions(q1, q2):
     nq1 = NormalizeQuaternion(q1)
     nq2 = NormalizeQuaternion(q2)
     dot_product = abs(nq1[0] * nq2[0] + nq1[1] * nq2[1] + nq1[2] * nq2[2] + nq1[3] * nq2[3])
-    if dot_product < 0.9999:
+    if dot_product < 1.0:
         return np.arccos(2.0 * (dot_product ** 2) - 1.0)
     else:
         return 0.0
@@ -212,7 +212,7 @@ def AngleBetweenQuaternionsRos(q1, q2):
     nq1 = NormalizeQuaternionRos(q1)
     nq2 = NormalizeQuaternionRos(q2)
     dot_product = abs(nq1.x * nq2.x + nq1.y * nq2.y + nq1.z * nq2.z + nq1.w * nq2.w)
-    if dot_product < 0.9999:
+    if dot_product < 1.0:
         return np.arccos(2.0 * (dot_product ** 2) - 1.0)
     else:
         return 0
-- 
2.43.0


From ea0c5fcdcfe3855fb8e50beafcfbfb4f19543033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 75/85] fix: Lab conversion not undoing its reference white

---
 src/arc_utilities/color.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index c6e392e..ad290c9 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -38,9 +38,10 @@ def cielab_finv(val):
 
 
 def get_ref_xyz():
-    xref = 95.047
-    yref = 100.0
-    zref = 108.883
+    # reference white for XYZ as given by convert_rgb_to_xyz, where white has y = 1
+    xref = 0.95047
+    yref = 1.0
+    zref = 1.08883
     return [xref, yref, zref]
 
 
@@ -53,10 +54,11 @@ def convert_xyz_to_lab(x, y, z):
 
 
 def convert_lab_to_xyz(l, a, b):
+    [xref, yref, zref] = get_ref_xyz()
     intermediate = (l + 16.0) * (1.0 / 116.0)
-    x = cielab_finv(intermediate + a * (1.0 / 500.0))
-    y = cielab_finv(intermediate)
-    z = cielab_finv(intermediate - b * (1.0 / 200.0))
+    x = xref * cielab_finv(intermediate + a * (1.0 / 500.0))
+    y = yref * cielab_finv(intermediate)
+    z = zref * cielab_finv(intermediate - b * (1.0 / 200.0))
     return [x, y, z]
 
 
-- 
2.43.0


From 2bbebc4fefbe08a3996e032486209773a16ff4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 76/85] fix: Lab to Msh losing the hue quadrant and failing on
 black and grey

---
 src/arc_utilities/color.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index ad290c9..199461a 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -64,9 +64,10 @@ def convert_lab_to_xyz(l, a, b):
 
 def convert_lab_to_msh(l, a, b):
     m = math.sqrt(l ** 2 + a ** 2 + b ** 2)
+    if m == 0.0:
+        return [0.0, 0.0, 0.0]
     s = math.acos(l / m)
-    # h = math.atan2(b, a)
-    h = math.atan(b / a)
+    h = math.atan2(b, a)
     return [m, s, h]
 
 
-- 
2.43.0


From 9208b32aa6a49aa562cd37d94012305ec5bae8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 77/85] fix: hot end of the hot-to-cold colour map

---
 src/arc_utilities/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/color.py b/src/arc_utilities/color.py
index 199461a..10a6eed 100644
--- a/src/arc_utilities/color.py
+++ b/src/arc_utilities/color.py
@@ -205,7 +205,7 @@ def interpolate_hot_to_cold(value, min_value=0.0, max_value=1.0):
         r = 4 * (value - min_value - 0.5 * val_range) / val_range
         b = 0.0
     else:
-        g = 1.0 + 4.0 * (min_value + 0.75 * val_range - min_value) / val_range
+        g = 1.0 + 4.0 * (min_value + 0.75 * val_range - value) / val_range
         b = 0.0
     return [r, g, b]
 
-- 
2.43.0


From cace29aa07982bc628e80ce40ea76a31f1a8e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 78/85] fix: normalize_quaternion on a list

---
 src/arc_utilities/conversions.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/arc_utilities/conversions.py b/src/arc_utilities/conversions.py
index 0753c71..eff528d 100644
--- a/src/arc_utilities/conversions.py
+++ b/src/arc_utilities/conversions.py
@@ -39,11 +39,7 @@ def normalize_quaternion(quaternion: Union[List[int], Quaternion]):
         return quaternion
     elif isinstance(quaternion, list):
         norm = np.linalg.norm(np.array(quaternion))
-        quaternion.x = quaternion.x / norm
-        quaternion.y = quaternion.y / norm
-        quaternion.z = quaternion.z / norm
-        quaternion.w = quaternion.w / norm
-        return quaternion
+        return [q_i / norm for q_i in quaternion]
     else:
         raise NotImplementedError()
 
-- 
2.43.0


From 0b38e0f76dc66e7114ff6e889b4f870a98750b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 79/85] fix: Listener losing callbacks for messages arriving
 during construction

---
 src/arc_utilities/listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/listener.py b/src/arc_utilities/listener.py
index de32672..ff4cc1b 100644
--- a/src/arc_utilities/listener.py
+++ b/src/arc_utilities/listener.py
@@ -23,10 +23,10 @@ class Listener:
 
         self.data = None
         self.lock = Lock()
+        self.custom_callback = callback
 
         self.topic_name = topic_name
         self.subscriber = rospy.Subscriber(topic_name, topic_type, self.callback, queue_size=queue_size)
-        self.custom_callback = callback
         self.get(wait_for_data)
 
     def callback(self, msg):
-- 
2.43.0


From b75d16d71594eb1d0561ec8e4e384e59116b074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 80/85] fix: deadlock when a Listener's callback reads the
 listener

---
 src/arc_utilities/listener.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arc_utilities/listener.py b/src/arc_utilities/listener.py
index ff4cc1b..32eb331 100644
--- a/src/arc_utilities/listener.py
+++ b/src/arc_utilities/listener.py
@@ -1,5 +1,5 @@
 from copy import deepcopy
-from threading import Lock
+from threading import RLock
 
 import rospy
 from arc_utilities.ros_helpers import wait_for
@@ -22,7 +22,7 @@ class Listener:
         """
 
         self.data = None
-        self.lock = Lock()
+        self.lock = RLock()
         self.custom_callback = callback
 
         self.topic_name = topic_name
-- 
2.43.0


From 0d886dc7ef12b7f84ea52042930b167f6d55ea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 81/85] fix: ReliableTF start raising when a look-up fails
 transiently

---
 src/arc_utilities/reliable_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/reliable_tf.py b/src/arc_utilities/reliable_tf.py
index c8349c1..9d70405 100644
--- a/src/arc_utilities/reliable_tf.py
+++ b/src/arc_utilities/reliable_tf.py
@@ -105,7 +105,7 @@ class ReliableTF(TF2Wrapper):
         # block until the correct transform is received
         while True:
             received_transform = self.get_transform(parent, child, verbose=False)
-            if is_close_func(received_transform):
+            if received_transform is not None and is_close_func(received_transform):
                 break
 
     def stop_send(self, parent, child):
-- 
2.43.0


From 06190658141de988a762f734f9c61c16ebe2eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 82/85] fix: static transform sharing the caller's pose message

---
 src/arc_utilities/tf2wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 3a293e8..2a77be7 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -99,7 +99,10 @@ class TF2Wrapper:
         t.transform.translation.x = pose.position.x
         t.transform.translation.y = pose.position.y
         t.transform.translation.z = pose.position.z
-        t.transform.rotation = pose.orientation
+        t.transform.rotation.x = pose.orientation.x
+        t.transform.rotation.y = pose.orientation.y
+        t.transform.rotation.z = pose.orientation.z
+        t.transform.rotation.w = pose.orientation.w
 
         if is_static:
             self.static_tfs.append(t)
-- 
2.43.0


From c4c1900d0d07b1bb19e19a9cd8702c0948a1cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 83/85] fix: static transforms piling up and racing between
 threads

---
 src/arc_utilities/tf2wrapper.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/tf2wrapper.py b/src/arc_utilities/tf2wrapper.py
index 2a77be7..9087d2b 100644
--- a/src/arc_utilities/tf2wrapper.py
+++ b/src/arc_utilities/tf2wrapper.py
@@ -1,5 +1,7 @@
 #! /usr/bin/env python
 
+from threading import Lock
+
 import geometry_msgs.msg
 import rospy
 import tf2_ros
@@ -22,6 +24,7 @@ class TF2Wrapper:
         self.tf_broadcaster = tf2_ros.TransformBroadcaster()
         self.static_tf_broadcaster = tf2_ros.StaticTransformBroadcaster()
         self.static_tfs = []
+        self.static_tfs_lock = Lock()
 
     def get_transform(self,
                       parent,
@@ -105,8 +108,7 @@ class TF2Wrapper:
         t.transform.rotation.w = pose.orientation.w
 
         if is_static:
-            self.static_tfs.append(t)
-            self.static_tf_broadcaster.sendTransform(self.static_tfs)  # send all at once.
+            self._send_static(t)
         else:
             self.tf_broadcaster.sendTransform(t)
 
@@ -139,11 +141,16 @@ class TF2Wrapper:
         t.transform.rotation.w = quaternion[3]
 
         if is_static:
-            self.static_tfs.append(t)
-            self.static_tf_broadcaster.sendTransform(self.static_tfs) # send all at once.
+            self._send_static(t)
         else:
             self.tf_broadcaster.sendTransform(t)
 
+    def _send_static(self, t):
+        with self.static_tfs_lock:
+            self.static_tfs = [other for other in self.static_tfs if other.child_frame_id != t.child_frame_id]
+            self.static_tfs.append(t)
+            self.static_tf_broadcaster.sendTransform(self.static_tfs)  # send all at once.
+
     def transform_to_frame(self, object_stamped, target_frame, timeout=rospy.Duration(0), new_type=None):
         """
         Transforms many "stamped" data types between frames. The specific package for the type of stamped object needs
-- 
2.43.0


From 5d60241b56ad98443e6b722b60f9587390c3d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 84/85] fix: roscpp_initializer ignoring anonymous,
 disable_rosout and disable_signals

---
 src/roscpp_initializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roscpp_initializer.cpp b/src/roscpp_initializer.cpp
index d436cdb..426a193 100644
--- a/src/roscpp_initializer.cpp
+++ b/src/roscpp_initializer.cpp
@@ -55,7 +55,7 @@ void init_node(std::string const &name, std::vector<std::string> argv = {}, int
     return pc;
   };
   std::transform(argv.begin(), argv.end(), std::back_inserter(argv_pointers), convert);
-  ros::init(argc, argv_pointers.data(), name);
+  ros::init(argc, argv_pointers.data(), name, options);
 
   spinner = std::make_unique<ros::AsyncSpinner>(1);
   spinner->start();
-- 
2.43.0


From 92b78a56de3408291f7252015e6d92d9afda5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 85/85] fix: a buffer written in slices replaces what was
 written to that path before

---
 src/arc_utilities/zlib_helpers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index ac3e7cd..22f2477 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -176,6 +176,14 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
 
       ++file_idx;
     } while (file_idx * max_bytes < uncompressed.size());
+    // What an earlier write may have left behind would be loaded instead of, or after, the slices just written
+    if (boost::filesystem::is_regular_file(path)) {
+      boost::filesystem::remove(path);
+    }
+    while (boost::filesystem::is_regular_file(path + "." + std::to_string(file_idx))) {
+      boost::filesystem::remove(path + "." + std::to_string(file_idx));
+      ++file_idx;
+    }
     return;
   }
 
-- 
2.43.0

