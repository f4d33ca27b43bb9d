From 7e1d6d563bfc30a01440972d37767ab3c19530dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 01/12] fix: consider every open edge when deciding whether a
 vertex is visible

The open edges were keyed by the distance at which they were opened, dropping
edges opened at equal distances, and only the first of them was tested against
a sight line although that order does not hold for later sight lines.
---
 .../code/datastructures/open_edges/open_edges.cpp        | 1 +
 .../code/datastructures/open_edges/open_edges.hpp        | 6 +++++-
 .../code/visgraph/vistree_generator.cpp                  | 9 +++++----
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
index e384cad..ac3c5aa 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
@@ -5,6 +5,7 @@
 #include "open_edges.hpp"
 
 void OpenEdges::add_edge(int64_t distance, const LineSegment &segment) {
+    remove_edge(segment);
     _edges_sorted_by_distance.emplace(distance, segment);
     _edge_to_distance_mapping[segment] = distance;
 }
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
index cdd4872..1e478c3 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
@@ -19,8 +19,12 @@ class OpenEdges {
     [[nodiscard]] LineSegment closest_edge() const;
     [[nodiscard]] bool empty() const;
 
+    // Iterates over all of the open edges, in order of the distance at which they were opened
+    [[nodiscard]] auto begin() const { return _edges_sorted_by_distance.begin(); }
+    [[nodiscard]] auto end() const { return _edges_sorted_by_distance.end(); }
+
   private:
-    std::map<int64_t, const LineSegment> _edges_sorted_by_distance;
+    std::multimap<int64_t, const LineSegment> _edges_sorted_by_distance;
     std::unordered_map<LineSegment, int64_t> _edge_to_distance_mapping;
 };
 
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index cdd4097..d2e783f 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -213,10 +213,11 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
         }
     }
 
-    if (!open_edges.empty()) {
-        const auto &closest_edge = open_edges.closest_edge();
-        const auto intersection =
-            closest_edge.intersection_with_segment(LineSegment(observer_coordinate, vertex_in_question));
+    // The distances at which edges were opened do not order the edges along later sight lines,
+    // so every open edge has to be considered
+    const auto sight_line = LineSegment(observer_coordinate, vertex_in_question);
+    for (const auto &open_edge : open_edges) {
+        const auto intersection = open_edge.second.intersection_with_segment(sight_line);
         if (intersection.has_value() && intersection.value() != vertex_in_question) {
             return false;
         }
-- 
2.43.0


From e94bfa04aeb350ff0393a8f4b1bf28573f018508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 02/12] fix: hash equal line segments equally

Line segments are equal in either direction, but their hashes differed.
---
 .../code/types/line_segment/line_segment.cpp                | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
index 7eb4214..bf7caba 100644
--- a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
@@ -2,6 +2,7 @@
 // Created by James.Balajan on 31/03/2021.
 //
 
+#include <algorithm>
 #include <s2/s2point.h>
 #include <stdexcept>
 
@@ -138,5 +139,8 @@ S2Polyline *LineSegment::to_s2_polyline() const {
 std::size_t std::hash<LineSegment>::operator()(const LineSegment &segment) const {
     const std::size_t coord_1_hash = hash<Coordinate>()(segment.get_endpoint_1());
     const std::size_t coord_2_hash = hash<Coordinate>()(segment.get_endpoint_2());
-    return coord_1_hash ^ (coord_2_hash + 0x9e3779b9 + (coord_1_hash << 6) + (coord_1_hash >> 2));
+    // Segments are equal irrespective of their direction, so their hash must be too
+    const std::size_t low_hash = std::min(coord_1_hash, coord_2_hash);
+    const std::size_t high_hash = std::max(coord_1_hash, coord_2_hash);
+    return low_hash ^ (high_hash + 0x9e3779b9 + (low_hash << 6) + (low_hash >> 2));
 }
-- 
2.43.0


From a92ccacd0bc8b42381b9445df7c6fe0274bd865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 03/12] fix: keep the existing edges when adding a vertex to a
 graph

The adjacency matrix was resized without moving its rows, and adding an
existing vertex again duplicated it and dropped its edges.
---
 .../code/datastructures/graph/graph.cpp          | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index d39e503..44bc1d8 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -215,11 +215,23 @@ std::vector<Coordinate> Graph::get_vertices() const { return _index_to_coordinat
 std::vector<Polygon> Graph::get_polygons() const { return _polygons; }
 
 void Graph::add_vertex(const Coordinate &vertex) {
+    if (has_vertex(vertex)) {
+        return;
+    }
+
     _coordinate_to_index_mapping[vertex] = _num_coords;
     _index_to_coordinate_mapping.push_back(vertex);
 
-    ++_num_coords;
-    _neighbors.resize(_num_coords*_num_coords, EdgeState::DISCONNECTED);
+    const auto new_num_coords = _num_coords + 1;
+    std::vector<EdgeState> neighbors(new_num_coords * new_num_coords, EdgeState::DISCONNECTED);
+    for (size_t i = 0; i < _num_coords; ++i) {
+        for (size_t j = 0; j < _num_coords; ++j) {
+            neighbors[i + (new_num_coords * j)] = _neighbors[i + (_num_coords * j)];
+        }
+    }
+
+    _num_coords = new_num_coords;
+    _neighbors = std::move(neighbors);
     _accessor_locks.push_back(std::make_unique<std::shared_mutex>());
 }
 
-- 
2.43.0


From ab8f73475e83468125a06c01a88159f600b9294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 04/12] fix: get_neighbors follows outgoing edges

It read the incoming edges of a vertex, disagreeing with has_edge on directed edges.
---
 .../visibility_graphs/code/datastructures/graph/graph.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 44bc1d8..fa2b387 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -201,7 +201,7 @@ std::vector<Coordinate> Graph::get_neighbors(const Coordinate &vertex) const {
 
     std::vector<Coordinate> neighbors;
     for (size_t i_offset = 0; i_offset < _num_coords; ++i_offset) {
-        size_t i = i_offset + (index * _num_coords);
+        size_t i = index + (i_offset * _num_coords);
         if (_neighbors[i] != EdgeState::DISCONNECTED) {
             neighbors.push_back(index_to_coordinate(i_offset));
         }
-- 
2.43.0


From b3e16cebe12cb0de3e91c15f71a3d3eecd665c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 05/12] fix: decide reflex vertices exactly

The floating point determinant can have the wrong sign for nearly collinear vertices.
---
 .../code/types/polyline/three_vertex_polyline.cpp              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
index b29f43d..c8f3145 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
@@ -42,8 +42,7 @@ bool ThreeVertexPolyline::is_reflex() const {
     const auto s = _v2 - _v1;
     const auto t = _v3 - _v2;
 
-    const auto determinant = (s.get_longitude() * t.get_latitude()) - (s.get_latitude() * t.get_longitude());
-    return determinant < 0;
+    return s.cross_product_magnitude_microdegrees(t) < 0;
 }
 
 bool ThreeVertexPolyline::inclusive_between(double value, double lower, double upper) {
-- 
2.43.0


From 099e8a3cee5e0d0739c12b0778a9f9835a9a433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 06/12] fix: decide the winding of a polygon exactly

The floating point sum can have the wrong sign for slivers.
---
 .../visibility_graphs/code/types/polygon/polygon.cpp     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cc34f58..cb5e51d 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -60,13 +60,14 @@ Polygon::normalize_vertex_orientation_to_counter_clockwise(const std::vector<Coo
 }
 
 Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices) {
-    double winding_sum = 0;
+    // Exact, as the sum for a sliver is far smaller than its terms
+    __int128 winding_sum = 0;
     long num_vertices = vertices.size();
-#pragma omp simd reduction(+ : winding_sum)
     for (long i = 0; i < num_vertices; ++i) {
         long next_i = (i + 1) % num_vertices;
-        winding_sum += (vertices[next_i].get_longitude() - vertices[i].get_longitude()) *
-                       (vertices[next_i].get_latitude() + vertices[i].get_latitude());
+        winding_sum +=
+            (vertices[next_i].get_longitude_microdegrees_long() - vertices[i].get_longitude_microdegrees_long()) *
+            (vertices[next_i].get_latitude_microdegrees_long() + vertices[i].get_latitude_microdegrees_long());
     }
 
     if (winding_sum < 0) {
-- 
2.43.0


From 089a243a0e03cb13a62440f5e99fe6f0ad9a78b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 07/12] fix: keep the corner at a repeated polygon vertex

Every copy of a vertex repeated consecutively was removed as collinear, which
lost the corner, and made reloading a saved graph misalign its adjacency matrix.
---
 .../code/types/polygon/polygon.cpp                 | 14 +++++++++++++-
 .../code/types/polygon/polygon.hpp                 |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cb5e51d..bec780c 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -79,7 +79,19 @@ Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices)
     }
 }
 
-std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &vertices) {
+std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &unfiltered_vertices) {
+    // A vertex repeated consecutively counts once, as otherwise every copy looks collinear
+    auto vertices = std::vector<Coordinate>();
+    vertices.reserve(unfiltered_vertices.size());
+    for (const auto &vertex : unfiltered_vertices) {
+        if (vertices.empty() || vertices.back() != vertex) {
+            vertices.push_back(vertex);
+        }
+    }
+    while (vertices.size() > 1 && vertices.front() == vertices.back()) {
+        vertices.pop_back();
+    }
+
     const long num_vertices = vertices.size();
     auto filtered_vertices = std::vector<Coordinate>();
     filtered_vertices.reserve(num_vertices);
diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
index 16d29b4..2d33d03 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.hpp
@@ -39,7 +39,7 @@ class Polygon {
     static std::shared_ptr<std::vector<Coordinate>> preprocess_vertices(const std::vector<Coordinate> &vertices);
     static std::shared_ptr<std::vector<Coordinate>>
     normalize_vertex_orientation_to_counter_clockwise(const std::vector<Coordinate> &vertices);
-    static std::vector<Coordinate> remove_collinear_vertices(const std::vector<Coordinate> &vertices);
+    static std::vector<Coordinate> remove_collinear_vertices(const std::vector<Coordinate> &unfiltered_vertices);
 };
 
 namespace std {
-- 
2.43.0


From 284e9dbca149d0b189d315b359279f7c52946e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 08/12] fix: sort vertices by their exact angle

The comparator was not a strict weak order: it was not irreflexive on the
observer, and compared rounded angles of nearly collinear vertices.
---
 .../code/geom/angle_sorter/angle_sorter.cpp   | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
index b5be354..91ee48a 100644
--- a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
+++ b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
@@ -12,25 +12,32 @@ void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &obser
         return;
     }
 
+    const auto in_first_half_turn = [](const Coordinate &v) -> bool {
+        return v.get_latitude_microdegrees() > 0 ||
+               (v.get_latitude_microdegrees() == 0 && v.get_longitude_microdegrees() > 0);
+    };
+
     const auto cmp = [&](const Coordinate &c1, const Coordinate &c2) -> bool {
         if (c1 == observer) {
-            return true;
+            return c2 != observer;
         } else if (c2 == observer) {
             return false;
         }
 
         const auto v1 = c1 - observer;
         const auto v2 = c2 - observer;
-        const auto dotprod = v1.dot_product_microdegrees(v2);
 
-        if (v1.vector_orientation(v2) != Orientation::COLLINEAR || dotprod < 0) {
-            const auto v1_angle_to_horizontal = v1.angle_to_horizontal();
-            const auto v2_angle_to_horizontal = v2.angle_to_horizontal();
+        // Exact, as angles in floating point can tie or be misordered for nearly collinear vertices
+        if (in_first_half_turn(v1) != in_first_half_turn(v2)) {
+            return in_first_half_turn(v1);
+        }
 
-            return v1_angle_to_horizontal < v2_angle_to_horizontal;
+        const auto orientation = v1.vector_orientation(v2);
+        if (orientation != Orientation::COLLINEAR) {
+            return orientation == Orientation::COUNTER_CLOCKWISE;
         }
 
-        return v1.magnitude_squared() < v2.magnitude_squared();
+        return v1.magnitude_squared_microdegrees() < v2.magnitude_squared_microdegrees();
     };
 
     std::sort(vertices.begin(), vertices.end(), cmp);
-- 
2.43.0


From fe2c3eb852f80500fb4d72618a760c64f72137d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 09/12] fix: reject truncated and corrupt graph files

Loading them read outside of the mapped file.
---
 .../code/serialization/graph_serializer.cpp    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index f7a6dc7..c9e5529 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -6,6 +6,7 @@
 #include <cstdint>
 #include <fmt/core.h>
 #include <mio.hpp>
+#include <stdexcept>
 #include <string>
 #include <system_error>
 #include <unistd.h>
@@ -26,6 +27,8 @@ uint32_t deserialize_4_bytes_from_mmap(const mio::mmap_source &mmap, size_t offs
 int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap, size_t offset);
 uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset);
 
+void check_count_fits_in_mmap(const mio::mmap_source &mmap, uint64_t count, size_t bytes_per_item);
+
 void allocate_file(const std::string &path, size_t num_bytes);
 void handle_mmap_error(const std::error_code &error);
 
@@ -149,12 +152,14 @@ size_t GraphSerializer::serialize_adjacency_matrix_to_mmap(mio::mmap_sink &mmap,
 
 size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_source &mmap, std::shared_ptr<Graph> &graph,
                                                                uint64_t num_polygons, size_t offset) {
+    check_count_fits_in_mmap(mmap, num_polygons, sizeof(uint64_t));
     auto polygons = std::vector<Polygon>(num_polygons);
 
     size_t curr_offset = offset;
     for (size_t i = 0; i < num_polygons; ++i) {
         auto num_vertices = deserialize_8_bytes_from_mmap(mmap, curr_offset);
         curr_offset += sizeof(num_vertices);
+        check_count_fits_in_mmap(mmap, num_vertices, 2 * sizeof(int32_t));
 
         auto vertices = std::vector<Coordinate>(num_vertices);
         for (size_t j = 0; j < num_vertices; ++j) {
@@ -293,7 +298,18 @@ inline int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap
     return val;
 }
 
-inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) { return mmap[offset]; }
+inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) {
+    if (offset >= mmap.size()) {
+        throw std::runtime_error("Serialized graph is truncated or corrupt");
+    }
+    return mmap[offset];
+}
+
+inline void check_count_fits_in_mmap(const mio::mmap_source &mmap, uint64_t count, size_t bytes_per_item) {
+    if (count > mmap.size() / bytes_per_item) {
+        throw std::runtime_error("Serialized graph is truncated or corrupt");
+    }
+}
 
 inline void allocate_file(const std::string &path, size_t num_bytes) {
     const auto handle_allocation_error = [&]() {
-- 
2.43.0


From 92633da1855f7b7280e9c37b9fe1fe99bb845276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 10/12] fix: answer edge queries on a modified graph
 consistently

Queries on vertices which only the modified graph has threw, an edge removed and
added again lost its meridian crossing, and overridden vertices and neighbors
were listed twice.
---
 .../modified_graph/modified_graph.cpp         | 21 +++++++++++++------
 .../modified_graph/modified_graph.hpp         |  2 ++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
index cbd8e0a..5d9e616 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
@@ -22,14 +22,15 @@ void ModifiedGraph::add_directed_edge(const Coordinate &a, const Coordinate &b,
 
     if (_neighbors[a].find(b) == _neighbors[a].end()) {
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && (!_graph->has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
+            .is_meridian_crossing = meridian_crossing && (!base_graph_has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
             .relationship = NeighborRelationship::EDGE_PRESENT
         };
     } else {
         const auto& curr_neighbor = _neighbors[a][b];
 
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && curr_neighbor.is_meridian_crossing,
+            .is_meridian_crossing = meridian_crossing && (curr_neighbor.is_meridian_crossing ||
+                                                          curr_neighbor.relationship == NeighborRelationship::EDGE_REMOVED),
             .relationship = NeighborRelationship::EDGE_PRESENT,
         };
     }
@@ -63,15 +64,19 @@ bool ModifiedGraph::has_vertex(const Coordinate &vertex) const {
 
 bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->has_edge(a, b);
+        return base_graph_has_edge(a, b);
     }
 
     return _neighbors.at(a).at(b).relationship == NeighborRelationship::EDGE_PRESENT;
 }
 
+bool ModifiedGraph::base_graph_has_edge(const Coordinate &a, const Coordinate &b) const {
+    return _graph->has_vertex(a) && _graph->has_vertex(b) && _graph->has_edge(a, b);
+}
+
 bool ModifiedGraph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->is_edge_meridian_crossing(a, b);
+        return base_graph_has_edge(a, b) && _graph->is_edge_meridian_crossing(a, b);
     }
 
     return _neighbors.at(a).at(b).is_meridian_crossing;
@@ -86,7 +91,9 @@ std::vector<Coordinate> ModifiedGraph::get_neighbors(const Coordinate &vertex) c
     neighbors.reserve(_neighbors.at(vertex).size() + neighbors.size());
     for (const auto& neighbor : _neighbors.at(vertex)) {
         if (neighbor.second.relationship == NeighborRelationship::EDGE_PRESENT) {
-            neighbors.push_back(neighbor.first);
+            if (!base_graph_has_edge(vertex, neighbor.first)) {
+                neighbors.push_back(neighbor.first);
+            }
         } else if (neighbor.second.relationship == NeighborRelationship::EDGE_REMOVED) {
             neighbors.erase(std::remove(neighbors.begin(), neighbors.end(), neighbor.first), neighbors.end());
         }
@@ -100,7 +107,9 @@ std::vector<Coordinate> ModifiedGraph::get_vertices() const {
     base_vertices.reserve(base_vertices.size() + _neighbors.size());
 
     for (const auto& neighbor : _neighbors) {
-        base_vertices.push_back(neighbor.first);
+        if (!_graph->has_vertex(neighbor.first)) {
+            base_vertices.push_back(neighbor.first);
+        }
     }
 
     return base_vertices;
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
index ad5cbfb..8b91c7c 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
@@ -46,6 +46,8 @@ class ModifiedGraph : public IGraph {
         [[nodiscard]] std::vector<Coordinate> get_vertices() const override;
         [[nodiscard]] std::vector<Polygon> get_polygons() const override;
     private:
+        [[nodiscard]] bool base_graph_has_edge(const Coordinate &a, const Coordinate &b) const;
+
         std::shared_ptr<IGraph> _graph;
         std::unordered_map<Coordinate, std::unordered_map<Coordinate, NeighborInfo>> _neighbors;
 };
-- 
2.43.0


From da35de1d85b91577776dbd582a9da066fd124cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 11/12] fix: saving over an existing file starts from an empty
 file

---
 .../visibility_graphs/code/serialization/graph_serializer.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index c9e5529..cf7b61c 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -321,7 +321,7 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
         throw std::runtime_error(error);
     };
 
-    const auto fd = open(path.c_str(), O_CREAT | O_RDWR, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
+    const auto fd = open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
     if (fd == -1) {
         handle_allocation_error();
     }
-- 
2.43.0


From 06c3b882217d93f04e9b652c749de89dd836fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 12/12] fix: a split of a shapefile without polygons has no
 vertices instead of failing

---
 capi/src/implementation/graph_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/graph_generator.py b/capi/src/implementation/graph_generator.py
index 6692c58..ecae211 100644
--- a/capi/src/implementation/graph_generator.py
+++ b/capi/src/implementation/graph_generator.py
@@ -61,7 +61,7 @@ class GraphGenerator(IGraphGenerator):
 
     @staticmethod
     def _get_num_vertices_in_polygons(polygons: typing.Sequence[VisGraphPolygon]) -> int:
-        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons))
+        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons), 0)
 
 
 if __name__ == "__main__":  # pragma: no cover
-- 
2.43.0

