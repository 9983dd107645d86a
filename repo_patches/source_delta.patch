From b70176f955e188824647073ade02654caeced47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:53 +0000
Subject: [PATCH 01/36] fix: nodes can be created after one was deleted, and
 deleted nodes no longer exist

remove_node() frees the index in the StableGraph, which the next
add_node() re-uses, so the index assertion aborted the host. The id of a
removed node was also still found, so node_exists(), node_status() and
attribute access treated it as alive.
---
 src/graph.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index e9fd9a3..af2a17f 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -95,14 +95,19 @@ impl GraphImpl {
     /// Add a new node to the graph.
     pub fn add_node(&mut self, node_box: Box<NodeImpl>) -> usize {
         let id = node_box.get_id();
-        let nodes_index = self.nodes.len();
-        self.nodes.push(node_box);
-        self.ids.push(id);
 
         self.state = GraphState::Dirty;
         let index = self.graph.add_node(id).index();
         debug!("Add Node index={} id={}", index, id);
-        assert_eq!(index, nodes_index);
+        if index < self.nodes.len() {
+            // The graph re-uses the index of a removed node.
+            self.nodes[index] = node_box;
+            self.ids[index] = id;
+        } else {
+            assert_eq!(index, self.nodes.len());
+            self.nodes.push(node_box);
+            self.ids.push(id);
+        }
         index
     }
 
@@ -116,7 +121,8 @@ impl GraphImpl {
                 return false; // TODO: Return an error code?
             }
         };
-        // TODO: Zero out the now empty fields.
+        // The entries in 'nodes' and 'ids' stay until the index is
+        // used again, see 'find_node_index_from_id' and 'add_node'.
         let node_index = petgraph::graph::NodeIndex::new(node_idx);
         match self.graph.remove_node(node_index) {
             Some(_value) => {
@@ -249,7 +255,13 @@ impl GraphImpl {
     /// Return a node index of the node with the given hash.
     fn find_node_index_from_id(&self, node_id: u64) -> Option<usize> {
         debug!("find_node_index_from_id {:?}.", node_id);
-        let maybe_node_idx = self.ids.iter().position(|&v| v == node_id);
+        // Removed nodes leave their id behind, so make sure the node is
+        // still in the graph.
+        let maybe_node_idx = self
+            .ids
+            .iter()
+            .enumerate()
+            .position(|(i, &v)| v == node_id && self.graph.contains_node(NodeIdx::new(i)));
         match maybe_node_idx {
             Some(value) => debug!("Node found: id={} index={}", node_id, value),
             None => warn!("Node NOT found: id={}", node_id),
-- 
2.43.0


From 0a5e0cf46c008f04b793567e0ad0de5f23d0be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:02 +0000
Subject: [PATCH 02/36] fix: inputs of a node can be disconnected and connected
 in any order, and one node may feed several inputs

---
 src/graph.rs | 48 ++++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index af2a17f..b5dfc3c 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -290,21 +290,15 @@ impl GraphImpl {
         let incoming_edges = self.graph.edges_directed(dst_index, Direction::Incoming);
         let edges_existing: Vec<_> = incoming_edges
             .into_iter()
-            .take_while(|x| *x.weight() == input_num)
-            .map(|x| (x.source(), x.target()))
+            .filter(|x| *x.weight() == input_num)
+            .map(|x| x.id())
             .collect();
 
         // Remove the existing edges first.
-        for (edge_src_index, edge_dst_index) in edges_existing {
-            if let Some(edge_index) = self.graph.find_edge(edge_src_index, edge_dst_index) {
-                debug!(
-                    "Remove edge: src_index={:#?} dst_index={:#?} edge_index={:#?}",
-                    edge_src_index, edge_dst_index, edge_index
-                );
-                self.graph.remove_edge(edge_index);
-                self.state = GraphState::Dirty;
-                ()
-            }
+        for edge_index in edges_existing {
+            debug!("Remove edge: edge_index={:#?}", edge_index);
+            self.graph.remove_edge(edge_index);
+            self.state = GraphState::Dirty;
         }
     }
 
@@ -339,7 +333,9 @@ impl GraphImpl {
 
         self.disconnect_input(dst_node_id, input_num);
 
-        self.graph.update_edge(src_index, dst_index, input_num);
+        // The same source node may be connected to more than one input
+        // of the destination node.
+        self.graph.add_edge(src_index, dst_index, input_num);
         self.state = GraphState::Dirty;
     }
 
@@ -356,23 +352,19 @@ impl GraphImpl {
         node_indexes
     }
 
-    // Get the stack of indices to be computed, going upstream
-    // from the starting index.
+    // Get the indices of the nodes connected directly to the inputs of
+    // the starting index.
     fn find_direct_upstream_nodes(&self, start_node_idx: GraphIdx) -> Vec<NodeIdx> {
-        let mut node_indexes = Vec::<NodeIdx>::new();
+        // One entry for each connected input, in order of the input
+        // number.
         let start_index = NodeIdx::new(start_node_idx);
-        let mut walker = UpstreamEvalSearch::new(&self.graph, start_index);
-        while let Some((node, depth)) = walker.next(&self.graph) {
-            if depth == 0 {
-                // Skip the current level.
-                continue;
-            }
-            if depth > 1 {
-                break;
-            }
-            node_indexes.push(node);
-        }
-        node_indexes
+        let mut edges: Vec<_> = self
+            .graph
+            .edges_directed(start_index, Direction::Incoming)
+            .map(|x| (*x.weight(), x.source()))
+            .collect();
+        edges.sort_by_key(|x| x.0);
+        edges.into_iter().map(|x| x.1).collect()
     }
 
     /// Get upstream parent inputs (so we can calculate the node
-- 
2.43.0


From 4cce6302084441f44a6b54b66646f2598c5b3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:42 +0000
Subject: [PATCH 03/36] fix: evaluate every upstream node once, inputs first,
 and report cyclic connections as an error

---
 src/graph.rs | 64 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index b5dfc3c..9c1792d 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -23,10 +23,9 @@ use anyhow::Result;
 use log::{debug, error, warn};
 use petgraph;
 use petgraph::dot::{Config, Dot};
-use petgraph::visit::EdgeRef;
+use petgraph::visit::{DfsPostOrder, EdgeRef, Reversed};
 use petgraph::Direction;
-use rustc_hash::FxHashMap;
-use std::collections::VecDeque;
+use rustc_hash::{FxHashMap, FxHashSet};
 use std::rc::Rc;
 use std::time::Instant;
 
@@ -45,7 +44,6 @@ use crate::data::Identifier;
 use crate::data::NodeComputeMode;
 use crate::data::NodeIdx;
 use crate::data::NodeWeight;
-use crate::graphiter::UpstreamEvalSearch;
 use crate::node::NodeImpl;
 use crate::stream::StreamDataImpl;
 use crate::stream::StreamDataImplRc;
@@ -339,17 +337,29 @@ impl GraphImpl {
         self.state = GraphState::Dirty;
     }
 
-    // Get the stack of indices to be computed, going upstream
-    // from the starting index.
-    fn find_all_upstream_nodes(&self, start_node_idx: GraphIdx) -> Vec<NodeIdx> {
+    // Get the stack of indices to be computed, going upstream from the
+    // starting index (the first index). The inputs of a node always
+    // come after the node.
+    //
+    // Returns None if the connections form a cycle.
+    fn find_all_upstream_nodes(&self, start_node_idx: GraphIdx) -> Option<Vec<NodeIdx>> {
         let mut node_indexes = Vec::<NodeIdx>::new();
         let start_index = NodeIdx::new(start_node_idx);
-        let mut walker = UpstreamEvalSearch::new(&self.graph, start_index);
-
-        while let Some((node, _depth)) = walker.next(&self.graph) {
+        let upstream_graph = Reversed(&self.graph);
+        let mut walker = DfsPostOrder::new(upstream_graph, start_index);
+
+        let mut visited = FxHashSet::<NodeIdx>::default();
+        while let Some(node) = walker.next(upstream_graph) {
+            // All inputs must have been visited already.
+            let inputs = self.find_direct_upstream_nodes(node.index());
+            if !inputs.iter().all(|x| visited.contains(x)) {
+                return None;
+            }
+            visited.insert(node);
             node_indexes.push(node);
         }
-        node_indexes
+        node_indexes.reverse();
+        Some(node_indexes)
     }
 
     // Get the indices of the nodes connected directly to the inputs of
@@ -499,13 +509,15 @@ impl GraphImpl {
         }
 
         // Validate node, start at node and walk up the graph.
-        let mut validated_node_indexes = Vec::new();
-        let mut node_stack = VecDeque::<(NodeIdx, NodeComputeMode)>::new();
+        //
+        // A node with more than one output must compute everything
+        // that any one of the outputs needs.
+        let mut node_compute_mode_map = FxHashMap::<GraphIdx, NodeComputeMode>::default();
         let start_node_index = node_indexes[0];
         let start_node_compute_mode = NodeComputeMode::ALL;
-        node_stack.push_front((start_node_index, start_node_compute_mode));
-        validated_node_indexes.push((start_node_index, start_node_compute_mode));
-        while let Some((node_index, node_compute_mode)) = node_stack.pop_front() {
+        node_compute_mode_map.insert(start_node_index.index(), start_node_compute_mode);
+        for node_index in node_indexes.iter() {
+            let node_compute_mode = node_compute_mode_map[&node_index.index()];
             debug!("Validate Node: {:?}", node_index);
             let input_node_indexes = self.find_direct_upstream_nodes(node_index.index());
             let mut input_nodes = Vec::<&Box<NodeImpl>>::new();
@@ -524,15 +536,18 @@ impl GraphImpl {
                 input_node_indexes.iter().zip(node_compute_modes.iter())
             {
                 debug!("Validate Up Node: {:?}", up_node_index);
-                node_stack.push_front((*up_node_index, *up_node_compute_mode));
-                validated_node_indexes.push((*up_node_index, *up_node_compute_mode));
+                let up_mode = node_compute_mode_map
+                    .entry(up_node_index.index())
+                    .or_insert(NodeComputeMode::NONE);
+                *up_mode |= *up_node_compute_mode;
             }
         }
 
         // Start at upstream nodes to compute first.
         let mut stream_data_cache = FxHashMap::<GraphIdx, Rc<StreamDataImpl>>::default();
-        for (node_index, node_compute_mode) in validated_node_indexes.iter().rev() {
+        for node_index in node_indexes.iter().rev() {
             debug!("Compute Node: {:?}", node_index);
+            let node_compute_mode = node_compute_mode_map[&node_index.index()];
 
             let node_inputs =
                 self.compute_node_input_stream_data(*node_index, &stream_data_cache)?;
@@ -540,7 +555,7 @@ impl GraphImpl {
                 &node_inputs,
                 node_index.index(),
                 frame,
-                *node_compute_mode,
+                node_compute_mode,
                 cache,
                 &mut stream_data_cache,
             )?;
@@ -579,7 +594,14 @@ impl GraphImpl {
                 return self.status;
             }
         };
-        let node_indexes = self.find_all_upstream_nodes(start_node_idx);
+        let node_indexes = match self.find_all_upstream_nodes(start_node_idx) {
+            Some(value) => value,
+            None => {
+                self.status = ExecuteStatus::Error;
+                warn!("Node connections have a cycle: id={}", start_node_id);
+                return self.status;
+            }
+        };
 
         for frame in frames {
             debug!("Execute Frame: {}", *frame);
-- 
2.43.0


From 65bd8049d139148d68eea6017570a1b836fab6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:11 +0000
Subject: [PATCH 04/36] fix: disabled viewer passes its input through instead
 of leaving a stale output

---
 src/node/viewer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 4e1a592..058242e 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -173,11 +173,6 @@ impl Operation for ViewerOperation {
         // debug!("Inputs: {:?}", inputs);
         // debug!("Output: {:?}", output);
 
-        let enable = attr_block.get_attr_i32("enable");
-        if enable != 1 {
-            return NodeStatus::Valid;
-        }
-
         let mut stream_data = match inputs.len() {
             0 => {
                 // No input given, return an empty default stream.
@@ -189,6 +184,13 @@ impl Operation for ViewerOperation {
             }
         };
 
+        let enable = attr_block.get_attr_i32("enable");
+        if enable != 1 {
+            // Pass the input through.
+            *output = std::rc::Rc::new(stream_data);
+            return NodeStatus::Valid;
+        }
+
         let bake_option_initial = BakeOption::from(attr_block.get_attr_i32("bake_option"));
         debug!("bake_option={:#?}", bake_option_initial);
 
-- 
2.43.0


From 1325d5c5ab5cbee255e18b9add0005facfbd87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:12 +0000
Subject: [PATCH 05/36] fix: viewer baking everything needs the pixels of its
 input

---
 src/node/read_image.rs | 5 +++++
 src/node/viewer.rs     | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index 385f688..b64109d 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -228,6 +228,11 @@ impl Operation for ReadImageOperation {
                     return NodeStatus::Valid;
                 }
             }
+        } else {
+            // Pixels are not needed, do not leave the output of another
+            // node behind.
+            let stream_data = StreamDataImpl::new();
+            *output = std::rc::Rc::new(stream_data);
         }
         NodeStatus::Valid
     }
diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 058242e..4516ced 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -421,8 +421,7 @@ impl Validate for ViewerValidate {
                             & (NodeComputeMode::ALL
                                 - NodeComputeMode::COLOR_SPACE
                                 - NodeComputeMode::COLOR
-                                - NodeComputeMode::DEFORMER
-                                - NodeComputeMode::PIXEL),
+                                - NodeComputeMode::DEFORMER),
                     ),
                     _ => panic!("BakeOption is invalid value: {:#?}", bake_option),
                 }
-- 
2.43.0


From 852c26cbcfb502c654181f6c0540f52170791768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:13 +0000
Subject: [PATCH 06/36] fix: viewer does not apply color corrections twice when
 the baked image is cached

---
 src/node/viewer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 4516ced..6fda4e0 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -35,6 +35,7 @@ use crate::cxxbridge::ffi::BakeOption;
 use crate::cxxbridge::ffi::DataType;
 use crate::cxxbridge::ffi::ImageShared;
 use crate::cxxbridge::ffi::ImageSpec;
+use crate::cxxbridge::ffi::Matrix4;
 use crate::cxxbridge::ffi::NodeStatus;
 use crate::cxxbridge::ffi::NodeType;
 use crate::data::FrameValue;
@@ -270,6 +271,13 @@ impl Operation for ViewerOperation {
                 stream_data.clear_deformers();
             }
 
+            // In the same way, color corrections baked into the
+            // (cached) pixels must not be applied again.
+            if bake_option == BakeOption::All || bake_option == BakeOption::ColorSpaceAndGrade {
+                stream_data.set_color_matrix(Matrix4::identity());
+                stream_data.clear_color_ops();
+            }
+
             stream_data.set_data_window(data_window);
             stream_data.set_display_window(display_window);
             stream_data.set_hash(hash_value);
-- 
2.43.0


From 4f03090560d72016c09c66d4d353b4ed9256cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:14 +0000
Subject: [PATCH 07/36] fix: crop does not apply deformers and color
 corrections twice when the cropped image is cached

---
 src/node/crop_image.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/node/crop_image.rs b/src/node/crop_image.rs
index f2a39f1..047b644 100644
--- a/src/node/crop_image.rs
+++ b/src/node/crop_image.rs
@@ -32,6 +32,7 @@ use crate::cxxbridge::ffi::BBox2Di;
 use crate::cxxbridge::ffi::BakeOption;
 use crate::cxxbridge::ffi::DataType;
 use crate::cxxbridge::ffi::ImageShared;
+use crate::cxxbridge::ffi::Matrix4;
 use crate::cxxbridge::ffi::NodeStatus;
 use crate::cxxbridge::ffi::NodeType;
 use crate::data::FrameValue;
@@ -247,6 +248,12 @@ impl Operation for CropImageOperation {
             }
         };
 
+        // The pixels have everything baked in, even if the pixels come
+        // from the cache.
+        stream_data.clear_deformers();
+        stream_data.set_color_matrix(Matrix4::identity());
+        stream_data.clear_color_ops();
+
         stream_data.set_hash(hash_value);
         stream_data.set_data_window(data_window);
         stream_data.set_display_window(display_window);
-- 
2.43.0


From 3a23a120cab9ff60daa6463270bfeb367482d97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:07 +0000
Subject: [PATCH 08/36] fix: an image that could not be read is not used or
 cached as a valid image

---
 src/imageio.cpp        |  9 +++++++--
 src/imageio.rs         |  7 +++++--
 src/node/read_image.rs | 18 ++++++++++++++++--
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 6b620e0..f094815 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -148,14 +148,19 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
     OIIO::stride_t xstride = pixel_size_bytes;
     OIIO::stride_t ystride = OIIO::AutoStride;
     OIIO::stride_t zstride = OIIO::AutoStride;
-    in->read_image(
+    ok = in->read_image(
         subimage, miplevel,
         chbegin, chend,
         oiio_data_type,
         pixel_data,
         xstride, ystride, zstride);
+    if (!ok) {
+        std::cerr
+            << "oiio_read_image: failed to read pixels: "
+            << filename << ": " << in->geterror() << '\n';
+    }
     in->close();
-    return true;
+    return ok;
 }
 
 bool name_has_suffix(std::string const &name, std::string const &suffix) {
diff --git a/src/imageio.rs b/src/imageio.rs
index 52c305b..b898f54 100644
--- a/src/imageio.rs
+++ b/src/imageio.rs
@@ -39,7 +39,9 @@ use crate::ops::imagecrop;
 use crate::pixelblock::dynimage::from_dynamic_image;
 use crate::pixelblock::pixelblock::PixelBlock;
 
-pub fn read_image(path: &String, num_threads: i32) -> ImageShared {
+/// Read the image at the path, returns None if the image could not be
+/// read completely.
+pub fn read_image(path: &String, num_threads: i32) -> Option<ImageShared> {
     debug!("Reading... {:?}", path);
     debug!("num_threads: {:?}", num_threads);
     let start = Instant::now();
@@ -63,6 +65,7 @@ pub fn read_image(path: &String, num_threads: i32) -> ImageShared {
             oiio_set_thread_count(old_num_threads);
             if ok == false {
                 warn!("Reading image failed: {:?}", path);
+                return None;
             }
 
             image
@@ -84,7 +87,7 @@ pub fn read_image(path: &String, num_threads: i32) -> ImageShared {
     let duration = start.elapsed();
     debug!("Reading total time: {:?}", duration);
 
-    image
+    Some(image)
 }
 
 pub fn write_image(
diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index b64109d..5874252 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -152,7 +152,14 @@ impl Operation for ReadImageOperation {
                         _ => {
                             debug!("Cache Miss");
                             let num_threads = 0;
-                            let img = imageio::read_image(&path_expanded, num_threads);
+                            let img = match imageio::read_image(&path_expanded, num_threads) {
+                                Some(img) => img,
+                                None => {
+                                    // Same as a file that does not exist.
+                                    *output = std::rc::Rc::new(StreamDataImpl::new());
+                                    return NodeStatus::Warning;
+                                }
+                            };
                             let pixel_block_rc = Rc::new(*img.pixel_block);
                             let cached_img = CachedImage {
                                 pixel_block: pixel_block_rc.clone(),
@@ -172,7 +179,14 @@ impl Operation for ReadImageOperation {
                     false => {
                         debug!("From Disk");
                         let num_threads = 0;
-                        let img = imageio::read_image(&path_expanded, num_threads);
+                        let img = match imageio::read_image(&path_expanded, num_threads) {
+                            Some(img) => img,
+                            None => {
+                                // Same as a file that does not exist.
+                                *output = std::rc::Rc::new(StreamDataImpl::new());
+                                return NodeStatus::Warning;
+                            }
+                        };
                         let pixel_block_rc = Rc::new(*img.pixel_block);
                         (
                             pixel_block_rc.clone(),
-- 
2.43.0


From 42b881a2e79f1bbb0ba6fcac09bc176cee47dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:07 +0000
Subject: [PATCH 09/36] fix: reading a path that is not a file does not leave
 the output of another node behind

---
 src/node/read_image.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index 5874252..c905913 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -234,13 +234,10 @@ impl Operation for ReadImageOperation {
 
                 *output = std::rc::Rc::new(stream_data);
             } else {
-                let enable = attr_block.get_attr_i32("enable");
-                if enable != 1 {
-                    let mut stream_data = StreamDataImpl::new();
-                    stream_data.set_hash(hash_value);
-                    *output = std::rc::Rc::new(stream_data);
-                    return NodeStatus::Valid;
-                }
+                // The path is not a file, for example it's a directory.
+                let stream_data = StreamDataImpl::new();
+                *output = std::rc::Rc::new(stream_data);
+                return NodeStatus::Warning;
             }
         } else {
             // Pixels are not needed, do not leave the output of another
-- 
2.43.0


From f9c40808fd91a0c05188a014b3f28fb3d27950f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:08 +0000
Subject: [PATCH 10/36] fix: hash the file path whenever the node is enabled

---
 src/node/read_image.rs  | 2 +-
 src/node/write_image.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index c905913..daf9b56 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -252,7 +252,7 @@ impl Operation for ReadImageOperation {
 impl AttrBlock for ReadImageAttrs {
     fn attr_hash(&self, frame: FrameValue, state: &mut DefaultHasher) {
         self.enable.hash(state);
-        if self.enable == 1 {
+        if self.enable != 0 {
             let frame_num = frame.round().trunc() as i32;
             let path_expanded = pathutils::expand_string(self.file_path.to_string(), frame_num);
             path_expanded.hash(state);
diff --git a/src/node/write_image.rs b/src/node/write_image.rs
index cf58c6e..fefb35d 100644
--- a/src/node/write_image.rs
+++ b/src/node/write_image.rs
@@ -297,7 +297,7 @@ impl Operation for WriteImageOperation {
 impl AttrBlock for WriteImageAttrs {
     fn attr_hash(&self, frame: FrameValue, state: &mut DefaultHasher) {
         self.enable.hash(state);
-        if self.enable == 1 {
+        if self.enable != 0 {
             let frame_num = frame.round().trunc() as i32;
             let path_expanded = pathutils::expand_string(self.file_path.to_string(), frame_num);
             path_expanded.hash(state);
-- 
2.43.0


From f67d59c019bf66aec4311e460cb387bbd0272091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:09 +0000
Subject: [PATCH 11/36] fix: a failure to write an image is reported as an
 error

---
 src/imageio.cpp         | 11 +++++++----
 src/node/write_image.rs |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index f094815..9c217c5 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -317,14 +317,17 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
     // spec.attribute("Software", software);
 
     auto type_desc = ocg_format_to_oiio_format(pixel_data_type);
-    out->open(filename, spec);
-    ok = out->write_image(type_desc, pixel_data);
+    ok = out->open(filename, spec);
+    if (ok) {
+        ok = out->write_image(type_desc, pixel_data);
+        // Closing may write the remaining data, always close.
+        ok = out->close() && ok;
+    }
     if (!ok) {
         auto error_message = out->geterror();
         std::cerr << "oiio_write_image: ERROR: " << error_message << '\n';
     }
-    out->close();
-    return true;
+    return ok;
 }
 
 } // namespace internal
diff --git a/src/node/write_image.rs b/src/node/write_image.rs
index fefb35d..fdc2e86 100644
--- a/src/node/write_image.rs
+++ b/src/node/write_image.rs
@@ -283,6 +283,7 @@ impl Operation for WriteImageOperation {
                     );
                     if ok == false {
                         warn!("Failed to write image: status={}", ok);
+                        return NodeStatus::Error;
                     }
                     debug!("Success: {}", ok);
 
-- 
2.43.0


From 53c2a29031fb391bda5d0f1621a76fb89b28e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:09 +0000
Subject: [PATCH 12/36] fix: cache never holds more or counts other than what
 was inserted, and evicts only what is needed

---
 src/cache.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index fa137e2..2c68104 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -132,10 +132,20 @@ impl CacheImpl {
         }
 
         let value_bytes = value.size_bytes();
+        if value_bytes > self.capacity_bytes {
+            error!("Cannot insert into Cache; value is larger than the capacity.");
+            return;
+        }
+
+        // Forget the existing value.
+        if let Some(old_value) = self.lru_hash_map.remove(&key) {
+            self.used_bytes -= old_value.size_bytes();
+            self.evictions += 1;
+        }
 
         // Make space if necessary
         let expected_bytes = self.used_bytes + value_bytes;
-        if expected_bytes >= self.capacity_bytes {
+        if expected_bytes > self.capacity_bytes {
             let require_used = self.capacity_bytes - value_bytes;
             let free_bytes_needed = self.used_bytes - require_used;
             self.evict_bytes(free_bytes_needed);
@@ -192,7 +202,7 @@ impl CacheImpl {
             false => self.used_bytes - n_bytes,
         };
 
-        while (self.used_bytes >= requested_capacity) && (self.lru_hash_map.len() > 0) {
+        while (self.used_bytes > requested_capacity) && (self.lru_hash_map.len() > 0) {
             self.evict();
         }
     }
-- 
2.43.0


From 0b0606f978754a7993987ae331472ae191e3a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:10 +0000
Subject: [PATCH 13/36] fix: images with more than 4 channels or an unsupported
 pixel format can be read safely

---
 src/imageio.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 9c217c5..0bffa31 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -64,7 +64,7 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
 
     // Note: OpenImageIO assumes the coordinate system origin is upper
     // left corner of the pixel data
-    const OIIO::ImageSpec &spec = in->spec();
+    OIIO::ImageSpec spec = in->spec();
     int width = spec.width;
     int height = spec.height;
     int num_channels = spec.nchannels;
@@ -77,9 +77,15 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
             << "oiio_read_image: Cannot open image with less than 3 channels (RGB).\n";
         return false;
     }
-    std::max(num_channels, 4);
+    num_channels = std::min(num_channels, 4);
+    spec.nchannels = num_channels;
 
     auto pixel_data_type = oiio_format_to_ocg_format(oiio_data_type);
+    if (pixel_data_type == DataType::kUnknown) {
+        std::cerr
+            << "oiio_read_image: Cannot open image with unsupported pixel format.\n";
+        return false;
+    }
     auto channel_num_bytes = channel_size_bytes(pixel_data_type);
     auto padded_num_channels =
         static_cast<int32_t>(stride_num_channels(num_channels, pixel_data_type));
-- 
2.43.0


From 53f20f70060ef9dd0233641033ec5e38dd1108cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:10 +0000
Subject: [PATCH 14/36] fix: a config that cannot be loaded uses the defaults,
 and the cache capacity is clamped correctly

---
 src/config.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index f5dc195..e8d0ede 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -24,7 +24,7 @@
 /// OCG configuration has multiple levels with flexibility for a
 /// pipeline in mind.
 ///
-use log::debug;
+use log::{debug, warn};
 use serde::Deserialize;
 use std::default::Default;
 use std::env;
@@ -59,7 +59,7 @@ impl ConfigCache {
     }
 
     pub fn ram_capacity_percent(&self) -> f32 {
-        (self.ram_capacity_percent / 100.0).min(0.0).max(1.0)
+        (self.ram_capacity_percent / 100.0).max(0.0).min(1.0)
     }
 }
 
@@ -88,8 +88,8 @@ pub struct ConfigImpl {
     threading: ConfigThreading,
 }
 
-fn load_config(file_path: &str) -> Result<ConfigImpl, serde_yaml::Error> {
-    let contents = fs::read_to_string(file_path).expect("Something went wrong reading the file!");
+fn load_config(file_path: &str) -> Result<ConfigImpl, Box<dyn std::error::Error>> {
+    let contents = fs::read_to_string(file_path)?;
     let deserialized: ConfigImpl = serde_yaml::from_str(&contents)?;
     Ok(deserialized)
 }
@@ -148,7 +148,13 @@ pub fn get_config(file_name: &str) -> ConfigImplShared {
     let path = get_config_path(&file_name, envvar_name);
     let config = match path.as_str() {
         "" => ConfigImpl::default(),
-        _ => load_config(&path).expect("Config file should exist."),
+        _ => match load_config(&path) {
+            Ok(value) => value,
+            Err(err) => {
+                warn!("Could not load config, using defaults: {:?} {}", path, err);
+                ConfigImpl::default()
+            }
+        },
     };
     ConfigImplShared {
         inner: Box::new(config),
-- 
2.43.0


From 8c351fea8b17ea4cd4fd02e1a99967f4e820cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:10 +0000
Subject: [PATCH 15/36] fix: system memory size on Linux

---
 src/systemmemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systemmemory.cpp b/src/systemmemory.cpp
index 76fe820..2054870 100644
--- a/src/systemmemory.cpp
+++ b/src/systemmemory.cpp
@@ -49,7 +49,7 @@ size_t get_total_system_memory_as_bytes() {
     // Use 'sysconf'.
     long pages = sysconf(_SC_PHYS_PAGES);
     long page_size = sysconf(_SC_PAGE_SIZE);
-    auto size = pages * page_size;
+    auto bytes = pages * page_size;
 
 #elif defined _WIN32  // Windows
     // Use the Windows API.
-- 
2.43.0


From 386cdcd02cd7d143e53aec158b697cc77ee65aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:33 +0000
Subject: [PATCH 16/36] fix: the lens distortion direction is part of the hash

---
 src/deformer/tde4_classic.rs | 1 +
 src/node/lens_distort.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/deformer/tde4_classic.rs b/src/deformer/tde4_classic.rs
index 38d30a5..e247c49 100644
--- a/src/deformer/tde4_classic.rs
+++ b/src/deformer/tde4_classic.rs
@@ -83,6 +83,7 @@ impl hash::Hash for DeformerTde4Classic {
             return;
         }
 
+        self.direction.hash(state);
         HashableF32::new(self.focal_length).hash(state);
         HashableF32::new(self.film_back_width).hash(state);
         HashableF32::new(self.film_back_height).hash(state);
diff --git a/src/node/lens_distort.rs b/src/node/lens_distort.rs
index da2a418..6822b22 100644
--- a/src/node/lens_distort.rs
+++ b/src/node/lens_distort.rs
@@ -75,6 +75,7 @@ impl hash::Hash for LensDistortAttrs {
         if self.enable == 0 {
             return;
         }
+        self.direction.hash(state);
         HashableF32::new(self.lens_center_offset_x).hash(state);
         HashableF32::new(self.lens_center_offset_y).hash(state);
         HashableF32::new(self.distortion).hash(state);
-- 
2.43.0


From 81c93d9bf47b8ef61a9250a4f7067ba822dea3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:34 +0000
Subject: [PATCH 17/36] fix: merge uses the deformed data window of the second
 input

---
 src/node/merge_image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/merge_image.rs b/src/node/merge_image.rs
index 59ad026..a8dba4b 100644
--- a/src/node/merge_image.rs
+++ b/src/node/merge_image.rs
@@ -161,8 +161,8 @@ fn do_image_process(
     let pixel_block_b_box = Box::new(pixel_block_b);
     let image_b = ImageShared {
         pixel_block: pixel_block_b_box,
-        display_window: stream_data_b.display_window(),
-        data_window: stream_data_b.data_window(),
+        display_window: display_window_b,
+        data_window: data_window_b,
         spec: image_spec_b,
     };
 
-- 
2.43.0


From cad6260b39218a5a4ee8b897015c0aa2a55c8bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:35 +0000
Subject: [PATCH 18/36] fix: crop with a black edge, and crop windows without
 an inside, do not abort the process

---
 src/node/crop_image.rs |  7 +++----
 src/ops/imagecrop.rs   | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/node/crop_image.rs b/src/node/crop_image.rs
index 047b644..bff28ee 100644
--- a/src/node/crop_image.rs
+++ b/src/node/crop_image.rs
@@ -190,7 +190,6 @@ impl Operation for CropImageOperation {
         let black_outside = attr_block.get_attr_i32("black_outside") == 1;
         let intersect = attr_block.get_attr_i32("intersect") == 1;
 
-        let mut status = NodeStatus::Valid;
         let use_cache = attr_block.get_attr_i32("use_cache") != 0;
         let (pixel_block, data_window, display_window) = match use_cache {
             true => match cache.get(&hash_value) {
@@ -216,7 +215,7 @@ impl Operation for CropImageOperation {
                     );
                     if ok == false {
                         error!("CropImage failed!");
-                        status = NodeStatus::Error;
+                        return NodeStatus::Error;
                     }
 
                     let pixel_block_rc = Rc::new(*img.pixel_block);
@@ -240,7 +239,7 @@ impl Operation for CropImageOperation {
                 );
                 if ok == false {
                     error!("CropImage failed!");
-                    status = NodeStatus::Error;
+                    return NodeStatus::Error;
                 }
 
                 let pixel_block_rc = Rc::new(*img.pixel_block);
@@ -260,7 +259,7 @@ impl Operation for CropImageOperation {
         stream_data.set_pixel_block(pixel_block);
 
         *output = std::rc::Rc::new(stream_data);
-        status
+        NodeStatus::Valid
     }
 }
 
diff --git a/src/ops/imagecrop.rs b/src/ops/imagecrop.rs
index bc0708e..ad6a676 100644
--- a/src/ops/imagecrop.rs
+++ b/src/ops/imagecrop.rs
@@ -83,6 +83,11 @@ pub fn crop_image_in_place(
     debug!("Source Display Window: {:?}", src_display_window);
     debug!("Source Data Window: {:?}", src_data_window);
 
+    if crop_window.width() < 0 || crop_window.height() < 0 {
+        // There is nothing inside an inverted window.
+        return false;
+    }
+
     let new_data_window = match black_outside {
         true => BBox2Di::new(
             // Add extra edge of pixels around the edge of the image.
@@ -104,11 +109,19 @@ pub fn crop_image_in_place(
         true => crop_window,
     };
 
-    let pixel_block_box = Box::new(PixelBlock::from_pixel_block(
+    let mut pixel_block_box = Box::new(PixelBlock::from_pixel_block(
         &src_pixel_block,
         src_data_window,
         crop_window,
     ));
+    if black_outside {
+        // Fill the extra edge with black pixels.
+        pixel_block_box = Box::new(PixelBlock::from_pixel_block(
+            &pixel_block_box,
+            crop_window,
+            new_data_window,
+        ));
+    }
 
     debug!("Display Window: {:?}", new_display_window);
     debug!("Data Window: {:?}", new_data_window);
-- 
2.43.0


From 0728de332ecf32864ee2a5b69f9595e235d747c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:35 +0000
Subject: [PATCH 19/36] fix: resample uses its first input when more inputs are
 connected, like the other nodes

---
 src/node/resample_image.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/node/resample_image.rs b/src/node/resample_image.rs
index d68e213..8d4e4d7 100644
--- a/src/node/resample_image.rs
+++ b/src/node/resample_image.rs
@@ -148,7 +148,6 @@ impl Operation for ResampleImageOperation {
             return NodeStatus::Valid;
         }
 
-        debug_assert!(inputs.len() == 1);
         let input = &inputs[0].clone();
         let mut stream_data = (**input).clone();
 
-- 
2.43.0


From 0470efa434284ab4e493387aa4326ac8ef6c9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:24 +0000
Subject: [PATCH 20/36] fix: a channel the grade does not process is left as it
 is

---
 src/ops/colorgrade.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ops/colorgrade.rs b/src/ops/colorgrade.rs
index 393a32b..6d0da8a 100644
--- a/src/ops/colorgrade.rs
+++ b/src/ops/colorgrade.rs
@@ -78,6 +78,15 @@ fn grade_single(
     }
 }
 
+fn mix_single(pixel: f32, value: f32, mask: f32) -> f32 {
+    // A channel that is not processed must stay as it is, even if the
+    // graded value is not a number.
+    if mask == 0.0 {
+        return pixel;
+    }
+    (value * mask) + (pixel * (1.0 - mask))
+}
+
 fn grade(
     pixel: Vector4f32,
     mask: Vector4f32,
@@ -150,10 +159,10 @@ fn grade(
         premult,
     );
     Vector4f32::new(
-        (r * mask.x) + (pixel.x * (1.0 - mask.x)),
-        (g * mask.y) + (pixel.y * (1.0 - mask.y)),
-        (b * mask.z) + (pixel.z * (1.0 - mask.z)),
-        (a * mask.w) + (pixel.w * (1.0 - mask.w)),
+        mix_single(pixel.x, r, mask.x),
+        mix_single(pixel.y, g, mask.y),
+        mix_single(pixel.z, b, mask.z),
+        mix_single(pixel.w, a, mask.w),
     )
 }
 
-- 
2.43.0


From d6d4f613487098baba0d0d97c3f2e70f4e58465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:11 +0000
Subject: [PATCH 21/36] fix: pixels that could not be read are noticed when
 only the error message tells

---
 src/imageio.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 0bffa31..a5ec702 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -160,6 +160,9 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
         oiio_data_type,
         pixel_data,
         xstride, ystride, zstride);
+    // Some formats (such as TIFF) report pixels that could not be read
+    // only with an error message.
+    ok = ok && !in->has_error();
     if (!ok) {
         std::cerr
             << "oiio_read_image: failed to read pixels: "
-- 
2.43.0


From 8677804149e8a04f5955030870987535e8b85039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:22 +0000
Subject: [PATCH 22/36] fix: data that could not be written is noticed when
 only the error message tells

---
 src/imageio.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index a5ec702..a4cf43c 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -331,6 +331,9 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
         ok = out->write_image(type_desc, pixel_data);
         // Closing may write the remaining data, always close.
         ok = out->close() && ok;
+        // Some formats (such as PNG and TIFF) report data that could not
+        // be written only with an error message.
+        ok = ok && !out->has_error();
     }
     if (!ok) {
         auto error_message = out->geterror();
-- 
2.43.0


From e6edccc61c91847ca208e6aad2fac801798322e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:21 +0000
Subject: [PATCH 23/36] fix: pad frame numbers to any number of digits

A path with ten or more '#' characters lost the frame number, so that all
frames were written to (and read from) the same file.
---
 src/pathutils.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/pathutils.rs b/src/pathutils.rs
index bf0f454..425fc6c 100644
--- a/src/pathutils.rs
+++ b/src/pathutils.rs
@@ -71,22 +71,7 @@ fn create_expanded_string(
         index_range.start_index, index_range.end_index, index_range.padding_count
     );
 
-    // FIXME: Create a way to use the padding_count to dynamically
-    // change the number formatted into the string. "format!" is a
-    // compile time creation. This is a pretty bad hack.
-    let frame_string = match index_range.padding_count {
-        0 => "".to_string(),
-        1 => format!("{:01}", frame),
-        2 => format!("{:02}", frame),
-        3 => format!("{:03}", frame),
-        4 => format!("{:04}", frame),
-        5 => format!("{:05}", frame),
-        6 => format!("{:06}", frame),
-        7 => format!("{:07}", frame),
-        8 => format!("{:08}", frame),
-        9 => format!("{:09}", frame),
-        _ => "".to_string(),
-    };
+    let frame_string = format!("{:0width$}", frame, width = index_range.padding_count);
     expanded_string.replace_range(
         index_range.start_index..index_range.end_index,
         &frame_string,
-- 
2.43.0


From b4cdae81e5e405f85c09678e7b0e1ab98d3b6bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 24/36] fix: do not change the process-wide OIIO thread count
 for each image

Each image read or write changed the 'threads' attribute of OIIO and put
it back afterwards. With graphs evaluated in different threads this
re-sizes the OIIO thread pool while it is in use (OIIO aborts), and the
setting of the host application is lost. The thread count is now given to
the image reader or writer.
---
 src/imageio.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index a4cf43c..b7606df 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -24,6 +24,7 @@
 #include <cctype>   // tolower
 #include <iostream>
 #include <memory>
+#include <thread>
 
 #include <rust/cxx.h>
 
@@ -36,12 +37,29 @@
 namespace open_comp_graph {
 namespace internal {
 
+// The number of threads that the images read and written by the
+// current thread may use, zero is all of them.
+//
+// The "threads" attribute of OIIO is not used for this; it belongs to
+// the whole process, and changing it re-sizes the thread pool while
+// other threads may be using it.
+static thread_local int32_t s_num_threads = 0;
+
+static int image_thread_count() {
+    if (s_num_threads > 0) {
+        return s_num_threads;
+    }
+    return static_cast<int>(std::thread::hardware_concurrency());
+}
+
 bool oiio_get_thread_count(int32_t &num_threads) {
-    return OIIO::getattribute("threads", num_threads);
+    num_threads = s_num_threads;
+    return true;
 }
 
 bool oiio_set_thread_count(const int num_threads) {
-    return OIIO::attribute("threads", OIIO::TypeDesc::INT, &num_threads);
+    s_num_threads = num_threads;
+    return true;
 }
 
 bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
@@ -54,6 +72,7 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
             << filename << '\n';
         return false;
     }
+    in->threads(image_thread_count());
     int subimage = 0;
     int miplevel = 0;
     bool seek_ok = in->seek_subimage(subimage, miplevel);
@@ -206,6 +225,7 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
             << filename << '\n';
         return false;
     }
+    out->threads(image_thread_count());
     // std::cerr << "Output Format: " << out->format_name() << '\n';
 
     // Construct ImageSpec.
-- 
2.43.0


From d981d8c0b76f8bedd15c08d711ce331141b617a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:40 +0000
Subject: [PATCH 25/36] fix: invalid attribute values fail the node instead of
 ending the process

An unknown bake option, crop on write option or lens distortion direction,
and a deformation to no pixels at all, aborted the host application.
---
 src/node/lens_distort.rs |  7 ++++++-
 src/node/viewer.rs       | 13 +++++++++++--
 src/node/write_image.rs  |  5 ++++-
 src/ops/pixelremap.rs    |  4 ++++
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/node/lens_distort.rs b/src/node/lens_distort.rs
index 6822b22..0e8ed0b 100644
--- a/src/node/lens_distort.rs
+++ b/src/node/lens_distort.rs
@@ -19,7 +19,7 @@
  *
  */
 
-use log::debug;
+use log::{debug, warn};
 use std::collections::hash_map::DefaultHasher;
 use std::hash;
 use std::hash::Hash;
@@ -147,6 +147,11 @@ impl Operation for LensDistortOperation {
             let mut deformer = DeformerTde4Classic::default();
 
             let direction = attr_block.get_attr_i32("direction");
+            if direction != 0 && direction != 1 {
+                warn!("Invalid direction value: {:?}", direction);
+                *output = Rc::new(StreamDataImpl::new());
+                return NodeStatus::Error;
+            }
             let lco_x = attr_block.get_attr_f32("lens_center_offset_x");
             let lco_y = attr_block.get_attr_f32("lens_center_offset_y");
             let distortion = attr_block.get_attr_f32("distortion");
diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 6fda4e0..4a32e89 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -20,7 +20,7 @@
  * Viewer node to be used to apply last-minute changes to the image.
  */
 
-use log::debug;
+use log::{debug, warn};
 use std::collections::hash_map::DefaultHasher;
 use std::hash::Hash;
 use std::rc::Rc;
@@ -202,6 +202,14 @@ impl Operation for ViewerOperation {
             } else {
                 BakeOption::from(bake_option_initial)
             };
+            match bake_option {
+                BakeOption::ColorSpace | BakeOption::ColorSpaceAndGrade | BakeOption::All => (),
+                _ => {
+                    warn!("BakeOption is invalid value: {:#?}", bake_option);
+                    *output = Rc::new(StreamDataImpl::new());
+                    return NodeStatus::Error;
+                }
+            }
 
             let bake_pixel_data_type =
                 DataType::from(attr_block.get_attr_i32("bake_pixel_data_type"));
@@ -431,7 +439,8 @@ impl Validate for ViewerValidate {
                                 - NodeComputeMode::COLOR
                                 - NodeComputeMode::DEFORMER),
                     ),
-                    _ => panic!("BakeOption is invalid value: {:#?}", bake_option),
+                    // Invalid value, the node will fail to compute.
+                    _ => node_compute_modes.push(node_compute_mode & NodeComputeMode::NONE),
                 }
             }
             for _ in input_nodes.iter().skip(1) {
diff --git a/src/node/write_image.rs b/src/node/write_image.rs
index fdc2e86..84f9003 100644
--- a/src/node/write_image.rs
+++ b/src/node/write_image.rs
@@ -201,7 +201,10 @@ fn do_image_process(
             let format_supports_data_window = path_expanded.ends_with(".exr");
             !format_supports_data_window
         }
-        _ => panic!("Invalid crop_on_write value: {:?}", crop_on_write),
+        _ => {
+            warn!("Invalid crop_on_write value: {:?}", crop_on_write);
+            return false;
+        }
     };
 
     let ok = imageio::write_image(&image, &path_expanded, num_threads, do_crop, compress);
diff --git a/src/ops/pixelremap.rs b/src/ops/pixelremap.rs
index da43889..bbb5cdc 100644
--- a/src/ops/pixelremap.rs
+++ b/src/ops/pixelremap.rs
@@ -56,6 +56,10 @@ pub fn pixels_remap_coords(
         error!("Destination pixel count and pixel coordinates do not match.");
         return;
     }
+    if dst_num_pixels == 0 {
+        // Nothing to sample.
+        return;
+    }
     let dst_pixels = dst_pixel_block.as_mut_slice_f32();
     debug!("dst_width = {}", dst_width);
     debug!("dst_height = {}", dst_height);
-- 
2.43.0


From b6e0ccc96a319a46b24fd233fb3ffe166c6178ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:34 +0000
Subject: [PATCH 26/36] fix: damaged image headers and images without pixels no
 longer end the process

---
 src/colorspace.rs |  4 ++++
 src/imageio.cpp   | 21 ++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index e1026d1..7007a9b 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -34,6 +34,10 @@ pub fn color_convert_inplace(
     src_color_space: &str,
     dst_color_space: &str,
 ) -> bool {
+    if pixel_data.is_empty() {
+        // No pixels, so nothing to convert.
+        return true;
+    }
     let start = Instant::now();
     let ok = oiio_color_convert_inplace(
         pixel_data,
diff --git a/src/imageio.cpp b/src/imageio.cpp
index b7606df..d5c4f95 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -22,7 +22,9 @@
 // STL
 // #include <sstream>  // stringstream
 #include <cctype>   // tolower
+#include <exception>
 #include <iostream>
+#include <limits>
 #include <memory>
 #include <thread>
 
@@ -62,7 +64,7 @@ bool oiio_set_thread_count(const int num_threads) {
     return true;
 }
 
-bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
+bool oiio_read_image(const rust::String &file_path, ImageShared &image) try {
     // std::cerr << "oiio_read_image..." << file_path << '\n';
     auto filename = std::string(file_path);
     auto in = OIIO::ImageInput::open(filename);
@@ -110,6 +112,17 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
         static_cast<int32_t>(stride_num_channels(num_channels, pixel_data_type));
     auto pixel_size_bytes = padded_num_channels * channel_num_bytes;
 
+    // The size in the header of a damaged file can be anything.
+    auto num_values = static_cast<double>(width)
+        * static_cast<double>(height) * padded_num_channels;
+    if (width < 1 || height < 1
+            || num_values > std::numeric_limits<int32_t>::max()) {
+        std::cerr
+            << "oiio_read_image: Cannot open image with unsupported size: "
+            << width << "x" << height << '\n';
+        return false;
+    }
+
     bool ok = oiio_allocate_image(spec, image);
 
     auto pixel_data = pixelblock_get_pixel_data_ptr_read_write(image.pixel_block);
@@ -189,6 +202,12 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
     }
     in->close();
     return ok;
+} catch (const std::exception &error) {
+    // For example, the memory needed to read a damaged file.
+    std::cerr
+        << "oiio_read_image: failed to read file name: "
+        << std::string(file_path) << ": " << error.what() << '\n';
+    return false;
 }
 
 bool name_has_suffix(std::string const &name, std::string const &suffix) {
-- 
2.43.0


From 2a39beedd673d3c444fb9132252e9685340f16b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:03 +0000
Subject: [PATCH 27/36] fix: an unknown system memory size gives no cache
 capacity

sysconf returns -1 when it cannot tell; -1 pages were taken as
almost all of the address space.
---
 src/systemmemory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/systemmemory.cpp b/src/systemmemory.cpp
index 2054870..90d7619 100644
--- a/src/systemmemory.cpp
+++ b/src/systemmemory.cpp
@@ -49,6 +49,10 @@ size_t get_total_system_memory_as_bytes() {
     // Use 'sysconf'.
     long pages = sysconf(_SC_PHYS_PAGES);
     long page_size = sysconf(_SC_PAGE_SIZE);
+    if (pages < 0 || page_size < 0) {
+        // The size is not known.
+        return 0;
+    }
     auto bytes = pages * page_size;
 
 #elif defined _WIN32  // Windows
-- 
2.43.0


From c340e2f50ea303a0ee2bbafe79bc2c6afc70e90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:55 +0000
Subject: [PATCH 28/36] fix: images are encoded in memory so that every failing
 write is noticed

OpenImageIO does not notice data that is lost when a file is closed, its
TIFF writer always leaves an error message, and libjpeg ends the process
when it cannot write.
---
 src/imageio.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index d5c4f95..73fb98e 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -22,17 +22,20 @@
 // STL
 // #include <sstream>  // stringstream
 #include <cctype>   // tolower
+#include <cstdio>   // FILE
 #include <exception>
 #include <iostream>
 #include <limits>
 #include <memory>
 #include <thread>
+#include <vector>
 
 #include <rust/cxx.h>
 
 #include <opencompgraph.h>
 #include <opencompgraph/internal/oiio_utils.h>
 #include <opencompgraph/internal/pixelblock.h>
+#include <OpenImageIO/filesystem.h>
 #include <OpenImageIO/imageio.h>
 
 
@@ -218,6 +221,18 @@ bool name_has_suffix(std::string const &name, std::string const &suffix) {
 }
 
 
+static bool write_file(const std::string &filename,
+                       const std::vector<unsigned char> &content) {
+    FILE *file = OIIO::Filesystem::fopen(filename, "wb");
+    if (file == nullptr) {
+        return false;
+    }
+    auto count = std::fwrite(content.data(), 1, content.size(), file);
+    // The last part of the data may only be written when closing.
+    bool closed = std::fclose(file) == 0;
+    return closed && (count == content.size());
+}
+
 bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
                       const ImageCompression &compress) {
     // std::cerr << "oiio_write_image..." << file_path << '\n';
@@ -365,18 +380,33 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
     // spec.attribute("Software", software);
 
     auto type_desc = ocg_format_to_oiio_format(pixel_data_type);
+
+    // The image is encoded in memory and then written, because (depending
+    // on the format) errors while writing a file are not reported by OIIO
+    // or end the process.
+    OIIO::Filesystem::IOVecOutput memory;
+    bool in_memory = out->supports("ioproxy") && out->set_ioproxy(&memory);
+
     ok = out->open(filename, spec);
     if (ok) {
         ok = out->write_image(type_desc, pixel_data);
         // Closing may write the remaining data, always close.
         ok = out->close() && ok;
-        // Some formats (such as PNG and TIFF) report data that could not
-        // be written only with an error message.
-        ok = ok && !out->has_error();
+        if (!in_memory) {
+            // Some formats report data that could not be written only
+            // with an error message.
+            ok = ok && !out->has_error();
+        }
     }
     if (!ok) {
         auto error_message = out->geterror();
         std::cerr << "oiio_write_image: ERROR: " << error_message << '\n';
+    } else if (in_memory) {
+        ok = write_file(filename, memory.buffer());
+        if (!ok) {
+            std::cerr << "oiio_write_image: ERROR: failed to write: "
+                      << filename << '\n';
+        }
     }
     return ok;
 }
-- 
2.43.0


From 3f5e0a0e4ffd7cce1fc14c49dd849c4d97acdc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:20 +0000
Subject: [PATCH 29/36] fix: images whose display window does not start at 0,0
 keep the place of their pixels

The corner of the display window was added to the data window instead of
being taken away from it.
---
 src/oiio_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oiio_utils.cpp b/src/oiio_utils.cpp
index 97f724a..dc0014e 100644
--- a/src/oiio_utils.cpp
+++ b/src/oiio_utils.cpp
@@ -118,10 +118,10 @@ bool oiio_allocate_image(
 
     // Ensure the display window corner starts at 0,0 by removing any
     // non-zero values and pushing the values into the data window.
-    image.data_window.min_x += image.display_window.min_x;
-    image.data_window.min_y += image.display_window.min_y;
-    image.data_window.max_x += image.display_window.min_x;
-    image.data_window.max_y += image.display_window.min_y;
+    image.data_window.min_x -= image.display_window.min_x;
+    image.data_window.min_y -= image.display_window.min_y;
+    image.data_window.max_x -= image.display_window.min_x;
+    image.data_window.max_y -= image.display_window.min_y;
     image.display_window.max_x -= image.display_window.min_x;
     image.display_window.max_y -= image.display_window.min_y;
     image.display_window.min_x = 0;
-- 
2.43.0


From 8440906d1a538ac8f424c2d29bdff85f6f83ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:20 +0000
Subject: [PATCH 30/36] fix: written images are labelled with their color space
 and metadata

The image description was replaced by a default one; PNG and JPEG images
were written as sRGB but labelled as linear, the pixel aspect was lost.
---
 src/imageio.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageio.rs b/src/imageio.rs
index b898f54..d29351f 100644
--- a/src/imageio.rs
+++ b/src/imageio.rs
@@ -112,7 +112,7 @@ pub fn write_image(
         pixel_block: Box::new(new_pixel_block),
         display_window: new_display_window,
         data_window: new_data_window,
-        spec: ImageSpec::new(),
+        spec: image.spec.clone(),
     };
 
     if crop_to_display_window == true {
-- 
2.43.0


From a5ff68fa2791da473c0aaacaf112ad6d71c42d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:21 +0000
Subject: [PATCH 31/36] fix: crop and merge give the description that belongs
 to their pixels

The cropped pixels are linear, but the stream kept the color space of the
input, so they were converted to linear a second time.
---
 src/node/crop_image.rs  | 20 ++++++++++++++++----
 src/node/merge_image.rs | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/node/crop_image.rs b/src/node/crop_image.rs
index bff28ee..5c5bcfb 100644
--- a/src/node/crop_image.rs
+++ b/src/node/crop_image.rs
@@ -191,12 +191,13 @@ impl Operation for CropImageOperation {
         let intersect = attr_block.get_attr_i32("intersect") == 1;
 
         let use_cache = attr_block.get_attr_i32("use_cache") != 0;
-        let (pixel_block, data_window, display_window) = match use_cache {
+        let (pixel_block, image_spec, data_window, display_window) = match use_cache {
             true => match cache.get(&hash_value) {
                 Some(cached_img) => {
                     debug!("Cache Hit");
                     (
                         cached_img.pixel_block.clone(),
+                        cached_img.spec.clone(),
                         cached_img.data_window,
                         cached_img.display_window,
                     )
@@ -221,12 +222,17 @@ impl Operation for CropImageOperation {
                     let pixel_block_rc = Rc::new(*img.pixel_block);
                     let cached_img = CachedImage {
                         pixel_block: pixel_block_rc.clone(),
-                        spec: img.spec,
+                        spec: img.spec.clone(),
                         data_window: img.data_window,
                         display_window: img.display_window,
                     };
                     cache.insert(hash_value, cached_img);
-                    (pixel_block_rc.clone(), img.data_window, img.display_window)
+                    (
+                        pixel_block_rc.clone(),
+                        img.spec,
+                        img.data_window,
+                        img.display_window,
+                    )
                 }
             },
             false => {
@@ -243,7 +249,12 @@ impl Operation for CropImageOperation {
                 }
 
                 let pixel_block_rc = Rc::new(*img.pixel_block);
-                (pixel_block_rc.clone(), img.data_window, img.display_window)
+                (
+                    pixel_block_rc.clone(),
+                    img.spec,
+                    img.data_window,
+                    img.display_window,
+                )
             }
         };
 
@@ -257,6 +268,7 @@ impl Operation for CropImageOperation {
         stream_data.set_data_window(data_window);
         stream_data.set_display_window(display_window);
         stream_data.set_pixel_block(pixel_block);
+        stream_data.set_image_spec(image_spec);
 
         *output = std::rc::Rc::new(stream_data);
         NodeStatus::Valid
diff --git a/src/node/merge_image.rs b/src/node/merge_image.rs
index a8dba4b..2578815 100644
--- a/src/node/merge_image.rs
+++ b/src/node/merge_image.rs
@@ -236,12 +236,13 @@ impl Operation for MergeImageOperation {
         // Cache the results of the merge. If the input values do not
         // change we can easily look up the pixels again.
         let use_cache = attr_block.get_attr_i32("use_cache") != 0;
-        let (pixel_block, data_window, display_window) = match use_cache {
+        let (pixel_block, image_spec, data_window, display_window) = match use_cache {
             true => match cache.get(&hash_value) {
                 Some(cached_img) => {
                     debug!("Cache Hit");
                     (
                         cached_img.pixel_block.clone(),
+                        cached_img.spec.clone(),
                         cached_img.data_window,
                         cached_img.display_window,
                     )
@@ -254,18 +255,28 @@ impl Operation for MergeImageOperation {
                     let pixel_block_rc = Rc::new(*img.pixel_block);
                     let cached_img = CachedImage {
                         pixel_block: pixel_block_rc.clone(),
-                        spec: img.spec,
+                        spec: img.spec.clone(),
                         data_window: img.data_window,
                         display_window: img.display_window,
                     };
                     cache.insert(hash_value, cached_img);
-                    (pixel_block_rc.clone(), img.data_window, img.display_window)
+                    (
+                        pixel_block_rc.clone(),
+                        img.spec,
+                        img.data_window,
+                        img.display_window,
+                    )
                 }
             },
             false => {
                 let img = do_image_process(&mut stream_data_a, &mut stream_data_b, merge_mode, mix);
                 let pixel_block_rc = Rc::new(*img.pixel_block);
-                (pixel_block_rc.clone(), img.data_window, img.display_window)
+                (
+                    pixel_block_rc.clone(),
+                    img.spec,
+                    img.data_window,
+                    img.display_window,
+                )
             }
         };
 
@@ -301,6 +312,7 @@ impl Operation for MergeImageOperation {
         stream_data.set_display_window(display_window);
         stream_data.set_hash(hash_value);
         stream_data.set_pixel_block(pixel_block);
+        stream_data.set_image_spec(image_spec);
 
         *output = std::rc::Rc::new(stream_data);
         status
-- 
2.43.0


From bdf88424f79a944a701452f5acd503cdc185fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:12 +0000
Subject: [PATCH 32/36] fix: images without pixels do not stay in the cache for
 ever

---
 src/cache.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cache.rs b/src/cache.rs
index 2c68104..2645df9 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -136,6 +136,12 @@ impl CacheImpl {
             error!("Cannot insert into Cache; value is larger than the capacity.");
             return;
         }
+        if value_bytes == 0 {
+            // Values without pixels would never be evicted, because they
+            // use no capacity.
+            debug!("Will not insert into Cache; value is empty.");
+            return;
+        }
 
         // Forget the existing value.
         if let Some(old_value) = self.lru_hash_map.remove(&key) {
-- 
2.43.0


From 49a96c02d95f9d67b0f6e8c91f239d184fcb494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:19 +0000
Subject: [PATCH 33/36] fix: a reversed grade undoes the gamma as well as the
 scale and offset

---
 src/ops/colorgrade.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/colorgrade.rs b/src/ops/colorgrade.rs
index 6d0da8a..d83f2cb 100644
--- a/src/ops/colorgrade.rs
+++ b/src/ops/colorgrade.rs
@@ -72,7 +72,7 @@ fn grade_single(
                 a = 1.0;
             }
             b = -b * a;
-            value = pixel * a + b;
+            value = value * a + b;
         }
         value
     }
-- 
2.43.0


From 97a1ea7f8148224833bc6304e926302c3a66eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:04 +0000
Subject: [PATCH 34/36] fix: sample deformed images relative to their data
 window

The coordinates were mapped from the display window on to data window
coordinates, which were then used as indices in to the pixels. An image
whose data window is not the display window at the origin came out
changed even by a deformer that moves nothing.
---
 src/ops/pixelremap.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/ops/pixelremap.rs b/src/ops/pixelremap.rs
index bbb5cdc..0507adc 100644
--- a/src/ops/pixelremap.rs
+++ b/src/ops/pixelremap.rs
@@ -42,9 +42,9 @@ pub fn pixels_remap_coords(
     assert_eq!(src_pixel_block.data_type(), DataType::Float32);
     assert_eq!(dst_pixel_block.data_type(), DataType::Float32);
 
-    let display_window_f32 = BBox2Df::from(display_window);
+    let src_data_window_f32 = BBox2Df::from(src_data_window);
     debug!("display_window = {:?}", display_window);
-    debug!("display_window_f32 = {:?}", display_window_f32);
+    debug!("src_data_window_f32 = {:?}", src_data_window_f32);
     debug!("display_window.width() = {}", display_window.width());
     debug!("display_window.height() = {}", display_window.height());
 
@@ -102,22 +102,23 @@ pub fn pixels_remap_coords(
 
             // X and Y source pixel coordinate to fetch the pixel
             // value. The pixel coordinates are relative to the
-            // 'display window'.
+            // 'display window', the pixels stored are those of the
+            // 'data window'.
             let x = pixel_coords[pixel_coord_index + 0];
             let y = pixel_coords[pixel_coord_index + 1];
 
             let x = math::interp::remap(
-                display_window_f32.min_x,
-                display_window_f32.max_x,
-                src_data_window.min_x as f32,
-                (src_data_window.max_x - 1) as f32,
+                src_data_window_f32.min_x,
+                src_data_window_f32.max_x,
+                0.0,
+                (src_width - 1) as f32,
                 x,
             );
             let y = math::interp::remap(
-                display_window_f32.min_y,
-                display_window_f32.max_y,
-                src_data_window.min_y as f32,
-                (src_data_window.max_y - 1) as f32,
+                src_data_window_f32.min_y,
+                src_data_window_f32.max_y,
+                0.0,
+                (src_height - 1) as f32,
                 y,
             );
 
-- 
2.43.0


From d353bb22274e6b70e869d006d9eac9c3d92df46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:15 +0000
Subject: [PATCH 35/36] fix: undo deformers in reverse order when deforming
 pixels

To find where a deformed pixel comes from the inverse deformers must be
applied last to first; they were applied first to last, unlike the
deformation of vertex positions.
---
 src/deformutils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deformutils.rs b/src/deformutils.rs
index cff5f19..6914431 100644
--- a/src/deformutils.rs
+++ b/src/deformutils.rs
@@ -134,9 +134,9 @@ pub fn apply_deformers_to_pixels(
     let stride = 2;
     // Calculate the distortion in the opposite direction to what the
     // user has requested, so that we can map the destination to
-    // source.
+    // source. Undoing the deformers starts with the last one.
     let inverse = true;
-    for deformer in &enabled_deformers {
+    for deformer in enabled_deformers.iter().rev() {
         let buffer = pixel_coords.as_mut_slice();
         deformer.apply_slice_in_place(buffer, display_window_f32, inverse, stride);
     }
-- 
2.43.0


From e1d76e153dc3c8e752340c7c03d6110598e699de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:44 +0000
Subject: [PATCH 36/36] fix: translate between OIIO's and ImageOrientation's
 numbering

OIIO counts orientations from 1 and ImageOrientation from 0, so a normal
image was labelled as flipped horizontally when read, and an image without
orientation was written with the invalid orientation 0.
---
 src/imageio.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 73fb98e..b5db343 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -153,7 +153,11 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) try {
     std::string colorspace_text = spec.get_string_attribute("oiio:ColorSpace", "");
     float gamma = spec.get_float_attribute("oiio:Gamma", 1.0f);
     float pixel_aspect = spec.get_float_attribute("PixelAspectRatio", 1.0f);
-    int orientation = spec.get_int_attribute("Orientation", 0);
+    // OIIO counts the orientations from 1, 'ImageOrientation' from 0.
+    int orientation = spec.get_int_attribute("Orientation", 1) - 1;
+    if (orientation < 0 || orientation > 7) {
+        orientation = 0;
+    }
     int unassociated_alpha = spec.get_int_attribute("oiio:UnassociatedAlpha", 0);
     std::string desc_text = spec.get_string_attribute("ImageDescription", "");
     int dither = spec.get_int_attribute("oiio:dither", 0);
@@ -290,7 +294,7 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
     auto color_space_str = std::string(image.spec.color_space);
     auto gamma = static_cast<float>(image.spec.gamma);
     auto pixel_aspect = static_cast<float>(image.spec.pixel_aspect);
-    auto orientation = static_cast<int32_t>(image.spec.orientation);
+    auto orientation = static_cast<int32_t>(image.spec.orientation) + 1;
     auto unassociated_alpha = static_cast<int32_t>(image.spec.unassociated_alpha);
     auto dither = static_cast<int32_t>(image.spec.dither);
     // std::cerr << "OUT Color Space: " << color_space_str << '\n';
-- 
2.43.0

