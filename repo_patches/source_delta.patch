From a8069414156291f5529214cc06d9cac830fa2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 01/48] fix: report the unknown second port in
 PortGraph::link_ports errors

---
 src/portgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 65e8e0f..1336039 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -763,7 +763,7 @@ impl<PO: Unsigned> LinkMut for PortGraph<u32, u32, PO> {
         };
 
         let Some(meta_b) = self.port_meta_valid(port_b) else {
-            return Err(LinkError::UnknownPort { port: port_a });
+            return Err(LinkError::UnknownPort { port: port_b });
         };
 
         if meta_a.direction() == meta_b.direction() {
-- 
2.43.0


From 1ec2f9a05323285a234a4bfe0f839cb675dbf99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:13 +0000
Subject: [PATCH 02/48] fix: keep the free node list consistent in
 PortGraph::swap_nodes

---
 src/portgraph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 1336039..7d8ba95 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -616,6 +616,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
         let meta_a = self.node_meta[a.index()];
         let meta_b = self.node_meta[b.index()];
+        if let (NodeEntry::Free(_), NodeEntry::Free(_)) = (meta_a, meta_b) {
+            // Nothing to swap. The entries must keep their free list links.
+            return;
+        }
         self.node_meta.swap(a.index(), b.index());
         // Update the node indices in the ports metadata.
         let mut update_ports = |new_node: NodeIndex, entry: NodeEntry| {
@@ -635,6 +639,9 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         let mut update_free_list = |new_node: NodeIndex, entry: FreeNodeEntry| {
             if let Some(prev) = entry.prev.to_option() {
                 self.node_meta[prev.index()].free_entry_mut().unwrap().next = new_node.into();
+            } else {
+                // The entry is the head of the list.
+                self.node_free = new_node.into();
             }
             if let Some(next) = entry.next.to_option() {
                 self.node_meta[next.index()].free_entry_mut().unwrap().prev = new_node.into();
-- 
2.43.0


From 469bd973bb23b59c6adc6851775aaf4f87b4dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 03/48] fix: do not allocate a port slab when set_num_ports
 removes all ports

---
 src/portgraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portgraph.rs b/src/portgraph.rs
index 7d8ba95..681d972 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -558,7 +558,10 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // old slab.
         //
         // TODO: Fine-tune overallocation factor
-        let target_capacity = new_total.next_power_of_two();
+        let target_capacity = match new_total {
+            0 => 0,
+            _ => new_total.next_power_of_two(),
+        };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
         // Move the port data.
-- 
2.43.0


From cc21ba6ed6b5a77aca55bb298ac806388caa7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:59 +0000
Subject: [PATCH 04/48] fix: correct the size hint of port_links for unlinked
 ports of a MultiPortGraph

---
 src/multiportgraph/iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/multiportgraph/iter.rs b/src/multiportgraph/iter.rs
index ccd58d2..d557a1b 100644
--- a/src/multiportgraph/iter.rs
+++ b/src/multiportgraph/iter.rs
@@ -371,7 +371,7 @@ impl<PO: Unsigned> FusedIterator for NodeConnections<'_, PO> {}
 #[derive(Debug, Clone)]
 #[allow(missing_docs)]
 pub enum PortLinks<'a, PO: Unsigned> {
-    /// The port is not a multiport. The iterator returns exactly one link.
+    /// The port is not a multiport. The iterator returns at most one link.
     SinglePort {
         multigraph: &'a MultiPortGraph<u32, u32, PO>,
         port: PortIndex,
@@ -460,7 +460,8 @@ impl<PO: Unsigned> Iterator for PortLinks<'_, PO> {
                 if *empty {
                     (0, Some(0))
                 } else {
-                    (1, Some(1))
+                    // The port may not be linked.
+                    (0, Some(1))
                 }
             }
             PortLinks::Multiport { subports, .. } => (0, Some(subports.len())),
-- 
2.43.0


From 2d0a1f5a7cc06d1e0140bc2f30786d83d276e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:07 +0000
Subject: [PATCH 05/48] fix: return the linked subport in
 MultiPortGraph::unlink_port

---
 src/multiportgraph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index f6e8468..49d402b 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -320,7 +320,8 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
                 .expect("MultiPortGraph error: a port marked as multiport has no link.");
             self.remove_copy_node(port, link)
         } else {
-            self.graph.unlink_port(port).map(SubportIndex::new_unique)
+            let link = self.graph.unlink_port(port)?;
+            self.get_subport_from_index(link)
         }
     }
 }
@@ -381,7 +382,7 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
         let dir = self.port_direction(copy_port).unwrap();
         debug_assert!(self.copy_node.get(copy_node));
 
-        let link = self.graph.links(copy_node, dir).next();
+        let link = self.graph.links(copy_node, dir.reverse()).next();
         let link = link.map(|(_, tgt)| self.get_subport_from_index(tgt).unwrap());
 
         let mut subports = self.graph._ports(copy_node, dir.reverse());
-- 
2.43.0


From 2dc7378bbf2fa80ddc35357d6b496400525dd7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:16 +0000
Subject: [PATCH 06/48] fix: keep the multiport flags and reported links right
 when set_num_ports removes ports of a MultiPortGraph

---
 src/multiportgraph.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 49d402b..05a8b35 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -2,6 +2,8 @@
 
 mod iter;
 
+use std::collections::HashMap;
+
 pub use self::iter::{
     Neighbours, NodeConnections, NodeLinks, NodeSubports, Nodes, PortLinks, Ports,
 };
@@ -222,23 +224,31 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
-        let mut dropped_ports = Vec::new();
-        let rekey_wrapper = |port, op| {
-            match op {
-                PortOperation::Removed { old_link } => {
-                    if *self.multiport.get(port) {
-                        dropped_ports.push((port, old_link.expect("Multiport node has no link")));
-                    }
-                }
-                PortOperation::Moved { new_index } => self.multiport.swap(port, new_index),
+        // Disconnect the ports to be removed beforehand, while the multiport
+        // flags still match the port indices. This drops their copy nodes.
+        let removed = self
+            .graph
+            ._inputs(node)
+            .skip(incoming)
+            .chain(self.graph._outputs(node).skip(outgoing));
+        let mut old_links = HashMap::new();
+        for port in removed {
+            if let Some(link) = self.unlink_port(port) {
+                old_links.insert(port, link.port());
+            }
+        }
+        let rekey_wrapper = |port, op| match op {
+            PortOperation::Removed { .. } => {
+                let old_link = old_links.get(&port).copied();
+                rekey(port, PortOperation::Removed { old_link });
+            }
+            PortOperation::Moved { new_index } => {
+                self.multiport.swap(port, new_index);
+                rekey(port, op);
             }
-            rekey(port, op);
         };
         self.graph
             .set_num_ports(node, incoming, outgoing, rekey_wrapper);
-        for (port, old_link) in dropped_ports {
-            self.remove_copy_node(port, old_link);
-        }
     }
 
     fn compact_nodes<F>(&mut self, mut rekey: F)
-- 
2.43.0


From a8c502a2d76cc0b8fb1dd14294c367863373fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 07/48] fix: reject unknown subports, and report the main ports
 in MultiPortGraph::link_subports errors

---
 src/multiportgraph.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index 05a8b35..c6c286c 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -359,15 +359,37 @@ impl<PO: Unsigned> MultiMut for MultiPortGraph<u32, u32, PO> {
         subport_from: SubportIndex,
         subport_to: SubportIndex,
     ) -> Result<(), LinkError<PO>> {
+        let from_port = subport_from.port();
+        let to_port = subport_to.port();
         // TODO: Custom errors
         let from_index = self
             .get_subport_index(subport_from)
-            .expect("subport_from does not exist");
+            .ok_or(LinkError::UnknownPort { port: from_port })?;
         let to_index = self
             .get_subport_index(subport_to)
-            .expect("subport_to does not exist");
-        self.graph.link_ports(from_index, to_index)?;
-        Ok(())
+            .ok_or(LinkError::UnknownPort { port: to_port })?;
+        // The ports of the copy nodes must not be exposed in the errors.
+        let main_port = |port| {
+            if port == from_index {
+                from_port
+            } else {
+                to_port
+            }
+        };
+        match self.graph.link_ports(from_index, to_index) {
+            Ok(_) => Ok(()),
+            Err(LinkError::AlreadyLinked { port }) => Err(LinkError::AlreadyLinked {
+                port: main_port(port),
+            }),
+            Err(LinkError::IncompatibleDirections { dir, .. }) => {
+                Err(LinkError::IncompatibleDirections {
+                    port_a: from_port,
+                    port_b: to_port,
+                    dir,
+                })
+            }
+            Err(err) => Err(err),
+        }
     }
 
     fn unlink_subport(&mut self, subport: SubportIndex) -> Option<SubportIndex> {
@@ -585,7 +607,8 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
             let subport_offset = PortOffset::new(dir, subport.offset());
             self.graph.port_index(copy_node, subport_offset)
         } else {
-            Some(port_index)
+            // Ports without a copy node only have one subport.
+            (subport.offset() == 0).then_some(port_index)
         }
     }
 
-- 
2.43.0


From 26db3e7ade37f40362c9702502a5b22dd607293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 08/48] fix: do not allocate subports for rejected links in
 MultiPortGraph::link_ports

---
 src/multiportgraph.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index c6c286c..fb672d5 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -316,6 +316,20 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
         port_a: PortIndex,
         port_b: PortIndex,
     ) -> Result<(SubportIndex, SubportIndex), LinkError<PO>> {
+        // Check the ports before allocating any subport for them.
+        let Some(dir_a) = self.graph.port_direction(port_a) else {
+            return Err(LinkError::UnknownPort { port: port_a });
+        };
+        let Some(dir_b) = self.graph.port_direction(port_b) else {
+            return Err(LinkError::UnknownPort { port: port_b });
+        };
+        if dir_a == dir_b {
+            return Err(LinkError::IncompatibleDirections {
+                port_a,
+                port_b,
+                dir: dir_a,
+            });
+        }
         let (multiport_a, index_a) = self.get_free_multiport(port_a)?;
         let (multiport_b, index_b) = self.get_free_multiport(port_b)?;
         self.graph.link_ports(index_a, index_b)?;
-- 
2.43.0


From 34892c25b4b336dd201eb7cd2ea73c4d678a75c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:02 +0000
Subject: [PATCH 09/48] fix: check the port count limits before changing a
 node's ports

---
 src/multiportgraph.rs |  1 +
 src/portgraph.rs      | 42 +++++++++++++++++++++++++-----------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index fb672d5..a7cad99 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -224,6 +224,7 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
+        PortGraph::<u32, u32, PO>::assert_port_counts(incoming, outgoing);
         // Disconnect the ports to be removed beforehand, while the multiport
         // flags still match the port indices. This drops their copy nodes.
         let removed = self
diff --git a/src/portgraph.rs b/src/portgraph.rs
index 681d972..f4a4cbc 100644
--- a/src/portgraph.rs
+++ b/src/portgraph.rs
@@ -106,6 +106,28 @@ impl<N: Unsigned, P: Unsigned, PO: Unsigned> PortGraph<N, P, PO> {
 }
 
 impl<PO: Unsigned> PortGraph<u32, u32, PO> {
+    /// Check that a node may have the given number of ports.
+    ///
+    /// # Panics
+    ///
+    /// If the ports of a node cannot be represented.
+    #[inline]
+    pub(crate) fn assert_port_counts(incoming: usize, outgoing: usize) {
+        let max_offset = PortOffset::<PO>::max_offset();
+        assert!(
+            incoming <= max_offset.min(NodeMeta::MAX_INCOMING),
+            "Incoming port count exceeds maximum."
+        );
+        assert!(
+            outgoing <= max_offset.min(NodeMeta::MAX_OUTGOING),
+            "Outgoing port count exceeds maximum."
+        );
+        assert!(
+            incoming + outgoing <= u16::MAX as usize,
+            "Total port count exceeds maximum."
+        );
+    }
+
     #[inline]
     fn alloc_node(&mut self) -> NodeIndex {
         match self.node_free.to_option() {
@@ -451,14 +473,7 @@ impl<PO: Unsigned> PortView for PortGraph<u32, u32, PO> {
 
 impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     fn add_node(&mut self, incoming: usize, outgoing: usize) -> NodeIndex {
-        assert!(
-            incoming <= PortOffset::<PO>::max_offset(),
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= PortOffset::<PO>::max_offset(),
-            "Outgoing port count exceeds maximum."
-        );
+        Self::assert_port_counts(incoming, outgoing);
 
         let node = self.alloc_node();
         let node_meta = self.alloc_ports(node, incoming, outgoing, 0);
@@ -516,14 +531,7 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
     where
         F: FnMut(PortIndex, PortOperation),
     {
-        assert!(
-            incoming <= NodeMeta::MAX_INCOMING,
-            "Incoming port count exceeds maximum."
-        );
-        assert!(
-            outgoing <= NodeMeta::MAX_OUTGOING,
-            "Outgoing port count exceeds maximum."
-        );
+        Self::assert_port_counts(incoming, outgoing);
 
         let new_total = incoming + outgoing;
 
@@ -560,7 +568,7 @@ impl<PO: Unsigned> PortMut for PortGraph<u32, u32, PO> {
         // TODO: Fine-tune overallocation factor
         let target_capacity = match new_total {
             0 => 0,
-            _ => new_total.next_power_of_two(),
+            _ => new_total.next_power_of_two().min(u16::MAX as usize),
         };
         let new_meta = self.alloc_ports(node, incoming, outgoing, target_capacity - new_total);
 
-- 
2.43.0


From b106bc08d0f798cffb5e3232ee9d4b5aaba4f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:12 +0000
Subject: [PATCH 10/48] fix: reject indices and offsets above the maximum

---
 src/index.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index ff3d9fc..3cb7fb2 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -456,8 +456,11 @@ impl Unsigned for usize {}
 
 impl<U: Unsigned> BitField<U> {
     /// Create a new bit field with the given index and bit flag.
+    ///
+    /// Panics if the index is greater than [`BitField::max_index`].
     #[inline(always)]
     fn new(index: usize, bit_flag: bool) -> Self {
+        assert!(index <= Self::max_index(), "index too large");
         let u = U::from_usize(index).expect("index too large");
         let ret = Self(u);
         if bit_flag {
-- 
2.43.0


From 2f63e2680f455b56bfcd0a57330670fceaa24c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:22 +0000
Subject: [PATCH 11/48] fix: return an error when deserialising indices and
 offsets above the maximum

---
 src/index.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 3cb7fb2..d2d3d5f 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -104,7 +104,8 @@ macro_rules! index_impls {
             where
                 D: serde::Deserializer<'de>,
             {
-                Ok($name::new(serde::Deserialize::deserialize(deserializer)?))
+                let index: usize = serde::Deserialize::deserialize(deserializer)?;
+                $name::try_from(index).map_err(serde::de::Error::custom)
             }
         }
     };
@@ -382,9 +383,16 @@ mod serde_port_offset_impl {
         }
     }
 
-    impl<U: Unsigned> From<PortOffsetSer> for PortOffset<U> {
-        fn from(port_offset: PortOffsetSer) -> Self {
-            Self::new(port_offset.direction, port_offset.index)
+    impl<U: Unsigned> TryFrom<PortOffsetSer> for PortOffset<U> {
+        type Error = IndexError;
+
+        fn try_from(port_offset: PortOffsetSer) -> Result<Self, Self::Error> {
+            if port_offset.index > Self::max_offset() {
+                return Err(IndexError {
+                    index: port_offset.index,
+                });
+            }
+            Ok(Self::new(port_offset.direction, port_offset.index))
         }
     }
 
@@ -406,7 +414,7 @@ mod serde_port_offset_impl {
             D: Deserializer<'de>,
         {
             let port_offset: PortOffsetSer = Deserialize::deserialize(deserializer)?;
-            Ok(port_offset.into())
+            port_offset.try_into().map_err(serde::de::Error::custom)
         }
     }
 }
-- 
2.43.0


From 501e1e20acca89f1b48eeaa48905cbd560cc9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:15 +0000
Subject: [PATCH 12/48] fix: reject attaching a hierarchy node to itself

---
 src/hierarchy.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index 333ef9b..b3bdc51 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -273,6 +273,9 @@ impl Hierarchy {
 
     /// Ensures that making `node` a child of `parent` would not introduce a cycle.
     fn cycle_check(&self, node: NodeIndex, mut parent: NodeIndex) -> bool {
+        if node == parent {
+            return false;
+        }
         // When `node` does not have any children it can't contain `parent`.
         if self.get(node).children[0].is_none() {
             debug_assert!(self.get(node).children[1].is_none());
-- 
2.43.0


From e6c786ff27c371755986f7090bc8e9f6b00f7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:44 +0000
Subject: [PATCH 13/48] fix: allow rekeying a hierarchy node to its own index

---
 src/hierarchy.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hierarchy.rs b/src/hierarchy.rs
index b3bdc51..96ac467 100644
--- a/src/hierarchy.rs
+++ b/src/hierarchy.rs
@@ -469,14 +469,15 @@ impl Hierarchy {
     ///
     /// # Panics
     ///
-    /// Panics if the index `new` is not a root without any children.
+    /// Panics if the index `new` is not a root without any children, unless it
+    /// is the same as `old`.
     pub fn rekey(&mut self, old: NodeIndex, new: NodeIndex) {
-        if self.get(new) != &NodeData::default() {
-            panic!("can not rekey into an occupied slot");
-        }
         if old == new {
             return;
         }
+        if self.get(new) != &NodeData::default() {
+            panic!("can not rekey into an occupied slot");
+        }
         let node_data = mem::take(self.get_mut(old));
 
         self.rekey_in_children(node_data, new);
-- 
2.43.0


From 34ae39d6bcc3627a9364fedce494b0270dec87e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 14/48] fix: reserve the requested capacity in secondary maps
 backed by BitVec and HashSet

---
 src/secondary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/secondary.rs b/src/secondary.rs
index 1de9404..8b6f061 100644
--- a/src/secondary.rs
+++ b/src/secondary.rs
@@ -115,7 +115,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        BitVec::reserve(self, capacity.saturating_sub(self.capacity()));
+        BitVec::reserve(self, capacity.saturating_sub(BitVec::len(self)));
     }
 
     #[inline]
@@ -268,7 +268,7 @@ where
 
     #[inline]
     fn ensure_capacity(&mut self, capacity: usize) {
-        HashSet::reserve(self, capacity.saturating_sub(self.capacity()));
+        HashSet::reserve(self, capacity.saturating_sub(HashSet::len(self)));
     }
 
     #[inline]
-- 
2.43.0


From bd5a1c2c97066410fb6e7737dc602ca6adae44d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:23 +0000
Subject: [PATCH 15/48] fix: leave the map's own default value behind in
 UnmanagedDenseMap::rekey

---
 src/unmanaged.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index 23aeb87..c78d56b 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -164,7 +164,7 @@ where
         V: Default,
     {
         if old.into() < self.data.len() {
-            let val = mem::take(self.get_mut(old));
+            let val = mem::replace(&mut self.data[old.into()], self.default.clone());
             let Some(new) = new else { return };
             if new.into() >= self.data.len() {
                 self.resize_for_get_mut(new.into() + 1);
@@ -173,7 +173,7 @@ where
         } else {
             let Some(new) = new else { return };
             if new.into() < self.data.len() {
-                self.data[new.into()] = Default::default();
+                self.data[new.into()] = self.default.clone();
             }
         }
     }
-- 
2.43.0


From b32385cd23b44a64177b6879f20a8b2d491d0c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:40 +0000
Subject: [PATCH 16/48] fix: count each link of a FilteredGraph once

---
 src/view/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index a5d4384..31aafb2 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -225,7 +225,7 @@ where
 
     fn link_count(&self) -> usize {
         self.nodes_iter()
-            .flat_map(|node| self.all_links(node))
+            .flat_map(|node| self.links(node, Direction::Outgoing))
             .count()
     }
 }
-- 
2.43.0


From 5eac2e8524e57876399cf15a737906ef9446498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:16 +0000
Subject: [PATCH 17/48] fix: hide links to filtered nodes from
 FilteredGraph::subport_link

---
 src/view/filter.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/view/filter.rs b/src/view/filter.rs
index 31aafb2..9560d12 100644
--- a/src/view/filter.rs
+++ b/src/view/filter.rs
@@ -251,13 +251,7 @@ where
     }
 
     fn subport_link(&self, subport: Self::LinkEndpoint) -> Option<Self::LinkEndpoint> {
-        if !(self.link_filter)(subport.into(), &self.context) {
-            return None;
-        }
         let to = self.graph.subport_link(subport)?;
-        if !(self.link_filter)(to.into(), &self.context) {
-            return None;
-        }
-        Some(to)
+        self.link_filter(&(subport, to)).then_some(to)
     }
 }
-- 
2.43.0


From 379abf9560f605fd71299bee126e7d4afbd17474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:19 +0000
Subject: [PATCH 18/48] fix: report a FlatRegion without root and children as
 empty

---
 src/view/flat_region.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/view/flat_region.rs b/src/view/flat_region.rs
index b21f62e..820604d 100644
--- a/src/view/flat_region.rs
+++ b/src/view/flat_region.rs
@@ -129,8 +129,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        // The region root is always present
-        false
+        !self.include_root && !self.hierarchy.has_children(self.region_root)
     }
 
     #[inline]
-- 
2.43.0


From d52c9ac110bde24c83bfe982a59d4dc4c0bfba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:27 +0000
Subject: [PATCH 19/48] fix: keep the root in the cache of a Region cloned
 during a query

---
 src/view/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/view/region.rs b/src/view/region.rs
index bba40ba..8fbdecd 100644
--- a/src/view/region.rs
+++ b/src/view/region.rs
@@ -128,10 +128,10 @@ impl<G: PartialEq> PartialEq for Region<'_, G> {
 impl<G: Clone> Clone for Region<'_, G> {
     fn clone(&self) -> Self {
         // Clone the cache if it is not currently locked.
-        // Otherwise, create a new empty cache.
+        // Otherwise, create a new cache.
         let is_descendant = match self.is_descendant.try_read() {
             Ok(cache) => cache.clone(),
-            Err(_) => HashMap::new(),
+            Err(_) => HashMap::from([(self.region_root, false)]),
         };
         Self {
             graph: self.graph.clone(),
-- 
2.43.0


From 69ec311a41fc4aa66ba8cef840bc205a13d84fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 20/48] fix: order nodes after all their predecessors in
 toposort of multiport graphs

---
 src/algorithms/toposort.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index e2849f7..bb90e09 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -243,6 +243,13 @@ where
         })
     }
 
+    /// Returns `true` if all the ports linked to `port` have been visited.
+    fn links_visited(&self, port: PortIndex) -> bool {
+        self.graph
+            .port_links(port)
+            .all(|(_, other)| *self.visited_ports.get(other.into()))
+    }
+
     /// Returns `true` if the node should be ignored.
     #[inline]
     fn ignore_node(&mut self, node: NodeIndex) -> bool {
@@ -286,8 +293,12 @@ where
                 .map(|(_, next_port)| next_port.into())
                 .collect();
             for port in linked_ports {
-                let target = self.graph.port_node(port).unwrap();
+                // A port with multiple links is only visited with the last of them.
+                if !self.links_visited(port) {
+                    continue;
+                }
 
+                let target = self.graph.port_node(port).unwrap();
                 if self.becomes_ready(target, port) {
                     self.candidate_nodes.push_back(target);
                 }
-- 
2.43.0


From d9c71130f58c96af1c0dec82f202252eac2e7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:46 +0000
Subject: [PATCH 21/48] fix: do not wait for filtered nodes and ports in
 toposort_filtered

---
 src/algorithms/toposort.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/algorithms/toposort.rs b/src/algorithms/toposort.rs
index bb90e09..73f1adc 100644
--- a/src/algorithms/toposort.rs
+++ b/src/algorithms/toposort.rs
@@ -233,7 +233,7 @@ where
                 !self.visited_ports.get(p)
             } else if *self.visited_ports.get(p) {
                 true
-            } else if self.graph.port_link(p).is_none() || self.ignore_port(node, p) {
+            } else if self.ignore_port(node, p) || self.links_visited(p) {
                 // If the port is not linked or should be ignored, mark it as visited.
                 self.visited_ports.set(p, true);
                 true
@@ -243,11 +243,21 @@ where
         })
     }
 
-    /// Returns `true` if all the ports linked to `port` have been visited.
-    fn links_visited(&self, port: PortIndex) -> bool {
-        self.graph
+    /// Returns `true` if all the ports linked to `port` have been visited, or
+    /// should be ignored.
+    fn links_visited(&mut self, port: PortIndex) -> bool {
+        let linked_ports: SmallVec<[PortIndex; 2]> = self
+            .graph
             .port_links(port)
-            .all(|(_, other)| *self.visited_ports.get(other.into()))
+            .map(|(_, other)| other.into())
+            .collect();
+        linked_ports.into_iter().all(|other| {
+            if *self.visited_ports.get(other) {
+                return true;
+            }
+            let node = self.graph.port_node(other).unwrap();
+            self.ignore_node(node) || self.ignore_port(node, other)
+        })
     }
 
     /// Returns `true` if the node should be ignored.
@@ -293,12 +303,13 @@ where
                 .map(|(_, next_port)| next_port.into())
                 .collect();
             for port in linked_ports {
+                let target = self.graph.port_node(port).unwrap();
+
                 // A port with multiple links is only visited with the last of them.
-                if !self.links_visited(port) {
+                if self.ignore_port(target, port) || !self.links_visited(port) {
                     continue;
                 }
 
-                let target = self.graph.port_node(port).unwrap();
                 if self.becomes_ready(target, port) {
                     self.candidate_nodes.push_back(target);
                 }
-- 
2.43.0


From 0db945c649a36fb452b6a0f6389963dd18fb5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:33 +0000
Subject: [PATCH 22/48] fix: follow every link of a port when collecting the
 nodes inside a boundary

---
 src/boundary.rs | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 92c04a6..30c77d8 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -305,20 +305,13 @@ impl Boundary {
         &self,
         graph: &'g impl LinkView,
     ) -> impl Iterator<Item = NodeIndex> + 'g {
-        // For every visited edge, we mark both ports as visited
-        let mut visited = BTreeSet::new();
+        // Links at these ports cross the boundary, and are never followed.
+        let boundary_ports: BTreeSet<PortIndex> = self.port_indices().collect();
 
         // The set of nodes to traverse
-        let mut nodes_to_process: BTreeSet<_> = self
+        let mut nodes_to_process: BTreeSet<NodeIndex> = self
             .port_indices()
-            .map(|p| {
-                let this_node = graph.port_node(p).unwrap();
-                if let Some(other_port) = graph.port_link(p) {
-                    visited.insert(other_port.into());
-                }
-                visited.insert(p);
-                this_node
-            })
+            .map(|p| graph.port_node(p).unwrap())
             .collect();
 
         if nodes_to_process.is_empty() {
@@ -326,17 +319,20 @@ impl Boundary {
             nodes_to_process = graph.nodes_iter().collect();
         }
 
+        // Every node that has been added to `nodes_to_process`
+        let mut visited = nodes_to_process.clone();
+
         std::iter::successors(nodes_to_process.pop_first(), move |&node| {
-            // Traverse every unvisited edge in `node`
-            for p in graph.all_ports(node) {
-                if visited.insert(p) {
-                    // Visit it
-                    if let Some(other_port) = graph.port_link(p) {
-                        visited.insert(other_port.into());
-                        // Possibly a new node!
-                        let other_node = graph.port_node(other_port).unwrap();
-                        nodes_to_process.insert(other_node);
-                    }
+            // Traverse every internal edge of `node`
+            for (this_port, other_port) in graph.all_links(node) {
+                if boundary_ports.contains(&this_port.into())
+                    || boundary_ports.contains(&other_port.into())
+                {
+                    continue;
+                }
+                let other_node = graph.port_node(other_port).unwrap();
+                if visited.insert(other_node) {
+                    nodes_to_process.insert(other_node);
                 }
             }
             nodes_to_process.pop_first()
-- 
2.43.0


From cfb6bdbc00c73caf8faebd7a456bb61565c18fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:27 +0000
Subject: [PATCH 23/48] fix: ignore unreachable predecessors when computing
 dominators

---
 src/algorithms/dominators.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/dominators.rs b/src/algorithms/dominators.rs
index 796609c..ba6d1fc 100644
--- a/src/algorithms/dominators.rs
+++ b/src/algorithms/dominators.rs
@@ -137,7 +137,9 @@ where
     ) -> Self {
         // We traverse the graph in post order starting at the `entry` node.
         // We associate each node that we encounter with its index within the traversal.
-        let mut node_to_index = UnmanagedDenseMap::with_capacity(graph.node_capacity());
+        // Nodes that are not reachable from the entry have index `usize::MAX`.
+        let mut node_to_index =
+            UnmanagedDenseMap::with_capacity_and_default(graph.node_capacity(), usize::MAX);
         let mut index_to_node = Vec::with_capacity(graph.node_capacity());
 
         for (index, node) in postorder_filtered(
@@ -183,8 +185,8 @@ where
                             return None;
                         }
                         let pred_index = node_to_index[pred];
-                        if dominators[pred_index] == usize::MAX {
-                            // No dominator yet
+                        if pred_index == usize::MAX || dominators[pred_index] == usize::MAX {
+                            // Not reachable, or no dominator yet
                             return None;
                         }
                         Some(pred_index)
-- 
2.43.0


From de3dd159e6df11b6e303110ff1da6167b3518ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:10 +0000
Subject: [PATCH 24/48] fix: ignore links to nodes outside the boundary in
 Boundary::port_ordering

---
 src/boundary.rs | 55 ++++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/src/boundary.rs b/src/boundary.rs
index 30c77d8..8e40298 100644
--- a/src/boundary.rs
+++ b/src/boundary.rs
@@ -147,8 +147,9 @@ impl Boundary {
     /// k*n)`, where `e` is the number of links in the `graph`, `n` is the
     /// number of nodes, and `k` is the number of ports in the boundary.
     pub fn port_ordering(&self, graph: &impl LinkView) -> PortOrdering {
-        let boundary_ports: HashSet<PortIndex> =
-            self.inputs.iter().chain(&self.outputs).copied().collect();
+        // The nodes in the subgraph induced by the boundary. Links to any other
+        // node cross the boundary, and do not contribute to the ordering.
+        let internal_nodes: HashSet<NodeIndex> = self.internal_nodes(graph).collect();
 
         // Maps between the input/output ports in the boundary and the nodes they belong to.
         let mut input_nodes: BTreeMap<NodeIndex, Vec<PortIndex>> = BTreeMap::new();
@@ -168,11 +169,12 @@ impl Boundary {
         // We keep track of how many output neighbors remain to be visited, so we can
         // trim the `reaching` set when we reach the last one.
 
-        // We have to start the toposort from the input nodes that do not have predecessors.
-        let source_nodes = input_nodes.keys().copied().filter(|&node| {
-            graph
-                .inputs(node)
-                .all(|p| boundary_ports.contains(&p) || graph.port_links(p).count() == 0)
+        // We have to start the toposort from the internal nodes that do not have
+        // predecessors in the subgraph.
+        let source_nodes = internal_nodes.iter().copied().filter(|&node| {
+            !graph
+                .input_neighbours(node)
+                .any(|n| internal_nodes.contains(&n))
         });
 
         let mut reaching: BTreeMap<NodeIndex, (usize, HashSet<PortIndex>)> = BTreeMap::new();
@@ -180,39 +182,16 @@ impl Boundary {
             graph,
             source_nodes,
             Direction::Outgoing,
+            Some(Box::new(|n| internal_nodes.contains(&n))),
             None,
-            Some(Box::new(|_n, p| !boundary_ports.contains(&p))),
         );
-        let mut added_graph_initials = false;
         loop {
             let Some(node) = topo.next() else {
-                if input_nodes.is_empty() && output_nodes.is_empty() {
-                    break;
-                }
-
-                // If we have unvisited nodes after the toposort, it means the
-                // `source_nodes` we used to initialize the traversal where not
-                // enough to reach all input ports in the subgraph induced by
-                // the boundary.
-                //
-                // This is the case when the induced subgraph has nodes that are
-                // not in the boundary and have no incoming links.
-                // traversal. This will cause all of the graph to be traversed,
-                // hence the recommended use of a subgraph in the documentation.
                 assert!(
-                    !added_graph_initials,
+                    input_nodes.is_empty() && output_nodes.is_empty(),
                     "Traversing the graph from all sources should always reach boundary ports"
                 );
-                added_graph_initials = true;
-
-                // Explore the subgraph induced by the boundary, and add any node with no input neighbours
-                // to the candidates list for the toposort traversal.
-                let new_source_nodes = self
-                    .internal_nodes(graph)
-                    .filter(|&node| graph.input_neighbours(node).count() == 0);
-                topo.add_sources(new_source_nodes);
-
-                continue;
+                break;
             };
 
             // Collect the reaching ports, plus any ports in the node itself.
@@ -221,7 +200,10 @@ impl Boundary {
                 input_nodes.remove(&node).into_iter().flatten().collect();
 
             // Add the reaching ports from the input neighbours.
-            for input_neigh in graph.input_neighbours(node) {
+            for input_neigh in graph
+                .input_neighbours(node)
+                .filter(|n| internal_nodes.contains(n))
+            {
                 let (output_neighs, input_reaching) = reaching
                     .get_mut(&input_neigh)
                     .expect("Incoming neighbour not visited");
@@ -244,7 +226,10 @@ impl Boundary {
                 }
             }
 
-            let output_neighs = graph.output_neighbours(node).count();
+            let output_neighs = graph
+                .output_neighbours(node)
+                .filter(|n| internal_nodes.contains(n))
+                .count();
             reaching.insert(node, (output_neighs, reaching_ports));
 
             // If we have explored all the nodes for the input or output ports,
-- 
2.43.0


From 73859c7381992004a01f9f107e33fbf9d302709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:21 +0000
Subject: [PATCH 25/48] fix: consider every link of the output ports in
 is_convex

---
 src/algorithms/convex/line_convex_checker.rs | 5 +++--
 src/algorithms/convex/topo_convex_checker.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index 04fb1f5..cb4bb14 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -634,9 +634,10 @@ impl<G: LinkView> ConvexChecker for LineConvexChecker<G> {
         inputs: impl IntoIterator<Item = PortIndex>,
         outputs: impl IntoIterator<Item = PortIndex>,
     ) -> bool {
-        let pre_outputs: BTreeSet<_> = outputs
+        let pre_outputs: BTreeSet<PortIndex> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p))
+            .map(|(_, linked)| linked.into())
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
diff --git a/src/algorithms/convex/topo_convex_checker.rs b/src/algorithms/convex/topo_convex_checker.rs
index 883ebe8..34e6433 100644
--- a/src/algorithms/convex/topo_convex_checker.rs
+++ b/src/algorithms/convex/topo_convex_checker.rs
@@ -127,9 +127,10 @@ impl<G: LinkView> ConvexChecker for TopoConvexChecker<G> {
         inputs: impl IntoIterator<Item = PortIndex>,
         outputs: impl IntoIterator<Item = PortIndex>,
     ) -> bool {
-        let pre_outputs: BTreeSet<_> = outputs
+        let pre_outputs: BTreeSet<PortIndex> = outputs
             .into_iter()
-            .filter_map(|p| Some(self.graph.port_link(p)?.into()))
+            .flat_map(|p| self.graph.port_links(p))
+            .map(|(_, linked)| linked.into())
             .collect();
         if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
             return false;
-- 
2.43.0


From 70afcb98259a0de12ea79e865f5c4900e22fd91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:29 +0000
Subject: [PATCH 26/48] fix: do not panic on empty subgraphs in
 LineConvexChecker

---
 src/algorithms/convex/line_convex_checker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index cb4bb14..f781217 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -207,11 +207,14 @@ impl<G: LinkView> LineConvexChecker<G> {
     /// In other words, check if there is a path in `self.graph()` from an end
     /// of one interval to the start of another.
     pub fn is_convex_by_intervals(&self, intervals: &LineIntervals) -> bool {
-        let max_start_pos = intervals
+        let Some(max_start_pos) = intervals
             .values()
             .map(|LineInterval { min, .. }| min)
             .max()
-            .unwrap();
+        else {
+            // The empty subgraph is convex.
+            return true;
+        };
         let mut future_nodes = VecDeque::from_iter(intervals.iter().filter_map(
             |(line, LineInterval { max, .. })| {
                 let ind = self.find_index(line, max).expect("max not on line");
-- 
2.43.0


From 5d8a3f2e68be19cd6a0f5c5cadf0beb310dafad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:55 +0000
Subject: [PATCH 27/48] fix: check for cycles in the direction of the link in
 DynamicTopoConvexChecker::link_ports

---
 src/algorithms/dynamic.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 052c3a7..f359b24 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -389,17 +389,28 @@ impl<G: LinkMut> LinkMut for DynamicTopoConvexChecker<G> {
         from: PortIndex,
         to: PortIndex,
     ) -> Result<(G::LinkEndpoint, G::LinkEndpoint), LinkError<G::PortOffsetBase>> {
-        let from_node = self
+        let from_direction = self
             .graph
-            .port_node(from)
+            .port_direction(from)
             .ok_or(LinkError::UnknownPort { port: from })?;
-        let to_node = self
+        let to_direction = self
             .graph
-            .port_node(to)
+            .port_direction(to)
             .ok_or(LinkError::UnknownPort { port: to })?;
-        if self
-            .topo_sort
-            .would_create_cycle(to_node, from_node, &self.graph)
+
+        // The ports may be given in any order. The edge always goes from the
+        // node of the outgoing port to the node of the incoming one.
+        let (source, target) = match from_direction {
+            Direction::Outgoing => (from, to),
+            Direction::Incoming => (to, from),
+        };
+        let from_node = self.graph.port_node(source).unwrap();
+        let to_node = self.graph.port_node(target).unwrap();
+
+        if from_direction != to_direction
+            && self
+                .topo_sort
+                .would_create_cycle(from_node, to_node, &self.graph)
         {
             panic!("Adding this edge would create a cycle");
         }
-- 
2.43.0


From c0bb072603d5c5de60d0270bc9e0d9a7c600b3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:06 +0000
Subject: [PATCH 28/48] fix: keep a valid topological order when adding links
 in DynamicTopoSort

---
 src/algorithms/dynamic.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index f359b24..bf2cb69 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -149,19 +149,29 @@ impl DynamicTopoSort {
         if from_pos < to_pos {
             return;
         }
-        let lb = to_pos;
-        let ub = from_pos;
-        let delta_f = self.cone(to, ub, graph, Direction::Outgoing);
-        let delta_b = self.cone(from, lb, graph, Direction::Incoming);
-        let mut new_pos = to_pos;
-        for w in delta_b.into_iter().chain(delta_f) {
+        // The nodes between `to` and `from` in the order that have to be moved:
+        // those in the future of `to`, and those in the past of `from`.
+        let mut delta_f = self.cone(to, from_pos, graph, Direction::Outgoing);
+        let mut delta_b = self.cone(from, to_pos, graph, Direction::Incoming);
+        delta_f.sort_by_key(|n| self.node_to_pos[n]);
+        delta_b.sort_by_key(|n| self.node_to_pos[n]);
+
+        // Reuse the positions of the moved nodes, placing the past of `from`
+        // before the future of `to`.
+        let mut positions: Vec<usize> = delta_b
+            .iter()
+            .chain(&delta_f)
+            .map(|n| self.node_to_pos[n])
+            .collect();
+        positions.sort_unstable();
+        for (w, new_pos) in delta_b.into_iter().chain(delta_f).zip(positions) {
             self.order[new_pos] = w;
             self.node_to_pos.insert(w, new_pos);
-            new_pos += 1;
         }
     }
 
-    /// Computes the future cone from a starting node, up to position `ub`.
+    /// Computes the future or past cone from a starting node, up to position
+    /// `bound` (inclusive).
     fn cone<G: LinkView>(
         &self,
         start: NodeIndex,
@@ -186,8 +196,8 @@ impl DynamicTopoSort {
     ) -> bool {
         let pos = *self.node_to_pos.get(&n).unwrap();
         let out_of_bounds = match dir {
-            Direction::Outgoing => pos >= bound,
-            Direction::Incoming => pos <= bound,
+            Direction::Outgoing => pos > bound,
+            Direction::Incoming => pos < bound,
         };
         if visited.contains(&n) || out_of_bounds {
             return false;
-- 
2.43.0


From 5501bc73efd59d2da64d733370c007ca07ebf7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:32 +0000
Subject: [PATCH 29/48] fix: keep the topological order in step with the nodes
 in DynamicTopoConvexChecker

---
 src/algorithms/dynamic.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index bf2cb69..28e273e 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -102,6 +102,20 @@ impl DynamicTopoSort {
         }
     }
 
+    /// Exchanges the indices of two nodes, keeping their places in the order.
+    ///
+    /// If only one of the nodes exists, its index is changed to the other one.
+    pub(crate) fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        let a_pos = self.node_to_pos.remove(&a);
+        let b_pos = self.node_to_pos.remove(&b);
+        for (node, pos) in [(a, b_pos), (b, a_pos)] {
+            if let Some(pos) = pos {
+                self.order[pos] = node;
+                self.node_to_pos.insert(node, pos);
+            }
+        }
+    }
+
     /// Removes an edge and updates the topological order if necessary.
     pub fn disconnect_nodes<G: LinkView>(
         &mut self,
@@ -376,16 +390,32 @@ impl<G: PortMut> PortMut for DynamicTopoConvexChecker<G> {
 
     fn remove_node(&mut self, node: NodeIndex) {
         self.graph.remove_node(node);
-        self.topo_sort.remove_node(node).expect("Node not found");
+        // Nothing to do if there was no such node.
+        let _ = self.topo_sort.remove_node(node);
+    }
+
+    fn clear(&mut self) {
+        self.graph.clear();
+        self.topo_sort = DynamicTopoSort::default();
+    }
+
+    fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex) {
+        self.graph.swap_nodes(a, b);
+        self.topo_sort.swap_nodes(a, b);
+    }
+
+    fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, mut rekey: F) {
+        let topo_sort = &mut self.topo_sort;
+        self.graph.compact_nodes(|old, new| {
+            topo_sort.swap_nodes(old, new);
+            rekey(old, new);
+        });
     }
 
     delegate! {
         to self.graph {
-            fn clear(&mut self);
             fn reserve(&mut self, nodes: usize, ports: usize);
             fn set_num_ports<F: FnMut(PortIndex, crate::portgraph::PortOperation)>(&mut self, node: NodeIndex, inputs: usize, outputs: usize, rekey: F);
-            fn swap_nodes(&mut self, a: NodeIndex, b: NodeIndex);
-            fn compact_nodes<F: FnMut(NodeIndex, NodeIndex)>(&mut self, rekey: F);
             fn compact_ports<F: FnMut(PortIndex, PortIndex)>(&mut self, rekey: F);
             fn shrink_to_fit(&mut self);
         }
-- 
2.43.0


From 3bd256df61af25362e08432fa691f38ee73a1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:51 +0000
Subject: [PATCH 30/48] fix: follow paths that leave the set and return in
 DynamicTopoConvexChecker::is_convex

---
 src/algorithms/dynamic.rs | 145 +++++++-------------------------------
 1 file changed, 27 insertions(+), 118 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 28e273e..992af39 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -4,7 +4,7 @@ use crate::{
     Direction, LinkError, LinkMut, LinkView, NodeIndex, PortIndex, PortMut, PortOffset, PortView,
 };
 use delegate::delegate;
-use std::cmp::{max, min};
+use std::cmp::max;
 use std::collections::{HashMap, HashSet, VecDeque};
 use thiserror::Error;
 
@@ -240,73 +240,28 @@ impl DynamicTopoSort {
         &self.order
     }
 
+    /// Checks if some path leaves `nodes` and comes back, staying within the
+    /// position `max_pos`.
     fn has_path_outside_subgraph<G: LinkView>(
         &self,
-        start: NodeIndex,
-        end: NodeIndex,
-        min_pos: usize,
         max_pos: usize,
         nodes: &HashSet<NodeIndex>,
         graph: &G,
     ) -> bool {
         let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back(start);
+        let mut queue: VecDeque<NodeIndex> = nodes
+            .iter()
+            .flat_map(|&n| graph.output_neighbours(n))
+            .filter(|n| !nodes.contains(n))
+            .collect();
         while let Some(node) = queue.pop_front() {
-            if !nodes.contains(&node) && node != start {
+            if nodes.contains(&node) {
                 return true;
             }
-            if node == end {
-                continue;
-            }
-            if visited.insert(node) {
-                for n in graph.output_neighbours(node) {
-                    let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                    if n_pos >= min_pos && n_pos <= max_pos {
-                        queue.push_back(n);
-                    }
-                }
-            }
-        }
-        false
-    }
-
-    /// Checks if `start` can reach any input within position bounds, going outside `nodes`.
-    fn can_reach_inputs<G: LinkView + PortView>(
-        &self,
-        start: NodeIndex,
-        min_pos: usize,
-        max_pos: usize,
-        nodes: &HashSet<NodeIndex>,
-        inputs: &[PortIndex],
-        graph: &G,
-    ) -> bool {
-        let mut visited = HashSet::new();
-        let mut queue = VecDeque::new();
-        queue.push_back((start, false));
-        while let Some((node, has_exited)) = queue.pop_front() {
-            if visited.contains(&node) {
-                continue;
-            }
-            visited.insert(node);
             let pos = *self.node_to_pos.get(&node).unwrap_or(&usize::MAX);
-            if pos < min_pos || pos > max_pos {
-                continue;
-            }
-            let is_outside = !nodes.contains(&node) && node != start;
-            let current_exited = has_exited || is_outside;
-            if current_exited {
-                for &input in inputs {
-                    if graph.port_node(input) == Some(node) {
-                        return true; // Reached an input via a path that exited the subgraph
-                    }
-                }
-            }
-            for n in graph.input_neighbours(node) {
-                let n_pos = *self.node_to_pos.get(&n).unwrap_or(&usize::MAX);
-                if n_pos >= min_pos && n_pos <= max_pos {
-                    queue.push_back((n, current_exited));
-                }
+            // Nodes after the last one of the set cannot reach it.
+            if pos <= max_pos && visited.insert(node) {
+                queue.extend(graph.output_neighbours(node));
             }
         }
         false
@@ -496,71 +451,25 @@ where
         outputs: impl IntoIterator<Item = PortIndex>,
     ) -> bool {
         let nodes: HashSet<NodeIndex> = nodes.into_iter().collect();
-        for &node in &nodes {
-            if !self.topo_sort.node_to_pos.contains_key(&node) {
-                return false;
-            }
-        }
-        if nodes.len() < 2 {
-            return true;
-        }
-        let inputs: Vec<PortIndex> = inputs.into_iter().collect();
-        let outputs: Vec<PortIndex> = outputs.into_iter().collect();
-        let mut min_pos = usize::MAX;
         let mut max_pos = 0;
-
-        for &node in &nodes {
-            if let Some(&pos) = self.topo_sort.node_to_pos.get(&node) {
-                min_pos = min(min_pos, pos);
-                max_pos = max(max_pos, pos);
-            } else {
-                return false;
-            }
-        }
-
-        if inputs.is_empty() && outputs.is_empty() {
-            for &start in &nodes {
-                for &end in &nodes {
-                    if start == end {
-                        continue;
-                    }
-                    let start_pos = *self.topo_sort.node_to_pos.get(&start).unwrap();
-                    let end_pos = *self.topo_sort.node_to_pos.get(&end).unwrap();
-                    if start_pos < end_pos
-                        && self.topo_sort.has_path_outside_subgraph(
-                            start,
-                            end,
-                            min_pos,
-                            max_pos,
-                            &nodes,
-                            &self.graph,
-                        )
-                    {
-                        return false;
-                    }
-                }
+        for node in &nodes {
+            match self.topo_sort.node_to_pos.get(node) {
+                Some(&pos) => max_pos = max(max_pos, pos),
+                None => return false,
             }
-            return true;
         }
-
-        for &output in &outputs {
-            if let Some(output_node) = self.graph.port_node(output) {
-                if !nodes.contains(&output_node) {
-                    continue;
-                }
-                if self.topo_sort.can_reach_inputs(
-                    output_node,
-                    min_pos,
-                    max_pos,
-                    &nodes,
-                    &inputs,
-                    &self.graph,
-                ) {
-                    return false;
-                }
-            }
+        // No link may go from an output port to an input port.
+        let pre_outputs: HashSet<PortIndex> = outputs
+            .into_iter()
+            .flat_map(|p| self.graph.port_links(p))
+            .map(|(_, linked)| linked.into())
+            .collect();
+        if inputs.into_iter().any(|p| pre_outputs.contains(&p)) {
+            return false;
         }
-        true
+        !self
+            .topo_sort
+            .has_path_outside_subgraph(max_pos, &nodes, &self.graph)
     }
 }
 
-- 
2.43.0


From c160637d779e7c1b2997da733791e321a2757f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 31/48] fix: draw no edges to hidden nodes in the dot format

---
 src/render/dot.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/render/dot.rs b/src/render/dot.rs
index d5db7d8..41c94f4 100644
--- a/src/render/dot.rs
+++ b/src/render/dot.rs
@@ -1,5 +1,6 @@
 //! Functions to encode a `PortGraph` in dot format.
 
+use std::collections::HashSet;
 use std::fmt::Display;
 
 use itertools::Itertools;
@@ -112,9 +113,19 @@ where
 
     /// Append the node and edge data in dot format to a string
     fn node_and_edge_strings(&mut self, dot: &mut String) {
-        for node in self.graph.nodes_iter() {
+        let graph = self.graph;
+        let node_styles: Vec<(NodeIndex, NodeStyle)> = graph
+            .nodes_iter()
+            .map(|node| (node, self.node_style(node)))
+            .collect();
+        let hidden: HashSet<NodeIndex> = node_styles
+            .iter()
+            .filter(|(_, style)| matches!(style, NodeStyle::Hidden))
+            .map(|&(node, _)| node)
+            .collect();
+
+        for (node, node_style) in node_styles {
             // Format the node as a table
-            let node_style = self.node_style(node);
             let (node_label, attrs) = match node_style {
                 NodeStyle::Boxed { label, attrs } => (label, attrs),
                 #[allow(deprecated)]
@@ -152,10 +163,15 @@ where
                 + ">]\n";
             dot.push_str(&node_str);
 
-            // Connect the linked output ports
-            self.graph
+            // Connect the linked output ports, except to hidden nodes.
+            graph
                 .outputs(node)
-                .flat_map(|port| self.graph.port_links(port))
+                .flat_map(|port| graph.port_links(port))
+                .filter(|&(_, to)| {
+                    graph
+                        .port_node(to)
+                        .map_or(true, |to_node| !hidden.contains(&to_node))
+                })
                 .map(|(from, to)| self.get_edge_dot(node, from, to))
                 .for_each(|edge| {
                     dot.push_str(&edge);
-- 
2.43.0


From 2a97a3be0359dfec24145e234c1dc12ef7c877e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:46 +0000
Subject: [PATCH 32/48] fix: draw only the nodes of the graph in the mermaid
 format

---
 src/render/mermaid.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 3c28503..18a2da2 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -182,12 +182,15 @@ where
 
     /// Helper function to check if a node is a leaf in the hierarchy.
     fn is_leaf(&self, node: NodeIndex) -> bool {
-        self.forest.map_or(true, |f| !f.has_children(node))
+        self.node_children(node).next().is_none()
     }
 
-    /// Returns the children of a node in the hierarchy.
+    /// Returns the children of a node in the hierarchy that are part of the graph.
     fn node_children(&self, node: NodeIndex) -> impl DoubleEndedIterator<Item = NodeIndex> + '_ {
-        self.forest.iter().flat_map(move |f| f.children(node))
+        self.forest
+            .iter()
+            .flat_map(move |f| f.children(node))
+            .filter(|&child| self.graph.contains_node(child))
     }
 }
 
-- 
2.43.0


From bfcab7cefd2b6b9b6902a65b2c229f8f44c07328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:55 +0000
Subject: [PATCH 33/48] fix: draw no edges to hidden nodes in the mermaid
 format

---
 src/render/mermaid.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index 18a2da2..f05fa2f 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -273,6 +273,8 @@ struct MermaidBuilder<'g, G: LinkView> {
     indent: usize,
     /// The styling function for nodes.
     node_style: Option<Box<dyn FnMut(NodeIndex) -> NodeStyle + 'g>>,
+    /// The styles computed so far, so that the function is called once per node.
+    node_styles: HashMap<NodeIndex, NodeStyle>,
     /// The styling function for edges.
     #[allow(clippy::type_complexity)]
     edge_style: Option<Box<dyn FnMut(G::LinkEndpoint, G::LinkEndpoint) -> EdgeStyle + 'g>>,
@@ -289,10 +291,26 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
             output: "graph LR\n".to_string(),
             indent: 1,
             node_style,
+            node_styles: HashMap::new(),
             edge_style,
         }
     }
 
+    /// Get the style of a node, using a default if none is set.
+    fn node_style(&mut self, node: NodeIndex) -> &NodeStyle {
+        let node_style = &mut self.node_style;
+        self.node_styles.entry(node).or_insert_with(|| {
+            node_style
+                .as_mut()
+                .map_or_else(NodeStyle::default, |f| f(node))
+        })
+    }
+
+    /// Returns `true` if the node is hidden.
+    fn is_hidden(&mut self, node: NodeIndex) -> bool {
+        matches!(self.node_style(node), NodeStyle::Hidden)
+    }
+
     /// Push an arbitrary line of text to the output.
     /// Indents the line according to the current indentation level.
     pub fn push_line(&mut self, s: impl AsRef<str>) {
@@ -323,10 +341,7 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
 
     /// Adds a leaf node to the mermaid definition.
     pub fn add_leaf(&mut self, node: NodeIndex) {
-        let style = self
-            .node_style
-            .as_mut()
-            .map_or_else(NodeStyle::default, |f| f(node));
+        let style = self.node_style(node).clone();
         let id = node.index().to_string();
 
         match style {
@@ -354,10 +369,7 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
     ///
     /// Blocks may be nested.
     pub fn start_subgraph(&mut self, node: NodeIndex) {
-        let style = self
-            .node_style
-            .as_mut()
-            .map_or_else(NodeStyle::default, |f| f(node));
+        let style = self.node_style(node).clone();
         let id = node.index().to_string();
 
         match &style {
@@ -393,7 +405,7 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         self.push_line("end");
     }
 
-    /// Adds an edge to the mermaid definition.
+    /// Adds an edge to the mermaid definition, unless it connects a hidden node.
     pub fn add_link(
         &mut self,
         src_node: NodeIndex,
@@ -401,6 +413,9 @@ impl<'g, G: LinkView> MermaidBuilder<'g, G> {
         tgt_node: NodeIndex,
         tgt: G::LinkEndpoint,
     ) {
+        if self.is_hidden(src_node) || self.is_hidden(tgt_node) {
+            return;
+        }
         let style = self
             .edge_style
             .as_mut()
-- 
2.43.0


From 34ba0152ea8be4ab73c976f25651234e62a811db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:17 +0000
Subject: [PATCH 34/48] fix: find the lowest common ancestors of views that
 hide the roots of the hierarchy

---
 src/algorithms/lca.rs | 10 ++++++++--
 src/render/mermaid.rs |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/lca.rs b/src/algorithms/lca.rs
index 2193624..d30b2de 100644
--- a/src/algorithms/lca.rs
+++ b/src/algorithms/lca.rs
@@ -45,13 +45,19 @@ impl LCA {
         // `first_visit`, and `last_visit` arrays.
         let mut timestamp = 0;
         let mut stack = vec![];
-        for root in graph.nodes_iter() {
+        for node in graph.nodes_iter() {
             // We start with an empty stack
             debug_assert!(stack.is_empty());
 
-            if !hierarchy.is_root(root) {
+            if lca.last_visit[node] > 0 {
+                // The tree of this node has been traversed already.
                 continue;
             }
+            // The root may not be part of the graph, if this is a view.
+            let mut root = node;
+            while let Some(parent) = hierarchy.parent(root) {
+                root = parent;
+            }
             stack.push(DFSState::Visit {
                 node: root,
                 parent: None,
diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index f05fa2f..fbf9252 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -142,7 +142,12 @@ where
                     for (src, tgt) in self.graph.output_links(node) {
                         let src_node = self.graph.port_node(src).unwrap();
                         let tgt_node = self.graph.port_node(tgt).unwrap();
-                        let lca = lca.as_ref().and_then(|l| l.lca(src_node, tgt_node));
+                        // In trees with a root outside of the graph we leave
+                        // all edges at the top level.
+                        let lca = lca
+                            .as_ref()
+                            .filter(|l| self.graph.contains_node(l.root(src_node)))
+                            .and_then(|l| l.lca(src_node, tgt_node));
                         edges
                             .entry(lca)
                             .or_insert_with(Vec::new)
-- 
2.43.0


From 80df366d45b540938b39a3afd6c4d8d293760f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:57 +0000
Subject: [PATCH 35/48] fix: report the first visit of a node in the petgraph
 VisitMap

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 000c18c..39ced94 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -311,7 +311,7 @@ impl petgraph::visit::VisitMap<NodeIndex> for BitVec {
     fn visit(&mut self, a: NodeIndex) -> bool {
         let is_visited = self.is_visited(&a);
         <Self as SecondaryMap<NodeIndex, bool>>::set(self, a, true);
-        is_visited
+        !is_visited
     }
 
     fn is_visited(&self, a: &NodeIndex) -> bool {
-- 
2.43.0


From 70cbf4697e76c09bf3966a221432fd5608a1052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 36/48] fix: bound the node indices in the petgraph
 NodeIndexable

---
 src/view/petgraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 39ced94..ec0ea4d 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -76,7 +76,10 @@ macro_rules! impl_petgraph_traits {
 
         impl<$($args)*> petgraph::visit::NodeIndexable for $graph where $($where)* {
             fn node_bound(&self) -> usize {
-                PortView::node_count(self)
+                self.nodes_iter()
+                    .map(|n| n.index() + 1)
+                    .max()
+                    .unwrap_or_default()
             }
 
             fn to_index(&self, ix: Self::NodeId) -> usize {
-- 
2.43.0


From ebdcffb3430454172817eee3f01481b1d01191b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:16 +0000
Subject: [PATCH 37/48] fix: keep the direction of the edges of a node in the
 petgraph traits

---
 src/view/petgraph.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index ec0ea4d..80db955 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -446,19 +446,21 @@ impl<'g, G> NodeEdgeRefs<'g, G>
 where
     G: LinkView,
 {
-    /// Create a new iterator over the edges of a portgraph.
+    /// Create a new iterator over the outgoing edges of a node.
     pub fn new(graph: &'g G, node: NodeIndex) -> Self {
-        Self {
-            graph,
-            links: Box::new(graph.all_links(node)),
-        }
+        Self::new_directed(graph, node, crate::Direction::Outgoing)
     }
 
-    /// Create a new iterator over the edges of a portgraph.
+    /// Create a new iterator over the edges of a node in the given direction.
     pub fn new_directed(graph: &'g G, node: NodeIndex, dir: crate::Direction) -> Self {
+        let links = graph.links(node, dir);
         Self {
             graph,
-            links: Box::new(graph.links(node, dir)),
+            // Edges always go from the outgoing to the incoming port.
+            links: match dir {
+                crate::Direction::Outgoing => Box::new(links),
+                crate::Direction::Incoming => Box::new(links.map(|(to, from)| (from, to))),
+            },
         }
     }
 }
-- 
2.43.0


From 9e556c0156c57c349b0c4aa3177c0e28fc3994d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:25 +0000
Subject: [PATCH 38/48] fix: yield every edge once in the petgraph
 edge_references

---
 src/view/petgraph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 80db955..8eb47c5 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -383,7 +383,11 @@ where
     pub fn new(graph: &'g G) -> Self {
         Self {
             graph,
-            ports: Box::new(graph.ports_iter()),
+            ports: Box::new(
+                graph
+                    .ports_iter()
+                    .filter(|&p| graph.port_direction(p) == Some(crate::Direction::Outgoing)),
+            ),
             links: None,
             count: graph.link_count(),
         }
@@ -399,6 +403,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         loop {
             if let Some((from, to)) = self.links.as_mut().and_then(|links| links.next()) {
+                self.count = self.count.saturating_sub(1);
                 return Some(EdgeRef {
                     from_node: self.graph.port_node(from).unwrap(),
                     to_node: self.graph.port_node(to).unwrap(),
-- 
2.43.0


From 474c684daa4fb93218060234726d17003ee723d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:32 +0000
Subject: [PATCH 39/48] fix: size the petgraph adjacency matrix by the node
 indices

---
 src/view/petgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/view/petgraph.rs b/src/view/petgraph.rs
index 8eb47c5..84018f6 100644
--- a/src/view/petgraph.rs
+++ b/src/view/petgraph.rs
@@ -193,7 +193,7 @@ macro_rules! impl_visit_dense {
             type AdjMatrix = (bitvec::vec::BitVec, usize);
 
             fn adjacency_matrix(&self) -> Self::AdjMatrix {
-                let row_size = self.node_capacity();
+                let row_size = petgraph::visit::NodeIndexable::node_bound(self);
                 let mut matrix = bitvec::bitvec![0; row_size * row_size];
                 for node in self.nodes_iter() {
                     for neighbour in self.output_neighbours(node) {
-- 
2.43.0


From 1eb2d36607bf4e90521fb78b56c28ee5080847e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:33 +0000
Subject: [PATCH 40/48] fix: generate graphs for all bounds in the proptest
 strategies

---
 src/proptest.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/proptest.rs b/src/proptest.rs
index 58c5971..ee8cda9 100644
--- a/src/proptest.rs
+++ b/src/proptest.rs
@@ -16,13 +16,22 @@ struct Edge {
     src_p: PortOffset,
     target_p: PortOffset,
 }
+/// The maximum number of edges: nodes without ports have none.
+fn edge_limit(max_n_ports: usize, max_n_edges: usize) -> usize {
+    if max_n_ports == 0 {
+        0
+    } else {
+        max_n_edges
+    }
+}
+
 prop_compose! {
     /// A random set of edges for a portgraph.
     fn gen_edges(max_n_nodes: usize, max_n_ports: usize, max_n_edges: usize)(
-        n_edges in 0..=max_n_edges
+        n_edges in 0..=edge_limit(max_n_ports, max_n_edges)
     )(
-        out_ports in vec![(1..max_n_nodes, 0..max_n_ports); n_edges],
-        in_ports in vec![(1..max_n_nodes, 0..max_n_ports); n_edges],
+        out_ports in vec![(0..max_n_nodes, 0..max_n_ports); n_edges],
+        in_ports in vec![(0..max_n_nodes, 0..max_n_ports); n_edges],
     ) -> Vec<Edge> {
         out_ports.into_iter().zip(in_ports).map(|((src_v, src_p), (target_v, target_p))| {
             Edge {
@@ -38,8 +47,8 @@ prop_compose! {
 prop_compose! {
     /// A random set of distinct edges for a portgraph.
     fn gen_unique_edges(max_n_nodes: usize, max_n_ports: usize, max_n_edges: usize)(
-        out_ports in prop::collection::hash_set((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
-        in_ports in prop::collection::hash_set((1..max_n_nodes, 0..max_n_ports), 0..=max_n_edges),
+        out_ports in prop::collection::hash_set((0..max_n_nodes, 0..max_n_ports), 0..=edge_limit(max_n_ports, max_n_edges)),
+        in_ports in prop::collection::hash_set((0..max_n_nodes, 0..max_n_ports), 0..=edge_limit(max_n_ports, max_n_edges)),
     ) -> Vec<Edge> {
         // Unlike the non-unique case, in this case we do not "control" the number of
         // edges directly. Might make shrinking slightly more difficult.
-- 
2.43.0


From 7d600b257278c54b569f69aa33d5074f8b1eeb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 41/48] fix: make the proptest strategies deterministic

---
 src/proptest.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/proptest.rs b/src/proptest.rs
index ee8cda9..d3c821a 100644
--- a/src/proptest.rs
+++ b/src/proptest.rs
@@ -2,11 +2,12 @@
 //!
 //! Currently, this module exposes a single function [`gen_portgraph`], which
 //! returns strategies that generate random portgraphs.
-use std::collections::{BTreeMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
     Direction, LinkMut, MultiPortGraph, NodeIndex, PortGraph, PortMut, PortOffset, PortView,
 };
+use itertools::Itertools;
 use proptest::prelude::*;
 
 #[derive(Debug, Clone, Copy)]
@@ -47,12 +48,15 @@ prop_compose! {
 prop_compose! {
     /// A random set of distinct edges for a portgraph.
     fn gen_unique_edges(max_n_nodes: usize, max_n_ports: usize, max_n_edges: usize)(
-        out_ports in prop::collection::hash_set((0..max_n_nodes, 0..max_n_ports), 0..=edge_limit(max_n_ports, max_n_edges)),
-        in_ports in prop::collection::hash_set((0..max_n_nodes, 0..max_n_ports), 0..=edge_limit(max_n_ports, max_n_edges)),
+        out_ports in prop::collection::vec((0..max_n_nodes, 0..max_n_ports), 0..=edge_limit(max_n_ports, max_n_edges)),
+        in_ports in prop::collection::vec((0..max_n_nodes, 0..max_n_ports), 0..=edge_limit(max_n_ports, max_n_edges)),
     ) -> Vec<Edge> {
         // Unlike the non-unique case, in this case we do not "control" the number of
         // edges directly. Might make shrinking slightly more difficult.
-        out_ports.into_iter().zip(in_ports).map(|((src_v, src_p), (target_v, target_p))| {
+        //
+        // The ports keep their generated order, so that a seed always gives the
+        // same edges.
+        out_ports.into_iter().unique().zip(in_ports.into_iter().unique()).map(|((src_v, src_p), (target_v, target_p))| {
             Edge {
                 src_v: NodeIndex::new(src_v),
                 target_v: NodeIndex::new(target_v),
@@ -139,7 +143,7 @@ fn graph_from_edges<G: PortMut<PortOffsetBase = u16> + LinkMut + Default>(edges:
         add_port(target_v, target_p);
     }
     let mut g = G::default();
-    let vertices: HashSet<_> = edges
+    let vertices: BTreeSet<_> = edges
         .iter()
         .flat_map(|e| vec![e.src_v, e.target_v])
         .collect();
-- 
2.43.0


From 66e2b4cf55205330bf8a29580be5845a8f201788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 42/48] fix: disjoint borrows compare the indices of the keys,
 not the keys

---
 src/unmanaged.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/unmanaged.rs b/src/unmanaged.rs
index c78d56b..8858300 100644
--- a/src/unmanaged.rs
+++ b/src/unmanaged.rs
@@ -234,11 +234,12 @@ where
         // applicable here since we do not have the extra tagging bit available.
         let data = self.data.as_mut_ptr();
         for (i, key) in keys.iter().enumerate() {
-            if keys[(i + 1)..].iter().any(|other| key == other) {
+            // Distinct keys may have the same index.
+            let offset = (*key).into();
+            if keys[(i + 1)..].iter().any(|other| (*other).into() == offset) {
                 return None;
             }
 
-            let offset = (*key).into();
             if offset >= self.data.len() {
                 return None;
             }
-- 
2.43.0


From cbe6f2f2b547ba2de51a292525c36c7c3bc95689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 43/48] fix: no recursion in DynamicTopoSort, which overflowed
 the stack on long chains

---
 src/algorithms/dynamic.rs | 47 ++++++++++-----------------------------
 1 file changed, 12 insertions(+), 35 deletions(-)

diff --git a/src/algorithms/dynamic.rs b/src/algorithms/dynamic.rs
index 992af39..8c20c8a 100644
--- a/src/algorithms/dynamic.rs
+++ b/src/algorithms/dynamic.rs
@@ -195,43 +195,20 @@ impl DynamicTopoSort {
     ) -> Vec<NodeIndex> {
         let mut visited = HashSet::new();
         let mut cone = Vec::new();
-        self.dfs(start, &mut visited, &mut cone, bound, graph, dir);
-        cone
-    }
-
-    fn dfs<G: LinkView>(
-        &self,
-        n: NodeIndex,
-        visited: &mut HashSet<NodeIndex>,
-        cone: &mut Vec<NodeIndex>,
-        bound: usize,
-        graph: &G,
-        dir: Direction,
-    ) -> bool {
-        let pos = *self.node_to_pos.get(&n).unwrap();
-        let out_of_bounds = match dir {
-            Direction::Outgoing => pos > bound,
-            Direction::Incoming => pos < bound,
-        };
-        if visited.contains(&n) || out_of_bounds {
-            return false;
-        }
-        visited.insert(n);
-        cone.push(n);
-        if dir == Direction::Outgoing {
-            for neighbor in graph.output_neighbours(n) {
-                if self.dfs(neighbor, visited, cone, bound, graph, dir) {
-                    return true;
-                }
-            }
-        } else {
-            for neighbor in graph.input_neighbours(n) {
-                if self.dfs(neighbor, visited, cone, bound, graph, dir) {
-                    return true;
-                }
+        let mut stack = vec![start];
+        while let Some(n) = stack.pop() {
+            let pos = *self.node_to_pos.get(&n).unwrap();
+            let out_of_bounds = match dir {
+                Direction::Outgoing => pos > bound,
+                Direction::Incoming => pos < bound,
+            };
+            if out_of_bounds || !visited.insert(n) {
+                continue;
             }
+            cone.push(n);
+            stack.extend(graph.neighbours(n, dir));
         }
-        false
+        cone
     }
 
     /// Returns the current topological order (for testing or inspection).
-- 
2.43.0


From 0028980963d3602d2f9bfe5f9a0ee1425621e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:36 +0000
Subject: [PATCH 44/48] fix: LineConvexChecker queries can be nested through a
 lazy iterator of nodes

---
 src/algorithms/convex/line_convex_checker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex/line_convex_checker.rs b/src/algorithms/convex/line_convex_checker.rs
index f781217..1d91717 100644
--- a/src/algorithms/convex/line_convex_checker.rs
+++ b/src/algorithms/convex/line_convex_checker.rs
@@ -323,7 +323,8 @@ impl<G: LinkView> LineConvexChecker<G> {
         // A map from line index to the positions of the nodes on that line.
         // The map is stored as a SmallVec given that the number of lines is
         // typically less than 8.
-        let mut line_to_pos = self.get_intervals_scratch_space.borrow_mut();
+        // It is taken out of the cell meanwhile, as `nodes` may query `self` too.
+        let mut line_to_pos = self.get_intervals_scratch_space.take();
         line_to_pos.clear();
 
         for node in nodes {
@@ -344,11 +345,13 @@ impl<G: LinkView> LineConvexChecker<G> {
                 .get(max_index)
                 .expect("count <= number of nodes in interval");
             if self.get_position(max_node) != interval.max {
+                self.get_intervals_scratch_space.replace(line_to_pos);
                 return None;
             }
             intervals.0.push((l, interval));
         }
 
+        self.get_intervals_scratch_space.replace(line_to_pos);
         Some(intervals)
     }
 
-- 
2.43.0


From 16e6644910f184de0d0a6a2c74380f97cdf34b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:45 +0000
Subject: [PATCH 45/48] fix: LCA does not relate unvisited indices to the first
 root

---
 src/algorithms/lca.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/lca.rs b/src/algorithms/lca.rs
index d30b2de..9f0b088 100644
--- a/src/algorithms/lca.rs
+++ b/src/algorithms/lca.rs
@@ -107,7 +107,10 @@ impl LCA {
     ///
     /// Complexity: O(1)
     pub fn is_ancestor(&self, a: NodeIndex, b: NodeIndex) -> bool {
-        self.first_visit[a] <= self.first_visit[b] && self.last_visit[a] >= self.last_visit[b]
+        // The timestamps are different, except those of unvisited nodes.
+        a == b
+            || (self.first_visit[a] < self.first_visit[b]
+                && self.last_visit[a] > self.last_visit[b])
     }
 
     /// Returns the root of the hierarchy that contains the given node.
-- 
2.43.0


From a19926d66293e7f85cb18180d626b2856487e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:57 +0000
Subject: [PATCH 46/48] fix: mermaid edges are drawn in a fixed order

---
 src/render/mermaid.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/render/mermaid.rs b/src/render/mermaid.rs
index fbf9252..9727e3f 100644
--- a/src/render/mermaid.rs
+++ b/src/render/mermaid.rs
@@ -1,6 +1,6 @@
 //! Functions to encode a `PortGraph` in mermaid format.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Display;
 
 use itertools::Itertools;
@@ -113,10 +113,10 @@ where
 
         // Delay emitting edges until we are in a region that is the parent of both the source and target nodes.
         #[allow(clippy::type_complexity)]
-        let mut edges: HashMap<
+        let mut edges: BTreeMap<
             Option<NodeIndex>,
             Vec<(NodeIndex, G::LinkEndpoint, NodeIndex, G::LinkEndpoint)>,
-        > = HashMap::new();
+        > = BTreeMap::new();
 
         // An efficient structure for retrieving the lowest common ancestor of two nodes.
         let lca: Option<LCA> = self.forest.map(|f| lca(self.graph, f));
-- 
2.43.0


From a29c7e6eafa5204137808a87c3acb2e8cd95b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:07 +0000
Subject: [PATCH 47/48] fix: copy_in_parent links and undoes in a fixed order

---
 src/view/subgraph.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/view/subgraph.rs b/src/view/subgraph.rs
index 44c099a..ee945de 100644
--- a/src/view/subgraph.rs
+++ b/src/view/subgraph.rs
@@ -360,7 +360,8 @@ impl<G: LinkMut> Subgraph<G> {
             .iter()
             .map(|node| (*node, g.add_node(g.num_inputs(*node), g.num_outputs(*node))))
             .collect::<HashMap<_, _>>();
-        for (node, new_node) in node_map.iter() {
+        for node in &self.nodes {
+            let new_node = &node_map[node];
             for (node_p, other_p) in self.graph.all_links(*node).collect::<Vec<_>>() {
                 let new_node_p = self
                     .graph
@@ -383,8 +384,8 @@ impl<G: LinkMut> Subgraph<G> {
                         match self.graph.link_ports(new_node_p, other_p.into()) {
                             Err(LinkError::AlreadyLinked { port }) => {
                                 // Must undo insertion
-                                for n in node_map.values() {
-                                    self.graph.remove_node(*n);
+                                for n in &self.nodes {
+                                    self.graph.remove_node(node_map[n]);
                                 }
                                 return Err(CopySubgraphError::CantCopyBoundary {
                                     external: port,
-- 
2.43.0


From 22fedba29aa0517e4ba41114b0095e7159dc580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:59 +0000
Subject: [PATCH 48/48] fix: multiport graphs ignore the indices of copy nodes
 and their ports in mutations

---
 src/multiportgraph.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/multiportgraph.rs b/src/multiportgraph.rs
index a7cad99..38c4d5b 100644
--- a/src/multiportgraph.rs
+++ b/src/multiportgraph.rs
@@ -196,7 +196,10 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
     }
 
     fn remove_node(&mut self, node: NodeIndex) {
-        debug_assert!(!self.copy_node.get(node));
+        // Copy nodes are not part of the multiport graph.
+        if !self.contains_node(node) {
+            return;
+        }
         for port in self.graph._all_ports(node) {
             if *self.multiport.get(port) {
                 self.unlink_port(port);
@@ -225,6 +228,9 @@ impl<PO: Unsigned> PortMut for MultiPortGraph<u32, u32, PO> {
         F: FnMut(PortIndex, PortOperation),
     {
         PortGraph::<u32, u32, PO>::assert_port_counts(incoming, outgoing);
+        if !self.contains_node(node) {
+            return;
+        }
         // Disconnect the ports to be removed beforehand, while the multiport
         // flags still match the port indices. This drops their copy nodes.
         let removed = self
@@ -317,7 +323,14 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
         port_a: PortIndex,
         port_b: PortIndex,
     ) -> Result<(SubportIndex, SubportIndex), LinkError<PO>> {
-        // Check the ports before allocating any subport for them.
+        // Check the ports before allocating any subport for them. The ports of
+        // the copy nodes are not part of the multiport graph.
+        if let Some(port) = [port_a, port_b]
+            .into_iter()
+            .find(|port| !self.contains_port(*port))
+        {
+            return Err(LinkError::UnknownPort { port });
+        }
         let Some(dir_a) = self.graph.port_direction(port_a) else {
             return Err(LinkError::UnknownPort { port: port_a });
         };
@@ -338,6 +351,9 @@ impl<PO: Unsigned> LinkMut for MultiPortGraph<u32, u32, PO> {
     }
 
     fn unlink_port(&mut self, port: PortIndex) -> Option<SubportIndex> {
+        if !self.contains_port(port) {
+            return None;
+        }
         if self.is_multiport(port) {
             let link = self
                 .graph
@@ -530,7 +546,12 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
                 outgoing - 1
             }
         };
-        self.set_num_ports(node, incoming, outgoing, |_, _| {});
+        self.graph
+            .set_num_ports(node, incoming, outgoing, |port, op| {
+                if let PortOperation::Moved { new_index } = op {
+                    self.multiport.swap(port, new_index);
+                }
+            });
         self.graph
             .port_index(node, PortOffset::new(direction, new_offset))
             .unwrap()
@@ -616,6 +637,9 @@ impl<PO: Unsigned> MultiPortGraph<u32, u32, PO> {
     /// If the port is not a multiport, returns the port index in the operation node.
     fn get_subport_index(&self, subport: SubportIndex) -> Option<PortIndex> {
         let port_index = subport.port();
+        if !self.contains_port(port_index) {
+            return None;
+        }
         if self.is_multiport(port_index) {
             let copy_node = self.get_copy_node(port_index)?;
             let dir = self.graph.port_direction(port_index)?;
-- 
2.43.0

