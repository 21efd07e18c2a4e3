From e811483d994466b56a163bf2ff1462e6d238515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 01/14] fix: keep the last child link valid when the last child
 is unlinked

Unlinking the last child of a parent left the first sibling's cyclic link
pointing to the unlinked node, so `last_child()` returned the detached node.
---
 src/node/edit.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 326c29a..93b8003 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -73,6 +73,8 @@ impl<'a, T> OrphanRoot<'a, T> {
         //  * node_to_unlink --> next_sibling
         //      * node_to_unlink.next_sibling (if available)
         //      * next_sibling.prev_sibling_cyclic (if available)
+        //  * first_sibling --> last_sibling
+        //      * first_sibling.prev_sibling_cyclic (if node_to_unlink is the last)
 
         let parent = node_to_unlink.parent_link();
         let prev_sibling = node_to_unlink.prev_sibling_link();
@@ -92,6 +94,13 @@ impl<'a, T> OrphanRoot<'a, T> {
         }
         if let Some(prev_sibling) = prev_sibling {
             prev_sibling.replace_next_sibling(next_sibling.clone());
+            if next_sibling.is_none() {
+                // `prev_sibling` is the new last sibling, and it is referred
+                // from the first sibling.
+                if let Some(first_sibling) = parent.and_then(|parent| parent.first_child_link()) {
+                    first_sibling.replace_prev_sibling_cyclic(prev_sibling.downgrade());
+                }
+            }
         }
         if let Some(next_sibling) = next_sibling {
             next_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
-- 
2.43.0


From a081946d5a9b51eab25d7eab0cddfe1b58451f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 02/14] fix: keep the last child link valid when a childless
 last sibling is replaced with its children

---
 src/node/edit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 93b8003..0bc8861 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -684,6 +684,11 @@ pub(super) fn try_replace_with_children<T>(this: &NodeCoreLink<T>) -> Result<(),
                 }
                 (Some(prev_sibling_link), None) => {
                     prev_sibling_link.replace_next_sibling(None);
+                    let first_sibling_link = parent_link
+                        .first_child_link()
+                        .expect("[validity] the parent has at least one child (prev of `self`)");
+                    // `prev_sibling_link` is the new last sibling.
+                    first_sibling_link.replace_prev_sibling_cyclic(prev_sibling_link.downgrade());
                 }
                 (None, Some(next_sibling_link)) => {
                     let last_sibling_link_weak = parent_link
-- 
2.43.0


From 345cfc56aa2464e282ad758ac6ac421a105ca31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 03/14] fix: validate the destination of a move before
 unlinking the node

A moved node was treated as newly created after being unlinked, so moving it
under itself or its own descendant silently created a cycle, and moving it next
to a root (or next to itself) failed only after the node was half-detached.
Moving a root under its own descendant was silently accepted.
---
 src/node/edit.rs | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 0bc8861..a059b9d 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -114,7 +114,7 @@ impl<'a, T> OrphanRoot<'a, T> {
 
         Self {
             link: node_to_unlink,
-            is_newly_created: true,
+            is_newly_created: false,
         }
     }
 
@@ -342,6 +342,39 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
     orphan_this.create_new_tree();
 }
 
+/// Checks if the node can be moved to the given destination, without editing anything.
+///
+/// This should be called before the node is unlinked from the neighbors, since
+/// a failure after that would leave the hierarchy half-edited.
+///
+/// # Failures
+///
+/// Fails if:
+///
+/// * the node would be a sibling of the root node, or
+/// * the node is the new parent, or an ancestor of the new parent.
+fn ensure_movable_to<T>(
+    this: &NodeCoreLink<T>,
+    dest: &InsertAs<&NodeCoreLink<T>>,
+) -> Result<(), HierarchyError> {
+    let new_parent = match *dest {
+        InsertAs::FirstChildOf(parent) | InsertAs::LastChildOf(parent) => parent.clone(),
+        InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) => anchor
+            .parent_link()
+            .ok_or(HierarchyError::SiblingsWithoutParent)?,
+    };
+
+    let mut next = Some(new_parent);
+    while let Some(current) = next {
+        if this.ptr_eq(&current) {
+            return Err(HierarchyError::AncestorDescendantLoop);
+        }
+        next = current.parent_link();
+    }
+
+    Ok(())
+}
+
 /// Detaches the node and its descendant from the current parent, and inserts to other place in the
 /// same tree.
 #[inline]
@@ -349,9 +382,9 @@ pub(super) fn detach_and_move_inside_same_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
 ) -> Result<(), HierarchyError> {
-    if this.is_root() {
-        // Detaching entire tree here is meaningless.
-        // Do nothing.
+    ensure_movable_to(this, &dest)?;
+    if dest.anchor().ptr_eq(this) {
+        // The node is already next to itself. Do nothing.
         return Ok(());
     }
 
@@ -374,6 +407,8 @@ pub(super) fn detach_and_move_to_another_tree<T>(
     dest: InsertAs<&NodeCoreLink<T>>,
     dest_tree_core: &Rc<TreeCore<T>>,
 ) -> Result<(), HierarchyError> {
+    ensure_movable_to(this, &dest)?;
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
-- 
2.43.0


From c34f7478a45f3dc7bec258f3fbc6f1ea8a595688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 04/14] fix: do not dismantle nodes that have been moved to
 another tree

When the root was moved into another tree, dropping the old tree released the
links among the moved nodes, so their descendants were lost.
---
 src/node/internal.rs   |  9 +++++++++
 src/node/membership.rs | 24 ++++++++++++++++++------
 src/tree.rs            |  5 +++++
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/node/internal.rs b/src/node/internal.rs
index 838d31b..0fbf933 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -88,6 +88,15 @@ impl<T> NodeCoreLink<T> {
         self.membership_ref().ptr_eq_tree_core(tree_core)
     }
 
+    /// Returns true if the node belongs to the tree with the given tree core.
+    ///
+    /// This can be used even when the tree core is being dropped.
+    #[inline]
+    #[must_use]
+    pub(crate) fn belongs_to_tree_core(&self, tree_core: &TreeCore<T>) -> bool {
+        self.membership_ref().ptr_eq_tree_core(tree_core)
+    }
+
     /// Returns the depth-first traverser for the subtree.
     #[inline]
     #[must_use]
diff --git a/src/node/membership.rs b/src/node/membership.rs
index ac3acc3..9ba71e9 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -2,6 +2,7 @@
 
 use core::cell::{Ref, RefCell};
 use core::fmt;
+use core::mem;
 use core::num::NonZeroUsize;
 
 use alloc::rc::{Rc, Weak};
@@ -230,9 +231,16 @@ impl<'a, T> MembershipRef<'a, T> {
                             "[consistency] locks can be acquired only from strong node references"
                         );
                         let weak_core = Rc::downgrade(tree_core);
-                        *core = MembershipCore::Weak {
-                            tree_core: weak_core,
-                        };
+                        let old_core = mem::replace(
+                            &mut *core,
+                            MembershipCore::Weak {
+                                tree_core: weak_core,
+                            },
+                        );
+                        // The tree can be released here, and that requires the
+                        // membership to be accessible.
+                        drop(core);
+                        drop(old_core);
                     }
                 }
             }
@@ -260,7 +268,11 @@ impl<'a, T> MembershipRef<'a, T> {
                 if lock_aggregator.has_lock() {
                     tree_core.transfer_single_lock_to(new_tree_core)?;
                 }
-                *tree_core = new_tree_core.clone();
+                let old_tree_core = mem::replace(tree_core, new_tree_core.clone());
+                // The old tree can be released here, and that requires the
+                // membership to be accessible.
+                drop(core);
+                drop(old_tree_core);
             }
         }
         Ok(())
@@ -268,7 +280,7 @@ impl<'a, T> MembershipRef<'a, T> {
 
     /// Returns true if the membership refers to the same tree core allocation.
     #[must_use]
-    pub(super) fn ptr_eq_tree_core(&self, tree_core: &Rc<TreeCore<T>>) -> bool {
+    pub(super) fn ptr_eq_tree_core(&self, tree_core: &TreeCore<T>) -> bool {
         let core = self
             .0
             .try_borrow()
@@ -277,7 +289,7 @@ impl<'a, T> MembershipRef<'a, T> {
             MembershipCore::Weak { tree_core } => tree_core.as_ptr(),
             MembershipCore::Strong { tree_core, .. } => Rc::as_ptr(tree_core),
         };
-        self_ptr == Rc::as_ptr(tree_core)
+        core::ptr::eq(self_ptr, tree_core)
     }
 
     /// Decrements the aggregated lock count.
diff --git a/src/tree.rs b/src/tree.rs
index d25d1eb..a2a0907 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -88,6 +88,11 @@ impl<T> Drop for TreeCore<T> {
             .try_borrow()
             .expect("[validity] `TreeCore` is being accessed exclusively")
             .clone();
+        if !root_link.belongs_to_tree_core(self) {
+            // The nodes have been moved to another tree, and are not owned by
+            // this tree anymore.
+            return;
+        }
         // Not using `DepthFirstLinkTraverser` here is intentional.
         // The links would be in inconsistent states before being dropped, so
         // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
-- 
2.43.0


From 959324cb0f3562368f11e747b46344e54b699b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 05/14] fix: make NodeWeak::upgrade return None while the tree
 is being dropped

It panicked when called from the destructor of the data in the tree.
---
 src/node/plain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/plain.rs b/src/node/plain.rs
index 98240b2..f52f18f 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2942,6 +2942,7 @@ impl<T> NodeWeak<T> {
     #[must_use]
     pub fn upgrade(&self) -> Option<Node<T>> {
         let link = self.link.upgrade()?;
-        Some(Node::with_node_core(link))
+        // The tree can be unavailable if it is being dropped.
+        NodeLink::new(link).map(Node::with_node_link)
     }
 }
-- 
2.43.0


From c55cd3e844de5ea9266d1cbbcec93bb78b34b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 06/14] fix: stop stable siblings traversal where both ends
 meet

The range limit was ignored by the opposite end, so the traverser emitted
siblings outside the range and emitted the same sibling twice, and
`preceding_siblings_stable` skipped the first sibling rather than self.
---
 src/node/frozen.rs       | 3 ++-
 src/traverse/siblings.rs | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/node/frozen.rs b/src/node/frozen.rs
index 97d277f..4af7556 100644
--- a/src/node/frozen.rs
+++ b/src/node/frozen.rs
@@ -839,7 +839,8 @@ impl<T> FrozenNode<T> {
     #[must_use]
     pub fn preceding_siblings_stable(&self) -> traverse::StableSiblingsTraverser<T> {
         let mut iter = self.preceding_siblings_or_self_stable();
-        iter.next();
+        // `self` is the last item.
+        iter.next_back();
         iter
     }
 
diff --git a/src/traverse/siblings.rs b/src/traverse/siblings.rs
index d8d8ee5..f692b7b 100644
--- a/src/traverse/siblings.rs
+++ b/src/traverse/siblings.rs
@@ -168,6 +168,10 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if FrozenNode::ptr_eq(&next, &next_back) {
+            // This is the last item.
+            return Some(next);
+        }
         self.next = next
             .next_sibling()
             .map(|next_of_next| (next_of_next, next_back));
@@ -186,6 +190,10 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 impl<T> DoubleEndedIterator for StableSiblingsTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if FrozenNode::ptr_eq(&next, &next_back) {
+            // This is the last item.
+            return Some(next_back);
+        }
         self.next = next_back
             .prev_sibling()
             .map(|next_of_next_back| (next, next_of_next_back));
-- 
2.43.0


From b97b5735a5275e12cc3949f89e74ef9211022eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 07/14] fix: stop stable depth-first traversal where both ends
 meet

The traverser ran out of the subtree when it did not start from the root, and
emitted the same event twice when consumed from both ends.
---
 src/traverse/depth_first.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 945ddc1..5553e17 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -384,6 +384,17 @@ impl<T> StableDepthFirstTraverser<T> {
             }
         }
     }
+
+    /// Returns true if the two events are identical.
+    #[must_use]
+    fn is_same_event(lhs: &DftEvent<FrozenNode<T>>, rhs: &DftEvent<FrozenNode<T>>) -> bool {
+        match (lhs, rhs) {
+            (DftEvent::Open(l), DftEvent::Open(r)) | (DftEvent::Close(l), DftEvent::Close(r)) => {
+                FrozenNode::ptr_eq(l, r)
+            }
+            _ => false,
+        }
+    }
 }
 
 impl<T> Iterator for StableDepthFirstTraverser<T> {
@@ -391,6 +402,10 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if Self::is_same_event(&next, &next_back) {
+            // This is the last event.
+            return Some(next);
+        }
         self.next = next.next().map(|next_of_next| (next_of_next, next_back));
         Some(next)
     }
@@ -413,6 +428,10 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 impl<T> DoubleEndedIterator for StableDepthFirstTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
+        if Self::is_same_event(&next, &next_back) {
+            // This is the last event.
+            return Some(next_back);
+        }
         self.next = next_back
             .prev()
             .map(|prev_of_next_back| (next, prev_of_next_back));
-- 
2.43.0


From 297551670e426cfdb475465a7e5f5314025e9e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 08/14] fix: do not leave the subtree when TreeBuilder closes a
 root that has a parent

Closing the root given to `TreeBuilder::with_root` made its parent current, so
the builder did not report the root as closed and added nodes to the outside.
---
 src/serial.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/serial.rs b/src/serial.rs
index 482ecec..88c2a6a 100644
--- a/src/serial.rs
+++ b/src/serial.rs
@@ -577,8 +577,17 @@ impl<T> TreeBuilder<T> {
                 }
                 *current = current.parent().ok_or(TreeBuildError::RootClosed)?;
             }
-            // Now `current` is a parent node of the result node.
-            self.current = current.parent();
+            // Now `current` is the last node to close.
+            let is_subtree_root = self
+                .root
+                .as_ref()
+                .map_or(false, |root| current.ptr_eq_plain(root));
+            self.current = if is_subtree_root {
+                // This is the root of the subtree, even if it has a parent.
+                None
+            } else {
+                current.parent()
+            };
             Ok(())
         } else if self.root.is_some() {
             Err(TreeBuildError::RootClosed)
-- 
2.43.0


From 17f6277d76714828fe0d9ca8fa1bed993272dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 09/14] fix: read the whole subtree before inserting its clone

Cloning a subtree into itself never finished since the created nodes were read
as a part of the source, and a failure to borrow node data left a partial clone
in the destination tree.
---
 src/node/edit.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index a059b9d..665ac42 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -3,10 +3,11 @@
 use core::cmp::Ordering;
 
 use alloc::rc::Rc;
+use alloc::vec::Vec;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::{HierarchyError, HotNode, Node, NodeCoreLink, NodeCoreLinkWeak};
-use crate::serial::{TreeBuildError, TreeBuilder};
+use crate::serial::{Event, TreeBuildError, TreeBuilder};
 use crate::traverse::DftEvent;
 use crate::tree::TreeCore;
 
@@ -807,24 +808,24 @@ pub(super) fn try_clone_insert_subtree<T>(
 where
     T: Clone,
 {
-    let subtree_root = dest.try_create_node(
-        source
-            .try_borrow_data()
-            .map_err(HierarchyError::BorrowNodeData)?
-            .clone(),
-    )?;
-    let mut events = source.to_events();
-    // Skip the opening of the root, since it will be processed by calling
-    // `TreeBuilder::with_root()`.
-    events.next();
+    // Read the entire subtree before creating any nodes, since the destination
+    // can be inside the subtree, and since borrowing node data can fail.
+    let mut events = source
+        .to_events()
+        .collect::<Result<Vec<_>, _>>()
+        .map_err(HierarchyError::BorrowNodeData)?
+        .into_iter();
+    // The opening of the root is not passed to the builder, since it will be
+    // processed by calling `TreeBuilder::with_root()`.
+    let subtree_root = match events.next() {
+        Some(Event::Open(data)) => dest.try_create_node(data)?,
+        _ => unreachable!("[validity] events must start with the opening of the root"),
+    };
     events
-        .try_fold(
-            TreeBuilder::with_root(subtree_root),
-            |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
-                Ok(builder)
-            },
-        )
+        .try_fold(TreeBuilder::with_root(subtree_root), |mut builder, ev| {
+            builder.push_event(ev)?;
+            Ok(builder)
+        })
         .and_then(|builder| builder.finish())
         .map(|node| {
             node.bundle_new_hierarchy_edit_grant()
-- 
2.43.0


From cc59d3f6081d6a0110c29bc45071d216cc349649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 10/14] fix: do not overflow the depth in non-allocating
 breadth-first traversal

---
 src/traverse/breadth_first.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/traverse/breadth_first.rs b/src/traverse/breadth_first.rs
index 1b2a49b..20559e3 100644
--- a/src/traverse/breadth_first.rs
+++ b/src/traverse/breadth_first.rs
@@ -80,7 +80,14 @@ impl<T> Iterator for NonAllocatingBreadthFirstTraverser<T> {
         }
 
         // No more nodes in the current depth. Go deeper.
-        self.current_depth += 1;
+        self.current_depth = match self.current_depth.checked_add(1) {
+            Some(depth) => depth,
+            None => {
+                // No nodes can be deeper than `usize::MAX`.
+                self.root = None;
+                return None;
+            }
+        };
         self.inner = StableShallowDepthFirstTraverser::with_toplevel(
             self.root.clone(),
             Some(self.current_depth),
-- 
2.43.0


From 8470d4976b26d65a126fcb34e5d4d17f994de84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 11/14] fix: correct the upper size bound of the shallow
 depth-first traverser

It claimed that only two events remain even if the node has children.
---
 src/traverse/depth_first.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 5553e17..8966392 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -668,8 +668,11 @@ impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
                 let min = match depth.cmp(depth_back) {
                     // `Open` for `depth`, and `Close` for `depth..=depth_back`.
                     Ordering::Greater => depth - depth_back + 2,
-                    // `Open` and `Close` for `depth`.
-                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => return (2, Some(2)),
+                    // `Open` and `Close` for `depth`, and events for descendants if available.
+                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => {
+                        let is_leaf = *depth == self.max_depth() || !next.has_children();
+                        return (2, if is_leaf { Some(2) } else { None });
+                    }
                     // `Open`, `Close`, `Open` again, and `Close` again for `depth`.
                     Ordering::Equal => 4,
                     // `Open` for `depth..=depth_back`, and `Close` for `depth`.
-- 
2.43.0


From b7426854ca90b51fd4a38b4d8d7b629515ea784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 12/14] fix: do not omit nodes with empty contents in pretty
 printing

---
 src/node/debug_print/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node/debug_print/pretty.rs b/src/node/debug_print/pretty.rs
index b4ad2da..ab1c58d 100644
--- a/src/node/debug_print/pretty.rs
+++ b/src/node/debug_print/pretty.rs
@@ -88,7 +88,8 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     fn new(fmt: &'b mut fmt::Formatter<'a>) -> Self {
         Self {
             fmt,
-            line_state: LineState::BeforeIndent,
+            // The root item has no indent to write.
+            line_state: LineState::PartialIndent,
             indents: Vec::new(),
             pending_ws_only_indent_level: 0,
         }
@@ -113,6 +114,10 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_first_line: true,
         });
 
+        // Write the branch mark now, since the item can have no contents.
+        self.write_indent_partial()?;
+        self.line_state = LineState::PartialIndent;
+
         Ok(())
     }
 
-- 
2.43.0


From dae2c1e1f69e0f4d8cd3b6fab02314b4c5db3b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 13/14] fix: advance in DftEvent::close_current

---
 src/traverse/depth_first.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 8966392..15d4023 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -116,12 +116,14 @@ macro_rules! impl_dft_event_methods_for_node {
             #[must_use]
             pub fn close_current(&self) -> Option<$ty_node<T>> {
                 let mut depth = 0_usize;
+                let mut ev = self.next()?;
                 loop {
-                    match self.next()? {
+                    match &ev {
                         Self::Open(_) => depth += 1,
-                        Self::Close(node) if depth == 0 => return Some(node),
+                        Self::Close(node) if depth == 0 => return Some(node.clone()),
                         Self::Close(_) => depth -= 1,
                     }
+                    ev = ev.next()?;
                 }
             }
 
-- 
2.43.0


From f08ee9153a00e506b9d46f00b6e17a53a07d0fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:25 +0000
Subject: [PATCH 14/14] fix: dismantle trees iteratively also after the data of
 a node panicked on drop

---
 src/tree.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index a2a0907..6a452c1 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -93,12 +93,29 @@ impl<T> Drop for TreeCore<T> {
             // this tree anymore.
             return;
         }
+        // If the data of some node panics on drop, the rest of the nodes are
+        // dismantled by the drop of the dismantler.
+        Dismantler {
+            next: Some(DftEvent::Open(root_link)),
+        }
+        .dismantle();
+    }
+}
+
+/// Dismantler of a tree that is being dropped.
+struct Dismantler<T> {
+    /// Next event of the depth-first traversal.
+    next: Option<DftEvent<NodeCoreLink<T>>>,
+}
+
+impl<T> Dismantler<T> {
+    /// Drops the rest of the nodes one by one.
+    fn dismantle(&mut self) {
         // Not using `DepthFirstLinkTraverser` here is intentional.
         // The links would be in inconsistent states before being dropped, so
         // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
-        let mut next = Some(DftEvent::Open(root_link));
-        while let Some(current) = next.take() {
-            next = current.next();
+        while let Some(current) = self.next.take() {
+            self.next = current.next();
             let close_link = match current {
                 DftEvent::Open(_) => continue,
                 DftEvent::Close(v) => v,
@@ -120,6 +137,13 @@ impl<T> Drop for TreeCore<T> {
     }
 }
 
+impl<T> Drop for Dismantler<T> {
+    #[inline]
+    fn drop(&mut self) {
+        self.dismantle();
+    }
+}
+
 /// Debug printing.
 impl<T> TreeCore<T> {
     /// Returns a debug-printable proxy that does not dump nodes.
-- 
2.43.0

