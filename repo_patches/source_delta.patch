From aedb99299a92bbfb4911af42ac532a997dfa252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 01/16] fix: keep the last-sibling link up to date when the
 last sibling is unlinked

Detaching or moving the last of several siblings left the first sibling's
cyclic link pointing at the removed node, so last_child() and friends kept
returning it (or panicked once it was dropped).
---
 src/node/edit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 326c29a..cba6b38 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -95,6 +95,12 @@ impl<'a, T> OrphanRoot<'a, T> {
         }
         if let Some(next_sibling) = next_sibling {
             next_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
+        } else if let Some(first_sibling) =
+            parent.as_ref().and_then(|parent| parent.first_child_link())
+        {
+            // The last sibling has been unlinked, and `prev_sibling` is now
+            // the last sibling.
+            first_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
         }
 
         // Update `node_to_unlink`.
-- 
2.43.0


From 3abd1d3f3a595616490752bca6977dbff2455b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 02/16] fix: keep the last-sibling link up to date when
 replacing a childless last sibling

replace_with_children() of the last sibling without children left the first
sibling's cyclic link pointing at the removed node.
---
 src/node/edit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index cba6b38..a395b7b 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -681,6 +681,11 @@ pub(super) fn try_replace_with_children<T>(this: &NodeCoreLink<T>) -> Result<(),
                 }
                 (Some(prev_sibling_link), None) => {
                     prev_sibling_link.replace_next_sibling(None);
+                    let first_sibling_link = parent_link
+                        .first_child_link()
+                        .expect("[validity] the parent has at least one child (prev of `self`)");
+                    // `prev_sibling_link` is the new last sibling.
+                    first_sibling_link.replace_prev_sibling_cyclic(prev_sibling_link.downgrade());
                 }
                 (None, Some(next_sibling_link)) => {
                     let last_sibling_link_weak = parent_link
-- 
2.43.0


From bbcdfce740a07a2a6f175653de1d021ef2d52039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 03/16] fix: validate the destination before moving a subtree

Moving a node under itself or its own descendant was accepted and created a
reference cycle, moving the root inside its tree was silently ignored, and a
move next to a root failed only after the subtree had been unlinked. Check the
destination before anything is modified, and treat a move next to itself as
already done.
---
 src/node/edit.rs | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index a395b7b..9892234 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -346,16 +346,52 @@ pub(super) fn detach_and_move_inside_same_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
 ) -> Result<(), HierarchyError> {
-    if this.is_root() {
-        // Detaching entire tree here is meaningless.
-        // Do nothing.
-        return Ok(());
+    ensure_insertable(this, dest)?;
+
+    if let InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) = dest {
+        if anchor.ptr_eq(this) {
+            // The node is already at the destination.
+            return Ok(());
+        }
     }
 
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this.insert(dest)
 }
 
+/// Checks if the subtree under `this` can be inserted to the given destination.
+///
+/// This does not modify anything, so this should be called before any
+/// modification in order to leave the hierarchy intact on failure.
+///
+/// # Failures
+///
+/// * [`HierarchyError::SiblingsWithoutParent`] if the node would be a sibling
+///   of a root node.
+/// * [`HierarchyError::AncestorDescendantLoop`] if the node would be a child of
+///   itself or its descendant.
+fn ensure_insertable<T>(
+    this: &NodeCoreLink<T>,
+    dest: InsertAs<&NodeCoreLink<T>>,
+) -> Result<(), HierarchyError> {
+    let dest_parent = match dest {
+        InsertAs::FirstChildOf(parent) | InsertAs::LastChildOf(parent) => parent.clone(),
+        InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) => anchor
+            .parent_link()
+            .ok_or(HierarchyError::SiblingsWithoutParent)?,
+    };
+
+    let mut current = Some(dest_parent);
+    while let Some(ancestor) = current {
+        if this.ptr_eq(&ancestor) {
+            return Err(HierarchyError::AncestorDescendantLoop);
+        }
+        current = ancestor.parent_link();
+    }
+
+    Ok(())
+}
+
 /// Detaches the node and its descendant from the current tree, and inserts to other tree.
 ///
 /// This is O(1) operation if the destination is inside the same tree, or
@@ -371,6 +407,8 @@ pub(super) fn detach_and_move_to_another_tree<T>(
     dest: InsertAs<&NodeCoreLink<T>>,
     dest_tree_core: &Rc<TreeCore<T>>,
 ) -> Result<(), HierarchyError> {
+    ensure_insertable(this, dest)?;
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
-- 
2.43.0


From a057c28c0e3cc0df9390bf0c5b96cda6d9550d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 04/16] fix: stop the stable depth-first traversal at its end

StableDepthFirstTraverser ran past the closing (or, backward, the opening) of
its toplevel node, and past the point where both ends meet, emitting nodes
outside of the subtree and emitting events twice.
---
 src/traverse/depth_first.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 945ddc1..6d24c5b 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -384,6 +384,21 @@ impl<T> StableDepthFirstTraverser<T> {
             }
         }
     }
+
+    /// Returns true if the two events are the identical event.
+    ///
+    /// If the next forward event and the next backward event are identical,
+    /// the event is the last one to emit.
+    #[must_use]
+    fn is_same_event(next: &DftEvent<FrozenNode<T>>, next_back: &DftEvent<FrozenNode<T>>) -> bool {
+        match (next, next_back) {
+            (DftEvent::Open(next), DftEvent::Open(next_back))
+            | (DftEvent::Close(next), DftEvent::Close(next_back)) => {
+                FrozenNode::ptr_eq(next, next_back)
+            }
+            _ => false,
+        }
+    }
 }
 
 impl<T> Iterator for StableDepthFirstTraverser<T> {
@@ -391,7 +406,9 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        if !Self::is_same_event(&next, &next_back) {
+            self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
@@ -413,9 +430,11 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 impl<T> DoubleEndedIterator for StableDepthFirstTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev()
-            .map(|prev_of_next_back| (next, prev_of_next_back));
+        if !Self::is_same_event(&next, &next_back) {
+            self.next = next_back
+                .prev()
+                .map(|prev_of_next_back| (next, prev_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From 85a7620727196899a81b081ce43753fccf4bd88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 05/16] fix: stop the stable siblings traversal at its end

StableSiblingsTraverser ran past the node where both ends meet, emitting
siblings outside of the requested range and emitting nodes twice.
---
 src/traverse/siblings.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/traverse/siblings.rs b/src/traverse/siblings.rs
index d8d8ee5..2779477 100644
--- a/src/traverse/siblings.rs
+++ b/src/traverse/siblings.rs
@@ -168,9 +168,11 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next
-            .next_sibling()
-            .map(|next_of_next| (next_of_next, next_back));
+        if !FrozenNode::ptr_eq(&next, &next_back) {
+            self.next = next
+                .next_sibling()
+                .map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
@@ -186,9 +188,11 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 impl<T> DoubleEndedIterator for StableSiblingsTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev_sibling()
-            .map(|next_of_next_back| (next, next_of_next_back));
+        if !FrozenNode::ptr_eq(&next, &next_back) {
+            self.next = next_back
+                .prev_sibling()
+                .map(|next_of_next_back| (next, next_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From c43858bfaf68958d04b877e0bdd7ff1d31f588b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 06/16] fix: exclude the node itself from
 FrozenNode::preceding_siblings_stable()

It dropped the first sibling instead of the node itself.
---
 src/node/frozen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/frozen.rs b/src/node/frozen.rs
index 97d277f..4af7556 100644
--- a/src/node/frozen.rs
+++ b/src/node/frozen.rs
@@ -839,7 +839,8 @@ impl<T> FrozenNode<T> {
     #[must_use]
     pub fn preceding_siblings_stable(&self) -> traverse::StableSiblingsTraverser<T> {
         let mut iter = self.preceding_siblings_or_self_stable();
-        iter.next();
+        // `self` is the last item.
+        iter.next_back();
         iter
     }
 
-- 
2.43.0


From f41cd633537c1d1c8a7fadbcea58f88282d7e8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 07/16] fix: advance the event in DftEvent::close_current()

It evaluated the same next event forever, and looped endlessly unless the very
next event was a close.
---
 src/traverse/depth_first.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 6d24c5b..9473cb5 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -116,12 +116,15 @@ macro_rules! impl_dft_event_methods_for_node {
             #[must_use]
             pub fn close_current(&self) -> Option<$ty_node<T>> {
                 let mut depth = 0_usize;
+                let mut current = self.next()?;
                 loop {
-                    match self.next()? {
+                    let next = current.next();
+                    match current {
                         Self::Open(_) => depth += 1,
                         Self::Close(node) if depth == 0 => return Some(node),
                         Self::Close(_) => depth -= 1,
                     }
+                    current = next?;
                 }
             }
 
-- 
2.43.0


From d3b3cce569187d49cbc53bd8130f04f3cd81591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 08/16] fix: don't report a wrong upper bound for the shallow
 depth-first traversal

StableShallowDepthFirstTraverser::size_hint() claimed that exactly two events
remain even if children of the node are to be visited.
---
 src/traverse/depth_first.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 9473cb5..a3df397 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -672,7 +672,13 @@ impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
                     // `Open` for `depth`, and `Close` for `depth..=depth_back`.
                     Ordering::Greater => depth - depth_back + 2,
                     // `Open` and `Close` for `depth`.
-                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => return (2, Some(2)),
+                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => {
+                        if *depth == self.max_depth() || !next.has_children() {
+                            return (2, Some(2));
+                        }
+                        // `Open` and `Close` for `depth`, and for at least one child.
+                        4
+                    }
                     // `Open`, `Close`, `Open` again, and `Close` again for `depth`.
                     Ordering::Equal => 4,
                     // `Open` for `depth..=depth_back`, and `Close` for `depth`.
-- 
2.43.0


From 5124dfa1b9dcaf8a6e01603b08f9a5eddde404c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 09/16] fix: don't overflow the depth of the non-allocating
 breadth-first traversal

With the start depth of usize::MAX, the traversal panicked with overflow checks
and restarted from the toplevel node without them.
---
 src/traverse/breadth_first.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/traverse/breadth_first.rs b/src/traverse/breadth_first.rs
index 1b2a49b..20559e3 100644
--- a/src/traverse/breadth_first.rs
+++ b/src/traverse/breadth_first.rs
@@ -80,7 +80,14 @@ impl<T> Iterator for NonAllocatingBreadthFirstTraverser<T> {
         }
 
         // No more nodes in the current depth. Go deeper.
-        self.current_depth += 1;
+        self.current_depth = match self.current_depth.checked_add(1) {
+            Some(depth) => depth,
+            None => {
+                // No nodes can be deeper than `usize::MAX`.
+                self.root = None;
+                return None;
+            }
+        };
         self.inner = StableShallowDepthFirstTraverser::with_toplevel(
             self.root.clone(),
             Some(self.current_depth),
-- 
2.43.0


From 75471cc2c4d603a5912fba336c3d6226465494ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 10/16] fix: confine TreeBuilder::close() to the root of the
 builder

When the builder was created with a root that has a parent, closing the root
moved out to that parent, so that later events edited nodes outside of the
root. A rejected close also left the builder at another node than before.
---
 src/serial.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/serial.rs b/src/serial.rs
index 482ecec..531c816 100644
--- a/src/serial.rs
+++ b/src/serial.rs
@@ -564,27 +564,19 @@ impl<T> TreeBuilder<T> {
             // Close zero nodes, i.e. do nothing.
             return Ok(());
         }
-        if let Some(current) = &mut self.current {
-            let parent_level = level - 1;
-            for _ in 0..parent_level {
-                let root = self
-                    .root
-                    .as_ref()
-                    .expect("[validity] `root` should be set when some node is tracked");
-                if current.ptr_eq_plain(root) {
-                    // This is the root of the subtree, even if it has a parent.
-                    return Err(TreeBuildError::RootClosed);
-                }
-                *current = current.parent().ok_or(TreeBuildError::RootClosed)?;
-            }
-            // Now `current` is a parent node of the result node.
-            self.current = current.parent();
-            Ok(())
-        } else if self.root.is_some() {
-            Err(TreeBuildError::RootClosed)
-        } else {
-            Err(TreeBuildError::RootNotOpened)
+        let root = self.root.as_ref().ok_or(TreeBuildError::RootNotOpened)?;
+        let mut current = self.current.clone();
+        for _ in 0..level {
+            let closed = current.ok_or(TreeBuildError::RootClosed)?;
+            current = if closed.ptr_eq_plain(root) {
+                // This is the root of the subtree, even if it has a parent.
+                None
+            } else {
+                closed.parent()
+            };
         }
+        self.current = current;
+        Ok(())
     }
 
     /// Modifies the tree using the given event.
-- 
2.43.0


From 96181fd04febe1e5104e4c48361a562c2af1dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 11/16] fix: let node data access the nodes while the tree is
 being dropped

NodeWeak::upgrade() panicked when called by the destructor of the node data,
since the tree was dropped while the membership of a node was borrowed or in
the middle of an edit, and since the tree is unavailable by then. Drop the tree
out of the borrow and after the edit, and make upgrade() return None for the
nodes in a tree being dropped.
---
 src/node/edit.rs       |  6 ++++++
 src/node/membership.rs | 14 +++++++++++---
 src/node/plain.rs      |  5 +++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 9892234..5f3e3e6 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -335,6 +335,9 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
         return;
     }
 
+    // Keep the old tree alive until `this` becomes consistent. Dropping the tree
+    // drops the node data, and that can access `this`.
+    let _old_tree_core = this.tree_core();
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this.create_new_tree();
 }
@@ -409,6 +412,9 @@ pub(super) fn detach_and_move_to_another_tree<T>(
 ) -> Result<(), HierarchyError> {
     ensure_insertable(this, dest)?;
 
+    // Keep the old tree alive until `this` becomes consistent. Dropping the tree
+    // drops the node data, and that can access `this`.
+    let _old_tree_core = this.tree_core();
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
diff --git a/src/node/membership.rs b/src/node/membership.rs
index ac3acc3..bf2e992 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -2,6 +2,7 @@
 
 use core::cell::{Ref, RefCell};
 use core::fmt;
+use core::mem;
 use core::num::NonZeroUsize;
 
 use alloc::rc::{Rc, Weak};
@@ -230,9 +231,16 @@ impl<'a, T> MembershipRef<'a, T> {
                             "[consistency] locks can be acquired only from strong node references"
                         );
                         let weak_core = Rc::downgrade(tree_core);
-                        *core = MembershipCore::Weak {
-                            tree_core: weak_core,
-                        };
+                        let strong = mem::replace(
+                            &mut *core,
+                            MembershipCore::Weak {
+                                tree_core: weak_core,
+                            },
+                        );
+                        // Dropping the last reference to the tree drops the
+                        // node data, and that can access this membership.
+                        drop(core);
+                        drop(strong);
                     }
                 }
             }
diff --git a/src/node/plain.rs b/src/node/plain.rs
index 98240b2..2ca333d 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2941,7 +2941,8 @@ impl<T> NodeWeak<T> {
     /// ```
     #[must_use]
     pub fn upgrade(&self) -> Option<Node<T>> {
-        let link = self.link.upgrade()?;
-        Some(Node::with_node_core(link))
+        // The tree can be unavailable when the tree is being dropped.
+        let link = NodeLink::new(self.link.upgrade()?)?;
+        Some(Node::with_node_link(link))
     }
 }
-- 
2.43.0


From b546c43bae85c692c887a835d3c4c5bb404e5a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 12/16] fix: keep the nodes together when a whole tree is moved
 into another tree

Moving the root of a tree under a node of another tree let the old tree destroy
the moved nodes when it was released. Make the old tree forget its root, and
refuse the move (before any modification) while the old tree is referred to by
Tree handles, since a tree cannot be empty.
---
 src/node/edit.rs  | 19 ++++++++++++++++++-
 src/node/plain.rs | 12 +++++++++++-
 src/tree.rs       | 27 +++++++++++++++++++++++----
 3 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 5f3e3e6..2053407 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -414,11 +414,28 @@ pub(super) fn detach_and_move_to_another_tree<T>(
 
     // Keep the old tree alive until `this` becomes consistent. Dropping the tree
     // drops the node data, and that can access `this`.
-    let _old_tree_core = this.tree_core();
+    let old_tree_core = this.tree_core();
+    let is_entire_tree = this.is_root();
+    if is_entire_tree {
+        // The tree would have no nodes after the move, so nobody but the moved
+        // nodes can refer to the tree.
+        let num_refs_from_nodes = this
+            .depth_first_traverse()
+            .filter_map(DftEvent::into_open)
+            .filter(|link| link.membership_ref().tree_core_strong_ref().is_some())
+            .count();
+        if Rc::strong_count(&old_tree_core) > num_refs_from_nodes + 1 {
+            return Err(HierarchyError::EmptyTree);
+        }
+    }
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
         .expect("[consistency] brand-new tree hierarchy can be locked by any types of lock");
+    if is_entire_tree {
+        old_tree_core.release_root();
+    }
     orphan_this.insert(dest)
 }
 
diff --git a/src/node/plain.rs b/src/node/plain.rs
index 2ca333d..0155f5c 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2529,7 +2529,17 @@ impl<T> Node<T> {
     ///
     /// # Failures
     ///
-    /// Fails if the node (being moved) is an ancestor of the destination.
+    /// Fails if:
+    ///
+    /// * the node (being moved) is an ancestor of the destination, or
+    ///     + In this case, [`HierarchyError::AncestorDescendantLoop`] error is returned.
+    /// * the node would be a sibling of a root node, or
+    ///     + In this case, [`HierarchyError::SiblingsWithoutParent`] error is returned.
+    /// * the node is the root of a tree other than the destination, and the tree
+    ///   is still referred to by [`Tree`].
+    ///     + In this case, [`HierarchyError::EmptyTree`] error is returned.
+    ///
+    /// The hierarchy is not modified on failure.
     ///
     /// # Panics
     ///
diff --git a/src/tree.rs b/src/tree.rs
index d25d1eb..94dce51 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -5,7 +5,6 @@ mod lock;
 
 use core::cell::{BorrowError, RefCell};
 use core::fmt;
-use core::mem;
 
 use alloc::rc::{Rc, Weak};
 
@@ -29,7 +28,10 @@ pub use self::lock::{
 /// referred as `Rc<RefCell<TreeCore<T>>>` or `Weak<RefCell<TreeCore<T>>>`.
 pub(crate) struct TreeCore<T> {
     /// Root node.
-    root: RefCell<NodeCoreLink<T>>,
+    ///
+    /// This is `None` only when the root has been moved into another tree, and
+    /// then the tree core must not be referred to by anyone anymore.
+    root: RefCell<Option<NodeCoreLink<T>>>,
     /// Hierarchy lock manager.
     lock_manager: HierarchyLockManager,
 }
@@ -39,7 +41,7 @@ impl<T> TreeCore<T> {
     #[must_use]
     pub(crate) fn new_rc(root: NodeCoreLink<T>) -> Rc<Self> {
         Rc::new(Self {
-            root: RefCell::new(root),
+            root: RefCell::new(Some(root)),
             lock_manager: Default::default(),
         })
     }
@@ -51,6 +53,7 @@ impl<T> TreeCore<T> {
             .try_borrow()
             .expect("[consistency] `TreeCore::root` should not be borrowed nestedly")
             .clone()
+            .expect("[consistency] a tree in use must have the root node")
     }
 
     /// Transfers a lock.
@@ -71,11 +74,22 @@ impl<T> TreeCore<T> {
 
     /// Makes the tree track another node as a root.
     pub fn replace_root(&self, new_root: NodeCoreLink<T>) -> NodeCoreLink<T> {
+        self.root
+            .try_borrow_mut()
+            .expect("[consistency] `TreeCore::root` should not be borrowed nestedly")
+            .replace(new_root)
+            .expect("[consistency] a tree in use must have the root node")
+    }
+
+    /// Makes the tree forget the root node, since it is moved into another tree.
+    ///
+    /// The tree core must not be used anymore.
+    pub(crate) fn release_root(&self) {
         let mut root = self
             .root
             .try_borrow_mut()
             .expect("[consistency] `TreeCore::root` should not be borrowed nestedly");
-        mem::replace(&mut *root, new_root)
+        *root = None;
     }
 }
 
@@ -88,6 +102,11 @@ impl<T> Drop for TreeCore<T> {
             .try_borrow()
             .expect("[validity] `TreeCore` is being accessed exclusively")
             .clone();
+        let root_link = match root_link {
+            Some(root_link) => root_link,
+            // The nodes have been moved into another tree.
+            None => return,
+        };
         // Not using `DepthFirstLinkTraverser` here is intentional.
         // The links would be in inconsistent states before being dropped, so
         // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
-- 
2.43.0


From 0a1cfd42550850977b9ef95db51500f6d4d94ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 13/16] fix: make clone-and-insert atomic and able to insert a
 subtree into itself

try_clone_insert_subtree() inserted nodes one by one while it was traversing
the source: it never finished when the destination was inside the source, and
it left a partial copy behind when some data could not be borrowed. Clone the
subtree first, and then insert it.
---
 src/anchor.rs    | 22 ----------------------
 src/node/edit.rs | 39 +++++++++------------------------------
 2 files changed, 9 insertions(+), 52 deletions(-)

diff --git a/src/anchor.rs b/src/anchor.rs
index 38e3fed..048af58 100644
--- a/src/anchor.rs
+++ b/src/anchor.rs
@@ -1,7 +1,5 @@
 //! Anchor types.
 
-use crate::node::{HierarchyError, HotNode};
-
 /// Relation of the node being adopted.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub enum AdoptAs {
@@ -67,18 +65,6 @@ impl<T> InsertAs<T> {
         }
     }
 
-    /// Returns the corresponding `AdoptAs` value.
-    #[inline]
-    #[must_use]
-    pub(super) fn to_adopt_as(&self) -> AdoptAs {
-        match self {
-            Self::FirstChildOf(_) => AdoptAs::FirstChild,
-            Self::LastChildOf(_) => AdoptAs::LastChild,
-            Self::PreviousSiblingOf(_) => AdoptAs::PreviousSibling,
-            Self::NextSiblingOf(_) => AdoptAs::NextSibling,
-        }
-    }
-
     /// Converts from `&InsertAs<T>` to `InsertAs<T>`.
     ///
     /// # Examples
@@ -102,11 +88,3 @@ impl<T> InsertAs<T> {
         }
     }
 }
-
-impl<T> InsertAs<&HotNode<T>> {
-    /// Creates a new node and inserts to the destination.
-    #[inline]
-    pub(super) fn try_create_node(&self, data: T) -> Result<HotNode<T>, HierarchyError> {
-        self.anchor().try_create_node_as(data, self.to_adopt_as())
-    }
-}
diff --git a/src/node/edit.rs b/src/node/edit.rs
index 2053407..2025a43 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -6,7 +6,6 @@ use alloc::rc::Rc;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::{HierarchyError, HotNode, Node, NodeCoreLink, NodeCoreLinkWeak};
-use crate::serial::{TreeBuildError, TreeBuilder};
 use crate::traverse::DftEvent;
 use crate::tree::TreeCore;
 
@@ -830,35 +829,15 @@ pub(super) fn try_clone_insert_subtree<T>(
 where
     T: Clone,
 {
-    let subtree_root = dest.try_create_node(
-        source
-            .try_borrow_data()
-            .map_err(HierarchyError::BorrowNodeData)?
-            .clone(),
-    )?;
-    let mut events = source.to_events();
-    // Skip the opening of the root, since it will be processed by calling
-    // `TreeBuilder::with_root()`.
-    events.next();
-    events
-        .try_fold(
-            TreeBuilder::with_root(subtree_root),
-            |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
-                Ok(builder)
-            },
-        )
-        .and_then(|builder| builder.finish())
-        .map(|node| {
-            node.bundle_new_hierarchy_edit_grant()
-                .expect("[consistency] the hierarchy of the destination tree is already editable")
-        })
-        .map_err(|e| match e {
-            TreeBuildError::BorrowData(e) => HierarchyError::BorrowNodeData(e),
-            TreeBuildError::RootNotOpened | TreeBuildError::RootClosed => {
-                unreachable!("[validity] subtree should be consistently serializable")
-            }
-        })
+    // Clone the entire subtree before modifying the destination tree, since the
+    // destination can be inside the subtree, and the cloning can fail.
+    let cloned = source
+        .try_clone_subtree()
+        .map_err(HierarchyError::BorrowNodeData)?
+        .bundle_new_hierarchy_edit_grant()
+        .expect("[validity] brand-new tree can be locked by any types of lock");
+    cloned.try_detach_insert_subtree(dest)?;
+    Ok(cloned)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e78cc19a54be46ef2dcded1e8fb2c5a74cfa5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 14/16] fix: print the type name of FrozenNode in its subtree
 debug output

---
 src/node/debug_print/debug.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/debug_print/debug.rs b/src/node/debug_print/debug.rs
index 5eff466..b9b1502 100644
--- a/src/node/debug_print/debug.rs
+++ b/src/node/debug_print/debug.rs
@@ -141,7 +141,7 @@ impl<'a, T> DebugPrintSubtree<'a, T> {
     pub(in crate::node) fn new_frozen(link: &'a NodeCoreLink<T>) -> Self {
         Self {
             link,
-            node_type: NodeType::Plain,
+            node_type: NodeType::Frozen,
         }
     }
 
-- 
2.43.0


From b4d923f66840d603c8752240e1556de48e2e8bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 15/16] fix: print nodes with empty text in the pretty-printed
 tree

A node whose data is printed as an empty string was not printed at all, and
the following node was printed on the line (and with the indent) for it.
---
 src/node/debug_print/pretty.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/node/debug_print/pretty.rs b/src/node/debug_print/pretty.rs
index b4ad2da..1b5361d 100644
--- a/src/node/debug_print/pretty.rs
+++ b/src/node/debug_print/pretty.rs
@@ -80,6 +80,8 @@ struct IndentWriter<'a, 'b> {
     indents: Vec<IndentedBlockState>,
     /// The number of pending whitespace-only indents.
     pending_ws_only_indent_level: usize,
+    /// Whether nothing is written for the current item.
+    is_item_empty: bool,
 }
 
 impl<'a, 'b> IndentWriter<'a, 'b> {
@@ -91,6 +93,7 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             line_state: LineState::BeforeIndent,
             indents: Vec::new(),
             pending_ws_only_indent_level: 0,
+            is_item_empty: true,
         }
     }
 
@@ -112,6 +115,19 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_last_item,
             is_first_line: true,
         });
+        self.is_item_empty = true;
+
+        Ok(())
+    }
+
+    /// Finishes writing the content of the current item.
+    ///
+    /// An item without any content should also occupy a line.
+    fn finish_item_content(&mut self) -> fmt::Result {
+        if self.is_item_empty && self.line_state == LineState::BeforeIndent {
+            self.write_indent_partial()?;
+            self.line_state = LineState::PartialIndent;
+        }
 
         Ok(())
     }
@@ -196,6 +212,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
                     level.is_first_line = level.is_first_line && !ends_with_newline;
                 }
                 self.fmt.write_str(content)?;
+                self.is_item_empty = false;
 
                 self.line_state = if ends_with_newline {
                     LineState::BeforeIndent
@@ -308,11 +325,14 @@ impl<'a, T: fmt::Debug> fmt::Debug for DebugPrettyPrint<'a, T> {
 
 /// Prepares printing of next node.
 ///
-/// Internally, this searches next node open and adjust indent level and prefix.
+/// Internally, this finishes the current node, searches next node open, and
+/// adjust indent level and prefix.
 fn prepare_next_node_printing<T>(
     writer: &mut IndentWriter<'_, '_>,
     traverser: &mut DepthFirstLinkTraverser<'_, T>,
 ) -> Result<Option<NodeCoreLink<T>>, fmt::Error> {
+    writer.finish_item_content()?;
+
     for ev in traverser {
         let link = match ev {
             DftEvent::Open(link) => link,
-- 
2.43.0


From 7a669d8de15010823c73d7867153cfa82d5e4731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 16/16] fix: release the rest of the tree without recursion
 when dropping a node data panics

---
 src/tree.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 94dce51..ddb3ec1 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -107,12 +107,30 @@ impl<T> Drop for TreeCore<T> {
             // The nodes have been moved into another tree.
             None => return,
         };
-        // Not using `DepthFirstLinkTraverser` here is intentional.
-        // The links would be in inconsistent states before being dropped, so
-        // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
-        let mut next = Some(DftEvent::Open(root_link));
-        while let Some(current) = next.take() {
-            next = current.next();
+        DescendantsReleaser {
+            next: Some(DftEvent::Open(root_link)),
+        }
+        .release_all();
+    }
+}
+
+/// Releases nodes one by one, from the leaves.
+///
+/// If dropping a node data panics, the rest of the nodes are released on
+/// unwinding (in the same way, i.e. without recursion).
+struct DescendantsReleaser<T> {
+    /// Next event.
+    // Not using `DepthFirstLinkTraverser` here is intentional.
+    // The links would be in inconsistent states before being dropped, so
+    // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
+    next: Option<DftEvent<NodeCoreLink<T>>>,
+}
+
+impl<T> DescendantsReleaser<T> {
+    /// Releases the nodes.
+    fn release_all(&mut self) {
+        while let Some(current) = self.next.take() {
+            self.next = current.next();
             let close_link = match current {
                 DftEvent::Open(_) => continue,
                 DftEvent::Close(v) => v,
@@ -134,6 +152,12 @@ impl<T> Drop for TreeCore<T> {
     }
 }
 
+impl<T> Drop for DescendantsReleaser<T> {
+    fn drop(&mut self) {
+        self.release_all();
+    }
+}
+
 /// Debug printing.
 impl<T> TreeCore<T> {
     /// Returns a debug-printable proxy that does not dump nodes.
-- 
2.43.0

