From ad8f1cd81064e948ed91cce08c9f82069df498a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 1/6] fix: keep links intact when a node is inserted where it
 already is

Inserting a node as the first/last child or as a sibling at the very place
it already has detached the node first and then linked it next to itself,
which lost siblings or left a cyclic list. Return early instead.
---
 src/dynamic/hierarchy.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 91fe0d0..168a3c0 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -802,6 +802,13 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
             return Err(StructureError::AncestorDescendantLoop);
         }
 
+        // If the range is adjacent to itself at the destination, it is already
+        // at the right place. Detaching it would invalidate `prev_sibling` and
+        // `next_sibling`, since they refer to the node in the range.
+        if prev_sibling == Some(self.first) || next_sibling == Some(self.last) {
+            return Ok(());
+        }
+
         // Detach the nodes.
         {
             let first_nbs = hier
-- 
2.43.0


From 3b9b66b60ef0ff510b0dd4c03407ab5c401905d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 2/6] fix: return the documented error for a sibling insertion
 next to a root

`insert` and `try_adopt` document `StructureError::SiblingsWithoutParent`
for an anchor without a parent, but panicked.
---
 src/dynamic/hierarchy.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 168a3c0..d8f2820 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -414,11 +414,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `next_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when the
+    /// `next_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `next_sibling` does not have a parent.
     fn insert_before(&mut self, node: Id, next_sibling: Id) -> Result<(), StructureError> {
         if node == next_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -429,7 +430,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the next sibling must be alive");
         let parent = next_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let prev_sibling = next_nbs.prev_sibling(self);
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
@@ -445,11 +446,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `prev_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when the
+    /// `prev_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `prev_sibling` does not have a parent.
     fn insert_after(&mut self, node: Id, prev_sibling: Id) -> Result<(), StructureError> {
         if node == prev_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -460,7 +462,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the previous sibling must be alive");
         let parent = prev_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let next_sibling = prev_nbs.next_sibling();
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
-- 
2.43.0


From f51f396d24aa13d49a177a31b149195b0dd1d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 3/6] fix: report cloning a dead node as a violated
 precondition

Passing a removed or unknown ID to `clone_local_tree` panics as documented,
but the message marked it as an internal consistency failure.
---
 src/dynamic/forest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index f02d8b4..7254060 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -1709,7 +1709,7 @@ impl<Id: NodeId, T: Clone> Forest<Id, T> {
 
         let root_data = self
             .data(src_id)
-            .expect("[consistency] the node must be alive")
+            .expect("[precondition] the node must be alive")
             .clone();
         let root_id = self.create_root(root_data);
         add_mapping(src_id, root_id);
-- 
2.43.0


From f3129e1cca339fc59d1bc62dc94e7ae0a56f35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 4/6] fix: report moving the chain builder from a removed node
 as a violated precondition

The current node can be removed through `forest_mut()`; moving to its parent
then is a misuse, not an inconsistency of the forest.
---
 src/dynamic/forest/chain_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic/forest/chain_builder.rs b/src/dynamic/forest/chain_builder.rs
index 26d54d2..018a210 100644
--- a/src/dynamic/forest/chain_builder.rs
+++ b/src/dynamic/forest/chain_builder.rs
@@ -219,7 +219,7 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()?;
         self.current = parent;
         Some(self)
@@ -234,7 +234,7 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()
             .expect("[precondition] the current node should not be the root");
         self.current = parent;
-- 
2.43.0


From af4dda6777aff435160758c1442a4f93b5a1126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 5/6] fix: align the lines of multi-line payloads in the tree
 print

The first line of a payload lost its branch when it ended with a newline in
the same piece, and continuation lines of a nested last item lost the indent
of all but one level.
---
 src/dynamic/forest/debug_print.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 4c88855..29f5d03 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -141,9 +141,19 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     /// Writes the rest of the indents which are partially written.
     fn complete_partial_indent(&mut self) -> fmt::Result {
         debug_assert_eq!(self.line_state, LineState::PartialIndent);
-        if let Some(indent) = self.indents.last() {
+        // Number of the levels `write_indent_partial` has written.
+        let num_written = self
+            .indents
+            .iter()
+            .rposition(|i| !i.is_all_whitespace())
+            .map_or(0, |pos| pos + 1);
+        let (written, rest) = self.indents.split_at(num_written);
+        if let Some(indent) = written.last() {
             self.fmt.write_str(indent.as_str_trailing_spaces())?;
         }
+        for indent in rest {
+            self.fmt.write_str(indent.as_str())?;
+        }
 
         Ok(())
     }
@@ -160,12 +170,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
             }
 
             let (line_end, ends_with_newline) = match s.find('\n') {
-                Some(pos) => {
-                    if let Some(level) = self.indents.last_mut() {
-                        level.is_first_line = false;
-                    }
-                    (pos + 1, true)
-                }
+                Some(pos) => (pos + 1, true),
                 None => (s.len(), false),
             };
             let content = &s[..line_end];
@@ -181,6 +186,10 @@ impl fmt::Write for IndentWriter<'_, '_> {
                 self.fmt.write_str(content)?;
 
                 self.line_state = if ends_with_newline {
+                    // The indent of the current line has been completed.
+                    if let Some(level) = self.indents.last_mut() {
+                        level.is_first_line = false;
+                    }
                     LineState::BeforeIndent
                 } else {
                     LineState::Content
-- 
2.43.0


From 8f3ecb5fb1355c92a2faacdb52b134e7cfcfc22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 6/6] fix: print the lines of nodes whose payload prints
 nothing

A node with an empty text vanished from the tree print, as the indent was
written only together with the first piece of the payload.
---
 src/dynamic/forest/debug_print.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 29f5d03..5471ab8 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -84,7 +84,8 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     fn new(fmt: &'b mut fmt::Formatter<'a>) -> Self {
         Self {
             fmt,
-            line_state: LineState::BeforeIndent,
+            // The root item has its line even if there is nothing to print.
+            line_state: LineState::PartialIndent,
             indents: Vec::new(),
         }
     }
@@ -106,6 +107,9 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_last_item,
             is_first_line: true,
         });
+        // Write the indent here, since the item might have nothing to print.
+        self.write_indent_partial()?;
+        self.line_state = LineState::PartialIndent;
 
         Ok(())
     }
-- 
2.43.0

