From 037e429c6a11101d2446f6a932288540f430a10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 01/11] fix: report search results as grapheme cluster offsets

Buffer::search returned byte offsets in its positions, which point at the
wrong place (or out of bounds) on lines with multi-byte characters.
---
 src/buffer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9ad7a25..890a55e 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -32,6 +32,7 @@ use std::ops::Fn;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use syntect::parsing::SyntaxReference;
+use unicode_segmentation::UnicodeSegmentation;
 
 /// A feature-rich wrapper around an underlying gap buffer.
 ///
@@ -328,8 +329,9 @@ impl Buffer {
         let mut results = Vec::new();
 
         for (line, data) in self.data().lines().enumerate() {
-            for (offset, _) in data.char_indices() {
-                let haystack = &data[offset..];
+            // Position offsets are grapheme cluster-based, rather than byte-based.
+            for (offset, (byte_offset, _)) in data.grapheme_indices(true).enumerate() {
+                let haystack = &data[byte_offset..];
 
                 // Check haystack length before slicing it and comparing bytes with needle.
                 if haystack.len() >= needle.len()
-- 
2.43.0


From f7603dd157759c58add26da07e75ef08b2969036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 02/11] fix: measure distance offsets in grapheme clusters

Distance::of_str counted bytes, so adding the distance of a string with
multi-byte characters to a position overshot the end of that string.
---
 src/buffer/distance.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer/distance.rs b/src/buffer/distance.rs
index bf20d9a..2f22f26 100644
--- a/src/buffer/distance.rs
+++ b/src/buffer/distance.rs
@@ -1,3 +1,5 @@
+use unicode_segmentation::UnicodeSegmentation;
+
 /// A vector value representing a span in a buffer. Unlike the
 /// Range type, whose two positions are absolutes, a Distance
 /// is meant to be used relative to a Position.
@@ -25,7 +27,11 @@ impl Distance {
     pub fn of_str(from: &str) -> Distance {
         Distance {
             lines: from.chars().filter(|&c| c == '\n').count(),
-            offset: from.split('\n').last().map(|l| l.len()).unwrap_or(0),
+            offset: from
+                .split('\n')
+                .last()
+                .map(|l| l.graphemes(true).count())
+                .unwrap_or(0),
         }
     }
 }
-- 
2.43.0


From 3b139653d4730ac3f84cbcceabba3991e04647a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 03/11] fix: treat CRLF as a line ending when resolving
 positions

A CRLF pair is one grapheme cluster, which was not recognized as a newline
when mapping positions to offsets. Lines after it were out of bounds, and
undoing the insertion of CRLF-delimited lines deleted unrelated content.
---
 src/buffer/cursor.rs     |  2 +-
 src/buffer/gap_buffer.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 47859a1..58eb837 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -191,7 +191,7 @@ impl Cursor {
         let mut line = 0;
         let mut length = 0;
         for c in self.data.borrow().to_string().graphemes(true) {
-            if c == "\n" {
+            if c.ends_with('\n') {
                 line += 1;
                 length = 0;
             } else {
diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 6719287..5a34d1e 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -215,8 +215,9 @@ impl GapBuffer {
                 return Some(offset);
             }
 
-            // Advance the line and offset characters.
-            if grapheme == "\n" {
+            // Advance the line and offset characters. Note
+            // that a CRLF pair is a single grapheme cluster.
+            if grapheme.ends_with('\n') {
                 line += 1;
                 line_offset = 0;
             } else {
@@ -238,8 +239,9 @@ impl GapBuffer {
                 return Some(self.gap_start + self.gap_length + offset);
             }
 
-            // Advance the line and offset characters.
-            if grapheme == "\n" {
+            // Advance the line and offset characters. Note
+            // that a CRLF pair is a single grapheme cluster.
+            if grapheme.ends_with('\n') {
                 line += 1;
                 line_offset = 0;
             } else {
-- 
2.43.0


From 39e5d3ab4f00127a8a522262c8bfc802a9ede10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 04/11] fix: resolve positions independently of the gap
 location

The content on either side of the gap was segmented into grapheme clusters
separately, so a cluster spanning the gap (e.g. a CRLF pair whose parts were
inserted one at a time) was counted twice. The same contents then resolved
the same position to different offsets, depending on where the gap was.
---
 src/buffer/gap_buffer.rs | 42 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 5a34d1e..2c184c6 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -205,38 +205,22 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
-        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
+        // Grapheme clusters can span the gap, so we need to look at the
+        // contents as a whole; segmenting the halves on either side of the
+        // gap individually would make positions depend on the gap's location.
+        let contents = self.to_string();
         let mut line = 0;
         let mut line_offset = 0;
 
-        for (offset, grapheme) in (*first_half).grapheme_indices(true) {
-            // Check to see if we've found the position yet.
-            if line == position.line && line_offset == position.offset {
-                return Some(offset);
-            }
-
-            // Advance the line and offset characters. Note
-            // that a CRLF pair is a single grapheme cluster.
-            if grapheme.ends_with('\n') {
-                line += 1;
-                line_offset = 0;
-            } else {
-                line_offset += 1;
-            }
-        }
-
-        // We didn't find the position *within* the first half, but it could
-        // be right after it, which means it's right at the start of the gap.
-        if line == position.line && line_offset == position.offset {
-            return Some(self.gap_start + self.gap_length);
-        }
-
-        // We haven't reached the position yet, so we'll move on to the other half.
-        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);
-        for (offset, grapheme) in (*second_half).grapheme_indices(true) {
+        for (offset, grapheme) in contents.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                return Some(self.gap_start + self.gap_length + offset);
+                // Content following the gap is shifted by its length.
+                if offset < self.gap_start {
+                    return Some(offset);
+                } else {
+                    return Some(self.gap_length + offset);
+                }
             }
 
             // Advance the line and offset characters. Note
@@ -249,8 +233,8 @@ impl GapBuffer {
             }
         }
 
-        // We didn't find the position *within* the second half, but it could
-        // be right after it, which means it's at the end of the buffer.
+        // We didn't find the position *within* the contents, but it could
+        // be right after them, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
             return Some(self.data.len());
         }
-- 
2.43.0


From b0a97aa3d3269f5b4b0f97c3171287395e343a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 05/11] fix: restore deletions that end out of bounds when
 undone

Deleting a range whose end does not exist removes the rest of its line (or
buffer), but the delete operation recorded the deleted content by reading
that same range, which yields nothing when any part of it does not exist.
The deleted content was lost, and undoing the operation did nothing.
---
 src/buffer/gap_buffer.rs       | 40 +++++++++++++++++++---------------
 src/buffer/operation/delete.rs |  8 +++----
 2 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 2c184c6..4395ffb 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -133,7 +133,9 @@ impl GapBuffer {
         Some(data)
     }
 
-    /// Removes the specified range of data from the buffer.
+    /// Removes the specified range of data from the buffer, returning the
+    /// removed data. If the start of the range does not exist, the buffer
+    /// contents will remain unchanged and a none value will be returned.
     ///
     /// # Examples
     ///
@@ -149,18 +151,15 @@ impl GapBuffer {
     /// buffer.delete(&range);
     /// assert_eq!(buffer.to_string(), "data");
     /// ```
-    pub fn delete(&mut self, range: &Range) {
+    pub fn delete(&mut self, range: &Range) -> Option<String> {
         let start_offset = match self.find_offset(&range.start()) {
             Some(o) => o,
-            None => return,
+            None => return None,
         };
         self.move_gap(start_offset);
 
-        match self.find_offset(&range.end()) {
-            Some(offset) => {
-                // Widen the gap to cover the deleted contents.
-                self.gap_length = offset - self.gap_start;
-            }
+        let end_offset = match self.find_offset(&range.end()) {
+            Some(offset) => offset,
             None => {
                 // The end of the range doesn't exist; check
                 // if it's on the last line in the file.
@@ -170,19 +169,24 @@ impl GapBuffer {
                 };
 
                 match self.find_offset(&start_of_next_line) {
-                    Some(offset) => {
-                        // There are other lines below this range.
-                        // Just remove up until the end of the line.
-                        self.gap_length = offset - self.gap_start;
-                    }
-                    None => {
-                        // We're on the last line, just get rid of the rest
-                        // by extending the gap right to the end of the buffer.
-                        self.gap_length = self.data.len() - self.gap_start;
-                    }
+                    // There are other lines below this range.
+                    // Just remove up until the end of the line.
+                    Some(offset) => offset,
+                    // We're on the last line, just get rid of the rest
+                    // by extending the gap right to the end of the buffer.
+                    None => self.data.len(),
                 }
             }
         };
+
+        // The gap is at the start of the range, directly before the deleted contents.
+        let deleted = &self.data[self.gap_start + self.gap_length..end_offset];
+        let deleted = String::from_utf8_lossy(deleted).into_owned();
+
+        // Widen the gap to cover the deleted contents.
+        self.gap_length = end_offset - self.gap_start;
+
+        Some(deleted)
     }
 
     /// Checks whether or not the specified position is in bounds of the buffer data.
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 4b5fec3..02b98df 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -18,11 +18,9 @@ pub struct Delete {
 
 impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
-        // Fetch and store the content we're about to delete.
-        self.content = buffer.data.borrow().read(&self.range);
-
-        // Delete the data.
-        buffer.data.borrow_mut().delete(&self.range);
+        // Delete the data, storing the deleted content. We don't read this content beforehand,
+        // since deleting can remove content for ranges whose end position doesn't exist.
+        self.content = buffer.data.borrow_mut().delete(&self.range);
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
-- 
2.43.0


From a37445b5ac07b3a0aff2fd8e0437085afbecdec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 06/11] fix: avoid overflow when a range ends on the largest
 line number

Deleting to an out of range line is supported, but using the largest
possible line overflowed: a panic in debug builds, and corrupted contents
(including the gap) otherwise, as the next line wrapped to the first.
---
 src/buffer/gap_buffer.rs | 2 +-
 src/buffer/line_range.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 4395ffb..427c856 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -164,7 +164,7 @@ impl GapBuffer {
                 // The end of the range doesn't exist; check
                 // if it's on the last line in the file.
                 let start_of_next_line = Position {
-                    line: range.end().line + 1,
+                    line: range.end().line.saturating_add(1),
                     offset: 0,
                 };
 
diff --git a/src/buffer/line_range.rs b/src/buffer/line_range.rs
index 3031a46..7a7afad 100644
--- a/src/buffer/line_range.rs
+++ b/src/buffer/line_range.rs
@@ -82,7 +82,7 @@ impl LineRange {
                 offset: 0,
             },
             Position {
-                line: self.end + 1,
+                line: self.end.saturating_add(1),
                 offset: 0,
             },
         )
-- 
2.43.0


From e3f5ffcafa054b60e9586ed0eb9cdc46cad9db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 07/11] fix: allow redoing an undone open operation group

Undoing an open operation group discarded it, rather than moving it to the
redo history, leaving no means of recovering its modifications.
---
 src/buffer/mod.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 890a55e..d696a15 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -21,7 +21,7 @@ mod range;
 mod token;
 
 use self::operation::history::History;
-use self::operation::{Operation, OperationGroup};
+use self::operation::OperationGroup;
 use crate::errors::*;
 use std::cell::RefCell;
 use std::default::Default;
@@ -242,21 +242,12 @@ impl Buffer {
     /// assert_eq!("", buffer.data());
     /// ```
     pub fn undo(&mut self) {
-        // Look for an operation to undo. First, check if there's an open, non-empty
-        // operation group. If not, try taking the last operation from the buffer history.
-        let operation: Option<Box<dyn Operation>> = match self.operation_group.take() {
-            Some(group) => {
-                if group.is_empty() {
-                    self.history.previous()
-                } else {
-                    Some(Box::new(group))
-                }
-            }
-            None => self.history.previous(),
-        };
+        // An open operation group is the last modification, unless it's empty. Ending
+        // it adds it to the history (or drops it), so that it can also be redone.
+        self.end_operation_group();
 
-        // If we found an eligible operation, reverse it.
-        if let Some(mut op) = operation {
+        // Look for an operation to reverse.
+        if let Some(mut op) = self.history.previous() {
             op.reverse(self);
         }
     }
-- 
2.43.0


From dbc535cd11f8ff81ae68f71338ffda2440e40cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 08/11] fix: discard undone operations when redoing with an
 open group

Operations in an open group are not in the history yet, so they did not
clear the redo stack. Redoing would then apply an operation to contents that
it does not apply to, and have it precede the group in the history; undoing
both would then remove the wrong content.
---
 src/buffer/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index d696a15..d253c48 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -269,6 +269,10 @@ impl Buffer {
     /// assert_eq!("scribe", buffer.data());
     /// ```
     pub fn redo(&mut self) {
+        // Operations in an open group are modifications that follow the last undone one.
+        // Ending the group adds it to the history, invalidating undone operations.
+        self.end_operation_group();
+
         // Look for an operation to apply.
         if let Some(mut op) = self.history.next() {
             op.run(self);
-- 
2.43.0


From e22f4bc30ea648aac911005863f14c70f28eaa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 09/11] fix: track modifications made in an open operation
 group

Operations in an open group are not in the history, which is what tells
whether or not a buffer is modified. A buffer with changes in an open group
was considered unmodified, and saving with an open group marked the wrong
history position: undoing that group left the buffer different from its file
yet unmodified.
---
 src/buffer/mod.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index d253c48..10e8a43 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -189,9 +189,7 @@ impl Buffer {
         // We use to_string here because we don't want to write the gap contents.
         file.write_all(self.data().to_string().as_bytes())?;
 
-        // We mark the history at points where the
-        // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_history();
 
         Ok(())
     }
@@ -367,7 +365,14 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        !self.history.at_mark()
+        let pending_operations = self
+            .operation_group
+            .as_ref()
+            .map(|group| !group.is_empty())
+            .unwrap_or(false);
+
+        // Operations in an open group haven't been added to the history yet.
+        pending_operations || !self.history.at_mark()
     }
 
     /// The number of lines in the buffer, including trailing newlines.
@@ -414,13 +419,23 @@ impl Buffer {
 
         self.replace(content);
 
-        // We mark the history at points where the
-        // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_history();
 
         Ok(())
     }
 
+    // We mark the history at points where the buffer is in sync with its file equivalent.
+    // Operations in an open group aren't part of the history until the group is ended, so
+    // we do that first, and then open another one to track any operations that follow.
+    fn mark_history(&mut self) {
+        if self.operation_group.is_some() {
+            self.end_operation_group();
+            self.start_operation_group();
+        }
+
+        self.history.mark();
+    }
+
     /// Returns the buffer path's file extension.
     ///
     /// If the buffer has no path configured, or if the filename
-- 
2.43.0


From 4daf2832af92900ed8ef0b5792a9f913552b1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 10/11] fix: undo edits exactly when they merge grapheme
 clusters

Inserting or deleting content can merge the grapheme clusters around it (e.g.
typing a combining mark), so positions calculated from the content, or from
before it was deleted, do not refer to the same location afterwards. Undoing
these edits removed content that was not inserted, or did not restore what was
deleted. Operations now track content offsets, which are unaffected by this.
---
 src/buffer/gap_buffer.rs       | 42 ++++++++++++++++++++----
 src/buffer/operation/delete.rs | 19 ++++++-----
 src/buffer/operation/insert.rs | 58 ++++++++++++----------------------
 3 files changed, 68 insertions(+), 51 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 427c856..ebd17d9 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -56,6 +56,13 @@ impl GapBuffer {
     /// assert_eq!("my changed buffer data", buffer.to_string());
     /// ```
     pub fn insert(&mut self, data: &str, position: &Position) {
+        if let Some(offset) = self.content_offset(position) {
+            self.insert_at(data, offset);
+        }
+    }
+
+    // Inserts the specified data at an offset relative to the buffer's contents.
+    pub(crate) fn insert_at(&mut self, data: &str, offset: usize) {
         // Ensure we have the capacity to insert this data.
         if data.len() > self.gap_length {
             // We're about to add space to the end of the buffer, so move the gap
@@ -76,12 +83,7 @@ impl GapBuffer {
             }
         }
 
-        let offset = match self.find_offset(position) {
-            Some(o) => o,
-            None => return,
-        };
-
-        self.move_gap(offset);
+        self.move_gap_to_content_offset(offset);
         self.write_to_gap(data);
     }
 
@@ -189,6 +191,14 @@ impl GapBuffer {
         Some(deleted)
     }
 
+    // Removes the specified number of bytes at an offset relative to the buffer's contents.
+    pub(crate) fn delete_at(&mut self, offset: usize, length: usize) {
+        self.move_gap_to_content_offset(offset);
+
+        // Widen the gap to cover the deleted contents.
+        self.gap_length += length;
+    }
+
     /// Checks whether or not the specified position is in bounds of the buffer data.
     ///
     /// # Examples
@@ -246,6 +256,26 @@ impl GapBuffer {
         None
     }
 
+    // Maps a position to its offset equivalent in the buffer's contents. Unlike data
+    // offsets, these don't depend on the location or length of the gap.
+    pub(crate) fn content_offset(&self, position: &Position) -> Option<usize> {
+        self.find_offset(position).map(|offset| {
+            if offset > self.gap_start {
+                offset - self.gap_length
+            } else {
+                offset
+            }
+        })
+    }
+
+    fn move_gap_to_content_offset(&mut self, offset: usize) {
+        if offset > self.gap_start {
+            self.move_gap(self.gap_length + offset);
+        } else {
+            self.move_gap(offset);
+        }
+    }
+
     fn move_gap(&mut self, offset: usize) {
         // We don't need to move any data if the buffer is at capacity.
         if self.gap_length == 0 {
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 02b98df..bb38709 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -4,20 +4,25 @@ use std::clone::Clone;
 
 /// A reversible buffer delete operation.
 ///
-/// Deletes the content at the specified range. Tracks the deleted content and specified
-/// range, and reverses the operation by (trivially) inserting the deleted content at
-/// the start of the specified range.
+/// Deletes the content at the specified range. Tracks the deleted content and its offset,
+/// and reverses the operation by (trivially) inserting the deleted content at said offset.
+/// The offset is required because deleting content can merge the grapheme clusters around
+/// it, in which case the start of the range will refer to a different location, or none.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the starting position of this operation when it is run or reversed.
 #[derive(Clone)]
 pub struct Delete {
     content: Option<String>,
+    offset: Option<usize>,
     range: Range,
 }
 
 impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
+        // Track where the content is before it's deleted.
+        self.offset = buffer.data.borrow().content_offset(&self.range.start());
+
         // Delete the data, storing the deleted content. We don't read this content beforehand,
         // since deleting can remove content for ranges whose end position doesn't exist.
         self.content = buffer.data.borrow_mut().delete(&self.range);
@@ -29,11 +34,8 @@ impl Operation for Delete {
     }
 
     fn reverse(&mut self, buffer: &mut Buffer) {
-        if let Some(ref content) = self.content {
-            buffer
-                .data
-                .borrow_mut()
-                .insert(content, &self.range.start());
+        if let (Some(content), Some(offset)) = (&self.content, self.offset) {
+            buffer.data.borrow_mut().insert_at(content, offset);
 
             // Run the change callback, if present.
             if let Some(ref callback) = buffer.change_callback {
@@ -52,6 +54,7 @@ impl Delete {
     pub fn new(range: Range) -> Delete {
         Delete {
             content: None,
+            offset: None,
             range,
         }
     }
diff --git a/src/buffer/operation/insert.rs b/src/buffer/operation/insert.rs
index 17d707b..45c19ce 100644
--- a/src/buffer/operation/insert.rs
+++ b/src/buffer/operation/insert.rs
@@ -1,14 +1,14 @@
 use crate::buffer::operation::Operation;
-use crate::buffer::{Buffer, Position, Range};
+use crate::buffer::{Buffer, Position};
 use std::clone::Clone;
 use std::convert::Into;
-use unicode_segmentation::UnicodeSegmentation;
 
 /// A reversible buffer insert operation.
 ///
-/// Inserts the provided content at the specified position. Tracks both, and reverses
-/// the operation by calculating the content's start and end positions (range), relative
-/// to its inserted location, and removing said range from the underlying buffer.
+/// Inserts the provided content at the specified position. Tracks both, along with the
+/// offset the position maps to, and reverses the operation by removing the content at said
+/// offset from the underlying buffer. We can't rely on positions to do so, as content can
+/// merge with the grapheme clusters around it, changing the positions it's made up of.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the position of this operation when it is run or reversed.
@@ -16,10 +16,14 @@ use unicode_segmentation::UnicodeSegmentation;
 pub struct Insert {
     content: String,
     position: Position,
+    offset: Option<usize>,
 }
 
 impl Operation for Insert {
     fn run(&mut self, buffer: &mut Buffer) {
+        // Track where the content will be before it's inserted.
+        self.offset = buffer.data.borrow().content_offset(&self.position);
+
         buffer
             .data
             .borrow_mut()
@@ -31,38 +35,14 @@ impl Operation for Insert {
         }
     }
 
-    // We need to calculate the range of the inserted content.
-    // The start of the range corresponds to the cursor position at the time of the insert,
-    // which we've stored. Finding the end of the range requires that we dig into the content.
     fn reverse(&mut self, buffer: &mut Buffer) {
-        // The line count of the content tells us the line number for the end of the
-        // range (just add the number of new lines to the starting line).
-        let line_count = self.content.chars().filter(|&c| c == '\n').count() + 1;
-        let end_line = self.position.line + line_count - 1;
-
-        let end_offset = if line_count == 1 {
-            // If there's only one line, the range starts and ends on the same line, and so its
-            // offset needs to take the original insertion location into consideration.
-            self.position.offset + self.content.graphemes(true).count()
-        } else {
-            // If there are multiple lines, the end of the range doesn't
-            // need to consider the original insertion location.
-            match self.content.split('\n').last() {
-                Some(line) => line.graphemes(true).count(),
-                None => return,
-            }
-        };
-
-        // Now that we have the required info,
-        // build the end position and total range.
-        let end_position = Position {
-            line: end_line,
-            offset: end_offset,
-        };
-        let range = Range::new(self.position, end_position);
-
-        // Remove the content we'd previously inserted.
-        buffer.data.borrow_mut().delete(&range);
+        // Remove the content we'd previously inserted, if its position was in bounds.
+        if let Some(offset) = self.offset {
+            buffer
+                .data
+                .borrow_mut()
+                .delete_at(offset, self.content.len());
+        }
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
@@ -78,7 +58,11 @@ impl Operation for Insert {
 impl Insert {
     /// Creates a new empty insert operation.
     pub fn new(content: String, position: Position) -> Insert {
-        Insert { content, position }
+        Insert {
+            content,
+            position,
+            offset: None,
+        }
     }
 }
 
-- 
2.43.0


From abd41ed9029ba3c4eb70ef61e6d14e66b34f1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 11/11] fix: lexeme positions counted clusters that span tokens
 more than once

---
 src/buffer/token/token_iterator.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index ad84584..ef77d65 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -99,10 +99,9 @@ impl<'a> TokenIterator<'a> {
                     }));
 
                     // The event/current offsets are byte-based, but
-                    // position offsets should be grapheme cluster-based.
-                    self.current_position.offset += line[self.current_byte_offset..end_of_token]
-                        .graphemes(true)
-                        .count();
+                    // position offsets should be grapheme cluster-based. Clusters can
+                    // span tokens, so they're counted from the start of the line.
+                    self.current_position.offset = line[..end_of_token].graphemes(true).count();
 
                     self.current_byte_offset = event_offset;
                 }
-- 
2.43.0

