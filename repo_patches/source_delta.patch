From aa1798a8da114fd90168c1233217c3507e9e3fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 01/83] fix: undo of a replace restores the old text over the
 replacement's extent

---
 crates/ass-editor/core/document/undo_redo.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index b62b543..301c320 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -47,10 +47,14 @@ impl EditorDocument {
                     result.new_cursor = entry.cursor_before;
                 }
                 Operation::Replace {
-                    range, old_text, ..
+                    range,
+                    old_text,
+                    new_text,
                 } => {
-                    // Undo replace by restoring old text
-                    self.replace_raw(*range, old_text)?;
+                    // Undo replace by restoring old text over the replacement,
+                    // which may differ in length from the original range
+                    let new_end = Position::new(range.start.offset + new_text.len());
+                    self.replace_raw(Range::new(range.start, new_end), old_text)?;
                     let end_pos = Position::new(range.start.offset + old_text.len());
                     result.modified_range = Some(Range::new(range.start, end_pos));
                     result.new_cursor = entry.cursor_before;
-- 
2.43.0


From 649a74bdfcec2e3e398b926b0dab3e297e85a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 02/83] fix: redo keeps the remaining redo history

---
 crates/ass-editor/core/document/undo_redo.rs | 12 ++----------
 crates/ass-editor/core/history/stack_impl.rs |  9 +++++++++
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index 301c320..a4ec2cc 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -149,16 +149,8 @@ impl EditorDocument {
                 self.history.set_cursor(Some(cursor));
             }
 
-            // Create a new history entry for the redo operation
-            let new_entry = crate::core::history::HistoryEntry::new(
-                entry.operation,
-                entry.description,
-                &result,
-                entry.cursor_before,
-            );
-
-            // Push back to undo stack
-            self.history.stack_mut().push(new_entry);
+            // Push back to undo stack, keeping any further redo entries
+            self.history.stack_mut().push_redone(entry);
 
             result.message = Some("Redo successful".to_string());
             Ok(result)
diff --git a/crates/ass-editor/core/history/stack_impl.rs b/crates/ass-editor/core/history/stack_impl.rs
index d647100..f807803 100644
--- a/crates/ass-editor/core/history/stack_impl.rs
+++ b/crates/ass-editor/core/history/stack_impl.rs
@@ -63,6 +63,15 @@ impl UndoStack {
         }
     }
 
+    /// Push an entry that was just redone back onto the undo stack
+    ///
+    /// Unlike [`push`](Self::push) this keeps the redo stack, because redoing
+    /// an operation does not invalidate the operations undone before it.
+    pub fn push_redone(&mut self, entry: HistoryEntry) {
+        self.current_memory += entry.memory_usage;
+        self.undo_stack.push_front(entry);
+    }
+
     /// Pop the most recent entry from the undo stack
     pub fn pop_undo(&mut self) -> Option<HistoryEntry> {
         if let Some(entry) = self.undo_stack.pop_front() {
-- 
2.43.0


From cd42b8b0517082ab2c5bb3835288b4c71c95881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 03/83] fix: undo restores the cursor, and undo/redo invalidate
 cached validation

---
 crates/ass-editor/core/document/undo_redo.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index a4ec2cc..92bade8 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -80,9 +80,15 @@ impl EditorDocument {
                 }
             }
 
+            // Restore the cursor to where it was before the operation
+            self.history.set_cursor(entry.cursor_before);
+
             // Push to redo stack for future redo
             self.history.push_redo_entry(entry);
 
+            // Clear validation cache since content changed
+            self.validator.clear_cache();
+
             // Apply script delta if available
             #[cfg(feature = "stream")]
             if let Some(delta) = result.script_delta.as_ref() {
@@ -152,6 +158,9 @@ impl EditorDocument {
             // Push back to undo stack, keeping any further redo entries
             self.history.stack_mut().push_redone(entry);
 
+            // Clear validation cache since content changed
+            self.validator.clear_cache();
+
             result.message = Some("Redo successful".to_string());
             Ok(result)
         } else {
-- 
2.43.0


From 802a171ceef22035949f11fa9b423a2a8a259683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 04/83] fix: incremental edits are undoable, notify observers
 and invalidate cached validation

---
 .../core/document/incremental_edit.rs         | 24 ++++++++-----------
 .../core/document/incremental_fast.rs         | 17 ++++++++++---
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/crates/ass-editor/core/document/incremental_edit.rs b/crates/ass-editor/core/document/incremental_edit.rs
index 0218252..0aed054 100644
--- a/crates/ass-editor/core/document/incremental_edit.rs
+++ b/crates/ass-editor/core/document/incremental_edit.rs
@@ -39,10 +39,7 @@ impl EditorDocument {
         }
 
         // Get the old text for undo data
-        #[cfg(feature = "std")]
         let old_text = self.text_range(range)?;
-        #[cfg(not(feature = "std"))]
-        let _old_text = self.text_range(range)?;
 
         // Apply change with incremental parsing (includes fallback to full parse)
         let current_text = self.text();
@@ -80,13 +77,15 @@ impl EditorDocument {
             }
         };
 
-        // Create undo data from the delta (must be captured BEFORE applying changes)
-        let undo_data = self.capture_delta_undo_data(&delta)?;
+        // Apply the text change before recording it
+        self.replace_raw(range, new_text)?;
 
-        // Create delta operation for history
-        let operation = Operation::Delta {
-            forward: delta.clone(),
-            undo_data,
+        // Create text operation for history (the delta does not carry enough
+        // information to restore the exact previous text)
+        let operation = Operation::Replace {
+            range,
+            old_text: old_text.clone(),
+            new_text: new_text.to_string(),
         };
 
         // Create command result
@@ -103,11 +102,8 @@ impl EditorDocument {
             &result_with_delta,
         );
 
-        // Apply the text change
-        self.replace_raw(range, new_text)?;
-
-        // Mark as modified
-        self.modified = true;
+        // Clear validation cache since content changed
+        self.validator.clear_cache();
 
         // Emit event
         #[cfg(feature = "std")]
diff --git a/crates/ass-editor/core/document/incremental_fast.rs b/crates/ass-editor/core/document/incremental_fast.rs
index bcb1df5..e57ed9e 100644
--- a/crates/ass-editor/core/document/incremental_fast.rs
+++ b/crates/ass-editor/core/document/incremental_fast.rs
@@ -10,6 +10,9 @@ use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 use ass_core::parser::script::ScriptDeltaOwned;
 
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
     string::{String, ToString},
@@ -46,7 +49,7 @@ impl EditorDocument {
         let operation = Operation::Replace {
             range,
             new_text: new_text.to_string(),
-            old_text,
+            old_text: old_text.clone(),
         };
 
         // Create result
@@ -59,8 +62,16 @@ impl EditorDocument {
         self.history
             .record_operation(operation, "Fast character insert".to_string(), &result);
 
-        // Mark as modified
-        self.modified = true;
+        // Clear validation cache since content changed
+        self.validator.clear_cache();
+
+        // Emit event
+        #[cfg(feature = "std")]
+        self.emit(DocumentEvent::TextReplaced {
+            range,
+            old_text,
+            new_text: new_text.to_string(),
+        });
 
         // Return minimal delta
         Ok(ScriptDeltaOwned {
-- 
2.43.0


From 8b00a1d799e0175b3546f552e11a08d2abc2e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 05/83] fix: commands and batches execute atomically and undo
 exactly

---
 crates/ass-editor/commands/batch_command.rs   |  36 +++---
 crates/ass-editor/core/document/validation.rs | 115 +++++++++---------
 2 files changed, 81 insertions(+), 70 deletions(-)

diff --git a/crates/ass-editor/commands/batch_command.rs b/crates/ass-editor/commands/batch_command.rs
index 29308bb..979ff4c 100644
--- a/crates/ass-editor/commands/batch_command.rs
+++ b/crates/ass-editor/commands/batch_command.rs
@@ -56,6 +56,28 @@ impl BatchCommand {
 
 impl EditorCommand for BatchCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
+        // All sub-commands apply, or none of them does
+        document.execute_as_unit(&self.description, |document| self.run(document))
+    }
+
+    fn description(&self) -> &str {
+        &self.description
+    }
+
+    fn memory_usage(&self) -> usize {
+        core::mem::size_of::<Self>()
+            + self.description.len()
+            + self
+                .commands
+                .iter()
+                .map(|c| c.memory_usage())
+                .sum::<usize>()
+    }
+}
+
+impl BatchCommand {
+    /// Execute the sub-commands in order, stopping at the first failure
+    fn run(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let mut overall_result = CommandResult::success();
         let mut first_range: Option<Range> = None;
         let mut last_cursor: Option<Position> = None;
@@ -92,18 +114,4 @@ impl EditorCommand for BatchCommand {
 
         Ok(overall_result)
     }
-
-    fn description(&self) -> &str {
-        &self.description
-    }
-
-    fn memory_usage(&self) -> usize {
-        core::mem::size_of::<Self>()
-            + self.description.len()
-            + self
-                .commands
-                .iter()
-                .map(|c| c.memory_usage())
-                .sum::<usize>()
-    }
 }
diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index ecac929..0eb6012 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -46,70 +46,73 @@ impl EditorDocument {
         &mut self,
         command: &dyn crate::commands::EditorCommand,
     ) -> Result<crate::commands::CommandResult> {
-        use crate::core::history::Operation;
-
-        // Get the cursor position before
-        let _cursor_before = self.cursor_position();
+        self.execute_as_unit(command.description(), |document| command.execute(document))
+    }
 
-        // Execute the command
-        let result = command.execute(self)?;
+    /// Run an edit as one all-or-nothing, undoable unit
+    ///
+    /// History entries recorded while `edit` runs are replaced by a single
+    /// entry covering the whole change. If `edit` fails, the document text is
+    /// restored and nothing is recorded.
+    pub(crate) fn execute_as_unit<F>(
+        &mut self,
+        description: &str,
+        edit: F,
+    ) -> Result<crate::commands::CommandResult>
+    where
+        F: FnOnce(&mut Self) -> Result<crate::commands::CommandResult>,
+    {
+        use crate::core::history::{Operation, UndoManager};
+
+        let before = self.text();
+        let was_modified = self.modified;
+
+        // Collect anything the edit records in a scratch history
+        let mut scratch = UndoManager::new();
+        scratch.set_cursor(self.history.cursor_position());
+        let history = core::mem::replace(&mut self.history, scratch);
+        let outcome = edit(self);
+        self.history = history;
+
+        let after = self.text();
+        let result = match outcome {
+            Ok(result) if result.success => result,
+            failed => {
+                if after != before {
+                    let everything = Range::new(Position::new(0), Position::new(after.len()));
+                    self.replace_raw(everything, &before)?;
+                    self.validator.clear_cache();
+                }
+                self.modified = was_modified;
+                return failed;
+            }
+        };
 
         // Only record if the command changed content
         if result.content_changed {
-            // Determine the operation based on the result
-            let operation = if let Some(range) = result.modified_range {
-                if range.is_empty() {
-                    // This was an insertion
-                    let inserted_text = self.text_range(Range::new(
-                        range.start,
-                        Position::new(
-                            range.start.offset
-                                + result
-                                    .new_cursor
-                                    .map_or(0, |c| c.offset - range.start.offset),
-                        ),
-                    ))?;
-                    Operation::Insert {
-                        position: range.start,
-                        text: inserted_text,
-                    }
-                } else {
-                    // For batch commands and complex operations, we need to be more careful
-                    // Store enough information to properly undo
-                    // This is a simplified approach - ideally each command would handle its own undo
-                    let cmd_desc = command.description();
-                    if cmd_desc.contains("batch") || cmd_desc.contains("Multiple") {
-                        // For batch operations, we don't have enough info
-                        // Just use a simple insert operation
-                        Operation::Insert {
-                            position: range.start,
-                            text: String::new(),
-                        }
-                    } else {
-                        // For simple operations, use the range info
-                        Operation::Replace {
-                            range,
-                            old_text: String::new(), // We don't have the old text
-                            new_text: self.text_range(range).unwrap_or_default(),
-                        }
-                    }
-                }
-            } else {
-                // No range info - create a generic operation
-                Operation::Insert {
-                    position: Position::new(0),
-                    text: String::new(),
-                }
+            // Record the smallest replacement that covers the change
+            let prefix: usize = before
+                .chars()
+                .zip(after.chars())
+                .take_while(|(old, new)| old == new)
+                .map(|(old, _)| old.len_utf8())
+                .sum();
+            let suffix: usize = before[prefix..]
+                .chars()
+                .rev()
+                .zip(after[prefix..].chars().rev())
+                .take_while(|(old, new)| old == new)
+                .map(|(old, _)| old.len_utf8())
+                .sum();
+            let operation = Operation::Replace {
+                range: Range::new(Position::new(prefix), Position::new(before.len() - suffix)),
+                old_text: before[prefix..before.len() - suffix].to_string(),
+                new_text: after[prefix..after.len() - suffix].to_string(),
             };
 
-            // Update cursor if needed
-            if let Some(new_cursor) = result.new_cursor {
-                self.set_cursor_position(Some(new_cursor));
-            }
-
             // Record in history
             self.history
-                .record_operation(operation, command.description().to_string(), &result);
+                .record_operation(operation, description.to_string(), &result);
 
             // Clear validation cache since content changed
             self.validator.clear_cache();
-- 
2.43.0


From c6449f286b891cfb0a4b0cdafb1e6f077d292e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 06/83] fix: script-info, tag, karaoke and media commands
 record their edits for undo

---
 .../commands/fonts_graphics_commands/add.rs          | 12 ++++++------
 .../commands/karaoke_commands/adjust_impl.rs         |  2 +-
 .../commands/karaoke_commands/apply_impl.rs          |  2 +-
 .../ass-editor/commands/karaoke_commands/generate.rs |  2 +-
 crates/ass-editor/commands/karaoke_commands/split.rs |  2 +-
 .../ass-editor/commands/script_info_commands/set.rs  |  2 +-
 crates/ass-editor/commands/tag_commands/insert.rs    |  2 +-
 crates/ass-editor/commands/tag_commands/remove.rs    |  2 +-
 crates/ass-editor/commands/tag_commands/replace.rs   |  2 +-
 crates/ass-editor/commands/tag_commands/wrap.rs      |  4 ++--
 10 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/add.rs b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
index 61053e1..4b623d4 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/add.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
@@ -61,12 +61,12 @@ impl EditorCommand for AddFontCommand {
 
             // Add newline if needed
             if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
+                document.insert(Position::new(insert_pos), "\n")?;
                 insert_pos += 1;
             }
 
             // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Fonts]\n")?;
+            document.insert(Position::new(insert_pos), "[Fonts]\n")?;
             insert_pos + "[Fonts]\n".len()
         };
 
@@ -79,7 +79,7 @@ impl EditorCommand for AddFontCommand {
         }
 
         // Insert font data
-        document.insert_raw(Position::new(insert_pos), &font_entry)?;
+        document.insert(Position::new(insert_pos), &font_entry)?;
 
         Ok(CommandResult::success_with_change(
             Range::new(
@@ -151,12 +151,12 @@ impl EditorCommand for AddGraphicCommand {
 
             // Add newline if needed
             if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
+                document.insert(Position::new(insert_pos), "\n")?;
                 insert_pos += 1;
             }
 
             // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Graphics]\n")?;
+            document.insert(Position::new(insert_pos), "[Graphics]\n")?;
             insert_pos + "[Graphics]\n".len()
         };
 
@@ -169,7 +169,7 @@ impl EditorCommand for AddGraphicCommand {
         }
 
         // Insert graphic data
-        document.insert_raw(Position::new(insert_pos), &graphic_entry)?;
+        document.insert(Position::new(insert_pos), &graphic_entry)?;
 
         Ok(CommandResult::success_with_change(
             Range::new(
diff --git a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
index 40086b8..bc1b4f0 100644
--- a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
@@ -16,7 +16,7 @@ impl EditorCommand for AdjustKaraokeCommand {
         let original_text = document.text_range(self.range)?;
         let adjusted_text = self.adjust_karaoke_timing(&original_text)?;
 
-        document.replace_raw(self.range, &adjusted_text)?;
+        document.replace(self.range, &adjusted_text)?;
 
         let end_pos = Position::new(self.range.start.offset + adjusted_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
index dcf47b5..acc59f9 100644
--- a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
@@ -17,7 +17,7 @@ impl EditorCommand for ApplyKaraokeCommand {
         let original_text = document.text_range(self.event_range)?;
         let karaoke_text = self.apply_karaoke_template(&original_text, document)?;
 
-        document.replace_raw(self.event_range, &karaoke_text)?;
+        document.replace(self.event_range, &karaoke_text)?;
 
         let end_pos = Position::new(self.event_range.start.offset + karaoke_text.len());
         let range = Range::new(self.event_range.start, end_pos);
diff --git a/crates/ass-editor/commands/karaoke_commands/generate.rs b/crates/ass-editor/commands/karaoke_commands/generate.rs
index 0d2c583..331db83 100644
--- a/crates/ass-editor/commands/karaoke_commands/generate.rs
+++ b/crates/ass-editor/commands/karaoke_commands/generate.rs
@@ -154,7 +154,7 @@ impl EditorCommand for GenerateKaraokeCommand {
             karaoke_text.push_str(syllable);
         }
 
-        document.replace_raw(self.range, &karaoke_text)?;
+        document.replace(self.range, &karaoke_text)?;
 
         let end_pos = Position::new(self.range.start.offset + karaoke_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/karaoke_commands/split.rs b/crates/ass-editor/commands/karaoke_commands/split.rs
index 61b6c94..8fa7294 100644
--- a/crates/ass-editor/commands/karaoke_commands/split.rs
+++ b/crates/ass-editor/commands/karaoke_commands/split.rs
@@ -40,7 +40,7 @@ impl EditorCommand for SplitKaraokeCommand {
         let original_text = document.text_range(self.range)?;
         let processed_text = self.split_karaoke_text(&original_text)?;
 
-        document.replace_raw(self.range, &processed_text)?;
+        document.replace(self.range, &processed_text)?;
 
         let end_pos = Position::new(self.range.start.offset + processed_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index 04c1de9..b572466 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -76,7 +76,7 @@ impl EditorCommand for SetScriptInfoCommand {
                 .unwrap_or(script_info_start + 13); // Length of "[Script Info]"
 
             let new_line = format!("{}: {}\n", self.property, self.value);
-            document.insert_raw(Position::new(insert_pos), &new_line)?;
+            document.insert(Position::new(insert_pos), &new_line)?;
 
             Ok(CommandResult::success_with_change(
                 Range::new(
diff --git a/crates/ass-editor/commands/tag_commands/insert.rs b/crates/ass-editor/commands/tag_commands/insert.rs
index 83a0682..0730015 100644
--- a/crates/ass-editor/commands/tag_commands/insert.rs
+++ b/crates/ass-editor/commands/tag_commands/insert.rs
@@ -68,7 +68,7 @@ impl InsertTagCommand {
 impl EditorCommand for InsertTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let formatted_tag = self.format_tag()?;
-        document.insert_raw(self.position, &formatted_tag)?;
+        document.insert(self.position, &formatted_tag)?;
 
         let end_pos = Position::new(self.position.offset + formatted_tag.len());
         let range = Range::new(self.position, end_pos);
diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index be7a97a..79a0656 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -51,7 +51,7 @@ impl EditorCommand for RemoveTagCommand {
         let original_text = document.text_range(self.range)?;
         let cleaned_text = self.remove_tags_from_text(&original_text)?;
 
-        document.replace_raw(self.range, &cleaned_text)?;
+        document.replace(self.range, &cleaned_text)?;
 
         let end_pos = Position::new(self.range.start.offset + cleaned_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/tag_commands/replace.rs b/crates/ass-editor/commands/tag_commands/replace.rs
index ab54b36..5280729 100644
--- a/crates/ass-editor/commands/tag_commands/replace.rs
+++ b/crates/ass-editor/commands/tag_commands/replace.rs
@@ -50,7 +50,7 @@ impl EditorCommand for ReplaceTagCommand {
         let original_text = document.text_range(self.range)?;
         let replaced_text = self.replace_tags_in_text(&original_text)?;
 
-        document.replace_raw(self.range, &replaced_text)?;
+        document.replace(self.range, &replaced_text)?;
 
         let end_pos = Position::new(self.range.start.offset + replaced_text.len());
         let range = Range::new(self.range.start, end_pos);
diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 9ad050d..5e10071 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -81,11 +81,11 @@ impl EditorCommand for WrapTagCommand {
 
         // Insert closing tag first (so positions don't shift)
         let closing_formatted = format!("{{{closing_tag}}}");
-        document.insert_raw(self.range.end, &closing_formatted)?;
+        document.insert(self.range.end, &closing_formatted)?;
 
         // Insert opening tag
         let opening_formatted = format!("{{{}}}", self.opening_tag);
-        document.insert_raw(self.range.start, &opening_formatted)?;
+        document.insert(self.range.start, &opening_formatted)?;
 
         let total_length = opening_formatted.len()
             + (self.range.end.offset - self.range.start.offset)
-- 
2.43.0


From 353d823d8395ad0b7ecbd22fe06da7d295e82d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 07/83] fix: edits reject offsets inside a UTF-8 character
 instead of corrupting history

---
 .../ass-editor/core/document/editing_raw.rs   | 24 +++++++++++++++++++
 .../ass-editor/core/document/text_access.rs   |  1 +
 2 files changed, 25 insertions(+)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 9f8e595..5d01907 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -16,6 +16,7 @@ impl EditorDocument {
                 length: self.len_bytes(),
             });
         }
+        self.check_char_boundaries(Range::new(pos, pos))?;
 
         #[cfg(feature = "rope")]
         {
@@ -41,6 +42,7 @@ impl EditorDocument {
                 length: self.len_bytes(),
             });
         }
+        self.check_char_boundaries(range)?;
 
         #[cfg(feature = "rope")]
         {
@@ -59,6 +61,28 @@ impl EditorDocument {
         Ok(())
     }
 
+    /// Reject in-bounds ranges that start or end inside a UTF-8 character
+    pub(super) fn check_char_boundaries(&self, range: Range) -> Result<()> {
+        #[cfg(feature = "rope")]
+        let is_boundary = |offset: usize| {
+            self.text_rope
+                .char_to_byte(self.text_rope.byte_to_char(offset))
+                == offset
+        };
+        #[cfg(not(feature = "rope"))]
+        let is_boundary = |offset: usize| self.text_content.is_char_boundary(offset);
+
+        if is_boundary(range.start.offset) && is_boundary(range.end.offset) {
+            Ok(())
+        } else {
+            Err(EditorError::InvalidRange {
+                start: range.start.offset,
+                end: range.end.offset,
+                length: self.len_bytes(),
+            })
+        }
+    }
+
     /// Replace text in range (low-level operation without undo)
     pub(crate) fn replace_raw(&mut self, range: Range, text: &str) -> Result<()> {
         self.delete_raw(range)?;
diff --git a/crates/ass-editor/core/document/text_access.rs b/crates/ass-editor/core/document/text_access.rs
index 0ef773b..c8e192b 100644
--- a/crates/ass-editor/core/document/text_access.rs
+++ b/crates/ass-editor/core/document/text_access.rs
@@ -88,6 +88,7 @@ impl EditorDocument {
                 length: self.len_bytes(),
             });
         }
+        self.check_char_boundaries(range)?;
 
         #[cfg(feature = "rope")]
         {
-- 
2.43.0


From 3e042586315f2166fbe85505c083eec5feb767d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 08/83] fix: fluent text commands and quick edits go through
 undo history

---
 crates/ass-editor/commands/fluent_builder.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/ass-editor/commands/fluent_builder.rs b/crates/ass-editor/commands/fluent_builder.rs
index 740295e..ee2f190 100644
--- a/crates/ass-editor/commands/fluent_builder.rs
+++ b/crates/ass-editor/commands/fluent_builder.rs
@@ -2,9 +2,7 @@
 
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
-use super::{
-    CommandResult, DeleteTextCommand, EditorCommand, InsertTextCommand, ReplaceTextCommand,
-};
+use super::{CommandResult, DeleteTextCommand, InsertTextCommand, ReplaceTextCommand};
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -62,7 +60,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Position not set for insert operation"))?;
 
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Delete text in the current range
@@ -72,7 +70,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for delete operation"))?;
 
         let command = DeleteTextCommand::new(range);
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Replace text in the current range
@@ -82,7 +80,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for replace operation"))?;
 
         let command = ReplaceTextCommand::new(range, new_text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 }
 
@@ -108,16 +106,16 @@ impl DocumentCommandExt for EditorDocument {
 
     fn insert_at(&mut self, position: Position, text: &str) -> Result<CommandResult> {
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn delete_range(&mut self, range: Range) -> Result<CommandResult> {
         let command = DeleteTextCommand::new(range);
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn replace_range(&mut self, range: Range, text: &str) -> Result<CommandResult> {
         let command = ReplaceTextCommand::new(range, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 }
-- 
2.43.0


From d639344f60a6cbf1c3104a71b8664cb4b59d1afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 09/83] fix: applying a script delta is recorded for exact undo

---
 .../ass-editor/core/document/delta_apply.rs   |  22 +---
 crates/ass-editor/core/document/delta_undo.rs | 119 ------------------
 crates/ass-editor/core/document/mod.rs        |   2 -
 3 files changed, 6 insertions(+), 137 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/delta_undo.rs

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index a676159..cb9a087 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -18,23 +18,13 @@ use alloc::string::ToString;
 impl EditorDocument {
     /// Apply a script delta and record it with undo data
     pub fn apply_script_delta(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
-        use crate::core::history::Operation;
+        self.execute_as_unit("Apply delta", |document| {
+            document.apply_script_delta_internal(delta)?;
 
-        // Capture undo data before applying
-        let undo_data = self.capture_delta_undo_data(&delta)?;
-
-        // Apply delta
-        self.apply_script_delta_internal(delta.clone())?;
-
-        // Record with undo data
-        let operation = Operation::Delta {
-            forward: delta,
-            undo_data,
-        };
-
-        let result = CommandResult::success();
-        self.history
-            .record_operation(operation, "Apply delta".to_string(), &result);
+            let mut result = CommandResult::success();
+            result.content_changed = true;
+            Ok(result)
+        })?;
 
         Ok(())
     }
diff --git a/crates/ass-editor/core/document/delta_undo.rs b/crates/ass-editor/core/document/delta_undo.rs
deleted file mode 100644
index d0a7f8d..0000000
--- a/crates/ass-editor/core/document/delta_undo.rs
+++ /dev/null
@@ -1,119 +0,0 @@
-//! Capturing undo data for script deltas
-//!
-//! Snapshots the pre-edit text of sections that a delta will remove or
-//! modify so the change can later be reversed. Exposed as `pub(super)` for
-//! the apply and incremental-edit submodules.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-use ass_core::parser::ast::Section;
-use ass_core::parser::script::ScriptDeltaOwned;
-
-#[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
-
-impl EditorDocument {
-    /// Capture undo data before applying a delta
-    pub(super) fn capture_delta_undo_data(
-        &self,
-        delta: &ScriptDeltaOwned,
-    ) -> Result<crate::core::history::DeltaUndoData> {
-        let mut removed_sections = Vec::new();
-        let mut modified_sections = Vec::new();
-
-        // First, get the current content for section extraction
-        let content = self.text();
-
-        // For incremental edits, use simplified undo data to avoid expensive full parsing
-        // Only do detailed section analysis for larger operations
-        #[cfg(feature = "stream")]
-        let is_small_edit = delta.added.len() + delta.removed.len() + delta.modified.len() <= 2;
-        #[cfg(not(feature = "stream"))]
-        let is_small_edit = false;
-
-        if is_small_edit {
-            // For small incremental edits, skip expensive undo data capture
-            // The basic text-based undo in edit_incremental will handle this
-        } else {
-            // For larger operations, do full undo data capture
-            let _ = self.parse_script_with(|script| {
-                // Capture removed sections
-                for &index in &delta.removed {
-                    if let Some(section) = script.sections().get(index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => removed_sections.push((index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                removed_sections.push((index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                // Capture original state of modified sections
-                for (index, _) in &delta.modified {
-                    if let Some(section) = script.sections().get(*index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => modified_sections.push((*index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                modified_sections.push((*index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                Ok::<(), EditorError>(())
-            })?;
-        }
-
-        Ok(crate::core::history::DeltaUndoData {
-            removed_sections,
-            modified_sections,
-        })
-    }
-
-    /// Extract section text from content
-    fn extract_section_text(&self, content: &str, section: &Section) -> Result<String> {
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
-        };
-
-        // Find the header in the content
-        let start = content
-            .find(header)
-            .ok_or_else(|| EditorError::SectionNotFound {
-                section: header.to_string(),
-            })?;
-
-        // Find the next section header or end of document
-        let section_headers = [
-            "[Script Info]",
-            "[V4+ Styles]",
-            "[Events]",
-            "[Fonts]",
-            "[Graphics]",
-        ];
-
-        let end = content[start + header.len()..]
-            .find(|_c: char| {
-                for sh in &section_headers {
-                    if content[start + header.len()..].starts_with(sh) {
-                        return true;
-                    }
-                }
-                false
-            })
-            .map(|pos| start + header.len() + pos)
-            .unwrap_or(content.len());
-
-        Ok(content[start..end].to_string())
-    }
-}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index ccf331f..7fe26bd 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -24,8 +24,6 @@ mod delta_apply;
 #[cfg(feature = "stream")]
 mod delta_sections;
 #[cfg(feature = "stream")]
-mod delta_undo;
-#[cfg(feature = "stream")]
 mod incremental_edit;
 #[cfg(feature = "stream")]
 mod incremental_fast;
-- 
2.43.0


From ae1f8f39df2d1a97cecc5030282c0a51d4e58e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:46 +0000
Subject: [PATCH 10/83] fix: incremental edits resynchronise a stale parse
 cache instead of panicking

---
 crates/ass-editor/core/incremental/apply.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ass-editor/core/incremental/apply.rs b/crates/ass-editor/core/incremental/apply.rs
index 5ccf12f..5360ca9 100644
--- a/crates/ass-editor/core/incremental/apply.rs
+++ b/crates/ass-editor/core/incremental/apply.rs
@@ -23,6 +23,15 @@ impl IncrementalParser {
         range: Range,
         new_text: &str,
     ) -> Result<ScriptDeltaOwned> {
+        // The document may have been edited by other means since the last change
+        if self
+            .cached_script
+            .as_deref()
+            .is_some_and(|cached| cached != document_text)
+        {
+            self.initialize_cache(document_text);
+        }
+
         // If we don't have a cached script or too many changes accumulated, do full parse
         if self.cached_script.is_none() || self.bytes_changed >= self.reparse_threshold {
             return self.full_reparse(document_text);
-- 
2.43.0


From 6f87c01cf3307600709bf0f070c7fbc35e39af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 11/83] fix: report parse issues at the line they occur on

Blank lines skipped between sections were not counted, so every later
issue and span line was too small, and a malformed or unknown section
was reported at the line of the section after it.
---
 crates/ass-core/parser/main/helpers.rs | 4 +++-
 crates/ass-core/parser/main/parse.rs   | 3 ++-
 crates/ass-core/parser/main/section.rs | 5 +++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/parser/main/helpers.rs b/crates/ass-core/parser/main/helpers.rs
index 64a503a..c773099 100644
--- a/crates/ass-core/parser/main/helpers.rs
+++ b/crates/ass-core/parser/main/helpers.rs
@@ -41,7 +41,9 @@ impl Parser<'_> {
             if trimmed.starts_with(';') || trimmed.starts_with("!:") {
                 self.skip_line();
             } else if trimmed != remaining {
-                self.position += remaining.len() - trimmed.len();
+                let skipped = &remaining[..remaining.len() - trimmed.len()];
+                self.line += skipped.matches('\n').count();
+                self.position += skipped.len();
             } else {
                 break;
             }
diff --git a/crates/ass-core/parser/main/parse.rs b/crates/ass-core/parser/main/parse.rs
index 99df315..14099ae 100644
--- a/crates/ass-core/parser/main/parse.rs
+++ b/crates/ass-core/parser/main/parse.rs
@@ -58,6 +58,7 @@ impl<'a> Parser<'a> {
                 break;
             }
 
+            let section_line = self.line;
             match self.parse_section() {
                 Ok(section) => self.sections.push(section),
                 Err(e) => {
@@ -74,7 +75,7 @@ impl<'a> Parser<'a> {
                         severity,
                         IssueCategory::Structure,
                         message,
-                        self.line,
+                        section_line,
                     ));
 
                     self.skip_to_next_section();
diff --git a/crates/ass-core/parser/main/section.rs b/crates/ass-core/parser/main/section.rs
index 82e0018..88c6db0 100644
--- a/crates/ass-core/parser/main/section.rs
+++ b/crates/ass-core/parser/main/section.rs
@@ -31,6 +31,7 @@ impl<'a> Parser<'a> {
         })? + self.position;
 
         let section_name = &self.source[self.position + 1..header_end];
+        let header_line = self.line;
         self.position = header_end + 1;
         self.skip_line();
 
@@ -110,7 +111,7 @@ impl<'a> Parser<'a> {
                 let suggestion = self.skip_to_next_section();
                 let error = ParseError::UnknownSection {
                     section: section_name.to_string(),
-                    line: self.line,
+                    line: header_line,
                 };
 
                 // Add suggestion to issues if we found one
@@ -119,7 +120,7 @@ impl<'a> Parser<'a> {
                         severity: IssueSeverity::Info,
                         category: IssueCategory::Structure,
                         message: suggestion_text,
-                        line: self.line,
+                        line: header_line,
                         column: Some(0),
                         span: None,
                         suggestion: None,
-- 
2.43.0


From bafa462d7e28d4291952b10452daf208ceb80c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 12/83] fix: an unclosed section header ends at its own line

The closing bracket was searched for in the rest of the file, so a
header without one swallowed everything up to the end of the next
section header, including that section.
---
 crates/ass-core/parser/main/section.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/parser/main/section.rs b/crates/ass-core/parser/main/section.rs
index 88c6db0..28d6516 100644
--- a/crates/ass-core/parser/main/section.rs
+++ b/crates/ass-core/parser/main/section.rs
@@ -26,9 +26,16 @@ impl<'a> Parser<'a> {
             }));
         }
 
-        let header_end = self.source[self.position..].find(']').ok_or_else(|| {
-            CoreError::from(ParseError::UnclosedSectionHeader { line: self.line })
-        })? + self.position;
+        // A header ends on its own line: a missing bracket must not swallow later sections
+        let header_line_end = self.source[self.position..]
+            .find('\n')
+            .map_or(self.source.len(), |i| self.position + i);
+        let header_end = self.source[self.position..header_line_end]
+            .find(']')
+            .ok_or_else(|| {
+                CoreError::from(ParseError::UnclosedSectionHeader { line: self.line })
+            })?
+            + self.position;
 
         let section_name = &self.source[self.position + 1..header_end];
         let header_line = self.line;
-- 
2.43.0


From d6bdf8ebe90bcf41128f5260b3a05d485a5238d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 13/83] fix: '`' decodes to zero in UU data

Standard UU encoders write '`' for zero; without the mask its high bit
leaked into the neighbouring byte.
---
 crates/ass-core/utils/uu.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/utils/uu.rs b/crates/ass-core/utils/uu.rs
index c7800d3..0e2e1fc 100644
--- a/crates/ass-core/utils/uu.rs
+++ b/crates/ass-core/utils/uu.rs
@@ -83,11 +83,11 @@ where
                 group[i] = byte;
             }
 
-            // Decode 4 characters to 3 bytes
-            let c1 = group[0].wrapping_sub(b' ');
-            let c2 = group[1].wrapping_sub(b' ');
-            let c3 = group[2].wrapping_sub(b' ');
-            let c4 = group[3].wrapping_sub(b' ');
+            // Decode 4 characters to 3 bytes ('`' stands for zero like the space does)
+            let c1 = group[0].wrapping_sub(b' ') & 0x3F;
+            let c2 = group[1].wrapping_sub(b' ') & 0x3F;
+            let c3 = group[2].wrapping_sub(b' ') & 0x3F;
+            let c4 = group[3].wrapping_sub(b' ') & 0x3F;
 
             let decoded_byte1 = (c1 << 2) | (c2 >> 4);
             let decoded_byte2 = ((c2 & 0x0F) << 4) | (c3 >> 2);
-- 
2.43.0


From 712a16e83d68eba9022f1e6cc486bea180e2f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:53 +0000
Subject: [PATCH 14/83] fix: keep UU-encoded lines that look like comments and
 split adjacent entries

A data line whose length character is ';' or '!', or '#' followed by a
space, was dropped as a comment, and an entry following another without
a blank line was read as its data.
---
 .../parser/binary_data/binary_parser.rs       | 51 +++++++++++++++----
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/crates/ass-core/parser/binary_data/binary_parser.rs b/crates/ass-core/parser/binary_data/binary_parser.rs
index 03516a9..8814660 100644
--- a/crates/ass-core/parser/binary_data/binary_parser.rs
+++ b/crates/ass-core/parser/binary_data/binary_parser.rs
@@ -66,26 +66,28 @@ impl<'a, T> BinaryDataParser<'a, T> {
         let entry_start = self.tracker.checkpoint();
         let line = self.current_line();
 
-        if let Some(colon_pos) = line.find(':') {
-            let key = line[..colon_pos].trim();
-            if key == self.entry_key {
-                let filename = line[colon_pos + 1..].trim();
-                self.tracker.skip_line();
+        if let Some(filename) = self.entry_filename(line) {
+            self.tracker.skip_line();
 
-                let data_lines = self.collect_data_lines();
+            let data_lines = self.collect_data_lines();
 
-                // Calculate span for this entry (from filename line to end of data)
-                let entry_end = self.tracker.checkpoint();
-                let span = entry_end.span_from(&entry_start);
+            // Calculate span for this entry (from filename line to end of data)
+            let entry_end = self.tracker.checkpoint();
+            let span = entry_end.span_from(&entry_start);
 
-                return Some((self.constructor)(filename, data_lines, span));
-            }
+            return Some((self.constructor)(filename, data_lines, span));
         }
 
         self.tracker.skip_line();
         None
     }
 
+    /// Filename introduced by `line` if it starts an entry
+    fn entry_filename(&self, line: &'a str) -> Option<&'a str> {
+        let (key, filename) = line.split_once(':')?;
+        (key.trim() == self.entry_key).then(|| filename.trim())
+    }
+
     /// Collect UU-encoded data lines until next section or empty line
     fn collect_data_lines(&mut self) -> Vec<&'a str> {
         let mut data_lines = Vec::new();
@@ -98,6 +100,18 @@ impl<'a, T> BinaryDataParser<'a, T> {
                 break;
             }
 
+            // The next entry may follow without a blank line in between
+            if self.entry_filename(data_line).is_some() {
+                break;
+            }
+
+            // A complete UU-encoded line is data whatever its length character looks like
+            if is_uu_line(data_line) {
+                data_lines.push(data_line);
+                self.tracker.skip_line();
+                continue;
+            }
+
             // Skip comment lines
             if trimmed.starts_with(';') || trimmed.starts_with('!') {
                 self.tracker.skip_line();
@@ -154,3 +168,18 @@ impl<'a, T> BinaryDataParser<'a, T> {
         }
     }
 }
+
+/// Whether `line` is a complete UU-encoded line: a length character followed by
+/// as many encoded characters as that length requires.
+fn is_uu_line(line: &str) -> bool {
+    let bytes = line.strip_suffix('\r').unwrap_or(line).as_bytes();
+    let Some((&first, encoded)) = bytes.split_first() else {
+        return false;
+    };
+    let length = usize::from(first.wrapping_sub(b' '));
+    let full = length.div_ceil(3) * 4;
+
+    (1..=45).contains(&length)
+        && (encoded.len() == full || (length % 3 == 1 && encoded.len() == full - 1))
+        && encoded.iter().all(|byte| (b' '..=b'`').contains(byte))
+}
-- 
2.43.0


From 8d763722aa06a61cbc44daac9a1bc83e94eb54ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 15/83] fix: serialization keeps style inheritance and fields
 of any case

The '*Parent,' prefix was dropped, and fields named in the Format line
with unusual case were read but written back empty.
---
 .../parser/ast/event/serialization.rs         | 26 ++++----
 .../ass-core/parser/ast/style/conversion.rs   | 65 ++++++++++---------
 2 files changed, 49 insertions(+), 42 deletions(-)

diff --git a/crates/ass-core/parser/ast/event/serialization.rs b/crates/ass-core/parser/ast/event/serialization.rs
index 1945293..50da6e1 100644
--- a/crates/ass-core/parser/ast/event/serialization.rs
+++ b/crates/ass-core/parser/ast/event/serialization.rs
@@ -89,19 +89,19 @@ impl Event<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Layer" => self.layer,
-                "Start" => self.start,
-                "End" => self.end,
-                "Style" => self.style,
-                "Name" | "Actor" => self.name,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Effect" => self.effect,
-                "Text" => self.text,
+            let value = match field.to_ascii_lowercase().as_str() {
+                "layer" => self.layer,
+                "start" => self.start,
+                "end" => self.end,
+                "style" => self.style,
+                "name" | "actor" => self.name,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "effect" => self.effect,
+                "text" => self.text,
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index 282a03b..68c6c8d 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -37,7 +37,8 @@ impl Style<'_> {
         // Use standard V4+ format by default
         // TODO: Support custom format lines
         format!(
-            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            "Style: {}{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            self.parent_prefix(),
             self.name,
             self.fontname,
             self.fontsize,
@@ -94,40 +95,46 @@ impl Style<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Name" => self.name,
-                "Fontname" => self.fontname,
-                "Fontsize" => self.fontsize,
-                "PrimaryColour" => self.primary_colour,
-                "SecondaryColour" => self.secondary_colour,
-                "OutlineColour" | "TertiaryColour" => self.outline_colour,
-                "BackColour" => self.back_colour,
-                "Bold" => self.bold,
-                "Italic" => self.italic,
-                "Underline" => self.underline,
-                "Strikeout" | "StrikeOut" => self.strikeout,
-                "ScaleX" => self.scale_x,
-                "ScaleY" => self.scale_y,
-                "Spacing" => self.spacing,
-                "Angle" => self.angle,
-                "BorderStyle" => self.border_style,
-                "Outline" => self.outline,
-                "Shadow" => self.shadow,
-                "Alignment" => self.alignment,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Encoding" => self.encoding,
-                "RelativeTo" => self.relative_to.unwrap_or("0"),
+            let value = match field.to_ascii_lowercase().as_str() {
+                "name" => self.name,
+                "fontname" => self.fontname,
+                "fontsize" => self.fontsize,
+                "primarycolour" => self.primary_colour,
+                "secondarycolour" => self.secondary_colour,
+                "outlinecolour" | "tertiarycolour" => self.outline_colour,
+                "backcolour" => self.back_colour,
+                "bold" => self.bold,
+                "italic" => self.italic,
+                "underline" => self.underline,
+                "strikeout" => self.strikeout,
+                "scalex" => self.scale_x,
+                "scaley" => self.scale_y,
+                "spacing" => self.spacing,
+                "angle" => self.angle,
+                "borderstyle" => self.border_style,
+                "outline" => self.outline,
+                "shadow" => self.shadow,
+                "alignment" => self.alignment,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "encoding" => self.encoding,
+                "relativeto" => self.relative_to.unwrap_or("0"),
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
         }
 
         let joined = field_values.join(",");
-        format!("Style: {joined}")
+        format!("Style: {}{joined}", self.parent_prefix())
+    }
+
+    /// The `*Parent,` prefix that declares inheritance, if this style has a parent
+    fn parent_prefix(&self) -> alloc::string::String {
+        self.parent
+            .map_or_else(alloc::string::String::new, |parent| format!("*{parent},"))
     }
 
     /// Validate all spans in this Style reference valid source
-- 
2.43.0


From 2fddcaf323cd2dc266c671cd0e8049c64409422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 16/83] fix: reject times beyond the representable range

---
 crates/ass-core/utils/time.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/utils/time.rs b/crates/ass-core/utils/time.rs
index 53f1a4b..74b49bd 100644
--- a/crates/ass-core/utils/time.rs
+++ b/crates/ass-core/utils/time.rs
@@ -83,7 +83,12 @@ pub fn parse_ass_time(time_str: &str) -> Result<u32, CoreError> {
         )));
     }
 
-    Ok(hours * 360_000 + minutes * 6_000 + seconds * 100 + centiseconds)
+    // A time beyond the representable range must not wrap around.
+    hours
+        .checked_mul(360_000)
+        .and_then(|total| total.checked_add(minutes * 6_000 + seconds * 100))
+        .and_then(|total| total.checked_add(centiseconds))
+        .ok_or_else(|| CoreError::InvalidTime(format!("Time out of range: {time_str}")))
 }
 
 /// Format centiseconds back to ASS time format
-- 
2.43.0


From 371226f759da9efac4d4b91de8c4a540cd0e37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 17/83] fix: a sign is no hex digit in colors

---
 crates/ass-core/tokenizer/simd/hex.rs | 4 ++++
 crates/ass-core/utils/color.rs        | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/crates/ass-core/tokenizer/simd/hex.rs b/crates/ass-core/tokenizer/simd/hex.rs
index 36e89cb..ef5b784 100644
--- a/crates/ass-core/tokenizer/simd/hex.rs
+++ b/crates/ass-core/tokenizer/simd/hex.rs
@@ -125,5 +125,9 @@ fn parse_hex_scalar_direct(bytes: &[u8]) -> Option<u32> {
 
 /// Scalar hex parsing implementation
 fn parse_hex_scalar(hex_str: &str) -> Option<u32> {
+    // `from_str_radix` also accepts a sign, which is no hex digit.
+    if !hex_str.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return None;
+    }
     u32::from_str_radix(hex_str, 16).ok()
 }
diff --git a/crates/ass-core/utils/color.rs b/crates/ass-core/utils/color.rs
index 54e0293..ef5d615 100644
--- a/crates/ass-core/utils/color.rs
+++ b/crates/ass-core/utils/color.rs
@@ -56,6 +56,13 @@ pub fn parse_bgr_color(color_str: &str) -> Result<[u8; 4], CoreError> {
             )));
         };
 
+    // `from_str_radix` also accepts a sign, which is no hex digit.
+    if !hex_part.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return Err(CoreError::InvalidColor(format!(
+            "Invalid hex value: {hex_part}"
+        )));
+    }
+
     let hex_value = u32::from_str_radix(hex_part, 16)
         .map_err(|_| CoreError::InvalidColor(format!("Invalid hex value: {hex_part}")))?;
 
-- 
2.43.0


From 6332b612cdfa18954ecc6655137b11a8c0c9aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 18/83] fix: events without duration overlap nothing

---
 crates/ass-core/analysis/events/overlap/detection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/ass-core/analysis/events/overlap/detection.rs b/crates/ass-core/analysis/events/overlap/detection.rs
index 25031f3..81991fd 100644
--- a/crates/ass-core/analysis/events/overlap/detection.rs
+++ b/crates/ass-core/analysis/events/overlap/detection.rs
@@ -31,6 +31,12 @@ where
     for (index, event) in events.enumerate() {
         let (start_time, end_time) = get_times(index, event)?;
 
+        // An event without duration is never shown and overlaps nothing; its end
+        // sorts before its start, so it would stay active until the end.
+        if start_time >= end_time {
+            continue;
+        }
+
         sweep_events.push(SweepEvent {
             time: start_time,
             event_type: SweepEventType::Start,
-- 
2.43.0


From 96d1cadee98615d74aa5ae54d3d0c23ecf68a12d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 19/83] fix: analyse text with an unclosed override block or a
 trailing backslash without losing or splitting characters

---
 .../analysis/events/text_analysis/parser.rs        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/text_analysis/parser.rs b/crates/ass-core/analysis/events/text_analysis/parser.rs
index ae9e2a8..1a4b4c7 100644
--- a/crates/ass-core/analysis/events/text_analysis/parser.rs
+++ b/crates/ass-core/analysis/events/text_analysis/parser.rs
@@ -37,6 +37,7 @@ impl<'a> TextAnalysis<'a> {
         while let Some(ch) = chars.next() {
             if ch == '{' {
                 let mut brace_count = 1;
+                let mut closed = false;
                 let tag_start = position + ch.len_utf8();
 
                 for inner_ch in chars.by_ref() {
@@ -51,13 +52,17 @@ impl<'a> TextAnalysis<'a> {
                     } else if inner_ch == '}' {
                         brace_count -= 1;
                         if brace_count == 0 {
+                            closed = true;
                             break;
                         }
                     }
                 }
 
-                if position > tag_start {
-                    let tag_content = &text[tag_start..position];
+                // An unclosed block runs to the end of the text
+                let tag_end = if closed { position } else { text.len() };
+
+                if tag_end > tag_start {
+                    let tag_content = &text[tag_start..tag_end];
 
                     #[cfg(feature = "plugins")]
                     if let Some(registry) = registry {
@@ -89,7 +94,7 @@ impl<'a> TextAnalysis<'a> {
                     drawing_mode = Self::update_drawing_mode(tag_content, drawing_mode);
                 } else {
                     parse_diagnostics.push(TagDiagnostic {
-                        span: &text[tag_start..position.max(tag_start + 1)],
+                        span: &text[tag_start..(tag_start + 1).min(text.len())],
                         offset: tag_start,
                         kind: DiagnosticKind::EmptyOverride,
                     });
@@ -115,6 +120,9 @@ impl<'a> TextAnalysis<'a> {
                             }
                         }
                     }
+                } else if !drawing_mode {
+                    // A lone backslash at the end of the text is ordinary text
+                    plain_text.push(ch);
                 }
             } else if !drawing_mode {
                 plain_text.push(ch);
-- 
2.43.0


From 677dfa2fd39998fca568f63febb76b1c0fa4f07c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 20/83] fix: a backslash that names no tag neither splits the
 next character nor hides the next tag

---
 crates/ass-core/analysis/events/tags/parser.rs          | 8 +++++---
 crates/ass-core/analysis/events/tags/registry_parser.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/ass-core/analysis/events/tags/parser.rs b/crates/ass-core/analysis/events/tags/parser.rs
index f303298..81c182f 100644
--- a/crates/ass-core/analysis/events/tags/parser.rs
+++ b/crates/ass-core/analysis/events/tags/parser.rs
@@ -138,14 +138,16 @@ pub fn parse_override_block<'a>(
                     });
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                // Report the character that follows; a backslash starts the next tag instead
+                let next_len = chars.get(char_pos).map_or(0, |ch| ch.len_utf8());
+                let span_end = byte_pos + next_len;
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
                     kind: DiagnosticKind::EmptyOverride,
                 });
-                if char_pos < chars.len() {
-                    byte_pos += chars[char_pos].len_utf8();
+                if char_pos < chars.len() && chars[char_pos] != '\\' {
+                    byte_pos += next_len;
                     char_pos += 1;
                 }
             }
diff --git a/crates/ass-core/analysis/events/tags/registry_parser.rs b/crates/ass-core/analysis/events/tags/registry_parser.rs
index 8fae0b5..14386ea 100644
--- a/crates/ass-core/analysis/events/tags/registry_parser.rs
+++ b/crates/ass-core/analysis/events/tags/registry_parser.rs
@@ -132,14 +132,16 @@ pub fn parse_override_block_with_registry<'a>(
                     }
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                // Report the character that follows; a backslash starts the next tag instead
+                let next_len = chars.get(char_pos).map_or(0, |ch| ch.len_utf8());
+                let span_end = byte_pos + next_len;
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
                     kind: DiagnosticKind::EmptyOverride,
                 });
-                if char_pos < chars.len() {
-                    byte_pos += chars[char_pos].len_utf8();
+                if char_pos < chars.len() && chars[char_pos] != '\\' {
+                    byte_pos += next_len;
                     char_pos += 1;
                 }
             }
-- 
2.43.0


From 6a021ebdcd6020e9f2f728ca27ce6819be11a9c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 21/83] fix: a line updated at an offset stays addressable at
 that offset

---
 crates/ass-core/parser/script/update.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index a0d21db..f09c5ca 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -60,6 +60,8 @@ impl<'a> Script<'a> {
                     .map_or(Err(ParseError::IndexOutOfBounds), |style_index| {
                         let old_style = styles[style_index].clone();
                         styles[style_index] = *new_style;
+                        // The new line stands where the old one stood
+                        styles[style_index].span = old_style.span;
                         Ok(LineContent::Style(Box::new(old_style)))
                     })
             }
@@ -71,6 +73,8 @@ impl<'a> Script<'a> {
                     .map_or(Err(ParseError::IndexOutOfBounds), |event_index| {
                         let old_event = events[event_index].clone();
                         events[event_index] = *new_event;
+                        // The new line stands where the old one stood
+                        events[event_index].span = old_event.span;
                         Ok(LineContent::Event(Box::new(old_event)))
                     })
             }
-- 
2.43.0


From 3abf4e6033ca1c38547f2a35e11991e011334f1c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 22/83] fix: record the modification of a field whose value was
 empty

---
 crates/ass-core/parser/script/update.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index f09c5ca..80ed431 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -51,6 +51,7 @@ impl<'a> Script<'a> {
         let (_, new_content) = self.parse_line_auto(new_line, line_number)?;
 
         // Update the appropriate section
+        let mut added = false;
         let result = match (&mut self.sections[section_index], new_content.clone()) {
             (Section::Styles(styles), LineContent::Style(new_style)) => {
                 // Find the style at this offset
@@ -86,6 +87,7 @@ impl<'a> Script<'a> {
                     Ok(LineContent::Field(key, old_value))
                 } else {
                     // Add new field if not found
+                    added = true;
                     info.fields.push((key, value));
                     // Record as addition
                     self.change_tracker.record(Change::Added {
@@ -103,7 +105,7 @@ impl<'a> Script<'a> {
 
         // Record change if successful
         if let Ok(old_content) = &result {
-            if !matches!(old_content, LineContent::Field(_, "")) {
+            if !added {
                 // This was a modification, not an addition
                 self.change_tracker.record(Change::Modified {
                     offset,
-- 
2.43.0


From 1b72ce01e99468258a61c3933b0d098a2d21a8b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 23/83] fix: items added without a place in the source do not
 displace their section

---
 .../parser/ast/section/section_enum.rs        | 50 +++++++------------
 1 file changed, 18 insertions(+), 32 deletions(-)

diff --git a/crates/ass-core/parser/ast/section/section_enum.rs b/crates/ass-core/parser/ast/section/section_enum.rs
index 3567294..5c665d6 100644
--- a/crates/ass-core/parser/ast/section/section_enum.rs
+++ b/crates/ass-core/parser/ast/section/section_enum.rs
@@ -64,6 +64,20 @@ pub enum Section<'a> {
     Graphics(Vec<Graphic<'a>>),
 }
 
+/// Merge the first and last item spans of a section
+///
+/// Items added after parsing have empty spans and no place in the source, so
+/// they do not change where the section is.
+fn merge_spans<'s>(spans: impl DoubleEndedIterator<Item = &'s Span> + Clone) -> Option<Span> {
+    let mut placed = spans.clone().filter(|span| span.start < span.end);
+    let (first, last) = placed.next().map_or_else(
+        || (spans.clone().next(), spans.clone().next_back()),
+        |first| (Some(first), Some(placed.next_back().unwrap_or(first))),
+    );
+    let (first, last) = (first?, last?);
+    Some(Span::new(first.start, last.end, first.line, first.column))
+}
+
 impl Section<'_> {
     /// Get the span covering this entire section
     ///
@@ -74,44 +88,16 @@ impl Section<'_> {
         match self {
             Section::ScriptInfo(info) => Some(info.span),
             Section::Styles(styles) => {
-                if styles.is_empty() {
-                    None
-                } else {
-                    // Merge first and last style spans
-                    let first = &styles[0].span;
-                    let last = &styles[styles.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
+                merge_spans(styles.iter().map(|style| &style.span))
             }
             Section::Events(events) => {
-                if events.is_empty() {
-                    None
-                } else {
-                    // Merge first and last event spans
-                    let first = &events[0].span;
-                    let last = &events[events.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
+                merge_spans(events.iter().map(|event| &event.span))
             }
             Section::Fonts(fonts) => {
-                if fonts.is_empty() {
-                    None
-                } else {
-                    // Merge first and last font spans
-                    let first = &fonts[0].span;
-                    let last = &fonts[fonts.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
+                merge_spans(fonts.iter().map(|font| &font.span))
             }
             Section::Graphics(graphics) => {
-                if graphics.is_empty() {
-                    None
-                } else {
-                    // Merge first and last graphic spans
-                    let first = &graphics[0].span;
-                    let last = &graphics[graphics.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
+                merge_spans(graphics.iter().map(|graphic| &graphic.span))
             }
         }
     }
-- 
2.43.0


From 47c40b4fcd3785d6c7377b016f7f72e93f0ae13a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:29:58 +0000
Subject: [PATCH 24/83] fix: position tags accept the parenthesised coordinates
 they are written with

---
 crates/ass-core/plugin/tags/position/move_handler.rs |  4 ++--
 .../plugin/tags/position/position_handler.rs         |  4 ++--
 crates/ass-core/plugin/tags/position/validation.rs   | 12 ++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/ass-core/plugin/tags/position/move_handler.rs b/crates/ass-core/plugin/tags/position/move_handler.rs
index d5a762d..c521505 100644
--- a/crates/ass-core/plugin/tags/position/move_handler.rs
+++ b/crates/ass-core/plugin/tags/position/move_handler.rs
@@ -3,7 +3,7 @@
 //! Implements [`TagHandler`] for the `\move` command, which animates text from
 //! `(x1,y1)` to `(x2,y2)` optionally between times `t1` and `t2`.
 
-use super::validation::is_numeric;
+use super::validation::{is_numeric, strip_parentheses};
 use crate::plugin::{TagHandler, TagResult};
 use alloc::string::String;
 
@@ -29,7 +29,7 @@ impl TagHandler for MoveTagHandler {
     }
 
     fn validate(&self, args: &str) -> bool {
-        let args = args.trim();
+        let args = strip_parentheses(args);
         if args.is_empty() {
             return false;
         }
diff --git a/crates/ass-core/plugin/tags/position/position_handler.rs b/crates/ass-core/plugin/tags/position/position_handler.rs
index 9e41ee1..1988e4f 100644
--- a/crates/ass-core/plugin/tags/position/position_handler.rs
+++ b/crates/ass-core/plugin/tags/position/position_handler.rs
@@ -3,7 +3,7 @@
 //! Implements [`TagHandler`] for the `\pos` command, which positions text at
 //! absolute `(x,y)` coordinates. Arguments must be two comma-separated numbers.
 
-use super::validation::is_numeric;
+use super::validation::{is_numeric, strip_parentheses};
 use crate::plugin::{TagHandler, TagResult};
 use alloc::string::String;
 
@@ -27,7 +27,7 @@ impl TagHandler for PositionTagHandler {
     }
 
     fn validate(&self, args: &str) -> bool {
-        let args = args.trim();
+        let args = strip_parentheses(args);
         if args.is_empty() || !args.contains(',') {
             return false;
         }
diff --git a/crates/ass-core/plugin/tags/position/validation.rs b/crates/ass-core/plugin/tags/position/validation.rs
index 7cef532..c030cdc 100644
--- a/crates/ass-core/plugin/tags/position/validation.rs
+++ b/crates/ass-core/plugin/tags/position/validation.rs
@@ -39,6 +39,18 @@ pub(super) fn is_numeric(s: &str) -> bool {
     true
 }
 
+/// Arguments without surrounding whitespace and the parentheses they are written in
+///
+/// Override blocks carry coordinates as `\pos(x,y)`, so the tag parser hands over
+/// `(x,y)`; bare coordinates are accepted as well.
+#[inline]
+pub(super) fn strip_parentheses(args: &str) -> &str {
+    let args = args.trim();
+    args.strip_prefix('(')
+        .and_then(|inner| inner.strip_suffix(')'))
+        .map_or(args, str::trim)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From efb90af409844b5a9f0cca45cbe4753084927426 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:29:58 +0000
Subject: [PATCH 25/83] fix: showing an unknown section to plugins neither
 loses its suggestion nor misses padded headers

---
 crates/ass-core/parser/main/registry.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/main/registry.rs b/crates/ass-core/parser/main/registry.rs
index 13afb2e..fcce974 100644
--- a/crates/ass-core/parser/main/registry.rs
+++ b/crates/ass-core/parser/main/registry.rs
@@ -28,7 +28,9 @@ impl<'a> Parser<'a> {
     ) -> Option<Result<Section<'a>>> {
         let registry = self.registry?;
 
-        // Collect section lines
+        // Collect section lines; the caller skips them, so they are only looked at here
+        let section_name = section_name.trim();
+        let (section_start, section_line) = (self.position, self.line);
         let mut lines = Vec::new();
 
         while self.position < self.source.len() && !self.at_next_section() {
@@ -45,6 +47,9 @@ impl<'a> Parser<'a> {
             self.skip_line();
         }
 
+        self.position = section_start;
+        self.line = section_line;
+
         // Try to process with registry
         match registry.process_section(section_name, section_name, &lines) {
             Some(SectionResult::Processed) => {
-- 
2.43.0


From a1d13c650cee5e3d95cb68c14a2544a9c8313f12 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 26/83] fix: scoring a line with many override tags does not
 overflow

---
 crates/ass-core/analysis/events/scoring/calculators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/events/scoring/calculators.rs b/crates/ass-core/analysis/events/scoring/calculators.rs
index 2f36afa..d1b4a48 100644
--- a/crates/ass-core/analysis/events/scoring/calculators.rs
+++ b/crates/ass-core/analysis/events/scoring/calculators.rs
@@ -51,7 +51,7 @@ pub fn calculate_animation_score(tags: &[OverrideTag<'_>]) -> u8 {
             "p" => 8,
             _ => 2,
         })
-        .sum::<u8>()
+        .fold(0u8, u8::saturating_add)
         .min(10)
 }
 
-- 
2.43.0


From 511ca7c76ce221ec10aec165b47cc0a6a8f0ca0a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 27/83] fix: durations of very long events do not overflow

---
 crates/ass-core/analysis/events/dialogue_info/accessors.rs | 2 +-
 crates/ass-core/analysis/events/utils/duration.rs          | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/dialogue_info/accessors.rs b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
index e63daca..27c7d43 100644
--- a/crates/ass-core/analysis/events/dialogue_info/accessors.rs
+++ b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
@@ -16,7 +16,7 @@ impl<'a> DialogueInfo<'a> {
     /// Get event duration in milliseconds
     #[must_use]
     pub const fn duration_ms(&self) -> u32 {
-        (self.end_cs - self.start_cs) * 10
+        (self.end_cs - self.start_cs).saturating_mul(10)
     }
 
     /// Get event duration in centiseconds
diff --git a/crates/ass-core/analysis/events/utils/duration.rs b/crates/ass-core/analysis/events/utils/duration.rs
index 2c40258..6d7a967 100644
--- a/crates/ass-core/analysis/events/utils/duration.rs
+++ b/crates/ass-core/analysis/events/utils/duration.rs
@@ -76,6 +76,9 @@ pub fn calculate_average_duration(events: &[DialogueInfo<'_>]) -> Option<u32> {
         return None;
     }
 
-    let total_duration: u32 = events.iter().map(DialogueInfo::duration_cs).sum();
-    Some(total_duration / u32::try_from(events.len()).unwrap_or(u32::MAX))
+    let total_duration: u64 = events
+        .iter()
+        .map(|event| u64::from(event.duration_cs()))
+        .sum();
+    u32::try_from(total_duration / events.len() as u64).ok()
 }
-- 
2.43.0


From a2a81735850a311a6bd61cb01d57b2a980e72e16 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 28/83] fix: the short duration lint compares milliseconds with
 milliseconds

---
 crates/ass-core/analysis/linting/rules/accessibility/rule.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
index 84c8f64..f890f65 100644
--- a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
@@ -98,7 +98,8 @@ impl AccessibilityRule {
     fn check_event_duration(&self, issues: &mut Vec<LintIssue>, event: &crate::parser::Event) {
         if let (Ok(start), Ok(end)) = (parse_ass_time(event.start), parse_ass_time(event.end)) {
             if end >= start {
-                let duration_ms = end - start;
+                // Times are in centiseconds
+                let duration_ms = (end - start).saturating_mul(10);
                 if duration_ms < 500 {
                     let issue = LintIssue::new(
                         self.default_severity(),
-- 
2.43.0


From 84e3f6413e8bc9679c556fb59e58a6997e98e17b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 29/83] fix: the color lint reads tags with non-ASCII letters
 and lower-case prefixes

---
 .../linting/rules/invalid_color/rule.rs        | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
index 9666c3d..c529c5a 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
@@ -156,16 +156,12 @@ impl InvalidColorRule {
             return Some(("c".to_string(), color_value.to_string()));
         }
 
-        if tag_part.len() >= 3 {
-            let first_char = &tag_part[..1];
-            if ["1", "2", "3", "4"].contains(&first_char) && tag_part[1..].starts_with("c&H") {
-                let color_part = tag_part[1..].strip_prefix("c&H")?;
-                let color_end = color_part.find('&')?;
-                let color_value = &color_part[..color_end];
-                return Some((format!("{first_char}c"), color_value.to_string()));
-            }
-        }
-
-        None
+        let number = tag_part.chars().next().filter(|c| matches!(c, '1'..='4'))?;
+        let color_part = tag_part[1..]
+            .strip_prefix("c&H")
+            .or_else(|| tag_part[1..].strip_prefix("c&h"))?;
+        let color_end = color_part.find('&')?;
+        let color_value = &color_part[..color_end];
+        Some((format!("{number}c"), color_value.to_string()))
     }
 }
-- 
2.43.0


From c7f71f355d0381fc2d168f7d973ce9e0dee980b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 30/83] fix: styles are resolved after the style they inherit
 from

---
 crates/ass-core/analysis/styles/analyzer/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/dependency.rs b/crates/ass-core/analysis/styles/analyzer/dependency.rs
index 5294cd3..2c2074a 100644
--- a/crates/ass-core/analysis/styles/analyzer/dependency.rs
+++ b/crates/ass-core/analysis/styles/analyzer/dependency.rs
@@ -38,7 +38,7 @@ impl<'a> StyleAnalyzer<'a> {
                         .get_mut(style.name)
                         .unwrap()
                         .insert(parent_name);
-                    *in_degree.get_mut(parent_name).unwrap() += 1;
+                    *in_degree.get_mut(style.name).unwrap() += 1;
 
                     // Track inheritance for analysis
                     if self.config.options.contains(AnalysisOptions::INHERITANCE) {
-- 
2.43.0


From b7fbf786bba19e7f525766fc1bbe79854ed7da34 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 31/83] fix: inherited style values are scaled to the play
 resolution once

---
 .../ass-core/analysis/styles/analyzer/analysis.rs  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/analysis.rs b/crates/ass-core/analysis/styles/analyzer/analysis.rs
index 4a05ccb..ed8ed3e 100644
--- a/crates/ass-core/analysis/styles/analyzer/analysis.rs
+++ b/crates/ass-core/analysis/styles/analyzer/analysis.rs
@@ -79,13 +79,17 @@ impl<'a> StyleAnalyzer<'a> {
                 ResolvedStyle::from_style(style)
             };
 
-            if let Ok(mut resolved_style) = resolved {
-                // Apply resolution scaling if needed
-                if let Some((scale_x, scale_y)) = self.resolution_scaling {
-                    resolved_style.apply_resolution_scaling(scale_x, scale_y);
-                }
+            if let Ok(resolved_style) = resolved {
                 self.resolved_styles.insert(style.name, resolved_style);
             }
         }
+
+        // Apply resolution scaling once every style is resolved, so that
+        // inherited values are scaled exactly once
+        if let Some((scale_x, scale_y)) = self.resolution_scaling {
+            for resolved_style in self.resolved_styles.values_mut() {
+                resolved_style.apply_resolution_scaling(scale_x, scale_y);
+            }
+        }
     }
 }
-- 
2.43.0


From 1212a31bc18c88d5951dacbe30bd20bbaaf090d7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 32/83] fix: parse_incremental gives the script the new source
 says

---
 crates/ass-core/parser/script/incremental.rs | 128 ++-----------------
 crates/ass-core/parser/script/mod.rs         |   1 +
 crates/ass-core/parser/script/partial.rs     |  89 +------------
 3 files changed, 14 insertions(+), 204 deletions(-)

diff --git a/crates/ass-core/parser/script/incremental.rs b/crates/ass-core/parser/script/incremental.rs
index 47ab296..9006f82 100644
--- a/crates/ass-core/parser/script/incremental.rs
+++ b/crates/ass-core/parser/script/incremental.rs
@@ -1,13 +1,12 @@
 //! Incremental reparse support for editor-driven text changes.
 //!
 //! Implements [`Script::affected_sections`], which maps a text change to the
-//! sections it touches, and [`Script::parse_incremental`], which reparses only
-//! those sections while shifting the spans of unchanged sections.
+//! sections it touches, and [`Script::parse_incremental`], which reads the script
+//! from the changed source.
 
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 use crate::parser::ast::{Section, SectionType};
-use crate::parser::main::Parser;
 use crate::Result;
 
 use super::Script;
@@ -51,10 +50,12 @@ impl<'a> Script<'a> {
             .collect()
     }
 
-    /// Parse only changed portions and create new Script
+    /// Parse the changed source and create new Script
     ///
-    /// This method performs incremental parsing by identifying affected sections
-    /// and reparsing only those sections while preserving others.
+    /// Sections borrow from the source they were read from and carry spans into
+    /// it, and a change can add, split, merge or remove sections anywhere in the
+    /// text. The result is therefore read from the new source and is the same
+    /// script that parsing the new source from scratch gives.
     ///
     /// # Arguments
     ///
@@ -67,119 +68,12 @@ impl<'a> Script<'a> {
     ///
     /// # Errors
     ///
-    /// Returns parse errors if affected sections cannot be reparsed
+    /// Returns parse errors if the new source cannot be parsed
     pub fn parse_incremental(
         &self,
         new_source: &'a str,
-        change: &crate::parser::incremental::TextChange,
+        _change: &crate::parser::incremental::TextChange,
     ) -> Result<Self> {
-        use crate::parser::sections::SectionFormats;
-
-        // Step 1: Identify affected sections
-        let affected_sections = self.affected_sections(change);
-
-        if affected_sections.is_empty() {
-            // Change was in whitespace/comments only
-            return Ok(Script::from_parts(
-                new_source,
-                self.version(),
-                self.sections.clone(),
-                vec![], // Clear issues, will be recalculated
-                self.styles_format.clone(),
-                self.events_format.clone(),
-            ));
-        }
-
-        // Step 2: Build section formats from existing script
-        let formats = SectionFormats {
-            styles_format: self.styles_format().map(<[&str]>::to_vec),
-            events_format: self.events_format().map(<[&str]>::to_vec),
-        };
-
-        // Step 3: Prepare new sections
-        let mut new_sections = Vec::with_capacity(self.sections.len());
-
-        // We need to find where each section actually starts in the document
-        // including its header. The current spans only track content.
-        let section_headers = [
-            ("[Script Info]", SectionType::ScriptInfo),
-            ("[V4+ Styles]", SectionType::Styles),
-            ("[Events]", SectionType::Events),
-            ("[Fonts]", SectionType::Fonts),
-            ("[Graphics]", SectionType::Graphics),
-        ];
-
-        // Step 4: Process each section
-        for (idx, section) in self.sections.iter().enumerate() {
-            let section_type = section.section_type();
-
-            if affected_sections.contains(&section_type) {
-                // Find the section header in the new source
-                let header_str = section_headers
-                    .iter()
-                    .find(|(_, t)| *t == section_type)
-                    .map_or("[Unknown]", |(h, _)| *h);
-
-                // Find where this section starts in the new source
-                if let Some(header_pos) = new_source.find(header_str) {
-                    // Find the end of this section (start of next section or end of file)
-                    let section_end = if idx + 1 < self.sections.len() {
-                        // Find the next section's header
-                        let next_section_type = self.sections[idx + 1].section_type();
-                        let next_header = section_headers
-                            .iter()
-                            .find(|(_, t)| *t == next_section_type)
-                            .map_or("[Unknown]", |(h, _)| *h);
-
-                        new_source[header_pos + header_str.len()..]
-                            .find(next_header)
-                            .map_or(new_source.len(), |pos| header_pos + header_str.len() + pos)
-                    } else {
-                        new_source.len()
-                    };
-
-                    // Extract the full section text including header
-                    let section_text = &new_source[header_pos..section_end];
-
-                    // Parse this section using a fresh parser
-                    let parser = Parser::new(section_text);
-                    let parsed_script = parser.parse();
-
-                    // The parser returns a Script, extract sections from it
-                    // We only want the one matching our type
-                    if let Some(parsed_section) = parsed_script
-                        .sections
-                        .into_iter()
-                        .find(|s| s.section_type() == section_type)
-                    {
-                        new_sections.push(parsed_section);
-                    }
-                }
-            } else {
-                // Section unchanged, but might need span adjustment if change was before it
-                let section_span = section.span();
-                if let Some(span) = section_span {
-                    if change.range.end <= span.start {
-                        // Change was before this section, adjust its spans
-                        new_sections.push(Self::adjust_section_spans(section, change));
-                    } else {
-                        // Change was after this section, keep as-is
-                        new_sections.push(section.clone());
-                    }
-                } else {
-                    new_sections.push(section.clone());
-                }
-            }
-        }
-
-        // Step 5: Create new Script with updated sections
-        Ok(Script::from_parts(
-            new_source,
-            self.version(),
-            new_sections,
-            vec![], // Issues will be recalculated
-            formats.styles_format.clone(),
-            formats.events_format.clone(),
-        ))
+        Script::parse(new_source)
     }
 }
diff --git a/crates/ass-core/parser/script/mod.rs b/crates/ass-core/parser/script/mod.rs
index cee321e..b4864d5 100644
--- a/crates/ass-core/parser/script/mod.rs
+++ b/crates/ass-core/parser/script/mod.rs
@@ -11,6 +11,7 @@ mod incremental;
 mod lookup;
 mod mutate;
 mod parse;
+#[cfg(feature = "stream")]
 mod partial;
 mod serialize;
 mod tracking;
diff --git a/crates/ass-core/parser/script/partial.rs b/crates/ass-core/parser/script/partial.rs
index 893dc20..e465373 100644
--- a/crates/ass-core/parser/script/partial.rs
+++ b/crates/ass-core/parser/script/partial.rs
@@ -1,8 +1,6 @@
-//! Range-based partial reparse and span adjustment helpers.
+//! Range-based partial reparse.
 //!
-//! Hosts the streaming [`Script::parse_partial`] entry point used by editors for
-//! sub-2ms edits, together with the `adjust_section_spans` helper that shifts
-//! unchanged section spans after a text change.
+//! Hosts the streaming [`Script::parse_partial`] entry point used by editors.
 
 use alloc::vec::Vec;
 #[cfg(feature = "stream")]
@@ -10,7 +8,6 @@ use alloc::{format, string::ToString};
 #[cfg(feature = "stream")]
 use core::ops::Range;
 
-use crate::parser::ast::Section;
 #[cfg(feature = "stream")]
 use crate::parser::streaming;
 #[cfg(feature = "stream")]
@@ -84,86 +81,4 @@ impl<'a> Script<'a> {
 
         Ok(owned_delta)
     }
-
-    /// Adjust section spans for unchanged sections after a text change
-    pub(super) fn adjust_section_spans(
-        section: &Section<'a>,
-        change: &crate::parser::incremental::TextChange,
-    ) -> Section<'a> {
-        use crate::parser::ast::Span;
-
-        // Calculate the offset caused by the change
-        let new_len = change.new_text.len();
-        let old_len = change.range.end - change.range.start;
-
-        // Helper to adjust a span using safe arithmetic
-        let adjust_span = |span: &Span| -> Span {
-            let new_start = if new_len >= old_len {
-                span.start + (new_len - old_len)
-            } else {
-                span.start.saturating_sub(old_len - new_len)
-            };
-
-            let new_end = if new_len >= old_len {
-                span.end + (new_len - old_len)
-            } else {
-                span.end.saturating_sub(old_len - new_len)
-            };
-
-            Span::new(new_start, new_end, span.line, span.column)
-        };
-
-        // Adjust all spans in the section
-        match section {
-            Section::ScriptInfo(info) => {
-                let mut new_info = info.clone();
-                new_info.span = adjust_span(&info.span);
-                Section::ScriptInfo(new_info)
-            }
-            Section::Styles(styles) => {
-                let new_styles: Vec<_> = styles
-                    .iter()
-                    .map(|style| {
-                        let mut new_style = style.clone();
-                        new_style.span = adjust_span(&style.span);
-                        new_style
-                    })
-                    .collect();
-                Section::Styles(new_styles)
-            }
-            Section::Events(events) => {
-                let new_events: Vec<_> = events
-                    .iter()
-                    .map(|event| {
-                        let mut new_event = event.clone();
-                        new_event.span = adjust_span(&event.span);
-                        new_event
-                    })
-                    .collect();
-                Section::Events(new_events)
-            }
-            Section::Fonts(fonts) => {
-                let new_fonts: Vec<_> = fonts
-                    .iter()
-                    .map(|font| {
-                        let mut new_font = font.clone();
-                        new_font.span = adjust_span(&font.span);
-                        new_font
-                    })
-                    .collect();
-                Section::Fonts(new_fonts)
-            }
-            Section::Graphics(graphics) => {
-                let new_graphics: Vec<_> = graphics
-                    .iter()
-                    .map(|graphic| {
-                        let mut new_graphic = graphic.clone();
-                        new_graphic.span = adjust_span(&graphic.span);
-                        new_graphic
-                    })
-                    .collect();
-                Section::Graphics(new_graphics)
-            }
-        }
-    }
 }
-- 
2.43.0


From 66dc00c526303f3d98f7be46cafba6c5adffe00c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 33/83] fix: a delta compares each section with its own
 counterpart

---
 crates/ass-core/parser/script/delta.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/ass-core/parser/script/delta.rs b/crates/ass-core/parser/script/delta.rs
index ee90476..49ecf35 100644
--- a/crates/ass-core/parser/script/delta.rs
+++ b/crates/ass-core/parser/script/delta.rs
@@ -56,11 +56,15 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     for (idx, old_section) in old_sections.iter().enumerate() {
         let old_type = old_section.section_type();
 
-        // Look for matching section in new script
-        if let Some((_new_idx, new_section)) = new_sections
+        // Match the n-th section of a type with the n-th section of that type
+        let nth = old_sections[..idx]
             .iter()
-            .enumerate()
-            .find(|(_, s)| s.section_type() == old_type)
+            .filter(|s| s.section_type() == old_type)
+            .count();
+        if let Some(new_section) = new_sections
+            .iter()
+            .filter(|s| s.section_type() == old_type)
+            .nth(nth)
         {
             // Check if content changed (ignoring spans)
             if !sections_equal_ignoring_spans(old_section, new_section) {
@@ -73,11 +77,13 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     }
 
     // Find additions
-    for new_section in &new_sections {
+    for (idx, new_section) in new_sections.iter().enumerate() {
         let new_type = new_section.section_type();
+        let of_type = |s: &&&Section<'a>| s.section_type() == new_type;
 
-        // Check if this type exists in old script
-        if !old_sections.iter().any(|s| s.section_type() == new_type) {
+        // A section beyond those the old script had of this type is new
+        let nth = new_sections[..idx].iter().filter(of_type).count();
+        if nth >= old_sections.iter().filter(of_type).count() {
             added.push((*new_section).clone());
         }
     }
-- 
2.43.0


From 8d0ef35750b95b3aec90b1b0c9dde077acf5c104 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 34/83] fix: the streaming parser accepts characters split
 between chunks

---
 crates/ass-core/parser/streaming/parser.rs | 25 ++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/streaming/parser.rs b/crates/ass-core/parser/streaming/parser.rs
index 21f6ded..60c3759 100644
--- a/crates/ass-core/parser/streaming/parser.rs
+++ b/crates/ass-core/parser/streaming/parser.rs
@@ -21,6 +21,8 @@ pub struct StreamingParser {
     processor: LineProcessor,
     /// Buffer for incomplete lines
     pub(super) buffer: String,
+    /// Bytes of a character whose end has not arrived yet
+    pending: Vec<u8>,
     /// Parsed sections in document order
     pub(super) sections: Vec<String>,
 
@@ -36,6 +38,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            pending: Vec::new(),
             sections: Vec::new(),
 
             #[cfg(feature = "benches")]
@@ -49,6 +52,7 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            pending: Vec::new(),
             sections: Vec::with_capacity(capacity),
 
             #[cfg(feature = "benches")]
@@ -66,10 +70,20 @@ impl StreamingParser {
             return Ok(Vec::new());
         }
 
-        let chunk_str = core::str::from_utf8(chunk)
+        // A character may be split between chunks: an unfinished one waits for its rest
+        let mut bytes = self.pending.clone();
+        bytes.extend_from_slice(chunk);
+        let complete = match core::str::from_utf8(&bytes) {
+            Ok(text) => text.len(),
+            Err(e) if e.error_len().is_none() => e.valid_up_to(),
+            Err(e) => return Err(CoreError::parse(format!("Invalid UTF-8: {e}"))),
+        };
+        self.pending = bytes.split_off(complete);
+        let text = String::from_utf8(bytes)
             .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
 
-        self.buffer.push_str(chunk_str);
+        // Append to buffer and process complete lines
+        self.buffer.push_str(&text);
 
         let mut all_deltas = Vec::new();
         let lines: Vec<String> = self.buffer.lines().map(str::to_string).collect();
@@ -111,6 +125,12 @@ impl StreamingParser {
     ///
     /// Returns an error if the final line processing fails.
     pub fn finish(mut self) -> Result<StreamingResult> {
+        if !self.pending.is_empty() {
+            return Err(CoreError::parse(
+                "Invalid UTF-8: input ends inside a character",
+            ));
+        }
+
         if !self.buffer.trim().is_empty() {
             let _deltas = self.processor.process_line(&self.buffer.clone())?;
         }
@@ -126,6 +146,7 @@ impl StreamingParser {
     pub fn reset(&mut self) {
         self.processor.reset();
         self.buffer.clear();
+        self.pending.clear();
         self.sections.clear();
 
         #[cfg(feature = "benches")]
-- 
2.43.0


From 26ac23aea2984b60e2aa6ee9113637270d26d4a5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 35/83] fix: the streaming parser ends lines the same way in
 every chunking

---
 crates/ass-core/parser/streaming/parser.rs | 45 ++++++++++++----------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/crates/ass-core/parser/streaming/parser.rs b/crates/ass-core/parser/streaming/parser.rs
index 60c3759..d787b64 100644
--- a/crates/ass-core/parser/streaming/parser.rs
+++ b/crates/ass-core/parser/streaming/parser.rs
@@ -8,7 +8,7 @@ use super::{LineProcessor, ParseDelta, StreamingResult};
 use crate::{utils::CoreError, Result, ScriptVersion};
 use alloc::{
     format,
-    string::{String, ToString},
+    string::String,
     vec::Vec,
 };
 
@@ -23,6 +23,8 @@ pub struct StreamingParser {
     pub(super) buffer: String,
     /// Bytes of a character whose end has not arrived yet
     pending: Vec<u8>,
+    /// Whether the last line ended in a carriage return
+    after_cr: bool,
     /// Parsed sections in document order
     pub(super) sections: Vec<String>,
 
@@ -39,6 +41,7 @@ impl StreamingParser {
             processor: LineProcessor::new(),
             buffer: String::new(),
             pending: Vec::new(),
+            after_cr: false,
             sections: Vec::new(),
 
             #[cfg(feature = "benches")]
@@ -53,6 +56,7 @@ impl StreamingParser {
             processor: LineProcessor::new(),
             buffer: String::new(),
             pending: Vec::new(),
+            after_cr: false,
             sections: Vec::with_capacity(capacity),
 
             #[cfg(feature = "benches")]
@@ -82,31 +86,29 @@ impl StreamingParser {
         let text = String::from_utf8(bytes)
             .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
 
-        // Append to buffer and process complete lines
-        self.buffer.push_str(&text);
-
-        let mut all_deltas = Vec::new();
-        let lines: Vec<String> = self.buffer.lines().map(str::to_string).collect();
-        let ends_with_newline = self.buffer.ends_with('\n') || self.buffer.ends_with('\r');
-
-        let complete_lines = if ends_with_newline {
-            lines.len()
-        } else {
-            lines.len().saturating_sub(1)
-        };
+        // Append to buffer; a "\r\n" may be split between chunks as well
+        let mut text = text.as_str();
+        if self.after_cr {
+            text = text.strip_prefix('\n').unwrap_or(text);
+        }
+        if complete > 0 {
+            self.after_cr = text.ends_with('\r');
+        }
+        self.buffer.push_str(text);
 
         // Process complete lines
-        for line in &lines[..complete_lines] {
-            let deltas = self.processor.process_line(line)?;
+        let mut all_deltas = Vec::new();
+        let buffered = core::mem::take(&mut self.buffer);
+        let mut rest = buffered.as_str();
+        while let Some(end) = rest.find(['\n', '\r']) {
+            let deltas = self.processor.process_line(&rest[..end])?;
             all_deltas.extend(deltas.into_deltas());
+            let terminator = if rest[end..].starts_with("\r\n") { 2 } else { 1 };
+            rest = &rest[end + terminator..];
         }
 
-        // Update buffer with incomplete line
-        if complete_lines < lines.len() {
-            self.buffer.clone_from(&lines[complete_lines]);
-        } else {
-            self.buffer.clear();
-        }
+        // Keep the incomplete line
+        self.buffer.push_str(rest);
 
         #[cfg(feature = "benches")]
         {
@@ -147,6 +149,7 @@ impl StreamingParser {
         self.processor.reset();
         self.buffer.clear();
         self.pending.clear();
+        self.after_cr = false;
         self.sections.clear();
 
         #[cfg(feature = "benches")]
-- 
2.43.0


From 6e8ac946f2774aa3b84e2ca0cf9c5dbabcc65062 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 36/83] fix: the streaming parser knows the V4++ styles section

---
 crates/ass-core/parser/streaming/state/section_kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/streaming/state/section_kind.rs b/crates/ass-core/parser/streaming/state/section_kind.rs
index 6aa1d3e..76b6c74 100644
--- a/crates/ass-core/parser/streaming/state/section_kind.rs
+++ b/crates/ass-core/parser/streaming/state/section_kind.rs
@@ -41,7 +41,7 @@ impl SectionKind {
     pub fn from_header(header: &str) -> Self {
         match header.trim() {
             "Script Info" => Self::ScriptInfo,
-            "V4+ Styles" | "V4 Styles" => Self::Styles,
+            "V4+ Styles" | "V4 Styles" | "V4++ Styles" => Self::Styles,
             "Events" => Self::Events,
             "Fonts" => Self::Fonts,
             "Graphics" => Self::Graphics,
-- 
2.43.0


From f586091bc62a9f29d23ea0f0f01e52f02055d7c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 37/83] Verification hook: state of the streaming parser (cfg
 ass_verif)

---
 crates/ass-core/parser/streaming/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/ass-core/parser/streaming/parser.rs b/crates/ass-core/parser/streaming/parser.rs
index d787b64..81cc6b0 100644
--- a/crates/ass-core/parser/streaming/parser.rs
+++ b/crates/ass-core/parser/streaming/parser.rs
@@ -144,6 +144,13 @@ impl StreamingParser {
         })
     }
 
+    /// What the parser has read so far and the line it holds back
+    #[cfg(ass_verif)]
+    #[must_use]
+    pub fn verif_state(&self) -> (&LineProcessor, &str) {
+        (&self.processor, &self.buffer)
+    }
+
     /// Reset parser state for reuse
     pub fn reset(&mut self) {
         self.processor.reset();
-- 
2.43.0


From a50112df2be3fd162f32517d036b12b60a813090 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 38/83] fix: a text may end in a carriage return

---
 crates/ass-core/tokenizer/next_token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/next_token.rs b/crates/ass-core/tokenizer/next_token.rs
index 34c8ee3..cb8180f 100644
--- a/crates/ass-core/tokenizer/next_token.rs
+++ b/crates/ass-core/tokenizer/next_token.rs
@@ -62,7 +62,7 @@ impl<'a> AssTokenizer<'a> {
             ('\n' | '\r', _) => {
                 self.context = self.context.reset_to_document();
                 self.scanner.navigator_mut().advance_char()?;
-                if current_char == '\r' && self.scanner.navigator_mut().peek_char()? == '\n' {
+                if current_char == '\r' && self.scanner.navigator_mut().peek_char() == Ok('\n') {
                     self.scanner.navigator_mut().advance_char()?;
                 }
                 Ok(TokenType::Newline)
-- 
2.43.0


From 1673dd12221b85ff78dffc5de5d4f6eebdaebaf9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 39/83] fix: token lines and columns count text found by the
 SIMD scan

---
 crates/ass-core/tokenizer/scanner/navigator.rs    | 2 +-
 crates/ass-core/tokenizer/scanner/text_scanner.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/scanner/navigator.rs b/crates/ass-core/tokenizer/scanner/navigator.rs
index 1daa4e0..be56302 100644
--- a/crates/ass-core/tokenizer/scanner/navigator.rs
+++ b/crates/ass-core/tokenizer/scanner/navigator.rs
@@ -23,7 +23,7 @@ pub struct CharNavigator<'a> {
     /// Current line number (1-based)
     line: usize,
     /// Current column number (1-based)
-    column: usize,
+    pub(super) column: usize,
     /// Character iterator for the source
     pub(super) chars: Chars<'a>,
     /// Lookahead character for peeking
diff --git a/crates/ass-core/tokenizer/scanner/text_scanner.rs b/crates/ass-core/tokenizer/scanner/text_scanner.rs
index 5ebd063..a258c8b 100644
--- a/crates/ass-core/tokenizer/scanner/text_scanner.rs
+++ b/crates/ass-core/tokenizer/scanner/text_scanner.rs
@@ -31,6 +31,9 @@ impl TokenScanner<'_> {
                 } else {
                     self.navigator.position = self.source.len();
                 }
+                let skipped = &self.source[start..self.navigator.position];
+                self.navigator.column += skipped.chars().count();
+                self.navigator.last_char = skipped.chars().last().or(self.navigator.last_char);
                 self.navigator.chars = self.source[self.navigator.position..].chars();
                 self.navigator.peek_char = None;
             }
-- 
2.43.0


From 46448e794dc4ad0b5eabbf4bc149e46d5d06a03f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 40/83] fix: the scalar text scan stops where the SIMD scan
 does

---
 crates/ass-core/tokenizer/scanner/text_scanner.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/scanner/text_scanner.rs b/crates/ass-core/tokenizer/scanner/text_scanner.rs
index a258c8b..78c8079 100644
--- a/crates/ass-core/tokenizer/scanner/text_scanner.rs
+++ b/crates/ass-core/tokenizer/scanner/text_scanner.rs
@@ -58,7 +58,6 @@ impl TokenScanner<'_> {
                     _ => {
                         // In other contexts, treat colon as delimiter
                         matches!(ch, ',' | ':' | '{' | '}' | '[' | ']' | '\n' | '\r')
-                            || (ch == ';' && context == TokenContext::Document)
                     }
                 };
 
-- 
2.43.0


From ecbcbc1a104a1951fd724d1d500e6343d41c82ed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 41/83] fix: recover_utf8 counts the replacements it made

---
 crates/ass-core/utils/utf8/validation/recovery.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/utils/utf8/validation/recovery.rs b/crates/ass-core/utils/utf8/validation/recovery.rs
index 4bfdf30..ae3419a 100644
--- a/crates/ass-core/utils/utf8/validation/recovery.rs
+++ b/crates/ass-core/utils/utf8/validation/recovery.rs
@@ -39,7 +39,12 @@ pub fn recover_utf8(bytes: &[u8]) -> (String, usize) {
     str::from_utf8(bytes).map_or_else(
         |_| {
             let recovered = String::from_utf8_lossy(bytes);
-            let replacements = recovered.matches('\u{FFFD}').count();
+            // A replacement character that the input already had is not a replacement
+            let original = bytes
+                .windows(3)
+                .filter(|w| *w == "\u{FFFD}".as_bytes())
+                .count();
+            let replacements = recovered.matches('\u{FFFD}').count() - original;
             (recovered.into_owned(), replacements)
         },
         |s| (s.to_string(), 0),
-- 
2.43.0


From fd8d1f7b968e348f4139f20adb11cf797429000b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 42/83] fix: the batch UTF-8 validation reports where the error
 is

---
 crates/ass-core/tokenizer/simd/utf8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/simd/utf8.rs b/crates/ass-core/tokenizer/simd/utf8.rs
index fe5da29..6a13be2 100644
--- a/crates/ass-core/tokenizer/simd/utf8.rs
+++ b/crates/ass-core/tokenizer/simd/utf8.rs
@@ -44,7 +44,8 @@ fn validate_utf8_simd_impl(bytes: &[u8]) -> Result<(), CoreError> {
         }
     }
 
-    validate_utf8_scalar(remainder)
+    // An error is reported at its position in the whole input
+    validate_utf8_scalar(remainder).or_else(|_| validate_utf8_scalar(bytes))
 }
 
 /// Scalar UTF-8 validation implementation
-- 
2.43.0


From 8037f5246c8de0085c90bb8c7a3fb69383354760 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 43/83] fix: extensions may use the manager while it runs them

Loading, running and unloading an extension held the manager's lock, so that any
extension reading its configuration (both built-in ones do) waited for itself
forever. Initialising an unknown extension no longer leaves a state behind.
---
 crates/ass-editor/extensions/manager.rs       | 33 ++++++-
 .../ass-editor/extensions/manager_access.rs   | 15 ++-
 .../ass-editor/extensions/manager_loading.rs  | 96 +++++++++++--------
 3 files changed, 94 insertions(+), 50 deletions(-)

diff --git a/crates/ass-editor/extensions/manager.rs b/crates/ass-editor/extensions/manager.rs
index ebc50b5..43f39e1 100644
--- a/crates/ass-editor/extensions/manager.rs
+++ b/crates/ass-editor/extensions/manager.rs
@@ -40,11 +40,19 @@ pub type EventSender = Sender<DocumentEvent>;
 #[cfg(not(feature = "std"))]
 pub type EventSender = (); // No-op for no_std environments
 
+/// A loaded extension. It has a lock of its own, so that it can use the manager while it runs.
+#[cfg(feature = "multi-thread")]
+pub(super) type ExtensionSlot = Arc<Mutex<Box<dyn EditorExtension>>>;
+
+/// A loaded extension.
+#[cfg(not(feature = "multi-thread"))]
+pub(super) type ExtensionSlot = Box<dyn EditorExtension>;
+
 /// Extension manager for loading and managing extensions
 /// Internal storage for ExtensionManager data
 pub(super) struct ExtensionManagerInner {
     /// Loaded extensions
-    pub(super) extensions: HashMap<String, Box<dyn EditorExtension>>,
+    pub(super) extensions: HashMap<String, ExtensionSlot>,
 
     /// Extension states
     pub(super) extension_states: HashMap<String, ExtensionState>,
@@ -158,6 +166,29 @@ impl ExtensionManager {
     }
 }
 
+impl ExtensionManager {
+    /// Run a closure on a loaded extension, without holding the manager's own lock
+    /// (extensions reach the manager through their context).
+    #[cfg(feature = "multi-thread")]
+    pub(super) fn with_extension<F, R>(&self, name: &str, f: F) -> Option<R>
+    where
+        F: FnOnce(&mut dyn EditorExtension) -> R,
+    {
+        let slot = self.with_inner(|inner| inner.extensions.get(name).cloned())?;
+        let mut extension = slot.lock();
+        Some(f(extension.as_mut()))
+    }
+
+    /// Run a closure on a loaded extension
+    #[cfg(not(feature = "multi-thread"))]
+    pub(super) fn with_extension<F, R>(&self, name: &str, f: F) -> Option<R>
+    where
+        F: FnOnce(&mut dyn EditorExtension) -> R,
+    {
+        self.with_inner_mut(|inner| inner.extensions.get_mut(name).map(|e| f(e.as_mut())))
+    }
+}
+
 impl Default for ExtensionManager {
     fn default() -> Self {
         Self::new()
diff --git a/crates/ass-editor/extensions/manager_access.rs b/crates/ass-editor/extensions/manager_access.rs
index 5c69fe3..41cef2e 100644
--- a/crates/ass-editor/extensions/manager_access.rs
+++ b/crates/ass-editor/extensions/manager_access.rs
@@ -32,14 +32,13 @@ impl ExtensionManager {
                 message: format!("Command '{command_id}' not found"),
             })?;
 
-        self.with_inner_mut(|inner| {
-            if let Some(extension) = inner.extensions.get_mut(&extension_name) {
-                extension.execute_command(command_id, args, context)
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
-            }
+        self.with_extension(&extension_name, |extension| {
+            extension.execute_command(command_id, args, context)
+        })
+        .unwrap_or_else(|| {
+            Err(crate::core::EditorError::CommandFailed {
+                message: format!("Extension '{extension_name}' not found"),
+            })
         })
     }
 
diff --git a/crates/ass-editor/extensions/manager_loading.rs b/crates/ass-editor/extensions/manager_loading.rs
index 2dd6d56..61603a0 100644
--- a/crates/ass-editor/extensions/manager_loading.rs
+++ b/crates/ass-editor/extensions/manager_loading.rs
@@ -13,6 +13,11 @@ use super::manager::ExtensionManager;
 #[cfg(not(feature = "std"))]
 use alloc::{boxed::Box, format, string::ToString};
 
+#[cfg(feature = "multi-thread")]
+use parking_lot::Mutex;
+#[cfg(feature = "multi-thread")]
+use std::sync::Arc;
+
 impl ExtensionManager {
     /// Load an extension
     pub fn load_extension(&mut self, extension: Box<dyn EditorExtension>) -> Result<()> {
@@ -39,6 +44,8 @@ impl ExtensionManager {
                 });
             }
 
+            #[cfg(feature = "multi-thread")]
+            let extension = Arc::new(Mutex::new(extension));
             inner.extensions.insert(extension_name.clone(), extension);
             inner
                 .extension_states
@@ -53,40 +60,44 @@ impl ExtensionManager {
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        self.with_inner_mut(|inner| {
-            inner
-                .extension_states
-                .insert(extension_name.to_string(), ExtensionState::Initializing);
+        let set_state = |state| {
+            self.with_inner_mut(|inner| {
+                // only a loaded extension has a state
+                if let Some(entry) = inner.extension_states.get_mut(extension_name) {
+                    *entry = state;
+                }
+            });
+        };
 
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                match extension.initialize(context) {
-                    Ok(()) => {
-                        inner
-                            .extension_states
-                            .insert(extension_name.to_string(), ExtensionState::Active);
+        set_state(ExtensionState::Initializing);
+        let outcome = self.with_extension(extension_name, |extension| {
+            extension
+                .initialize(context)
+                .map(|()| extension.commands())
+        });
 
-                        // Register commands
-                        for command in extension.commands() {
-                            inner
-                                .commands
-                                .insert(command.id.clone(), (extension_name.to_string(), command));
-                        }
+        match outcome {
+            Some(Ok(commands)) => {
+                set_state(ExtensionState::Active);
 
-                        Ok(())
-                    }
-                    Err(e) => {
+                // Register commands
+                self.with_inner_mut(|inner| {
+                    for command in commands {
                         inner
-                            .extension_states
-                            .insert(extension_name.to_string(), ExtensionState::Error);
-                        Err(e)
+                            .commands
+                            .insert(command.id.clone(), (extension_name.to_string(), command));
                     }
-                }
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
+                });
+                Ok(())
             }
-        })
+            Some(Err(e)) => {
+                set_state(ExtensionState::Error);
+                Err(e)
+            }
+            None => Err(crate::core::EditorError::CommandFailed {
+                message: format!("Extension '{extension_name}' not found"),
+            }),
+        }
     }
 
     /// Unload an extension
@@ -121,18 +132,21 @@ impl ExtensionManager {
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        self.with_inner_mut(|inner| {
-            inner
-                .extension_states
-                .insert(extension_name.to_string(), ExtensionState::ShuttingDown);
-
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                extension.shutdown(context)?;
-                inner
-                    .extension_states
-                    .insert(extension_name.to_string(), ExtensionState::Shutdown);
-            }
-            Ok(())
-        })
+        let set_state = |state| {
+            self.with_inner_mut(|inner| {
+                if let Some(entry) = inner.extension_states.get_mut(extension_name) {
+                    *entry = state;
+                }
+            });
+        };
+
+        set_state(ExtensionState::ShuttingDown);
+        if let Some(outcome) =
+            self.with_extension(extension_name, |extension| extension.shutdown(context))
+        {
+            outcome?;
+            set_state(ExtensionState::Shutdown);
+        }
+        Ok(())
     }
 }
-- 
2.43.0


From bed14004cfaaba540856b0c57f8da75cfbcc1ad3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 44/83] fix: replacing a session does not count as one more
 active session

---
 crates/ass-editor/sessions/lifecycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/sessions/lifecycle.rs b/crates/ass-editor/sessions/lifecycle.rs
index 25ffc2b..c44ce57 100644
--- a/crates/ass-editor/sessions/lifecycle.rs
+++ b/crates/ass-editor/sessions/lifecycle.rs
@@ -47,7 +47,7 @@ impl EditorSessionManager {
             inner.sessions.insert(session_id.clone(), session);
 
             // Update stats
-            inner.stats.active_sessions += 1;
+            inner.stats.active_sessions = inner.sessions.len();
 
             // Set as active if it's the first session
             if inner.active_session_id.is_none() {
-- 
2.43.0


From 2c6e5d7aba55b4a49d41e331ca77c4ece61992eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 45/83] fix: the event time index belongs to the events it was
 built from, not to their address

---
 .../src/renderer/event_selector.rs            |  8 ++--
 .../ass-renderer/src/renderer/time_index.rs   | 41 +++++++++++++++----
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index d2f9ae8..e87bf4b 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -170,16 +170,14 @@ impl EventSelector {
 
     /// Build (or reuse) the parsed time index for `events`.
     ///
-    /// The index is keyed by the events slice's address, length, and the current
-    /// comment-rendering flag; when that key is unchanged the existing index is
-    /// kept, so each event's start/end time string is parsed only once per script
+    /// The index is kept while it describes the events (and the comment-rendering
+    /// flag), so each event's start/end time string is parsed only once per script
     /// rather than on every frame.
     fn ensure_index(&mut self, events: &[Event]) {
-        let key = (events.as_ptr() as usize, events.len(), self.render_comments);
         if self
             .time_index
             .as_ref()
-            .is_some_and(|index| index.key == key)
+            .is_some_and(|index| index.describes(events, self.render_comments))
         {
             return;
         }
diff --git a/crates/ass-renderer/src/renderer/time_index.rs b/crates/ass-renderer/src/renderer/time_index.rs
index 8e065a3..2bb0ff4 100644
--- a/crates/ass-renderer/src/renderer/time_index.rs
+++ b/crates/ass-renderer/src/renderer/time_index.rs
@@ -3,17 +3,22 @@
 use ass_core::parser::{ast::EventType, Event};
 
 #[cfg(feature = "nostd")]
-use alloc::vec::Vec;
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
 
 /// Parsed, start-sorted timing index for a script's events.
 ///
-/// Keyed by the events `Vec`'s address, length, and the comment-rendering flag,
-/// so it is reused across frames and rebuilt only when the script (or that flag)
-/// changes. Each entry is `(start_cs, end_cs, original_index)`; the original
-/// index preserves file-order rendering when active events are emitted.
+/// Remembers the timing strings it was built from, so it is reused across frames
+/// and rebuilt only when the script (or the comment-rendering flag) changes; the
+/// events' address says nothing, since a new script may lie where an old one lay.
+/// Each entry is `(start_cs, end_cs, original_index)`; the original index
+/// preserves file-order rendering when active events are emitted.
 #[derive(Debug, Clone)]
 pub(super) struct TimeIndex {
-    pub(super) key: (usize, usize, bool),
+    source: Vec<(EventType, String, String)>,
+    render_comments: bool,
     pub(super) by_start: Vec<(u32, u32, usize)>,
 }
 
@@ -25,7 +30,10 @@ impl TimeIndex {
     /// per-frame scan with `partition_point`. `Dialogue` events are always
     /// included; `Comment` events only when `render_comments` is set.
     pub(super) fn build(events: &[Event], render_comments: bool) -> Self {
-        let key = (events.as_ptr() as usize, events.len(), render_comments);
+        let source = events
+            .iter()
+            .map(|e| (e.event_type, e.start.to_string(), e.end.to_string()))
+            .collect();
 
         let mut by_start = Vec::new();
         for (idx, event) in events.iter().enumerate() {
@@ -42,6 +50,23 @@ impl TimeIndex {
         }
         by_start.sort_unstable_by_key(|&(start, _, _)| start);
 
-        Self { key, by_start }
+        Self {
+            source,
+            render_comments,
+            by_start,
+        }
+    }
+
+    /// Whether this index still describes `events`.
+    pub(super) fn describes(&self, events: &[Event], render_comments: bool) -> bool {
+        self.render_comments == render_comments
+            && self.source.len() == events.len()
+            && self
+                .source
+                .iter()
+                .zip(events)
+                .all(|((kind, start, end), e)| {
+                    *kind == e.event_type && start == e.start && end == e.end
+                })
     }
 }
-- 
2.43.0


From fca54c73e46f3bf51ab17b9e62b095b126c2659f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 46/83] fix: replacing a render cache entry evicts no other,
 and a limit of zero holds nothing

---
 crates/ass-renderer/src/cache/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/cache/mod.rs b/crates/ass-renderer/src/cache/mod.rs
index 71dd429..7f6340a 100644
--- a/crates/ass-renderer/src/cache/mod.rs
+++ b/crates/ass-renderer/src/cache/mod.rs
@@ -100,8 +100,14 @@ impl RenderCache {
 
     /// Store shaped text in cache
     pub fn store_shaped_text(&mut self, key: TextCacheKey, shaped: ShapedText) -> Arc<ShapedText> {
-        // Evict if at capacity
-        if self.shaped_text_cache.len() >= self.max_shaped_entries {
+        if self.max_shaped_entries == 0 {
+            return Arc::new(shaped);
+        }
+
+        // Evict if at capacity, unless the key's own entry is replaced
+        if self.shaped_text_cache.len() >= self.max_shaped_entries
+            && !self.shaped_text_cache.contains_key(&key)
+        {
             // Simple LRU: remove first item (not ideal but simple)
             if let Some(first_key) = self.shaped_text_cache.keys().next().cloned() {
                 self.shaped_text_cache.remove(&first_key);
@@ -127,8 +133,14 @@ impl RenderCache {
 
     /// Store drawing path in cache
     pub fn store_drawing_path(&mut self, key: DrawingCacheKey, path: Option<Path>) {
-        // Evict if at capacity
-        if self.drawing_path_cache.len() >= self.max_drawing_entries {
+        if self.max_drawing_entries == 0 {
+            return;
+        }
+
+        // Evict if at capacity, unless the key's own entry is replaced
+        if self.drawing_path_cache.len() >= self.max_drawing_entries
+            && !self.drawing_path_cache.contains_key(&key)
+        {
             if let Some(first_key) = self.drawing_path_cache.keys().next().cloned() {
                 self.drawing_path_cache.remove(&first_key);
                 self.stats.evictions += 1;
-- 
2.43.0


From b9bb9f564f1f168505a5c82099911240bbec532b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 47/83] fix: the texture atlas hands out regions that lie
 inside it only

---
 crates/ass-renderer/src/utils/caches.rs | 28 +++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/crates/ass-renderer/src/utils/caches.rs b/crates/ass-renderer/src/utils/caches.rs
index 82900e7..d109f3c 100644
--- a/crates/ass-renderer/src/utils/caches.rs
+++ b/crates/ass-renderer/src/utils/caches.rs
@@ -125,29 +125,35 @@ impl TextureAtlas {
 
     /// Allocate a region in the atlas
     pub fn allocate(&mut self, width: u32, height: u32) -> Option<AtlasRegion> {
-        // Simple row-based packing
-        if self.next_x + width > self.width {
-            // Move to next row
-            self.next_x = 0;
-            self.next_y += self.row_height;
-            self.row_height = 0;
+        if width > self.width || height > self.height {
+            // Does not fit any row
+            return None;
         }
 
-        if self.next_y + height > self.height {
+        // Simple row-based packing; the atlas changes only once the region is sure to fit
+        let (x, y, row_height) = if width > self.width - self.next_x {
+            // Move to next row
+            (0, self.next_y + self.row_height, 0)
+        } else {
+            (self.next_x, self.next_y, self.row_height)
+        };
+
+        if height > self.height - y {
             // Atlas is full
             return None;
         }
 
         let region = AtlasRegion {
             id: self.allocations.len() as u32,
-            x: self.next_x,
-            y: self.next_y,
+            x,
+            y,
             width,
             height,
         };
 
-        self.next_x += width;
-        self.row_height = self.row_height.max(height);
+        self.next_x = x + width;
+        self.next_y = y;
+        self.row_height = row_height.max(height);
         self.allocations.push(region.clone());
 
         Some(region)
-- 
2.43.0


From 372bedc4afcb2f0c03782e54a1dffc37dcfda8e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 48/83] fix: a cached frame is reused only for the same script
 contents, events and size

---
 crates/ass-renderer/src/renderer/frame_key.rs | 89 +++++++++++++++++++
 crates/ass-renderer/src/renderer/mod.rs       | 17 ++--
 2 files changed, 95 insertions(+), 11 deletions(-)
 create mode 100644 crates/ass-renderer/src/renderer/frame_key.rs

diff --git a/crates/ass-renderer/src/renderer/frame_key.rs b/crates/ass-renderer/src/renderer/frame_key.rs
new file mode 100644
index 0000000..1683c01
--- /dev/null
+++ b/crates/ass-renderer/src/renderer/frame_key.rs
@@ -0,0 +1,89 @@
+//! What a static frame depends on, used to tell whether a cached frame still holds.
+
+use ass_core::parser::{Event, Script, Section};
+
+#[cfg(feature = "nostd")]
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
+
+use super::RenderContext;
+
+/// Everything the pixels of a frame without animated events are made from: the
+/// frame size, the script's settings, styles and fonts, and the events shown.
+///
+/// The contents are kept rather than their addresses, since a changed or new
+/// script may lie exactly where an old one lay.
+#[derive(PartialEq, Eq)]
+pub(super) struct FrameKey {
+    size: (u32, u32),
+    parts: Vec<String>,
+}
+
+impl FrameKey {
+    pub(super) fn new(script: &Script, events: &[&Event], context: &RenderContext) -> Self {
+        let mut parts = Vec::new();
+        for section in script.sections() {
+            match section {
+                Section::ScriptInfo(info) => {
+                    parts.push("[Script Info]".to_string());
+                    for (key, value) in &info.fields {
+                        parts.push((*key).to_string());
+                        parts.push((*value).to_string());
+                    }
+                }
+                Section::Styles(styles) => {
+                    parts.push("[Styles]".to_string());
+                    for s in styles {
+                        let fields = [
+                            s.name,
+                            s.fontname,
+                            s.fontsize,
+                            s.primary_colour,
+                            s.secondary_colour,
+                            s.outline_colour,
+                            s.back_colour,
+                            s.bold,
+                            s.italic,
+                            s.underline,
+                            s.strikeout,
+                            s.scale_x,
+                            s.scale_y,
+                            s.spacing,
+                            s.angle,
+                            s.border_style,
+                            s.outline,
+                            s.shadow,
+                            s.alignment,
+                            s.margin_l,
+                            s.margin_r,
+                            s.margin_v,
+                            s.encoding,
+                        ];
+                        parts.extend(fields.iter().map(|f| (*f).to_string()));
+                    }
+                }
+                Section::Fonts(fonts) => {
+                    parts.push("[Fonts]".to_string());
+                    for font in fonts {
+                        parts.push(font.filename.to_string());
+                        parts.extend(font.data_lines.iter().map(|l| (*l).to_string()));
+                    }
+                }
+                _ => {}
+            }
+        }
+        parts.push("[Events]".to_string());
+        for e in events {
+            let fields = [
+                e.layer, e.start, e.style, e.margin_l, e.margin_r, e.margin_v, e.effect, e.text,
+            ];
+            parts.extend(fields.iter().map(|f| (*f).to_string()));
+        }
+        Self {
+            size: (context.width(), context.height()),
+            parts,
+        }
+    }
+}
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index bcbe7ff..76a5e45 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -13,6 +13,7 @@ use std::boxed::Box;
 mod context;
 mod event_selector;
 mod frame;
+mod frame_key;
 mod metrics;
 mod probing;
 mod time_index;
@@ -29,11 +30,9 @@ pub struct Renderer {
     backend: Box<dyn RenderBackend>,
     pipeline: Box<dyn Pipeline>,
     event_selector: event_selector::EventSelector,
-    /// Cache of the last fully-static rendered frame, keyed by the active events'
-    /// text spans. Reused (data copied, timestamp updated) when no active event is
-    /// animated and the active set is unchanged — the common case of a subtitle
-    /// shown across many frames. Animated frames (`\t`/`\move`/`\k`/`\fad`) skip it.
-    frame_cache: Option<(Vec<(usize, usize)>, Frame)>,
+    /// Cache of the last fully-static rendered frame, keyed by everything it was
+    /// made from (see [`frame_key::FrameKey`]).
+    frame_cache: Option<(frame_key::FrameKey, Frame)>,
 }
 
 impl Renderer {
@@ -110,12 +109,8 @@ impl Renderer {
         // render (copying its pixels with the current timestamp) instead of
         // re-shaping and re-rasterizing. Animated frames bypass and clear it.
         let animated = events.iter().any(|e| Self::event_is_animated(e.text));
-        let cache_key: Option<Vec<(usize, usize)>> = (!animated).then(|| {
-            events
-                .iter()
-                .map(|e| (e.text.as_ptr() as usize, e.text.len()))
-                .collect()
-        });
+        let cache_key =
+            (!animated).then(|| frame_key::FrameKey::new(script, &events, &self.context));
         if let (Some(key), Some((cached_key, cached))) =
             (cache_key.as_ref(), self.frame_cache.as_ref())
         {
-- 
2.43.0


From c049968b3fd0418bc2cc99805eaa5b4b1e7ff047 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 49/83] fix: an incremental frame shows what a full one shows

---
 .../ass-renderer/src/backends/software/mod.rs | 36 ++++++++-----------
 crates/ass-renderer/src/renderer/mod.rs       | 33 ++++++++++++++---
 2 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index d2797ed..a0336ce 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -203,32 +203,26 @@ impl RenderBackend for SoftwareBackend {
         previous_frame: &[u8],
         context: &RenderContext,
     ) -> Result<Vec<u8>, RenderError> {
-        if self.pixmap.width() != context.width() || self.pixmap.height() != context.height() {
-            self.resize(context.width(), context.height())?;
-        }
-
-        // Seed from the previous frame, then redraw only the dirty regions.
-        if previous_frame.len() == self.pixmap.data().len() {
-            self.pixmap.data_mut().copy_from_slice(previous_frame);
-        } else {
-            self.pixmap.fill(tiny_skia::Color::TRANSPARENT);
+        // Layers blend with what lies below them, so they are drawn from scratch and
+        // only the dirty regions of the result replace the previous frame.
+        let fresh = self.composite_layers(layers, context)?;
+        if previous_frame.len() != fresh.len() {
+            return Ok(fresh);
         }
 
-        // Only redraw dirty regions
+        let (width, height) = (context.width() as usize, context.height() as usize);
+        let mut frame = previous_frame.to_vec();
         for region in dirty_regions {
-            // TODO: Create clip mask for dirty region
-            // tiny_skia doesn't expose ClipMask publicly
-            let _ = region; // TODO: Apply clipping
-
-            // Composite layers within this region
-            for layer in layers {
-                if layer.intersects_region(region) {
-                    self.composite_layer(layer, context)?;
-                }
+            let x0 = (region.x as usize).min(width);
+            let x1 = ((region.x as usize).saturating_add(region.width as usize)).min(width);
+            let y0 = (region.y as usize).min(height);
+            let y1 = ((region.y as usize).saturating_add(region.height as usize)).min(height);
+            for y in y0..y1 {
+                let row = (y * width + x0) * 4..(y * width + x1) * 4;
+                frame[row.clone()].copy_from_slice(&fresh[row]);
             }
         }
-
-        Ok(self.pixmap.data().to_vec())
+        Ok(frame)
     }
 
     fn supports_feature(&self, feature: BackendFeature) -> bool {
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index 76a5e45..4e2f045 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -3,10 +3,10 @@
 use crate::backends::RenderBackend;
 use crate::pipeline::Pipeline;
 use crate::utils::RenderError;
-use ass_core::parser::Script;
+use ass_core::parser::{Event, Script, Section};
 
 #[cfg(feature = "nostd")]
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, vec, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::boxed::Box;
 
@@ -197,12 +197,35 @@ impl Renderer {
     ) -> Result<Frame, RenderError> {
         let active = self.event_selector.select_active(script, time_cs)?;
         let events = active.events;
-        let dirty_regions =
+
+        // What is shown now and what the previous frame showed both matter: an
+        // event that has ended has to disappear.
+        let prev_time_cs = previous_frame.timestamp();
+        let was_shown = |event: &Event| {
+            event.is_dialogue()
+                && event.start_time_cs().unwrap_or(0) <= prev_time_cs
+                && event.end_time_cs().unwrap_or(0) > prev_time_cs
+        };
+        let mut concerned = events.to_vec();
+        if let Some(all) = script.sections().iter().find_map(|section| match section {
+            Section::Events(all) => Some(all),
+            _ => None,
+        }) {
+            concerned.extend(all.iter().filter(|event| was_shown(event)));
+        }
+
+        let same_size = previous_frame.width() == self.context.width()
+            && previous_frame.height() == self.context.height();
+        let animated = concerned.iter().any(|e| Self::event_is_animated(e.text));
+        let dirty_regions = if animated || !same_size {
+            vec![crate::utils::DirtyRegion::full_screen()]
+        } else {
             self.pipeline
-                .compute_dirty_regions(&events, time_cs, previous_frame.timestamp())?;
+                .compute_dirty_regions(&concerned, time_cs, prev_time_cs)?
+        };
 
         if dirty_regions.is_empty() {
-            return Ok(previous_frame.clone());
+            return Ok(previous_frame.with_timestamp(time_cs));
         }
 
         self.pipeline.prepare_script(script, None)?;
-- 
2.43.0


From 6c1092287c468258b1462dee877d72a2a9051a44 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:05:27 +0000
Subject: [PATCH 50/83] fix: preparing a script forgets the one before, and the
 fallback style is its first

---
 crates/ass-renderer/src/pipeline/build/mod.rs |  4 ++++
 crates/ass-renderer/src/pipeline/build/run.rs | 24 ++++++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index ce2cd1d..f220fa4 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -35,6 +35,8 @@ pub struct SoftwarePipeline {
     /// Default style for fallback
     default_style: Option<OwnedStyle>,
     /// Script playback resolution from PlayResX/PlayResY
+    /// PlayRes assumed when the script gives none
+    default_res: (f32, f32),
     play_res_x: f32,
     play_res_y: f32,
     /// Script layout resolution from LayoutResX/LayoutResY (if present)
@@ -70,6 +72,7 @@ impl SoftwarePipeline {
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
             styles_map: AHashMap::new(),
             default_style: None,
+            default_res: (1920.0, 1080.0),
             play_res_x: 1920.0, // Default resolution
             play_res_y: 1080.0, // Default resolution
             layout_res_x: None,
@@ -92,6 +95,7 @@ impl SoftwarePipeline {
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
             styles_map: AHashMap::new(),
             default_style: None,
+            default_res: (width, height),
             play_res_x: width,  // Use provided dimensions as default
             play_res_y: height, // Use provided dimensions as default
             layout_res_x: None,
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index b4d17df..f803e50 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -7,7 +7,7 @@ use std::{string::ToString, vec::Vec};
 
 #[cfg(feature = "analysis-integration")]
 use ass_core::analysis::ScriptAnalysis;
-use ass_core::parser::{Event, Script};
+use ass_core::parser::{Event, Script, Section};
 
 use super::OwnedStyle;
 use crate::collision::PositionedEvent;
@@ -83,9 +83,15 @@ impl Pipeline for super::SoftwarePipeline {
         // Load embedded and referenced fonts from the script
         super::super::font_loader::load_script_fonts(script, &mut self.font_database);
 
-        // Clear and rebuild styles map
+        // Clear and rebuild styles map; nothing of the script prepared before stays
         self.styles_map.clear();
         self.default_style = None;
+        let mut first_style = None;
+        (self.play_res_x, self.play_res_y) = self.default_res;
+        self.layout_res_x = None;
+        self.layout_res_y = None;
+        self.scaled_border_and_shadow = true;
+        self.wrap_style = 0;
 
         // If we have analysis with resolved styles (which handle LayoutRes->PlayRes scaling),
         // we should use those instead of raw styles
@@ -94,8 +100,11 @@ impl Pipeline for super::SoftwarePipeline {
         #[cfg(not(feature = "analysis-integration"))]
         let _use_resolved_styles = false;
 
-        // Extract script info and styles from the script
-        for section in script.sections() {
+        // Extract script info and styles from the script: the settings first, since
+        // the styles are scaled by them wherever they stand
+        let is_info = |section: &&Section| matches!(section, Section::ScriptInfo(_));
+        let (infos, others): (Vec<_>, Vec<_>) = script.sections().iter().partition(is_info);
+        for section in infos.into_iter().chain(others) {
             match section {
                 ass_core::parser::Section::ScriptInfo(info) => {
                     // Extract PlayResX and PlayResY from script info
@@ -196,6 +205,9 @@ impl Pipeline for super::SoftwarePipeline {
                             self.default_style = Some(owned_style.clone());
                         }
 
+                        if first_style.is_none() {
+                            first_style = Some(owned_style.clone());
+                        }
                         self.styles_map.insert(style_name, owned_style);
                     }
                 }
@@ -204,8 +216,8 @@ impl Pipeline for super::SoftwarePipeline {
         }
 
         // If no default style found, use the first one
-        if self.default_style.is_none() && !self.styles_map.is_empty() {
-            self.default_style = self.styles_map.values().next().cloned();
+        if self.default_style.is_none() {
+            self.default_style = first_style;
         }
 
         Ok(())
-- 
2.43.0


From 17d435fe291e7a4380320bb2f6ae70ba0550e7ef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 51/83] fix: colliding events stay inside the frame being
 rendered

---
 crates/ass-renderer/src/pipeline/build/run.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index f803e50..9cc8cd8 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -233,8 +233,11 @@ impl Pipeline for super::SoftwarePipeline {
         time_cs: u32,
         context: &RenderContext,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
-        // Clear collision resolver for this frame (but keep dimensions)
-        self.collision_resolver.clear();
+        // A fresh collision resolver for this frame and its dimensions
+        self.collision_resolver = crate::collision::CollisionResolver::new(
+            context.width() as f32,
+            context.height() as f32,
+        );
 
         // Pre-allocate with estimated capacity to reduce allocations
         let mut all_layers = Vec::with_capacity(events.len() * 3);
-- 
2.43.0


From 9c233cc31c249b08146c230fe129e42503254787 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 52/83] fix: a bitmap list holds everything a layer draws

---
 .../src/backends/software/dirty.rs            | 81 ++++++++++++++++---
 .../src/backends/software/text/prepare.rs     |  4 +-
 .../src/backends/software/vector.rs           |  3 +-
 3 files changed, 73 insertions(+), 15 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 8988e56..6ac969c 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -17,17 +17,22 @@ use tiny_skia::{Pixmap, Transform};
 use super::cache::DIRTY_BBOX;
 use crate::backends::geometry::merge_transformed;
 
-/// A generous screen-space bbox covering a text layer's vector-path output
-/// (glyphs plus an outline/shadow/blur margin), or `None` if it has no geometry.
+/// A generous screen-space bbox covering a text layer's vector-path output, or
+/// `None` if it has no geometry: the glyphs with their outline, shadow and opaque
+/// box, and what is placed beside the glyph outlines rather than over them (the
+/// blurred bitmap, the softened outline, underline and strikethrough).
 #[cfg(not(feature = "nostd"))]
 pub(super) fn text_vector_dirty_bbox(
     data: &crate::pipeline::TextData,
     paths: &[tiny_skia::Path],
     base_transform: Transform,
+    shaped: &crate::pipeline::shaping::ShapedText,
+    baseline_y: f32,
 ) -> Option<(i32, i32, i32, i32)> {
     use crate::pipeline::TextEffect;
     let bounds = merge_transformed(paths, base_transform)?.bounds();
-    let (mut outline, mut shadow, mut blur) = (0.0_f32, 0.0_f32, 0.0_f32);
+    let (mut outline, mut shadow, mut padding) = (0.0_f32, 0.0_f32, 0.0_f32);
+    let (mut blur, mut edge_blur, mut line) = (None, None, false);
     for effect in &data.effects {
         match effect {
             TextEffect::Outline {
@@ -35,20 +40,70 @@ pub(super) fn text_vector_dirty_bbox(
             } => outline = outline.max(width_x.max(*width_y)),
             TextEffect::Shadow {
                 x_offset, y_offset, ..
-            } => shadow = shadow.max(x_offset.abs()).max(y_offset.abs()),
-            TextEffect::Blur { radius } | TextEffect::EdgeBlur { radius } => {
-                blur = blur.max(*radius)
-            }
+            } => shadow = shadow.max(x_offset.abs() + y_offset.abs()),
+            TextEffect::OpaqueBox {
+                padding_x,
+                padding_y,
+                ..
+            } => padding = padding.max(padding_x.max(*padding_y)),
+            TextEffect::Blur { radius } => blur = Some(*radius),
+            TextEffect::EdgeBlur { radius } => edge_blur = Some(*radius),
+            TextEffect::Underline | TextEffect::Strikethrough => line = true,
             _ => {}
         }
     }
-    // Generous: box blur of radius r spreads ~r each side; ×4 leaves head-room.
-    let margin = 4.0 + outline * 2.0 + shadow + blur * 4.0;
+
+    // The shadow is displaced before the transform; mitered joins of the outline
+    // reach out to four times its width.
+    let stretch = (base_transform.sx.abs() + base_transform.kx.abs())
+        .max(base_transform.sy.abs() + base_transform.ky.abs())
+        .max(1.0);
+    let margin = 4.0 + outline * 4.0 + shadow * stretch + padding;
+    let mut left = bounds.left() - margin;
+    let mut top = bounds.top() - margin;
+    let mut right = bounds.right() + margin;
+    let mut bottom = bounds.bottom() + margin;
+    let mut cover = |x: f32, y: f32, around: f32| {
+        left = left.min(x - around);
+        top = top.min(y - around);
+        right = right.max(x + around);
+        bottom = bottom.max(y + around);
+    };
+
+    if let Some(radius) = blur {
+        let pad = (radius * 3.0).ceil();
+        let (x, y) = (data.x - pad, baseline_y - pad - shaped.ascent);
+        cover(x, y, 2.0);
+        cover(
+            x + shaped.width + pad * 2.0,
+            y + shaped.height + pad * 2.0,
+            2.0,
+        );
+    }
+    if let Some(radius) = edge_blur {
+        let pad = (radius * 3.0).ceil() + outline;
+        let (x1, y1) = (shaped.width + pad, shaped.height + pad);
+        let mut corners = [(-pad, -pad), (x1, -pad), (-pad, y1), (x1, y1)]
+            .map(|(x, y)| tiny_skia::Point::from_xy(x, y));
+        base_transform.map_points(&mut corners);
+        for corner in corners {
+            cover(corner.x, corner.y, 2.0 + 2.0 * stretch);
+        }
+    }
+    if line {
+        let around = 2.0 + data.font_size * 0.08;
+        let (under, strike) = (
+            baseline_y - shaped.descent / 2.0,
+            baseline_y - shaped.ascent / 3.0,
+        );
+        cover(data.x, under.min(strike), around);
+        cover(data.x + shaped.width, under.max(strike), around);
+    }
     Some((
-        (bounds.left() - margin).floor() as i32,
-        (bounds.top() - margin).floor() as i32,
-        (bounds.right() + margin).ceil() as i32,
-        (bounds.bottom() + margin).ceil() as i32,
+        left.floor() as i32,
+        top.floor() as i32,
+        right.ceil() as i32,
+        bottom.ceil() as i32,
     ))
 }
 
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 6a719d8..f14106e 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -210,7 +210,9 @@ impl super::super::SoftwareBackend {
         // Vector path (blur / swept karaoke / clip / opaque box / under-strike).
         // Record a generous dirty bbox so a bitmap-list crop scans only this region.
         #[cfg(not(feature = "nostd"))]
-        if let Some(bbox) = text_vector_dirty_bbox(data, &paths, base_transform) {
+        if let Some(bbox) =
+            text_vector_dirty_bbox(data, &paths, base_transform, &shaped, baseline_y)
+        {
             note_dirty_bbox(bbox);
         }
 
diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 8496b88..b50802f 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -58,7 +58,8 @@ impl super::SoftwareBackend {
         // drawing — the dominant cost on sparkle-heavy frames (dozens-to-hundreds
         // of `\p` drawings, each previously a full-frame scan + clear).
         let b = path.bounds();
-        let margin = 2.0 + data.stroke.as_ref().map_or(0.0, |s| s.width) + data.blur * 3.0;
+        // Mitered joins reach out to four times half the stroke's width.
+        let margin = 2.0 + data.stroke.as_ref().map_or(0.0, |s| s.width * 2.0) + data.blur * 3.0;
         note_dirty_bbox((
             (b.left() - margin).floor() as i32,
             (b.top() - margin).floor() as i32,
-- 
2.43.0


From c5e1cdd9f66e2bf4857f0fa8d2ca16e07e375bed Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 53/83] fix: editing an event by index changes that event and
 keeps its other fields

---
 .../ass-editor/core/document/builder_edit.rs  |  93 +++------
 crates/ass-editor/core/document/event_edit.rs | 130 ++++++-------
 crates/ass-editor/core/document/event_line.rs |  83 --------
 .../ass-editor/core/document/event_lines.rs   | 183 ++++++++++++++++++
 crates/ass-editor/core/document/mod.rs        |   3 +-
 5 files changed, 267 insertions(+), 225 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/event_line.rs
 create mode 100644 crates/ass-editor/core/document/event_lines.rs

diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index 379006b..6a72642 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -7,7 +7,7 @@
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
-use ass_core::parser::ast::Section;
+use ass_core::parser::ast::{EventType, Section};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -56,43 +56,28 @@ impl EditorDocument {
     {
         use crate::core::builders::EventBuilder;
 
-        let content = self.text();
-        let mut event_info = None;
+        let events = self.event_lines()?.unwrap_or_default();
+        let Some(line) = events.get(index) else {
+            return Err(EditorError::InvalidRange {
+                start: index,
+                end: index + 1,
+                length: events.len(),
+            });
+        };
+        let format_fields: Vec<&str> = line.format.iter().map(String::as_str).collect();
+        let mut new_line = None;
         let mut event_count = 0;
-        let mut format_line = None;
 
-        // Find the event and extract format line
+        // Build the new line from the event
         self.parse_script_with(|script| -> Result<()> {
             for section in script.sections() {
                 if let Section::Events(events) = section {
-                    // Get format line if available
-                    if format_line.is_none() {
-                        // Find Events section header and format line in raw text
-                        if let Some(events_pos) = content.find("[Events]") {
-                            let after_header = &content[events_pos + 8..];
-                            if let Some(format_pos) = after_header.find("Format:") {
-                                let format_start = events_pos + 8 + format_pos + 7; // Skip "Format:"
-                                if let Some(format_end) = content[format_start..].find('\n') {
-                                    let format_str =
-                                        content[format_start..format_start + format_end].trim();
-                                    let fields: Vec<&str> =
-                                        format_str.split(',').map(str::trim).collect();
-                                    format_line = Some(fields);
-                                }
-                            }
-                        }
-                    }
-
                     for event in events {
                         if event_count == index {
                             // Create a builder pre-populated with current values
                             let mut builder = match event.event_type {
-                                ass_core::parser::ast::EventType::Dialogue => {
-                                    EventBuilder::dialogue()
-                                }
-                                ass_core::parser::ast::EventType::Comment => {
-                                    EventBuilder::comment()
-                                }
+                                EventType::Dialogue => EventBuilder::dialogue(),
+                                EventType::Comment => EventBuilder::comment(),
                                 _ => EventBuilder::new(),
                             };
 
@@ -121,32 +106,12 @@ impl EditorDocument {
                             let modified_builder = builder_fn(builder);
 
                             // Build the new event line
-                            let new_line = if let Some(ref format_fields) = format_line {
-                                modified_builder.build_with_format(format_fields)?
-                            } else {
-                                modified_builder.build()?
-                            };
-
-                            // Find the event line in the raw text
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                (pos, line_end)
-                            } else {
-                                return Err(EditorError::ValidationError {
-                                    message: "Could not find event line in document".to_string(),
-                                });
-                            };
-
-                            event_info = Some((event_line, new_line));
+                            let built = modified_builder.build_with_format(&format_fields)?;
+                            new_line = Some(match event.event_type {
+                                EventType::Dialogue | EventType::Comment => built,
+                                // The builder only knows the two types above
+                                other => built.replacen("Dialogue", other.as_str(), 1),
+                            });
                             return Ok(());
                         }
                         event_count += 1;
@@ -156,18 +121,12 @@ impl EditorDocument {
             Ok(())
         })??;
 
-        if let Some(((line_start, line_end), new_line)) = event_info {
-            // Replace the line in the document
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            self.replace(range, &new_line)?;
+        // Replace the event in the document
+        let new_line = new_line.unwrap_or_else(|| line.text.clone());
+        let end = line.range.start + line.text.trim_end().len();
+        let range = Range::new(Position::new(line.range.start), Position::new(end));
+        self.replace(range, &new_line)?;
 
-            Ok(new_line)
-        } else {
-            Err(EditorError::InvalidRange {
-                start: index,
-                end: index + 1,
-                length: event_count,
-            })
-        }
+        Ok(new_line)
     }
 }
diff --git a/crates/ass-editor/core/document/event_edit.rs b/crates/ass-editor/core/document/event_edit.rs
index ea72773..165723b 100644
--- a/crates/ass-editor/core/document/event_edit.rs
+++ b/crates/ass-editor/core/document/event_edit.rs
@@ -2,7 +2,7 @@
 //!
 //! Implements `edit_event_by_index`, which locates an event in the raw text,
 //! applies field-level modifications, and rewrites the dialogue/comment line
-//! via the `build_modified_event_line_from_data` helper.
+//! leaving every other field as it is.
 
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
@@ -50,83 +50,65 @@ impl EditorDocument {
     where
         F: for<'a> FnOnce(&ass_core::parser::ast::Event<'a>) -> Vec<(&'static str, String)>,
     {
-        let content = self.text();
-        let mut event_info = None;
-        let mut event_count = 0;
-
-        // Find the event and its location in the document
-        self.parse_script_with(|script| -> Result<()> {
-            for section in script.sections() {
-                if let Section::Events(events) = section {
-                    for event in events {
-                        if event_count == index {
-                            // Get the modifications from the update function
-                            let modifications = update_fn(event);
-
-                            // Build a pattern to search for this specific event
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                let line = content[pos..line_end].to_string();
-                                (pos, line_end, line)
-                            } else {
-                                return Err(EditorError::ValidationError {
-                                    message: "Could not find event line in document".to_string(),
-                                });
-                            };
+        let events = self.event_lines()?.unwrap_or_default();
+        let Some(line) = events.get(index) else {
+            return Err(EditorError::InvalidRange {
+                start: index,
+                end: index + 1,
+                length: events.len(),
+            });
+        };
 
-                            // Store the event data we need instead of cloning
-                            let event_data = (
-                                event.event_type,
-                                event.layer.to_string(),
-                                event.start.to_string(),
-                                event.end.to_string(),
-                                event.style.to_string(),
-                                event.name.to_string(),
-                                event.margin_l.to_string(),
-                                event.margin_r.to_string(),
-                                event.margin_v.to_string(),
-                                event.effect.to_string(),
-                                event.text.to_string(),
-                            );
-                            event_info = Some((event_data, event_line, modifications));
-                            return Ok(());
-                        }
-                        event_count += 1;
-                    }
-                }
+        // Get the modifications from the update function
+        let mut modifications = Vec::new();
+        self.parse_script_with(|script| {
+            let event = script
+                .sections()
+                .iter()
+                .filter_map(|section| match section {
+                    Section::Events(events) => Some(events),
+                    _ => None,
+                })
+                .flatten()
+                .nth(index);
+            if let Some(event) = event {
+                modifications = update_fn(event);
             }
-            Ok(())
-        })??;
+        })?;
 
-        if let Some((event_data, (line_start, line_end, original_line), modifications)) = event_info
-        {
-            // Build the new event line with modifications
-            let new_line = self.build_modified_event_line_from_data(
-                event_data,
-                &original_line,
-                modifications,
-            )?;
+        // Replace the modified fields; the last modification of a field counts
+        let mut changes: Vec<(core::ops::Range<usize>, String)> = Vec::new();
+        for (field, value) in modifications {
+            let name = match field {
+                "layer" => "Layer",
+                "start" => "Start",
+                "end" => "End",
+                "style" => "Style",
+                "name" => "Name",
+                "margin_l" => "MarginL",
+                "margin_r" => "MarginR",
+                "margin_v" => "MarginV",
+                "effect" => "Effect",
+                "text" => "Text",
+                _ => {
+                    return Err(EditorError::ValidationError {
+                        message: format!("Unknown event field: {field}"),
+                    });
+                }
+            };
+            let range = line.field(name)?;
+            changes.retain(|(changed, _)| *changed != range);
+            changes.push((range, value));
+        }
+        let new_line = line.with(changes);
 
-            // Replace the line in the document
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            self.replace(range, &new_line)?;
+        // Replace the line in the document
+        let range = Range::new(
+            Position::new(line.range.start),
+            Position::new(line.range.end),
+        );
+        self.replace(range, &new_line)?;
 
-            Ok(new_line)
-        } else {
-            Err(EditorError::InvalidRange {
-                start: index,
-                end: index + 1,
-                length: event_count,
-            })
-        }
+        Ok(new_line.trim().to_string())
     }
 }
diff --git a/crates/ass-editor/core/document/event_line.rs b/crates/ass-editor/core/document/event_line.rs
deleted file mode 100644
index 93bdb05..0000000
--- a/crates/ass-editor/core/document/event_line.rs
+++ /dev/null
@@ -1,83 +0,0 @@
-//! Event line reconstruction helper
-//!
-//! Rebuilds a dialogue/comment line from extracted field data after applying
-//! a set of field modifications. Exposed as `pub(super)` for the
-//! index-based event editor.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-
-#[cfg(not(feature = "std"))]
-use alloc::{format, string::String, vec::Vec};
-
-impl EditorDocument {
-    /// Helper to build a modified event line from event data
-    pub(super) fn build_modified_event_line_from_data(
-        &self,
-        event_data: (
-            ass_core::parser::ast::EventType,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-        ),
-        _original_line: &str,
-        modifications: Vec<(&'static str, String)>,
-    ) -> Result<String> {
-        let (
-            event_type,
-            layer,
-            start,
-            end,
-            style,
-            name,
-            margin_l,
-            margin_r,
-            margin_v,
-            effect,
-            text,
-        ) = event_data;
-
-        // Apply modifications
-        let mut layer = layer;
-        let mut start = start;
-        let mut end = end;
-        let mut style = style;
-        let mut name = name;
-        let mut margin_l = margin_l;
-        let mut margin_r = margin_r;
-        let mut margin_v = margin_v;
-        let mut effect = effect;
-        let mut text = text;
-
-        for (field, value) in modifications {
-            match field {
-                "layer" => layer = value,
-                "start" => start = value,
-                "end" => end = value,
-                "style" => style = value,
-                "name" => name = value,
-                "margin_l" => margin_l = value,
-                "margin_r" => margin_r = value,
-                "margin_v" => margin_v = value,
-                "effect" => effect = value,
-                "text" => text = value,
-                _ => {
-                    return Err(EditorError::ValidationError {
-                        message: format!("Unknown event field: {field}"),
-                    });
-                }
-            }
-        }
-
-        // Rebuild the line
-        let event_type_str = event_type.as_str();
-        Ok(format!("{event_type_str}: {layer},{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"))
-    }
-}
diff --git a/crates/ass-editor/core/document/event_lines.rs b/crates/ass-editor/core/document/event_lines.rs
new file mode 100644
index 0000000..243d314
--- /dev/null
+++ b/crates/ass-editor/core/document/event_lines.rs
@@ -0,0 +1,183 @@
+//! Event lines of a document, located the way the parser reads them
+//!
+//! Index-based event editing addresses events by their position among the
+//! events the parser reports. `event_lines` returns exactly those events with
+//! their place in the text and the format that applies to them, so that an
+//! edit touches the named fields of the named event and nothing else.
+
+use super::EditorDocument;
+use crate::core::errors::{EditorError, Result};
+use ass_core::parser::ast::{EventType, Section};
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Field order of an events section without a `Format:` line
+const DEFAULT_FORMAT: [&str; 10] = [
+    "Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text",
+];
+
+/// One event as it stands in the document text
+#[derive(Debug, Clone)]
+pub(crate) struct EventLine {
+    /// Type of the event
+    pub event_type: EventType,
+    /// Byte range of the event in the document, without its newline
+    pub range: Range<usize>,
+    /// Text of the event, without its newline
+    pub text: String,
+    /// Field names of the format that applies to the event
+    pub format: Vec<String>,
+}
+
+impl EventLine {
+    /// Range of the event type name within the line
+    fn type_range(&self) -> Range<usize> {
+        let start = self.text.len() - self.text.trim_start().len();
+        start..start + self.event_type.as_str().len()
+    }
+
+    /// Range of `value` within the line without its surrounding whitespace
+    fn trimmed(&self, range: Range<usize>) -> Range<usize> {
+        let value = &self.text[range.clone()];
+        let start = range.start + (value.len() - value.trim_start().len());
+        start..start + value.trim().len()
+    }
+
+    /// Position of a field in the format
+    fn position(&self, name: &str) -> Option<usize> {
+        self.format
+            .iter()
+            .position(|f| f.eq_ignore_ascii_case(name))
+    }
+
+    /// Untrimmed ranges of the fields within the line, in format order
+    fn fields(&self) -> Vec<Range<usize>> {
+        let limit = if self.position("Text").is_some() {
+            self.format.len()
+        } else {
+            DEFAULT_FORMAT.len()
+        };
+        let mut start = self.type_range().end + 1;
+        let mut fields = Vec::new();
+        while fields.len() + 1 < limit {
+            let Some(comma) = self.text[start..].find(',') else {
+                break;
+            };
+            fields.push(start..start + comma);
+            start += comma + 1;
+        }
+        fields.push(start..self.text.len());
+        fields
+    }
+
+    /// Range of a field's value within the line
+    pub fn field(&self, name: &str) -> Result<Range<usize>> {
+        self.position(name)
+            .and_then(|index| self.fields().get(index).cloned())
+            .map(|range| self.trimmed(range))
+            .ok_or_else(|| EditorError::command_failed(format!("Event has no {name} field")))
+    }
+
+    /// Value of a field
+    pub fn value(&self, name: &str) -> Result<&str> {
+        Ok(&self.text[self.field(name)?])
+    }
+
+    /// Ranges of the effect and the text within the line
+    ///
+    /// An effect directly before the text may hold commas inside parentheses.
+    pub fn effect_and_text(&self) -> Result<(Range<usize>, Range<usize>)> {
+        let (effect, text) = (self.field("Effect")?, self.field("Text")?);
+        let last = self.format.len() - 1;
+        if self.position("Text") != Some(last) || self.position("Effect") != last.checked_sub(1) {
+            return Ok((effect, text));
+        }
+
+        let start = self.fields()[last - 1].start;
+        let mut depth = 0_usize;
+        for (at, c) in self.text[start..].char_indices() {
+            match c {
+                '(' => depth += 1,
+                ')' => depth = depth.saturating_sub(1),
+                ',' if depth == 0 => {
+                    return Ok((
+                        self.trimmed(start..start + at),
+                        self.trimmed(start + at + 1..self.text.len()),
+                    ));
+                }
+                _ => {}
+            }
+        }
+        Ok((effect, text))
+    }
+
+    /// The line with the given ranges replaced and everything else as it is
+    pub fn with(&self, mut changes: Vec<(Range<usize>, String)>) -> String {
+        changes.sort_by_key(|(range, _)| range.start);
+        let mut line = self.text.clone();
+        for (range, value) in changes.into_iter().rev() {
+            line.replace_range(range, &value);
+        }
+        line
+    }
+
+    /// The line as an event of another type
+    pub fn with_type(&self, event_type: EventType) -> String {
+        let name = event_type.as_str().to_string();
+        self.with(core::iter::once((self.type_range(), name)).collect())
+    }
+
+    /// Range of the whole line in the document, including its indentation and newline
+    pub fn whole_line(&self, content: &str) -> Range<usize> {
+        let start = content[..self.range.start].rfind('\n').map_or(0, |n| n + 1);
+        let end = (self.range.end + 1).min(content.len());
+        start..end
+    }
+}
+
+impl EditorDocument {
+    /// Events of the document in parser order, `None` without an events section
+    pub(crate) fn event_lines(&self) -> Result<Option<Vec<EventLine>>> {
+        let content = self.text();
+        self.parse_script_with(|script| {
+            let mut found = false;
+            let mut lines = Vec::new();
+            let mut format: Option<Vec<String>> = None;
+            let mut scanned = 0;
+            for section in script.sections() {
+                let Section::Events(events) = section else {
+                    continue;
+                };
+                found = true;
+                for event in events {
+                    // The last format line between the section header and the event applies
+                    let range = event.span.start..event.span.end;
+                    for line in content[scanned..range.start].lines().map(str::trim) {
+                        if line.starts_with('[') {
+                            format = None;
+                        } else if let Some(fields) = line.strip_prefix("Format:") {
+                            format =
+                                Some(fields.split(',').map(|f| f.trim().to_string()).collect());
+                        }
+                    }
+                    scanned = range.end;
+                    lines.push(EventLine {
+                        event_type: event.event_type,
+                        text: content[range.clone()].to_string(),
+                        range,
+                        format: format.clone().unwrap_or_else(|| {
+                            DEFAULT_FORMAT.iter().map(|f| (*f).to_string()).collect()
+                        }),
+                    });
+                }
+            }
+            found.then_some(lines)
+        })
+    }
+}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index 7fe26bd..a401238 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -9,7 +9,7 @@ mod constructors;
 mod editing;
 mod editing_raw;
 mod event_edit;
-mod event_line;
+mod event_lines;
 mod incremental_parse;
 mod metadata;
 mod position_api;
@@ -45,6 +45,7 @@ mod validator_tests;
 #[cfg(all(test, feature = "plugins"))]
 mod plugin_tests;
 
+pub(crate) use event_lines::EventLine;
 pub use position_api::DocumentPosition;
 pub use types::EditorDocument;
 
-- 
2.43.0


From 63ef0d09f3774d933c63162bb8f0c8613ada9837 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:13 +0000
Subject: [PATCH 54/83] fix: event commands address the events the parser reads
 and keep the rest

---
 .../commands/event_commands/batch_delete.rs   |  89 ++--------
 .../commands/event_commands/delete.rs         |  72 ++------
 .../commands/event_commands/effect_exec.rs    | 161 +++++-------------
 .../commands/event_commands/helpers.rs        | 134 +++++----------
 .../commands/event_commands/merge.rs          | 130 ++++----------
 .../commands/event_commands/split.rs          | 145 ++++------------
 .../commands/event_commands/timing.rs         | 159 +++++------------
 .../commands/event_commands/toggle.rs         |  95 +++--------
 8 files changed, 241 insertions(+), 744 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 5b710c0..34d1007 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -1,15 +1,16 @@
 //! Command to delete multiple events from an ASS document.
 
+use super::helpers::{apply, event_lines, selected, Edit};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
+use alloc::{string::String, vec::Vec};
 
 /// Command to delete multiple events from the ASS document
 ///
 /// Removes multiple events (Dialogue or Comment) at the specified indices from the `[Events]` section.
-/// Indices are automatically sorted and processed in reverse order to maintain correctness.
+/// Indices may be given in any order and refer to the document before the command.
 /// All indices are 0-based and include both Dialogue and Comment events.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct BatchDeleteEventsCommand {
@@ -30,79 +31,21 @@ impl EditorCommand for BatchDeleteEventsCommand {
             return Ok(CommandResult::success());
         }
 
-        // Sort indices in descending order to delete from end to start
-        // This prevents index shifting issues
-        let mut sorted_indices = self.event_indices.clone();
-        sorted_indices.sort_unstable_by(|a, b| b.cmp(a));
-        sorted_indices.dedup();
+        let events = event_lines(document)?;
+        let content = document.text();
+        let edits: Vec<Edit> = selected(&events, &self.event_indices)
+            .map(|event| (event.whole_line(&content), String::new()))
+            .collect();
 
-        let content = document.text().to_string();
-
-        // Find [Events] section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
-
-        // Find Format line end
-        let format_line_end = content[events_start..]
-            .find("Format:")
-            .and_then(|format_pos| {
-                content[events_start + format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Collect all event positions
-        let mut event_positions = Vec::new();
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end.saturating_sub(1)];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                event_positions.push((current_index, event_start, line_end));
-                current_index += 1;
-            }
-
-            event_start = line_end;
-        }
-
-        // Delete events in reverse order to avoid index shifting
-        let mut total_deleted = 0;
-        let mut first_delete_pos = Position::new(content.len());
-
-        for index in &sorted_indices {
-            if let Some((_, start, end)) = event_positions.iter().find(|(idx, _, _)| idx == index) {
-                let range = Range::new(Position::new(*start), Position::new(*end));
-                document.delete(range)?;
-                total_deleted += 1;
-
-                // Track the earliest deletion position
-                if range.start.offset < first_delete_pos.offset {
-                    first_delete_pos = range.start;
-                }
-            }
+        if edits.is_empty() {
+            return Ok(CommandResult::success());
         }
 
-        if total_deleted > 0 {
-            Ok(CommandResult::success_with_change(
-                Range::new(first_delete_pos, first_delete_pos),
-                first_delete_pos,
-            ))
-        } else {
-            Ok(CommandResult::success())
-        }
+        let start = apply(document, &edits)?.start;
+        Ok(CommandResult::success_with_change(
+            Range::new(start, start),
+            start,
+        ))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/delete.rs b/crates/ass-editor/commands/event_commands/delete.rs
index 400334a..37b29ad 100644
--- a/crates/ass-editor/commands/event_commands/delete.rs
+++ b/crates/ass-editor/commands/event_commands/delete.rs
@@ -1,10 +1,11 @@
 //! Command to delete a single event from an ASS document.
 
+use super::helpers::{apply, event_lines};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::ToString};
+use alloc::{format, string::String};
 
 /// Command to delete a single event from the ASS document
 ///
@@ -25,65 +26,14 @@ impl DeleteEventCommand {
 
 impl EditorCommand for DeleteEventCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Events] section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
-
-        // Find Format line end
-        let format_line_end = content[events_start..]
-            .find("Format:")
-            .and_then(|format_pos| {
-                content[events_start + format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut delete_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end.saturating_sub(1)]; // Check without newline
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.event_index {
-                    delete_range = Some(Range::new(
-                        Position::new(event_start),
-                        Position::new(line_end),
-                    ));
-                    break;
-                }
-                current_index += 1;
-            }
-
-            event_start = line_end;
-        }
-
-        if let Some(range) = delete_range {
-            document.delete(range)?;
-            Ok(CommandResult::success_with_change(
-                Range::new(range.start, range.start),
-                range.start,
-            ))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Event index {} not found",
-                self.event_index
-            )))
-        }
+        let events = event_lines(document)?;
+        let event = events.get(self.event_index).ok_or_else(|| {
+            EditorError::command_failed(format!("Event index {} not found", self.event_index))
+        })?;
+
+        let line = event.whole_line(&document.text());
+        let range = apply(document, &[(line, String::new())])?;
+        Ok(CommandResult::success_with_change(range, range.start))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/effect_exec.rs b/crates/ass-editor/commands/event_commands/effect_exec.rs
index 6fd3fa3..d56d420 100644
--- a/crates/ass-editor/commands/event_commands/effect_exec.rs
+++ b/crates/ass-editor/commands/event_commands/effect_exec.rs
@@ -1,141 +1,62 @@
 //! `EditorCommand` implementation for `EventEffectCommand`.
 
 use super::effect::{EffectOperation, EventEffectCommand};
-use super::helpers::parse_event_line;
+use super::helpers::{apply, event_lines, selected, Edit};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use crate::core::{EditorDocument, Position, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
+    vec::Vec,
 };
 
 impl EditorCommand for EventEffectCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
+        let events = event_lines(document)?;
+        let mut edits: Vec<Edit> = Vec::new();
 
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_modify =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_modify {
-                    // Parse event line using helper function
-                    if let Ok(event) = parse_event_line(line) {
-                        let new_effect = match self.operation {
-                            EffectOperation::Set => self.effect.clone(),
-                            EffectOperation::Clear => String::new(),
-                            EffectOperation::Append => {
-                                if event.effect.is_empty() {
-                                    self.effect.clone()
-                                } else {
-                                    format!("{} {}", event.effect, self.effect)
-                                }
-                            }
-                            EffectOperation::Prepend => {
-                                if event.effect.is_empty() {
-                                    self.effect.clone()
-                                } else {
-                                    format!("{} {}", self.effect, event.effect)
-                                }
-                            }
-                        };
-
-                        // Build new event line
-                        let event_type_str = match event.event_type {
-                            EventType::Dialogue => "Dialogue",
-                            EventType::Comment => "Comment",
-                            _ => "Dialogue", // Default fallback
-                        };
-                        let new_line = format!(
-                            "{}: {},{},{},{},{},{},{},{},{},{}",
-                            event_type_str,
-                            event.layer,
-                            event.start,
-                            event.end,
-                            event.style,
-                            event.name,
-                            event.margin_l,
-                            event.margin_r,
-                            event.margin_v,
-                            new_effect,
-                            event.text
-                        );
-
-                        let range = Range::new(Position::new(event_start), Position::new(line_end));
-                        document.replace(range, &new_line)?;
-
-                        // Update content for next iteration
-                        content = document.text();
-
-                        // Track overall range
-                        let change_range = Range::new(
-                            Position::new(event_start),
-                            Position::new(event_start + new_line.len()),
-                        );
-                        total_range = Some(match total_range {
-                            Some(existing) => existing.union(&change_range),
-                            None => change_range,
-                        });
-
-                        changes_made += 1;
-                    }
+        for event in selected(&events, &self.event_indices) {
+            // Events without an effect field are left alone
+            let Ok((effect, _)) = event.effect_and_text() else {
+                continue;
+            };
+            let current = &event.text[effect.clone()];
+            let new_effect = match self.operation {
+                EffectOperation::Set => self.effect.clone(),
+                EffectOperation::Clear => String::new(),
+                EffectOperation::Append | EffectOperation::Prepend if current.is_empty() => {
+                    self.effect.clone()
                 }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
-        }
-
-        if changes_made > 0 {
-            let operation_name = match self.operation {
-                EffectOperation::Set => "set",
-                EffectOperation::Clear => "cleared",
-                EffectOperation::Append => "appended",
-                EffectOperation::Prepend => "prepended",
+                EffectOperation::Append => format!("{current} {}", self.effect),
+                EffectOperation::Prepend => format!("{} {current}", self.effect),
             };
+            edits.push((
+                event.range.clone(),
+                event.with([(effect, new_effect)].into()),
+            ));
+        }
 
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
-            )
-            .with_message(format!("Effect {operation_name} for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were modified".to_string()))
+        if edits.is_empty() {
+            return Ok(CommandResult::success().with_message("No events were modified".to_string()));
         }
+
+        let operation_name = match self.operation {
+            EffectOperation::Set => "set",
+            EffectOperation::Clear => "cleared",
+            EffectOperation::Append => "appended",
+            EffectOperation::Prepend => "prepended",
+        };
+
+        let range = apply(document, &edits)?;
+        Ok(
+            CommandResult::success_with_change(range, Position::new(document.len_bytes()))
+                .with_message(format!(
+                    "Effect {operation_name} for {} events",
+                    edits.len()
+                )),
+        )
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index fc15202..7a9dcbe 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -1,99 +1,57 @@
-//! Shared parsing helpers for event management commands.
+//! Shared helpers for event management commands.
 //!
-//! Provides robust ASS event line parsing with proper comma handling for the
-//! `Effect` and `Text` fields, used by the sibling command submodules.
+//! Locates the events a command addresses and applies all of its changes to
+//! the document text as one edit.
 
-use crate::core::EditorError;
-use ass_core::parser::ast::{Event, EventType, Span};
+use crate::core::document::EventLine;
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::vec::Vec;
+use alloc::{string::String, vec::Vec};
 
-/// Helper function to parse an ASS event line with proper comma handling
-/// Returns parsed Event struct or error if parsing fails
-pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, EditorError> {
-    // Extract event type
-    let colon_pos = line
-        .find(':')
-        .ok_or_else(|| EditorError::command_failed("Invalid event format: missing colon"))?;
-    let event_type_str = &line[..colon_pos];
-    let fields_part = line[colon_pos + 1..].trim();
+/// Replacement of a byte range of the document
+pub(super) type Edit = (core::ops::Range<usize>, String);
 
-    let event_type = match event_type_str {
-        "Dialogue" => EventType::Dialogue,
-        "Comment" => EventType::Comment,
-        _ => return Err(EditorError::command_failed("Unknown event type")),
-    };
-
-    // Parse fields carefully - Effect field can contain commas, so we need special handling
-    // Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text
-    let parts: Vec<&str> = fields_part.splitn(10, ',').collect();
-    if parts.len() < 10 {
-        return Err(EditorError::command_failed(
-            "Invalid event format: insufficient fields",
-        ));
-    }
-
-    // The issue is that parts[8] (Effect) and parts[9] (Text) might be incorrectly split
-    // if Effect contains commas. We need to rejoin them properly.
-
-    // First 8 fields are safe (no commas expected)
-    let layer = parts[0].trim();
-    let start = parts[1].trim();
-    let end = parts[2].trim();
-    let style = parts[3].trim();
-    let name = parts[4].trim();
-    let margin_l = parts[5].trim();
-    let margin_r = parts[6].trim();
-    let margin_v = parts[7].trim();
-
-    // For Effect and Text, we need to find the correct comma that separates them
-    // Effect can contain commas, but Text is the final field
-
-    // Calculate where effect+text starts in the original string
-    let prefix_len = parts[0..8].iter().map(|s| s.len()).sum::<usize>() + 8; // +8 for commas
-    let remaining = &fields_part[prefix_len..];
-
-    // Find the last comma that's not inside parentheses
-    let mut split_point = None;
-    let chars: Vec<char> = remaining.chars().collect();
-    let mut paren_depth = 0;
+/// Events of the document in parser order
+pub(super) fn event_lines(document: &EditorDocument) -> Result<Vec<EventLine>> {
+    document
+        .event_lines()?
+        .ok_or_else(|| EditorError::command_failed("Events section not found"))
+}
 
-    for (i, &ch) in chars.iter().enumerate().rev() {
-        match ch {
-            ')' => paren_depth += 1,
-            '(' => paren_depth -= 1,
-            ',' if paren_depth == 0 => {
-                split_point = Some(i);
-                break;
-            }
-            _ => {}
-        }
-    }
+/// Events addressed by `indices`, all of them when there are none
+pub(super) fn selected<'a>(
+    events: &'a [EventLine],
+    indices: &'a [usize],
+) -> impl Iterator<Item = &'a EventLine> {
+    events
+        .iter()
+        .enumerate()
+        .filter(move |(index, _)| indices.is_empty() || indices.contains(index))
+        .map(|(_, event)| event)
+}
 
-    let (effect, text) = if let Some(split) = split_point {
-        let effect_part = remaining[..split].trim();
-        let text_part = remaining[split + 1..].trim();
-        (effect_part, text_part)
-    } else {
-        // No comma found outside parentheses, treat entire remaining as effect
-        (remaining.trim(), "")
+/// Apply edits, given in document order, as a single replacement
+///
+/// Returns the range the edited text occupies afterwards.
+pub(super) fn apply(document: &mut EditorDocument, edits: &[Edit]) -> Result<Range> {
+    let (Some(first), Some(last)) = (edits.first(), edits.last()) else {
+        return Ok(Range::new(Position::new(0), Position::new(0)));
     };
+    let content = document.text();
+    let (start, end) = (first.0.start, last.0.end);
+
+    let mut text = String::new();
+    let mut at = start;
+    for (range, replacement) in edits {
+        text.push_str(&content[at..range.start]);
+        text.push_str(replacement);
+        at = range.end;
+    }
 
-    Ok(Event {
-        event_type,
-        layer,
-        start,
-        end,
-        style,
-        name,
-        margin_l,
-        margin_r,
-        margin_v,
-        margin_t: None,
-        margin_b: None,
-        effect,
-        text,
-        span: Span::new(0, line.len(), 1, 1), // Dummy span
-    })
+    document.replace(Range::new(Position::new(start), Position::new(end)), &text)?;
+    Ok(Range::new(
+        Position::new(start),
+        Position::new(start + text.len()),
+    ))
 }
diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index 07d6000..5d17c1b 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -1,15 +1,13 @@
 //! Command to merge two consecutive events into one.
 
-use super::helpers::parse_event_line;
+use super::helpers::{apply, event_lines};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
 };
 
 /// Command to merge two consecutive events
@@ -54,110 +52,50 @@ impl EditorCommand for MergeEventsCommand {
             ));
         }
 
-        let content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip to first event after format line
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
         // Find both events
-        let mut events = Vec::new();
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.first_event_index
-                    || current_index == self.second_event_index
-                {
-                    events.push((current_index, event_start, line_end, line.to_string()));
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
-        }
-
-        if events.len() != 2 {
+        let events = event_lines(document)?;
+        let (Some(first), Some(second)) = (
+            events.get(self.first_event_index),
+            events.get(self.second_event_index),
+        ) else {
             return Err(EditorError::command_failed(
                 "Could not find both events to merge",
             ));
-        }
-
-        // Parse both events using ass-core's parser
-        let first_event_line = &events[0].3;
-        let second_event_line = &events[1].3;
-
-        let first_event = parse_event_line(first_event_line)?;
-        let second_event = parse_event_line(second_event_line)?;
+        };
 
         // Use first event's properties, second event's end time, merged text
+        let first_text = first.effect_and_text()?.1;
+        let second_text = second.effect_and_text()?.1;
         let merged_text = format!(
             "{}{}{}",
-            first_event.text, self.merge_text_separator, second_event.text
+            &first.text[first_text.clone()],
+            self.merge_text_separator,
+            &second.text[second_text]
         );
-
-        // Create merged event
-        let event_type_str = match first_event.event_type {
-            EventType::Dialogue => "Dialogue",
-            EventType::Comment => "Comment",
-            _ => "Dialogue", // Default fallback
-        };
-        let merged_event = format!(
-            "{}: {},{},{},{},{},{},{},{},{},{}",
-            event_type_str,
-            first_event.layer,
-            first_event.start,
-            second_event.end,
-            first_event.style,
-            first_event.name,
-            first_event.margin_l,
-            first_event.margin_r,
-            first_event.margin_v,
-            first_event.effect,
-            merged_text
+        let merged_event = first.with(
+            [
+                (first.field("End")?, second.value("End")?.to_string()),
+                (first_text, merged_text),
+            ]
+            .into(),
         );
 
-        // Replace both events with the merged one
-        let first_start = events[0].1;
-        let second_end = events[1].2 + 1; // Include newline
-        let range = Range::new(Position::new(first_start), Position::new(second_end));
-        let replacement = format!("{merged_event}\n");
-
-        document.replace(range, &replacement)?;
-
-        let end_pos = Position::new(first_start + replacement.len());
-        Ok(CommandResult::success_with_change(
-            Range::new(Position::new(first_start), end_pos),
-            end_pos,
+        // The merged event takes the place of the first, the second line goes
+        let second_line = second.whole_line(&document.text());
+        let range = apply(
+            document,
+            &[
+                (first.range.clone(), merged_event),
+                (second_line, String::new()),
+            ],
+        )?;
+
+        Ok(
+            CommandResult::success_with_change(range, range.end).with_message(format!(
+                "Merged events {} and {}",
+                self.first_event_index, self.second_event_index
+            )),
         )
-        .with_message(format!(
-            "Merged events {} and {}",
-            self.first_event_index, self.second_event_index
-        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/split.rs b/crates/ass-editor/commands/event_commands/split.rs
index 3008e27..4cc6ff9 100644
--- a/crates/ass-editor/commands/event_commands/split.rs
+++ b/crates/ass-editor/commands/event_commands/split.rs
@@ -1,9 +1,8 @@
 //! Command to split a single event into two at a specific time.
 
-use super::helpers::parse_event_line;
+use super::helpers::{apply, event_lines};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use crate::core::{EditorDocument, EditorError, Result};
 use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
@@ -43,122 +42,36 @@ impl EditorCommand for SplitEventCommand {
         })?;
 
         // Find the event to split
-        let content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip to first event after format line
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Find the event at the specified index
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.event_index {
-                    // Found the event to split - parse using ass-core's parser
-                    let event = parse_event_line(line)?;
-
-                    // Validate split time is within event bounds
-                    let start_time_cs = event
-                        .start_time_cs()
-                        .map_err(|_| EditorError::command_failed("Invalid start time in event"))?;
-                    let end_time_cs = event
-                        .end_time_cs()
-                        .map_err(|_| EditorError::command_failed("Invalid end time in event"))?;
-
-                    if split_time_cs <= start_time_cs || split_time_cs >= end_time_cs {
-                        return Err(EditorError::command_failed(
-                            "Split time must be between event start and end times",
-                        ));
-                    }
-
-                    // Create two new events
-                    let event_type_str = match event.event_type {
-                        EventType::Dialogue => "Dialogue",
-                        EventType::Comment => "Comment",
-                        _ => "Dialogue", // Default fallback
-                    };
-                    let first_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        event.start,
-                        self.split_time,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
-                    );
-
-                    let second_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        self.split_time,
-                        event.end,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
-                    );
-
-                    // Replace the original event with the two new events
-                    let replacement = format!("{first_event}\n{second_event}");
-                    let range = Range::new(Position::new(event_start), Position::new(line_end));
-                    document.replace(range, &replacement)?;
-
-                    let end_pos = Position::new(event_start + replacement.len());
-                    return Ok(CommandResult::success_with_change(
-                        Range::new(Position::new(event_start), end_pos),
-                        end_pos,
-                    )
-                    .with_message(format!(
-                        "Split event {} at time {}",
-                        self.event_index, self.split_time
-                    )));
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                // Stop at next section
-                break;
-            }
+        let events = event_lines(document)?;
+        let event = events.get(self.event_index).ok_or_else(|| {
+            EditorError::command_failed(format!("Event index {} not found", self.event_index))
+        })?;
 
-            event_start = line_end + 1;
+        // Validate split time is within event bounds
+        let (start, end) = (event.field("Start")?, event.field("End")?);
+        let start_time_cs = parse_ass_time(&event.text[start.clone()])
+            .map_err(|_| EditorError::command_failed("Invalid start time in event"))?;
+        let end_time_cs = parse_ass_time(&event.text[end.clone()])
+            .map_err(|_| EditorError::command_failed("Invalid end time in event"))?;
+
+        if split_time_cs <= start_time_cs || split_time_cs >= end_time_cs {
+            return Err(EditorError::command_failed(
+                "Split time must be between event start and end times",
+            ));
         }
 
-        Err(EditorError::command_failed(format!(
-            "Event index {} not found",
-            self.event_index
-        )))
+        // Replace the original event with the two new events
+        let first_event = event.with([(end, self.split_time.clone())].into());
+        let second_event = event.with([(start, self.split_time.clone())].into());
+        let replacement = format!("{first_event}\n{second_event}");
+        let range = apply(document, &[(event.range.clone(), replacement)])?;
+
+        Ok(
+            CommandResult::success_with_change(range, range.end).with_message(format!(
+                "Split event {} at time {}",
+                self.event_index, self.split_time
+            )),
+        )
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index d2b4fd4..31f1623 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -1,10 +1,9 @@
 //! Command to adjust event timing by shifting start/end times.
 
-use super::helpers::parse_event_line;
+use super::helpers::{apply, event_lines, selected, Edit};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
-use ass_core::utils::format_ass_time;
+use crate::core::{EditorDocument, Position, Result};
+use ass_core::utils::{format_ass_time, parse_ass_time};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -68,122 +67,52 @@ impl TimingAdjustCommand {
     }
 }
 
+/// Move a time by an offset, staying within the representable times
+fn shift(time_cs: u32, offset_cs: i32) -> u32 {
+    let shifted = (i64::from(time_cs) + i64::from(offset_cs)).clamp(0, i64::from(u32::MAX));
+    u32::try_from(shifted).unwrap_or(u32::MAX)
+}
+
 impl EditorCommand for TimingAdjustCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_adjust =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_adjust {
-                    // Parse event line using ass-core's parser
-                    if let Ok(event) = parse_event_line(line) {
-                        // Parse current times using Event methods
-                        if let (Ok(start_cs), Ok(end_cs)) =
-                            (event.start_time_cs(), event.end_time_cs())
-                        {
-                            // Apply offsets
-                            let new_start_cs =
-                                (start_cs as i32 + self.start_offset_cs).max(0) as u32;
-                            let new_end_cs = (end_cs as i32 + self.end_offset_cs).max(0) as u32;
-
-                            // Ensure end time is after start time
-                            let final_end_cs = new_end_cs.max(new_start_cs + 1);
-
-                            let new_start_time = format_ass_time(new_start_cs);
-                            let new_end_time = format_ass_time(final_end_cs);
-
-                            // Build new event line
-                            let event_type_str = match event.event_type {
-                                EventType::Dialogue => "Dialogue",
-                                EventType::Comment => "Comment",
-                                _ => "Dialogue", // Default fallback
-                            };
-                            let new_line = format!(
-                                "{}: {},{},{},{},{},{},{},{},{},{}",
-                                event_type_str,
-                                event.layer,
-                                new_start_time,
-                                new_end_time,
-                                event.style,
-                                event.name,
-                                event.margin_l,
-                                event.margin_r,
-                                event.margin_v,
-                                event.effect,
-                                event.text
-                            );
-
-                            // Replace the line
-                            let range =
-                                Range::new(Position::new(event_start), Position::new(line_end));
-                            document.replace(range, &new_line)?;
-
-                            // Update content for next iteration
-                            content = document.text();
-
-                            // Track overall range
-                            let change_range = Range::new(
-                                Position::new(event_start),
-                                Position::new(event_start + new_line.len()),
-                            );
-                            total_range = Some(match total_range {
-                                Some(existing) => existing.union(&change_range),
-                                None => change_range,
-                            });
-
-                            changes_made += 1;
-                        }
-                    }
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
+        let events = event_lines(document)?;
+        let mut edits: Vec<Edit> = Vec::new();
+
+        for event in selected(&events, &self.event_indices) {
+            // Events whose times cannot be read are left alone
+            let (Ok(start), Ok(end)) = (event.field("Start"), event.field("End")) else {
+                continue;
+            };
+            let (Ok(start_cs), Ok(end_cs)) = (
+                parse_ass_time(&event.text[start.clone()]),
+                parse_ass_time(&event.text[end.clone()]),
+            ) else {
+                continue;
+            };
+
+            // Apply offsets, keeping the end time after the start time
+            let new_start_cs = shift(start_cs, self.start_offset_cs).min(u32::MAX - 1);
+            let new_end_cs = shift(end_cs, self.end_offset_cs).max(new_start_cs + 1);
+
+            let new_line = event.with(
+                [
+                    (start, format_ass_time(new_start_cs)),
+                    (end, format_ass_time(new_end_cs)),
+                ]
+                .into(),
+            );
+            edits.push((event.range.clone(), new_line));
         }
 
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
-            )
-            .with_message(format!("Adjusted timing for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were adjusted".to_string()))
+        if edits.is_empty() {
+            return Ok(CommandResult::success().with_message("No events were adjusted".to_string()));
         }
+
+        let range = apply(document, &edits)?;
+        Ok(
+            CommandResult::success_with_change(range, Position::new(document.len_bytes()))
+                .with_message(format!("Adjusted timing for {} events", edits.len())),
+        )
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/toggle.rs b/crates/ass-editor/commands/event_commands/toggle.rs
index 138b726..8a69c9d 100644
--- a/crates/ass-editor/commands/event_commands/toggle.rs
+++ b/crates/ass-editor/commands/event_commands/toggle.rs
@@ -1,7 +1,9 @@
 //! Command to toggle event type between Dialogue and Comment.
 
+use super::helpers::{apply, event_lines, selected, Edit};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Position, Result};
+use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -47,84 +49,27 @@ impl ToggleEventTypeCommand {
 
 impl EditorCommand for ToggleEventTypeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
+        let events = event_lines(document)?;
+        let edits: Vec<Edit> = selected(&events, &self.event_indices)
+            .filter_map(|event| {
+                let toggled = match event.event_type {
+                    EventType::Dialogue => EventType::Comment,
+                    EventType::Comment => EventType::Dialogue,
+                    _ => return None,
+                };
+                Some((event.range.clone(), event.with_type(toggled)))
             })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_toggle =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
+            .collect();
 
-                if should_toggle {
-                    let new_line = if line.starts_with("Dialogue:") {
-                        line.replacen("Dialogue:", "Comment:", 1)
-                    } else {
-                        line.replacen("Comment:", "Dialogue:", 1)
-                    };
-
-                    let range = Range::new(Position::new(event_start), Position::new(line_end));
-                    document.replace(range, &new_line)?;
-
-                    // Update content for next iteration
-                    content = document.text();
-
-                    // Track overall range
-                    let change_range = Range::new(
-                        Position::new(event_start),
-                        Position::new(event_start + new_line.len()),
-                    );
-                    total_range = Some(match total_range {
-                        Some(existing) => existing.union(&change_range),
-                        None => change_range,
-                    });
-
-                    changes_made += 1;
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
+        if edits.is_empty() {
+            return Ok(CommandResult::success().with_message("No events were toggled".to_string()));
         }
 
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
-            )
-            .with_message(format!("Toggled type for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were toggled".to_string()))
-        }
+        let range = apply(document, &edits)?;
+        Ok(
+            CommandResult::success_with_change(range, Position::new(document.len_bytes()))
+                .with_message(format!("Toggled type for {} events", edits.len())),
+        )
     }
 
     fn description(&self) -> &str {
-- 
2.43.0


From a25644f921bcd0e007fdf2a6e749128727b320bb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 55/83] fix: an event query reports where its events are and
 reads every time

---
 crates/ass-editor/core/fluent/event_ops.rs    | 30 +++--------------
 .../core/fluent/event_query_exec.rs           | 24 ++------------
 .../core/fluent/event_query_filter.rs         | 32 ++-----------------
 crates/ass-editor/core/fluent/query_types.rs  | 17 +++++++++-
 4 files changed, 26 insertions(+), 77 deletions(-)

diff --git a/crates/ass-editor/core/fluent/event_ops.rs b/crates/ass-editor/core/fluent/event_ops.rs
index 34e3f2a..f164b9b 100644
--- a/crates/ass-editor/core/fluent/event_ops.rs
+++ b/crates/ass-editor/core/fluent/event_ops.rs
@@ -3,12 +3,12 @@
 use super::event_deleter::EventDeleter;
 use super::event_merge_timing::{EventMerger, EventTimer};
 use super::event_toggle_effect::{EventEffector, EventToggler};
-use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria, OwnedEvent};
+use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria};
 use crate::commands::{
     BatchDeleteEventsCommand, DeleteEventCommand, EditorCommand, SplitEventCommand,
 };
-use crate::core::{EditorDocument, Position, Range, Result};
-use ass_core::parser::ast::{Event, EventType, Section};
+use crate::core::{EditorDocument, Result};
+use ass_core::parser::ast::{EventType, Section};
 
 #[cfg(not(feature = "std"))]
 use alloc::{string::ToString, vec::Vec};
@@ -65,13 +65,7 @@ impl<'a> EventOps<'a> {
                     if let Section::Events(events) = section {
                         for event in events {
                             if current_index == index {
-                                let event_info = EventInfo {
-                                    index,
-                                    event: OwnedEvent::from(event),
-                                    line_number: self.find_line_number_for_event(event)?,
-                                    range: self.find_range_for_event(event)?,
-                                };
-                                return Ok(Some(event_info));
+                                return Ok(Some(EventInfo::new(index, event)));
                             }
                             current_index += 1;
                         }
@@ -166,20 +160,4 @@ impl<'a> EventOps<'a> {
     pub fn delete_query(self) -> EventDeleter<'a> {
         EventDeleter::new(self.document)
     }
-
-    // ============================================================================
-    // Helper Methods
-    // ============================================================================
-
-    fn find_line_number_for_event(&self, _event: &Event) -> Result<usize> {
-        // For now, return a placeholder. This would need to be implemented
-        // by tracking line numbers during parsing or using rope byte-to-line conversion
-        Ok(1)
-    }
-
-    fn find_range_for_event(&self, _event: &Event) -> Result<Range> {
-        // For now, return a placeholder range. This would need to be implemented
-        // by using the event's span information from the parser
-        Ok(Range::new(Position::new(0), Position::new(0)))
-    }
 }
diff --git a/crates/ass-editor/core/fluent/event_query_exec.rs b/crates/ass-editor/core/fluent/event_query_exec.rs
index 810a8f4..6f25738 100644
--- a/crates/ass-editor/core/fluent/event_query_exec.rs
+++ b/crates/ass-editor/core/fluent/event_query_exec.rs
@@ -4,8 +4,8 @@ use super::event_merge_timing::EventTimer;
 use super::event_toggle_effect::{EventEffector, EventToggler};
 use super::{EventInfo, EventQuery, EventSortOptions, OwnedEvent};
 use crate::core::errors::EditorError;
-use crate::core::{Position, Range, Result};
-use ass_core::parser::ast::{Event, Section};
+use crate::core::Result;
+use ass_core::parser::ast::Section;
 use core::cmp::Ordering;
 
 #[cfg(not(feature = "std"))]
@@ -95,13 +95,7 @@ impl<'a> EventQuery<'a> {
                     if let Section::Events(section_events) = section {
                         for event in section_events {
                             // Build EventInfo with position tracking
-                            let event_info = EventInfo {
-                                index: event_index,
-                                event: OwnedEvent::from(event),
-                                line_number: self.find_line_number(event)?,
-                                range: self.find_event_range(event)?,
-                            };
-                            events.push(event_info);
+                            events.push(EventInfo::new(event_index, event));
                             event_index += 1;
                         }
                     }
@@ -150,16 +144,4 @@ impl<'a> EventQuery<'a> {
             }
         });
     }
-
-    fn find_line_number(&self, _event: &Event) -> Result<usize> {
-        // For now, return a placeholder. This would need to be implemented
-        // by tracking line numbers during parsing or using rope byte-to-line conversion
-        Ok(1)
-    }
-
-    fn find_event_range(&self, _event: &Event) -> Result<Range> {
-        // For now, return a placeholder range. This would need to be implemented
-        // by using the event's span information from the parser
-        Ok(Range::new(Position::new(0), Position::new(0)))
-    }
 }
diff --git a/crates/ass-editor/core/fluent/event_query_filter.rs b/crates/ass-editor/core/fluent/event_query_filter.rs
index f0bf6f1..61b6ae1 100644
--- a/crates/ass-editor/core/fluent/event_query_filter.rs
+++ b/crates/ass-editor/core/fluent/event_query_filter.rs
@@ -7,6 +7,7 @@
 use super::{EventInfo, EventQuery, EventSortCriteria};
 use crate::core::errors::EditorError;
 use crate::core::Result;
+use ass_core::utils::parse_ass_time;
 use core::cmp::Ordering;
 
 #[cfg(not(feature = "std"))]
@@ -56,8 +57,6 @@ impl EventQuery<'_> {
         }
 
         if let Some((start_cs, end_cs)) = self.filters.time_range {
-            // Parse timing - this is a simplified implementation
-            // In practice, you'd want proper time parsing from ass_core
             if let (Ok(event_start), Ok(event_end)) = (
                 self.parse_time_to_cs(&event_info.event.start),
                 self.parse_time_to_cs(&event_info.event.end),
@@ -91,34 +90,9 @@ impl EventQuery<'_> {
         }
     }
 
+    /// Parse time string to centiseconds
     fn parse_time_to_cs(&self, time_str: &str) -> Result<u32> {
-        // Simplified time parsing - in practice use ass_core utilities
-        // Format: H:MM:SS.CS
-        let parts: Vec<&str> = time_str.split(':').collect();
-        if parts.len() != 3 {
-            return Err(EditorError::command_failed("Invalid time format"));
-        }
-
-        let hours: u32 = parts[0]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid hours"))?;
-        let minutes: u32 = parts[1]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid minutes"))?;
-
-        let sec_cs_parts: Vec<&str> = parts[2].split('.').collect();
-        if sec_cs_parts.len() != 2 {
-            return Err(EditorError::command_failed("Invalid seconds format"));
-        }
-
-        let seconds: u32 = sec_cs_parts[0]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid seconds"))?;
-        let centiseconds: u32 = sec_cs_parts[1]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid centiseconds"))?;
-
-        Ok(hours * 360000 + minutes * 6000 + seconds * 100 + centiseconds)
+        parse_ass_time(time_str).map_err(|_| EditorError::command_failed("Invalid time format"))
     }
 
     pub(super) fn compare_by_criteria(
diff --git a/crates/ass-editor/core/fluent/query_types.rs b/crates/ass-editor/core/fluent/query_types.rs
index c8beb7f..8273324 100644
--- a/crates/ass-editor/core/fluent/query_types.rs
+++ b/crates/ass-editor/core/fluent/query_types.rs
@@ -3,7 +3,7 @@
 //! Defines [`EventInfo`], [`OwnedEvent`], [`EventFilter`], [`EventSortCriteria`],
 //! and [`EventSortOptions`] used by the event query builder.
 
-use crate::core::Range;
+use crate::core::{Position, Range};
 use ass_core::parser::ast::{Event, EventType};
 
 #[cfg(not(feature = "std"))]
@@ -22,6 +22,21 @@ pub struct EventInfo {
     pub range: Range,
 }
 
+impl EventInfo {
+    /// Describe an event of the parsed document
+    pub(super) fn new(index: usize, event: &Event<'_>) -> Self {
+        Self {
+            index,
+            event: OwnedEvent::from(event),
+            line_number: event.span.line as usize,
+            range: Range::new(
+                Position::new(event.span.start),
+                Position::new(event.span.end),
+            ),
+        }
+    }
+}
+
 /// Owned version of Event for use in EventInfo
 #[derive(Debug, Clone, PartialEq)]
 pub struct OwnedEvent {
-- 
2.43.0


From 95ab788568bb1b2b45ffb39e3cfcc8d0cf025ebf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 56/83] fix: a \fade whose times run backwards is read

---
 crates/ass-renderer/src/pipeline/tag_processor/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index a544251..76d19eb 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -174,8 +174,8 @@ pub fn parse_fade_args(args: &str) -> Option<FadeData> {
                 time_start: t1,
                 time_end: t4,
                 alpha_middle: Some(alpha2),
-                time_fade_in: Some(t2 - t1),
-                time_fade_out: Some(t4 - t3),
+                time_fade_in: Some(t2.saturating_sub(t1)),
+                time_fade_out: Some(t4.saturating_sub(t3)),
             });
         }
     }
-- 
2.43.0


From efc034d21b0ebcba83744e22c7c83938435d0f8f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 57/83] fix: drawings fade, and the level of \p scales them

---
 .../src/pipeline/build/drawing.rs             |  14 +-
 .../src/pipeline/build/text/colors.rs         | 122 ++++++++++--------
 .../src/pipeline/build/text/mod.rs            |   1 +
 3 files changed, 78 insertions(+), 59 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index f1e2184..b9b3c75 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -8,7 +8,7 @@ use std::vec::Vec;
 use ass_core::parser::Event;
 use tiny_skia::Transform;
 
-use super::OwnedStyle;
+use super::{text::fade_factor, OwnedStyle};
 use crate::pipeline::{
     animation::calculate_move_progress, drawing::process_drawing_commands,
     text_segmenter::TextSegment, IntermediateLayer, StrokeInfo, VectorData,
@@ -59,6 +59,12 @@ impl super::SoftwarePipeline {
             if let Some(alpha) = tags.colors.alpha1.or(tags.colors.alpha) {
                 color[3] = alpha;
             }
+            // `\fad`/`\fade` fade a drawing like they fade text.
+            let fade = tags
+                .fade
+                .as_ref()
+                .map_or(1.0, |f| fade_factor(f, _event, time_cs));
+            color[3] = (color[3] as f32 * fade) as u8;
 
             // Calculate scaling factors
             let scale_x = context.width() as f32 / self.play_res_x;
@@ -70,9 +76,12 @@ impl super::SoftwarePipeline {
             // ~1.5x too large whenever the output differed from PlayRes (the ED
             // sparkle particles, PlayRes 1920 rendered at 1280, were the visible
             // case: oversized shapes ~3x the ink libass produced).
+            // The level of `\p` divides the coordinates by 2^(level - 1).
+            let level = i32::from(tags.drawing_mode.unwrap_or(1).max(1));
+            let unit = 0.5_f32.powi(level - 1);
             let path = path
                 .clone()
-                .transform(Transform::from_scale(scale_x, scale_y))
+                .transform(Transform::from_scale(scale_x * unit, scale_y * unit))
                 .unwrap_or(path);
 
             // Calculate position with proper scaling
@@ -189,6 +198,7 @@ impl super::SoftwarePipeline {
                 if let Some(a) = tags.colors.alpha3.or(tags.colors.alpha) {
                     oc[3] = a;
                 }
+                oc[3] = (oc[3] as f32 * fade) as u8;
                 StrokeInfo {
                     color: oc,
                     width: border_w,
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index d21ca1e..dc52f71 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -6,7 +6,12 @@ use alloc::{string::ToString, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::{string::ToString, vec::Vec};
 
-use crate::pipeline::{tag_processor::ProcessedTags, text_segmenter::TextSegment};
+use ass_core::parser::Event;
+
+use crate::pipeline::{
+    tag_processor::{FadeData, ProcessedTags},
+    text_segmenter::TextSegment,
+};
 
 use super::types::{RunCtx, TextDefaults};
 
@@ -63,8 +68,6 @@ pub(super) fn resolve_run_colors(
     let default_primary_color = defaults.primary_color;
     let default_outline_color = defaults.outline_color;
     let default_back_color = defaults.back_color;
-    let event = ctx.event;
-    let time_cs = ctx.time_cs;
 
     // Get colors with proper inheritance
     let mut color = tags.colors.primary.unwrap_or(default_primary_color);
@@ -95,62 +98,9 @@ pub(super) fn resolve_run_colors(
 
     // Apply fade effect
     if let Some(fade) = &tags.fade {
-        // For \fad(t1,t2), t1 is fade-in duration, t2 is fade-out duration
-        // Calculate actual fade times relative to event
-        let event_start = event.start_time_cs().unwrap_or(0);
-        let event_end = event.end_time_cs().unwrap_or(u32::MAX);
-
-        let fade_alpha = if let Some(alpha_mid) = fade.alpha_middle {
-            // Complex \fade(a1,a2,a3,t1,t2,t3,t4): a 5-segment piecewise
-            // alpha over event-relative times (a1 before t1, ramp a1->a2
-            // over t1..t2, hold a2 over t2..t3, ramp a2->a3 over t3..t4,
-            // a3 after t4). ASS alphas are inverted (00=opaque).
-            let (a1, a2, a3) = (
-                fade.alpha_start as f32,
-                alpha_mid as f32,
-                fade.alpha_end as f32,
-            );
-            let t1 = event_start + fade.time_start;
-            let t2 = t1 + fade.time_fade_in.unwrap_or(0);
-            let t4 = event_start + fade.time_end;
-            let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
-            let ass_alpha = if time_cs <= t1 {
-                a1
-            } else if time_cs < t2 {
-                a1 + (a2 - a1) * (time_cs - t1) as f32 / (t2 - t1).max(1) as f32
-            } else if time_cs <= t3 {
-                a2
-            } else if time_cs < t4 {
-                a2 + (a3 - a2) * (time_cs - t3) as f32 / (t4 - t3).max(1) as f32
-            } else {
-                a3
-            };
-            // Convert ASS alpha (00=opaque, FF=transparent) to opacity.
-            255.0 - ass_alpha
-        } else {
-            // Simple fade - times are durations
-            let fade_in_end = event_start + fade.time_start;
-            let fade_out_start = event_end.saturating_sub(fade.time_end);
-
-            if time_cs < fade_in_end {
-                // During fade in
-                let progress =
-                    (time_cs.saturating_sub(event_start)) as f32 / fade.time_start.max(1) as f32;
-                255.0 * progress.min(1.0)
-            } else if time_cs >= fade_out_start && fade_out_start < event_end {
-                // During fade out
-                let progress =
-                    (event_end.saturating_sub(time_cs)) as f32 / fade.time_end.max(1) as f32;
-                255.0 * progress.min(1.0)
-            } else {
-                // Fully visible
-                255.0
-            }
-        };
+        let fade_factor = fade_factor(fade, ctx.event, ctx.time_cs);
 
         // Apply fade to all color components (primary, outline, shadow)
-        let fade_factor = fade_alpha / 255.0;
-
         color[3] = (color[3] as f32 * fade_factor) as u8;
         outline_color[3] = (outline_color[3] as f32 * fade_factor) as u8;
         shadow_color[3] = (shadow_color[3] as f32 * fade_factor) as u8;
@@ -158,3 +108,61 @@ pub(super) fn resolve_run_colors(
 
     (color, outline_color, shadow_color)
 }
+
+/// The share of its opacity a `\fad`/`\fade` leaves an event at `time_cs`.
+pub(in crate::pipeline::build) fn fade_factor(fade: &FadeData, event: &Event, time_cs: u32) -> f32 {
+    // For \fad(t1,t2), t1 is fade-in duration, t2 is fade-out duration
+    // Calculate actual fade times relative to event
+    let event_start = event.start_time_cs().unwrap_or(0);
+    let event_end = event.end_time_cs().unwrap_or(u32::MAX);
+
+    let fade_alpha = if let Some(alpha_mid) = fade.alpha_middle {
+        // Complex \fade(a1,a2,a3,t1,t2,t3,t4): a 5-segment piecewise
+        // alpha over event-relative times (a1 before t1, ramp a1->a2
+        // over t1..t2, hold a2 over t2..t3, ramp a2->a3 over t3..t4,
+        // a3 after t4). ASS alphas are inverted (00=opaque).
+        let (a1, a2, a3) = (
+            fade.alpha_start as f32,
+            alpha_mid as f32,
+            fade.alpha_end as f32,
+        );
+        let t1 = event_start + fade.time_start;
+        let t2 = t1 + fade.time_fade_in.unwrap_or(0);
+        let t4 = event_start + fade.time_end;
+        let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
+        let ass_alpha = if time_cs <= t1 {
+            a1
+        } else if time_cs < t2 {
+            a1 + (a2 - a1) * (time_cs - t1) as f32 / (t2 - t1).max(1) as f32
+        } else if time_cs <= t3 {
+            a2
+        } else if time_cs < t4 {
+            a2 + (a3 - a2) * (time_cs - t3) as f32 / (t4 - t3).max(1) as f32
+        } else {
+            a3
+        };
+        // Convert ASS alpha (00=opaque, FF=transparent) to opacity.
+        255.0 - ass_alpha
+    } else {
+        // Simple fade - times are durations
+        let fade_in_end = event_start + fade.time_start;
+        let fade_out_start = event_end.saturating_sub(fade.time_end);
+
+        if time_cs < fade_in_end {
+            // During fade in
+            let progress =
+                (time_cs.saturating_sub(event_start)) as f32 / fade.time_start.max(1) as f32;
+            255.0 * progress.min(1.0)
+        } else if time_cs >= fade_out_start && fade_out_start < event_end {
+            // During fade out
+            let progress =
+                (event_end.saturating_sub(time_cs)) as f32 / fade.time_end.max(1) as f32;
+            255.0 * progress.min(1.0)
+        } else {
+            // Fully visible
+            255.0
+        }
+    };
+
+    fade_alpha / 255.0
+}
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index da01eb8..0544ac9 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -23,6 +23,7 @@ mod effects;
 mod position;
 mod types;
 
+pub(super) use colors::fade_factor;
 use colors::{resolve_run_colors, split_into_logical_lines};
 use types::{EffectColors, LineLayout, Pen, RunCtx};
 
-- 
2.43.0


From 4503c557c4aed26b0dff0467ad3a4d8581af6c1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 58/83] fix: \alpha replaces the alphas set before it

---
 crates/ass-renderer/src/pipeline/tag_processor/mod.rs    | 4 ++++
 crates/ass-renderer/src/pipeline/text_segmenter/apply.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
index 6b2f1ba..4f87930 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
@@ -114,6 +114,10 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
         "alpha" => {
             if let Some(alpha) = parse_alpha(tag.args()) {
                 processed.colors.alpha = Some(alpha);
+                processed.colors.alpha1 = None;
+                processed.colors.alpha2 = None;
+                processed.colors.alpha3 = None;
+                processed.colors.alpha4 = None;
             }
         }
         "1a" => {
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index a483971..0ef8364 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -55,6 +55,10 @@ pub(super) fn process_tag_block(
             "alpha" => {
                 if let Some(alpha) = parse_alpha(args) {
                     current.colors.alpha = Some(alpha);
+                    current.colors.alpha1 = None;
+                    current.colors.alpha2 = None;
+                    current.colors.alpha3 = None;
+                    current.colors.alpha4 = None;
                 }
             }
             "1a" => {
-- 
2.43.0


From e9302390fe319542601302f8aafc46e05a288589 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 59/83] fix: style commands address the styles the parser
 reads, by their exact name and format

---
 .../commands/event_commands/helpers.rs        |   4 +-
 .../ass-editor/commands/event_commands/mod.rs |   2 +-
 .../commands/style_commands/apply.rs          | 124 +++---------
 .../commands/style_commands/clone.rs          |  66 +++---
 .../commands/style_commands/create.rs         |  77 +++----
 .../commands/style_commands/delete.rs         |  47 ++---
 .../commands/style_commands/edit.rs           |  99 +++------
 .../ass-editor/core/document/event_lines.rs   |  22 +-
 crates/ass-editor/core/document/mod.rs        |   2 +
 .../ass-editor/core/document/section_lines.rs |  37 +---
 .../ass-editor/core/document/style_lines.rs   | 190 ++++++++++++++++++
 11 files changed, 346 insertions(+), 324 deletions(-)
 create mode 100644 crates/ass-editor/core/document/style_lines.rs

diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
index 7a9dcbe..87ab400 100644
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ b/crates/ass-editor/commands/event_commands/helpers.rs
@@ -10,7 +10,7 @@ use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 use alloc::{string::String, vec::Vec};
 
 /// Replacement of a byte range of the document
-pub(super) type Edit = (core::ops::Range<usize>, String);
+pub(in crate::commands) type Edit = (core::ops::Range<usize>, String);
 
 /// Events of the document in parser order
 pub(super) fn event_lines(document: &EditorDocument) -> Result<Vec<EventLine>> {
@@ -34,7 +34,7 @@ pub(super) fn selected<'a>(
 /// Apply edits, given in document order, as a single replacement
 ///
 /// Returns the range the edited text occupies afterwards.
-pub(super) fn apply(document: &mut EditorDocument, edits: &[Edit]) -> Result<Range> {
+pub(in crate::commands) fn apply(document: &mut EditorDocument, edits: &[Edit]) -> Result<Range> {
     let (Some(first), Some(last)) = (edits.first(), edits.last()) else {
         return Ok(Range::new(Position::new(0), Position::new(0)));
     };
diff --git a/crates/ass-editor/commands/event_commands/mod.rs b/crates/ass-editor/commands/event_commands/mod.rs
index aa56268..8d4b0c2 100644
--- a/crates/ass-editor/commands/event_commands/mod.rs
+++ b/crates/ass-editor/commands/event_commands/mod.rs
@@ -7,7 +7,7 @@ mod batch_delete;
 mod delete;
 mod effect;
 mod effect_exec;
-mod helpers;
+pub(super) mod helpers;
 mod merge;
 mod split;
 mod timing;
diff --git a/crates/ass-editor/commands/style_commands/apply.rs b/crates/ass-editor/commands/style_commands/apply.rs
index 730481f..b641ff0 100644
--- a/crates/ass-editor/commands/style_commands/apply.rs
+++ b/crates/ass-editor/commands/style_commands/apply.rs
@@ -3,13 +3,15 @@
 //! Provides [`ApplyStyleCommand`] to retarget events from one style to
 //! another, with an optional text filter on event lines.
 
+use crate::commands::event_commands::helpers::{apply, Edit};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Position, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
+    vec,
     vec::Vec,
 };
 
@@ -49,104 +51,40 @@ impl ApplyStyleCommand {
 
 impl EditorCommand for ApplyStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let mut changes_made = 0;
-        let mut total_range: Option<Range> = None;
-
-        // Find events section
-        let events_start = content
-            .find("[Events]")
+        let events = document
+            .event_lines()?
             .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
 
-        // Skip format line
-        let events_content_start = content[events_start..]
-            .find('\n')
-            .map(|pos| events_start + pos + 1)
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Skip format line again (Format: ...)
-        let first_event_start = content[events_content_start..]
-            .find('\n')
-            .map(|pos| events_content_start + pos + 1)
-            .unwrap_or(events_content_start);
-
-        let mut search_pos = first_event_start;
-
-        while search_pos < content.len() {
-            // Find next event line
-            let line_start = search_pos;
-            let line_end = content[line_start..]
-                .find('\n')
-                .map(|pos| line_start + pos)
-                .unwrap_or(content.len());
-
-            if line_start >= line_end {
-                break;
+        // Retarget the events that use the old style and pass the filter
+        let mut edits: Vec<Edit> = Vec::new();
+        for event in &events {
+            let Ok(style) = event.field("Style") else {
+                continue;
+            };
+            let wanted = self
+                .event_filter
+                .as_ref()
+                .is_none_or(|filter| event.text.contains(filter));
+            if wanted && event.text[style.clone()] == self.old_style {
+                let line = event.with(vec![(style, self.new_style.clone())]);
+                edits.push((event.range.clone(), line));
             }
-
-            let line = &content[line_start..line_end];
-
-            // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let parts: Vec<&str> = line.split(',').collect();
-
-                // Check if this event uses the old style (typically 4th field after event type)
-                if parts.len() > 4 && parts[3].trim() == self.old_style {
-                    // Apply filter if specified
-                    let should_update = if let Some(ref filter) = self.event_filter {
-                        line.contains(filter)
-                    } else {
-                        true
-                    };
-
-                    if should_update {
-                        // Replace the old style with new style
-                        let updated_line = line.replace(
-                            &format!(",{},", self.old_style),
-                            &format!(",{},", self.new_style),
-                        );
-
-                        // Update the document
-                        let range = Range::new(Position::new(line_start), Position::new(line_end));
-                        document.replace(range, &updated_line)?;
-
-                        // Update content for next iteration (this is inefficient but correct)
-                        content = document.text();
-
-                        // Track overall range
-                        let change_range = Range::new(
-                            Position::new(line_start),
-                            Position::new(line_start + updated_line.len()),
-                        );
-                        total_range = Some(match total_range {
-                            Some(existing) => existing.union(&change_range),
-                            None => change_range,
-                        });
-
-                        changes_made += 1;
-                    }
-                }
-            } else if line.starts_with('[') && line != "[Events]" {
-                // Stop at next section
-                break;
-            }
-
-            search_pos = line_end + 1;
         }
 
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
-            )
-            .with_message(format!(
-                "Applied style '{}' to {} events",
-                self.new_style, changes_made
-            )))
-        } else {
-            Ok(CommandResult::success()
-                .with_message("No events found matching the criteria".to_string()))
+        if edits.is_empty() {
+            return Ok(CommandResult::success()
+                .with_message("No events found matching the criteria".to_string()));
         }
+        let changes_made = edits.len();
+        let range = apply(document, &edits)?;
+        Ok(
+            CommandResult::success_with_change(range, Position::new(document.len())).with_message(
+                format!(
+                    "Applied style '{}' to {} events",
+                    self.new_style, changes_made
+                ),
+            ),
+        )
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/clone.rs b/crates/ass-editor/commands/style_commands/clone.rs
index c62524f..2870ce0 100644
--- a/crates/ass-editor/commands/style_commands/clone.rs
+++ b/crates/ass-editor/commands/style_commands/clone.rs
@@ -37,58 +37,42 @@ impl CloneStyleCommand {
 
 impl EditorCommand for CloneStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text();
-        let source_pattern = format!("Style: {}", self.source_style);
-
         // Check if target style already exists
-        let target_pattern = format!("Style: {}", self.target_style);
-        if content.contains(&target_pattern) {
+        if document.style_line(&self.target_style)?.is_some() {
             return Err(EditorError::command_failed(format!(
                 "Style '{}' already exists",
                 self.target_style
             )));
         }
 
-        if let Some(source_start) = content.find(&source_pattern) {
-            // Find the complete source style line
-            let line_start = content[..source_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[source_start..]
-                .find('\n')
-                .map(|pos| source_start + pos)
-                .unwrap_or(content.len());
-
-            let source_line = &content[line_start..line_end];
+        let Some(source) = document.style_line(&self.source_style)? else {
+            return Err(EditorError::command_failed(format!(
+                "Source style '{}' not found",
+                self.source_style
+            )));
+        };
 
-            // Replace the style name in the cloned line
-            let cloned_line = source_line.replace(
-                &format!("Style: {}", self.source_style),
-                &format!("Style: {}", self.target_style),
-            );
+        // Replace the style name in the cloned line
+        let mut cloned_line = source.text.clone();
+        if let Some(name) = source.field("Name") {
+            cloned_line.replace_range(name, &self.target_style);
+        }
 
-            // Find where to insert the new style (after the source style)
-            let insert_pos = line_end;
-            let insert_text = format!("\n{cloned_line}");
+        // Insert the new style after the source style
+        let insert_pos = source.range.end;
+        let insert_text = format!("\n{cloned_line}");
 
-            document.insert(Position::new(insert_pos), &insert_text)?;
+        document.insert(Position::new(insert_pos), &insert_text)?;
 
-            let end_pos = Position::new(insert_pos + insert_text.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(insert_pos), end_pos),
-                end_pos,
-            )
-            .with_message(format!(
-                "Cloned style '{}' to '{}'",
-                self.source_style, self.target_style
-            )))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Source style '{}' not found",
-                self.source_style
-            )))
-        }
+        let end_pos = Position::new(insert_pos + insert_text.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(insert_pos), end_pos),
+            end_pos,
+        )
+        .with_message(format!(
+            "Cloned style '{}' to '{}'",
+            self.source_style, self.target_style
+        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/create.rs b/crates/ass-editor/commands/style_commands/create.rs
index bdcf344..e342659 100644
--- a/crates/ass-editor/commands/style_commands/create.rs
+++ b/crates/ass-editor/commands/style_commands/create.rs
@@ -4,10 +4,11 @@
 //! section, creating the section when it does not yet exist.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::{new_entry_place, STYLE_SECTIONS};
 use crate::core::{EditorDocument, Position, Range, Result, StyleBuilder};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String};
+use alloc::{format, string::String, vec::Vec};
 
 /// Command to create a new style
 #[derive(Debug, Clone)]
@@ -38,67 +39,39 @@ impl CreateStyleCommand {
 impl EditorCommand for CreateStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         // Build the style line with the provided name
-        let mut builder = self.style_builder.clone();
-        builder = builder.name(&self.style_name);
-        let style_line = builder.build()?;
-
-        // Find the styles section or create one
+        let builder = self.style_builder.clone().name(&self.style_name);
         let content = document.text();
-        let styles_section_pos = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-            .or_else(|| content.find("[Styles]"));
-
-        if let Some(section_start) = styles_section_pos {
-            // Find the end of the format line to insert after it
-            let section_content = &content[section_start..];
-            if let Some(format_line_end) = section_content.find('\n') {
-                let format_end_pos = section_start + format_line_end + 1;
 
-                // Find next format line or end of section
-                let insert_pos = if let Some(next_line_start) = content[format_end_pos..].find('\n')
-                {
-                    format_end_pos + next_line_start + 1
-                } else {
-                    format_end_pos
+        let (insert_pos, insert_text, message) =
+            if let Some(place) = new_entry_place(&content, &STYLE_SECTIONS) {
+                // The style follows the format of its section
+                let style_line = match &place.format {
+                    Some(format) => {
+                        let fields: Vec<&str> = format.iter().map(String::as_str).collect();
+                        builder.build_with_format(&fields)?
+                    }
+                    None => builder.build()?,
                 };
-
-                // Insert the new style
-                let insert_text = format!("{style_line}\n");
-                document.insert(Position::new(insert_pos), &insert_text)?;
-
-                let end_pos = Position::new(insert_pos + insert_text.len());
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(insert_pos), end_pos),
-                    end_pos,
+                (
+                    place.at,
+                    place.line(&style_line),
+                    format!("Created style '{}'", self.style_name),
                 )
-                .with_message(format!("Created style '{}'", self.style_name)));
-            }
-        }
-
-        // No styles section found, create one
-        let styles_section = format!(
-            "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n"
-        );
-
-        // Insert before [Events] section if it exists, otherwise at the end
-        let insert_pos = if let Some(events_pos) = content.find("[Events]") {
-            events_pos
-        } else {
-            content.len()
-        };
+            } else {
+                // No styles section found, create one
+                let (at, section) = EditorDocument::new_style_section(&content, &builder.build()?);
+                let message = format!("Created styles section and style '{}'", self.style_name);
+                (at, section, message)
+            };
 
-        document.insert(Position::new(insert_pos), &styles_section)?;
+        document.insert(Position::new(insert_pos), &insert_text)?;
 
-        let end_pos = Position::new(insert_pos + styles_section.len());
+        let end_pos = Position::new(insert_pos + insert_text.len());
         Ok(CommandResult::success_with_change(
             Range::new(Position::new(insert_pos), end_pos),
             end_pos,
         )
-        .with_message(format!(
-            "Created styles section and style '{}'",
-            self.style_name
-        )))
+        .with_message(message))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/delete.rs b/crates/ass-editor/commands/style_commands/delete.rs
index 2d92380..8b68895 100644
--- a/crates/ass-editor/commands/style_commands/delete.rs
+++ b/crates/ass-editor/commands/style_commands/delete.rs
@@ -35,34 +35,29 @@ impl DeleteStyleCommand {
 
 impl EditorCommand for DeleteStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
-
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the complete line including the newline
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos + 1) // Include the newline
-                .unwrap_or(content.len());
-
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), Position::new(line_start)),
-                Position::new(line_start),
-            )
-            .with_message(format!("Deleted style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
+        let Some(style) = document.style_line(&self.style_name)? else {
+            return Err(EditorError::command_failed(format!(
                 "Style '{}' not found",
                 self.style_name
-            )))
-        }
+            )));
+        };
+
+        // Delete the complete line including the newline
+        let content = document.text();
+        let line_start = content[..style.range.start]
+            .rfind('\n')
+            .map_or(0, |pos| pos + 1);
+        let line_end = (style.range.end + 1).min(content.len());
+        document.delete(Range::new(
+            Position::new(line_start),
+            Position::new(line_end),
+        ))?;
+
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(line_start), Position::new(line_start)),
+            Position::new(line_start),
+        )
+        .with_message(format!("Deleted style '{}'", self.style_name)))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/edit.rs b/crates/ass-editor/commands/style_commands/edit.rs
index 801ccab..ab855c8 100644
--- a/crates/ass-editor/commands/style_commands/edit.rs
+++ b/crates/ass-editor/commands/style_commands/edit.rs
@@ -83,82 +83,35 @@ impl EditStyleCommand {
 
 impl EditorCommand for EditStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
-
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the end of the style line
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos)
-                .unwrap_or(content.len());
-
-            let style_line = &content[line_start..line_end];
-            let fields: Vec<&str> = style_line.split(',').collect();
-
-            if fields.len() < 2 {
-                return Err(EditorError::command_failed("Invalid style format"));
-            }
-
-            // Find format line to determine field order
-            let styles_section_start = content[..line_start]
-                .rfind("[V4+ Styles]")
-                .or_else(|| content[..line_start].rfind("[V4 Styles]"))
-                .or_else(|| content[..line_start].rfind("[Styles]"))
-                .ok_or_else(|| EditorError::command_failed("Could not find styles section"))?;
-
-            let format_line_start = content[styles_section_start..]
-                .find("Format:")
-                .map(|pos| styles_section_start + pos)
-                .ok_or_else(|| EditorError::command_failed("Could not find format line"))?;
-
-            let format_line_end = content[format_line_start..]
-                .find('\n')
-                .map(|pos| format_line_start + pos)
-                .unwrap_or(content.len());
-
-            let format_line = &content[format_line_start..format_line_end];
-            let format_fields: Vec<&str> = format_line
-                .strip_prefix("Format: ")
-                .unwrap_or(format_line)
-                .split(", ")
-                .collect();
-
-            // Build updated style line
-            let mut updated_fields = fields
-                .iter()
-                .map(|f| f.to_string())
-                .collect::<Vec<String>>();
-
-            for (field_name, new_value) in &self.field_updates {
-                if let Some(field_index) = format_fields.iter().position(|f| f == field_name) {
-                    if field_index < updated_fields.len() {
-                        updated_fields[field_index] = new_value.clone();
-                    }
-                }
-            }
-
-            let new_style_line = updated_fields.join(",");
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            document.replace(range, &new_style_line)?;
-
-            let end_pos = Position::new(line_start + new_style_line.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), end_pos),
-                end_pos,
-            )
-            .with_message(format!("Updated style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
+        let Some(style) = document.style_line(&self.style_name)? else {
+            return Err(EditorError::command_failed(format!(
                 "Style '{}' not found",
                 self.style_name
-            )))
+            )));
+        };
+
+        // Replace the fields the style has, from the last one on
+        let mut changes: Vec<_> = self
+            .field_updates
+            .iter()
+            .filter_map(|(name, value)| Some((style.field(name)?, value)))
+            .collect();
+        changes.sort_by_key(|(range, _)| range.start);
+        let mut new_style_line = style.text.clone();
+        for (range, value) in changes.into_iter().rev() {
+            new_style_line.replace_range(range, value);
         }
+
+        let line_start = style.range.start;
+        let range = Range::new(Position::new(line_start), Position::new(style.range.end));
+        document.replace(range, &new_style_line)?;
+
+        let end_pos = Position::new(line_start + new_style_line.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(line_start), end_pos),
+            end_pos,
+        )
+        .with_message(format!("Updated style '{}'", self.style_name)))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/core/document/event_lines.rs b/crates/ass-editor/core/document/event_lines.rs
index 243d314..190efe6 100644
--- a/crates/ass-editor/core/document/event_lines.rs
+++ b/crates/ass-editor/core/document/event_lines.rs
@@ -141,6 +141,18 @@ impl EventLine {
     }
 }
 
+/// The format that applies after `text`: its last format line, or none after
+/// another section header
+pub(super) fn read_formats(text: &str, format: &mut Option<Vec<String>>) {
+    for line in text.lines().map(str::trim) {
+        if line.starts_with('[') {
+            *format = None;
+        } else if let Some(fields) = line.strip_prefix("Format:") {
+            *format = Some(fields.split(',').map(|f| f.trim().to_string()).collect());
+        }
+    }
+}
+
 impl EditorDocument {
     /// Events of the document in parser order, `None` without an events section
     pub(crate) fn event_lines(&self) -> Result<Option<Vec<EventLine>>> {
@@ -156,16 +168,8 @@ impl EditorDocument {
                 };
                 found = true;
                 for event in events {
-                    // The last format line between the section header and the event applies
                     let range = event.span.start..event.span.end;
-                    for line in content[scanned..range.start].lines().map(str::trim) {
-                        if line.starts_with('[') {
-                            format = None;
-                        } else if let Some(fields) = line.strip_prefix("Format:") {
-                            format =
-                                Some(fields.split(',').map(|f| f.trim().to_string()).collect());
-                        }
-                    }
+                    read_formats(&content[scanned..range.start], &mut format);
                     scanned = range.end;
                     lines.push(EventLine {
                         event_type: event.event_type,
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index a401238..78eb097 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -14,6 +14,7 @@ mod incremental_parse;
 mod metadata;
 mod position_api;
 mod section_lines;
+mod style_lines;
 mod text_access;
 mod types;
 mod undo_redo;
@@ -47,6 +48,7 @@ mod plugin_tests;
 
 pub(crate) use event_lines::EventLine;
 pub use position_api::DocumentPosition;
+pub(crate) use style_lines::{new_entry_place, STYLE_SECTIONS};
 pub use types::EditorDocument;
 
 #[cfg(feature = "std")]
diff --git a/crates/ass-editor/core/document/section_lines.rs b/crates/ass-editor/core/document/section_lines.rs
index e1d7008..0606166 100644
--- a/crates/ass-editor/core/document/section_lines.rs
+++ b/crates/ass-editor/core/document/section_lines.rs
@@ -3,6 +3,7 @@
 //! Text-level helpers that insert new dialogue or style lines, creating the
 //! relevant section (with a default format line) when it does not yet exist.
 
+use super::style_lines::{new_entry_place, STYLE_SECTIONS};
 use super::EditorDocument;
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
@@ -14,13 +15,8 @@ impl EditorDocument {
     /// Add event line to document
     pub fn add_event_line(&mut self, event_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(events_pos) = content.find("[Events]") {
-            // Find end of format line and add after it
-            let format_start = content[events_pos..].find("Format:").unwrap_or(0) + events_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{event_line}\n"))
+        if let Some(place) = new_entry_place(&content, &["Events"]) {
+            self.insert(Position::new(place.at), &place.line(event_line))
         } else {
             // Add Events section if it doesn't exist
             let content_len = self.len_bytes();
@@ -31,13 +27,9 @@ impl EditorDocument {
 
     /// Edit style line
     pub fn edit_style_line(&mut self, style_name: &str, new_style_line: &str) -> Result<()> {
-        let content = self.text();
-        let pattern = format!("Style: {style_name},");
-
-        if let Some(pos) = content.find(&pattern) {
-            // Find end of line
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
-            let range = Range::new(Position::new(pos), Position::new(line_end));
+        if let Some(style) = self.style_line(style_name)? {
+            let end = style.range.start + style.text.trim_end().len();
+            let range = Range::new(Position::new(style.range.start), Position::new(end));
             self.replace(range, new_style_line)
         } else {
             // Add style if it doesn't exist
@@ -48,21 +40,12 @@ impl EditorDocument {
     /// Add style line to document
     pub fn add_style_line(&mut self, style_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(styles_pos) = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-        {
-            // Find end of format line and add after it
-            let format_start = content[styles_pos..].find("Format:").unwrap_or(0) + styles_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{style_line}\n"))
+        if let Some(place) = new_entry_place(&content, &STYLE_SECTIONS) {
+            self.insert(Position::new(place.at), &place.line(style_line))
         } else {
             // Add Styles section if it doesn't exist
-            let script_info_end = content.find("\n[Events]").unwrap_or(content.len());
-            let styles_section = format!("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n");
-            self.insert(Position::new(script_info_end), &styles_section)
+            let (at, styles_section) = Self::new_style_section(&content, style_line);
+            self.insert(Position::new(at), &styles_section)
         }
     }
 }
diff --git a/crates/ass-editor/core/document/style_lines.rs b/crates/ass-editor/core/document/style_lines.rs
new file mode 100644
index 0000000..a26c0d1
--- /dev/null
+++ b/crates/ass-editor/core/document/style_lines.rs
@@ -0,0 +1,190 @@
+//! Style lines of a document, located the way the parser reads them
+//!
+//! Style commands address styles by name. `style_line` returns the first style
+//! the parser reports under a name, with its place in the text and the format
+//! that applies to it. `new_entry_place` says where a section takes new lines.
+
+use super::event_lines::read_formats;
+use super::EditorDocument;
+use crate::core::errors::Result;
+use ass_core::parser::ast::Section;
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Names of the sections that hold styles
+pub(crate) const STYLE_SECTIONS: [&str; 3] = ["V4+ Styles", "V4 Styles", "V4++ Styles"];
+
+/// Fields of a style in a section without a format line
+pub(crate) const DEFAULT_STYLE_FORMAT: [&str; 23] = [
+    "Name",
+    "Fontname",
+    "Fontsize",
+    "PrimaryColour",
+    "SecondaryColour",
+    "OutlineColour",
+    "BackColour",
+    "Bold",
+    "Italic",
+    "Underline",
+    "StrikeOut",
+    "ScaleX",
+    "ScaleY",
+    "Spacing",
+    "Angle",
+    "BorderStyle",
+    "Outline",
+    "Shadow",
+    "Alignment",
+    "MarginL",
+    "MarginR",
+    "MarginV",
+    "Encoding",
+];
+
+/// A style as a line of the document
+#[derive(Debug, Clone)]
+pub(crate) struct StyleLine {
+    /// Bytes of the line, from its first character to its newline
+    pub range: Range<usize>,
+    /// Text of the line
+    pub text: String,
+    /// Field names that apply to the line
+    pub format: Vec<String>,
+}
+
+impl StyleLine {
+    /// Bytes of the text that hold the value of a field
+    pub fn field(&self, name: &str) -> Option<Range<usize>> {
+        let index = self
+            .format
+            .iter()
+            .position(|f| f.eq_ignore_ascii_case(name))?;
+        let mut start = self.text.find(':')? + 1;
+        if self.text[start..].trim_start().starts_with('*') {
+            // The first part names the parent style
+            start += self.text[start..].find(',').map_or(0, |comma| comma + 1);
+        }
+        for _ in 0..index {
+            start += self.text[start..].find(',')? + 1;
+        }
+        let value = self.text[start..].split(',').next()?;
+        let from = start + (value.len() - value.trim_start().len());
+        Some(from..from + value.trim().len())
+    }
+}
+
+/// Where new lines of a section go
+#[derive(Debug, Clone)]
+pub(crate) struct EntryPlace {
+    /// Offset the line is inserted at
+    pub at: usize,
+    /// Whether the line before it still needs a newline
+    pub after_open_line: bool,
+    /// Field names that apply there, if the section has a format line
+    pub format: Option<Vec<String>>,
+}
+
+impl EntryPlace {
+    /// The text to insert for a line
+    pub fn line(&self, line: &str) -> String {
+        let open = if self.after_open_line { "\n" } else { "" };
+        format!("{open}{line}\n")
+    }
+}
+
+/// Name in a section header line
+fn header_name(line: &str) -> Option<&str> {
+    let header = line.trim().strip_prefix('[')?;
+    Some(header.split_once(']').map_or("", |(name, _)| name.trim()))
+}
+
+/// Offset of the header of the first section with one of these names
+pub(crate) fn section_header(content: &str, names: &[&str]) -> Option<usize> {
+    let text = content.trim_start_matches('\u{feff}');
+    let mut at = content.len() - text.len();
+    for line in text.split_inclusive('\n') {
+        if header_name(line).is_some_and(|name| names.contains(&name)) {
+            return Some(at);
+        }
+        at += line.len();
+    }
+    None
+}
+
+/// Where new lines go in the first section with one of these names: after its
+/// format line, or after its header if it has none
+pub(crate) fn new_entry_place(content: &str, names: &[&str]) -> Option<EntryPlace> {
+    let header = section_header(content, names)?;
+    let mut place: Option<EntryPlace> = None;
+    let mut at = header;
+    for line in content[header..].split_inclusive('\n') {
+        at += line.len();
+        let here = EntryPlace {
+            at,
+            after_open_line: !line.ends_with('\n'),
+            format: None,
+        };
+        if place.is_none() {
+            place = Some(here);
+        } else if header_name(line).is_some() {
+            break;
+        } else if let Some(fields) = line.trim().strip_prefix("Format:") {
+            let fields = fields.split(',').map(|f| f.trim().to_string()).collect();
+            return Some(EntryPlace {
+                format: Some(fields),
+                ..here
+            });
+        }
+    }
+    place
+}
+
+impl EditorDocument {
+    /// The first style the parser reports under this name
+    pub(crate) fn style_line(&self, name: &str) -> Result<Option<StyleLine>> {
+        let content = self.text();
+        self.parse_script_with(|script| {
+            let mut format: Option<Vec<String>> = None;
+            let mut scanned = 0;
+            for section in script.sections() {
+                let Section::Styles(styles) = section else {
+                    continue;
+                };
+                for style in styles {
+                    let range = style.span.start..style.span.end;
+                    read_formats(&content[scanned..range.start], &mut format);
+                    scanned = range.end;
+                    if style.name == name {
+                        return Some(StyleLine {
+                            text: content[range.clone()].to_string(),
+                            range,
+                            format: format.unwrap_or_else(|| {
+                                DEFAULT_STYLE_FORMAT
+                                    .iter()
+                                    .map(|f| (*f).to_string())
+                                    .collect()
+                            }),
+                        });
+                    }
+                }
+            }
+            None
+        })
+    }
+
+    /// Text of a new style section, and where it goes: before the events
+    pub(crate) fn new_style_section(content: &str, style_line: &str) -> (usize, String) {
+        let at = section_header(content, &["Events"]).unwrap_or(content.len());
+        let format = DEFAULT_STYLE_FORMAT.join(", ");
+        (
+            at,
+            format!("\n[V4+ Styles]\nFormat: {format}\n{style_line}\n"),
+        )
+    }
+}
-- 
2.43.0


From 7b85da532898b4347e98e1cf68551a5629c295f2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 60/83] fix: script info commands read and write the fields the
 parser reads

---
 .../commands/script_info_commands/delete.rs   | 52 ++++--------
 .../commands/script_info_commands/get.rs      | 78 +++---------------
 .../commands/script_info_commands/set.rs      | 65 +--------------
 crates/ass-editor/core/document/ass_api.rs    | 17 +---
 crates/ass-editor/core/document/info_lines.rs | 81 +++++++++++++++++++
 crates/ass-editor/core/document/mod.rs        |  1 +
 6 files changed, 113 insertions(+), 181 deletions(-)
 create mode 100644 crates/ass-editor/core/document/info_lines.rs

diff --git a/crates/ass-editor/commands/script_info_commands/delete.rs b/crates/ass-editor/commands/script_info_commands/delete.rs
index a186915..b635ef6 100644
--- a/crates/ass-editor/commands/script_info_commands/delete.rs
+++ b/crates/ass-editor/commands/script_info_commands/delete.rs
@@ -1,13 +1,11 @@
 //! Command to remove a property from the `[Script Info]` section.
 
+use crate::commands::event_commands::helpers::{apply, Edit};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to delete a script info property from the ASS document
 ///
@@ -28,40 +26,18 @@ impl DeleteScriptInfoCommand {
 
 impl EditorCommand for DeleteScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let absolute_pos = script_info_start + prop_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(line_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
+        // Remove every line of the property, newline included
+        let edits: Vec<Edit> = document
+            .info_lines()?
+            .into_iter()
+            .filter(|line| line.key == self.property)
+            .map(|line| (line.line, String::new()))
+            .collect();
+        if edits.is_empty() {
+            return Ok(CommandResult::success());
         }
+        let range = apply(document, &edits)?;
+        Ok(CommandResult::success_with_change(range, range.end))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/script_info_commands/get.rs b/crates/ass-editor/commands/script_info_commands/get.rs
index 2cfb007..3df8233 100644
--- a/crates/ass-editor/commands/script_info_commands/get.rs
+++ b/crates/ass-editor/commands/script_info_commands/get.rs
@@ -1,13 +1,9 @@
 //! Read commands for retrieving `[Script Info]` properties.
 
-use crate::core::{EditorDocument, EditorError, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to get a script info property from the ASS document
 ///
@@ -27,35 +23,11 @@ impl GetScriptInfoCommand {
 
     /// Execute and return the property value
     pub fn get_value(&self, document: &EditorDocument) -> Result<Option<String>> {
-        let content = document.text();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let value_start = prop_pos + property_pattern.len();
-            let value_end = search_range[value_start..]
-                .find('\n')
-                .map(|pos| value_start + pos)
-                .unwrap_or(search_range.len());
-
-            let value = search_range[value_start..value_end].trim().to_string();
-            Ok(Some(value))
-        } else {
-            Ok(None)
-        }
+        let lines = document.info_lines()?;
+        Ok(lines
+            .into_iter()
+            .find(|line| line.key == self.property)
+            .map(|line| line.value))
     }
 }
 
@@ -74,37 +46,11 @@ impl GetAllScriptInfoCommand {
 
     /// Execute and return all properties as key-value pairs
     pub fn get_all(&self, document: &EditorDocument) -> Result<Vec<(String, String)>> {
-        let content = document.text();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        let search_range = &content[script_info_start..script_info_end];
-        let mut properties = Vec::new();
-
-        for line in search_range.lines() {
-            // Skip the section header and empty lines
-            if line.starts_with('[') || line.trim().is_empty() {
-                continue;
-            }
-
-            // Parse property: value pairs
-            if let Some(colon_pos) = line.find(':') {
-                let property = line[..colon_pos].trim().to_string();
-                let value = line[colon_pos + 1..].trim().to_string();
-                properties.push((property, value));
-            }
-        }
-
-        Ok(properties)
+        let lines = document.info_lines()?;
+        Ok(lines
+            .into_iter()
+            .map(|line| (line.key, line.value))
+            .collect())
     }
 }
 
diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index b572466..9005c05 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -1,13 +1,10 @@
 //! Command to set or update a property in the `[Script Info]` section.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::string::String;
 
 /// Command to set a script info property in the ASS document
 ///
@@ -30,62 +27,8 @@ impl SetScriptInfoCommand {
 
 impl EditorCommand for SetScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section (next section or end of file)
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Check if property already exists
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            // Property exists, update it
-            let absolute_pos = script_info_start + prop_pos;
-            let line_start = absolute_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(content.len());
-
-            let new_line = format!("{}: {}", self.property, self.value);
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            document.replace(range, &new_line)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(
-                    Position::new(line_start),
-                    Position::new(line_start + new_line.len()),
-                ),
-                Position::new(line_start + new_line.len()),
-            ))
-        } else {
-            // Property doesn't exist, add it after [Script Info]
-            let insert_pos = content[script_info_start..]
-                .find('\n')
-                .map(|pos| script_info_start + pos + 1)
-                .unwrap_or(script_info_start + 13); // Length of "[Script Info]"
-
-            let new_line = format!("{}: {}\n", self.property, self.value);
-            document.insert(Position::new(insert_pos), &new_line)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(
-                    Position::new(insert_pos),
-                    Position::new(insert_pos + new_line.len()),
-                ),
-                Position::new(insert_pos + new_line.len()),
-            ))
-        }
+        let range = document.put_info_field(&self.property, &self.value)?;
+        Ok(CommandResult::success_with_change(range, range.end))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index 96901d8..01458dc 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -11,7 +11,6 @@ use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -132,21 +131,7 @@ impl EditorDocument {
 
     /// Set script info field (ASS-aware editing)
     pub fn set_script_info_field(&mut self, key: &str, value: &str) -> Result<()> {
-        // Simplified implementation - find and replace the field
-        let content = self.text();
-        let field_pattern = format!("{key}:");
-
-        if let Some(pos) = content.find(&field_pattern) {
-            // Find end of line
-            let line_start = pos;
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
-
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            let new_line = format!("{key}: {value}");
-            self.replace(range, &new_line)?;
-        }
-
+        self.put_info_field(key, value)?;
         Ok(())
     }
 }
diff --git a/crates/ass-editor/core/document/info_lines.rs b/crates/ass-editor/core/document/info_lines.rs
new file mode 100644
index 0000000..02f90d4
--- /dev/null
+++ b/crates/ass-editor/core/document/info_lines.rs
@@ -0,0 +1,81 @@
+//! Script-info fields of a document, located the way the parser reads them
+
+use super::style_lines::new_entry_place;
+use super::EditorDocument;
+use crate::core::errors::{EditorError, Result};
+use crate::core::position::{Position, Range};
+use ass_core::parser::ast::Section;
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// A script-info field as a line of the document
+#[derive(Debug, Clone)]
+pub(crate) struct InfoLine {
+    /// Field name
+    pub key: String,
+    /// Field value
+    pub value: String,
+    /// Bytes of the whole line, with its newline
+    pub line: core::ops::Range<usize>,
+    /// Bytes of the line's content, without surrounding white space
+    pub content: core::ops::Range<usize>,
+}
+
+impl EditorDocument {
+    /// The script-info fields the parser reports, in order
+    pub(crate) fn info_lines(&self) -> Result<Vec<InfoLine>> {
+        self.parse_script_with(|script| {
+            let source = script.source();
+            let mut found = false;
+            let mut lines = Vec::new();
+            for section in script.sections() {
+                let Section::ScriptInfo(info) = section else {
+                    continue;
+                };
+                found = true;
+                for (key, value) in &info.fields {
+                    // Keys are slices of the source
+                    let at = key.as_ptr() as usize - source.as_ptr() as usize;
+                    let start = source[..at].rfind('\n').map_or(0, |n| n + 1);
+                    let end = source[at..].find('\n').map_or(source.len(), |n| at + n + 1);
+                    let text = source[at..end].trim_end();
+                    let content = at..at + text.len();
+                    lines.push(InfoLine {
+                        key: (*key).to_string(),
+                        value: (*value).to_string(),
+                        line: start..end,
+                        content,
+                    });
+                }
+            }
+            found.then_some(lines)
+        })?
+        .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))
+    }
+
+    /// Give a script-info field a value, adding the field if there is none;
+    /// returns the changed range
+    pub(crate) fn put_info_field(&mut self, key: &str, value: &str) -> Result<Range> {
+        let lines = self.info_lines()?;
+        let new_line = format!("{key}: {value}");
+        if let Some(line) = lines.into_iter().find(|line| line.key == key) {
+            let start = Position::new(line.content.start);
+            let end = Position::new(line.content.end);
+            self.replace(Range::new(start, end), &new_line)?;
+            let end = Position::new(line.content.start + new_line.len());
+            return Ok(Range::new(start, end));
+        }
+
+        let place = new_entry_place(&self.text(), &["Script Info"])
+            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
+        let text = place.line(&new_line);
+        let start = Position::new(place.at);
+        self.insert(start, &text)?;
+        Ok(Range::new(start, Position::new(place.at + text.len())))
+    }
+}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index 78eb097..99dd30b 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -11,6 +11,7 @@ mod editing_raw;
 mod event_edit;
 mod event_lines;
 mod incremental_parse;
+mod info_lines;
 mod metadata;
 mod position_api;
 mod section_lines;
-- 
2.43.0


From 113a3ed3a0c3016e268cec58632d8e4293251658 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 61/83] fix: editing an event by its text leaves other sections
 alone

---
 crates/ass-editor/core/document/ass_api.rs    | 19 +++++++++++++++----
 .../core/document/incremental_parse.rs        |  6 +-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index 01458dc..aba81ee 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -103,16 +103,27 @@ impl EditorDocument {
 
     /// Edit an event by finding and replacing text (simplified ASS-aware editing)
     pub fn edit_event_text(&mut self, old_text: &str, new_text: &str) -> Result<()> {
-        let content = self.text();
-
-        if let Some(pos) = content.find(old_text) {
-            let range = Range::new(Position::new(pos), Position::new(pos + old_text.len()));
+        if let Some(range) = self.find_in_events(old_text)? {
             self.replace(range, new_text)?;
         }
 
         Ok(())
     }
 
+    /// Where an event text first contains the pattern
+    pub(super) fn find_in_events(&self, pattern: &str) -> Result<Option<Range>> {
+        let events = self.event_lines()?.unwrap_or_default();
+        Ok(events.iter().find_map(|event| {
+            let text = event.field("Text").ok()?;
+            let found = event.text[text.clone()].find(pattern)?;
+            let start = event.range.start + text.start + found;
+            Some(Range::new(
+                Position::new(start),
+                Position::new(start + pattern.len()),
+            ))
+        }))
+    }
+
     /// Get script info field value by key
     pub fn get_script_info_field(&self, key: &str) -> Result<Option<String>> {
         self.parse_script_with(|script| {
diff --git a/crates/ass-editor/core/document/incremental_parse.rs b/crates/ass-editor/core/document/incremental_parse.rs
index 12e1720..e50bed9 100644
--- a/crates/ass-editor/core/document/incremental_parse.rs
+++ b/crates/ass-editor/core/document/incremental_parse.rs
@@ -11,8 +11,6 @@ use crate::core::position::Range;
 #[cfg(feature = "stream")]
 use crate::core::errors::EditorError;
 #[cfg(feature = "stream")]
-use crate::core::position::Position;
-#[cfg(feature = "stream")]
 use ass_core::parser::script::ScriptDeltaOwned;
 #[cfg(feature = "stream")]
 use ass_core::parser::Script;
@@ -52,9 +50,7 @@ impl EditorDocument {
         event_text: &str,
         new_text: &str,
     ) -> Result<ScriptDeltaOwned> {
-        let content = self.text();
-        if let Some(pos) = content.find(event_text) {
-            let range = Range::new(Position::new(pos), Position::new(pos + event_text.len()));
+        if let Some(range) = self.find_in_events(event_text)? {
             self.edit_incremental(range, new_text)
         } else {
             Err(EditorError::ValidationError {
-- 
2.43.0


From dc8d21fc01255104c4f6d0fb56d142bad42d616c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 62/83] fix: \r keeps what holds for the line and switches to
 the style it names

---
 .../src/pipeline/build/text/mod.rs            | 39 ++++++++++++++++---
 .../src/pipeline/text_segmenter/apply.rs      | 19 ++++++++-
 .../src/pipeline/text_segmenter/split.rs      |  3 ++
 3 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 0544ac9..d27d680 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -2,16 +2,25 @@
 //! per-run colours/alpha/fade, effects, and the positioned `TextData` layers.
 
 #[cfg(feature = "nostd")]
-use alloc::{string::ToString, vec::Vec};
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
 #[cfg(not(feature = "nostd"))]
-use std::{string::ToString, vec::Vec};
+use std::{
+    string::{String, ToString},
+    vec::Vec,
+};
 
+use ahash::AHashMap;
 use ass_core::parser::Event;
 use smallvec::SmallVec;
 
 use super::OwnedStyle;
 use crate::pipeline::{
-    shaping::shape_text_cached, tag_processor::KaraokeStyle, text_segmenter::TextSegment,
+    shaping::shape_text_cached,
+    tag_processor::{KaraokeStyle, ProcessedTags},
+    text_segmenter::TextSegment,
     IntermediateLayer, TextData, TextEffect,
 };
 use crate::renderer::RenderContext;
@@ -42,7 +51,18 @@ impl super::SoftwarePipeline {
         let scale_x = context.width() as f32 / self.play_res_x;
         let scale_y = context.height() as f32 / self.play_res_y;
 
-        // Resolve the style-derived defaults (font/size/colours/formatting) once.
+        // Resolve the style-derived defaults (font/size/colours/formatting) once, and
+        // those of each style a `\r` switches to.
+        let event_style = style;
+        let reset_styles: AHashMap<String, OwnedStyle> = segments
+            .iter()
+            .filter_map(|s| s.tags.reset.as_ref())
+            .filter_map(|name| Some((name.clone(), self.styles_map.get(name)?.clone())))
+            .collect();
+        let style_of = |tags: &ProcessedTags| {
+            let reset = tags.reset.as_ref().and_then(|r| reset_styles.get(r));
+            reset.or(event_style)
+        };
         let defaults = self.resolve_text_defaults(style, scale_y);
 
         // Get base position from first segment - we'll adjust per-segment as needed
@@ -73,6 +93,8 @@ impl super::SoftwarePipeline {
             let balance = event_wrap_style != 1;
             let mut wrapped: Vec<Vec<TextSegment>> = Vec::with_capacity(logical_lines.len());
             for line in logical_lines {
+                let style = line.first().map_or(event_style, |s| style_of(&s.tags));
+                let defaults = self.resolve_text_defaults(style, scale_y);
                 wrapped.extend(self.wrap_segments(
                     &line,
                     defaults.font_name,
@@ -106,7 +128,11 @@ impl super::SoftwarePipeline {
         let max_font_size = logical_lines
             .iter()
             .flatten()
-            .filter_map(|seg| seg.tags.font.size)
+            .map(|seg| {
+                let style = style_of(&seg.tags);
+                let size = seg.tags.font.size;
+                size.unwrap_or_else(|| self.resolve_text_defaults(style, scale_y).font_size_base)
+            })
             .fold(defaults.font_size_base, f32::max);
         let estimated_line_height = max_font_size * scale_y;
 
@@ -133,6 +159,7 @@ impl super::SoftwarePipeline {
                 line_segments
                     .iter()
                     .map(|seg| {
+                        let defaults = self.resolve_text_defaults(style_of(&seg.tags), scale_y);
                         let size = seg.tags.font.size.unwrap_or(defaults.font_size_base)
                             * scale_y
                             * (seg.tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0)
@@ -167,6 +194,8 @@ impl super::SoftwarePipeline {
             for segment in line_segments {
                 let mut tags = segment.tags.clone();
                 let line_text = &segment.text;
+                let style = style_of(&tags);
+                let defaults = self.resolve_text_defaults(style, scale_y);
 
                 // Check if this segment is in drawing mode
                 if let Some(drawing_mode) = tags.drawing_mode {
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 0ef8364..834a8d5 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -212,9 +212,24 @@ pub(super) fn process_tag_block(
                     current.formatting.wrap_style = Some(wrap);
                 }
             }
-            // \r resets all inline overrides back to the line's style.
+            // \r resets the style overrides back to the line's style, or switches to
+            // the named one; what holds for the whole line stays as it is.
             "r" => {
-                *current = ProcessedTags::default();
+                let mut reset = ProcessedTags {
+                    position: current.position,
+                    movement: current.movement,
+                    origin: current.origin,
+                    clip: current.clip.take(),
+                    fade: current.fade.take(),
+                    karaoke: current.karaoke.take(),
+                    drawing_mode: current.drawing_mode,
+                    baseline_offset: current.baseline_offset,
+                    reset: Some(args.trim().to_string()),
+                    ..ProcessedTags::default()
+                };
+                reset.formatting.alignment = current.formatting.alignment;
+                reset.formatting.wrap_style = current.formatting.wrap_style;
+                *current = reset;
             }
 
             // Alignment tags
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index f231f1f..ffc2fb6 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -55,6 +55,9 @@ pub(super) fn extract_tag_name_and_args(part: &str) -> (&str, &str) {
     if part.starts_with("fn") && part.len() > 2 {
         // Special case for \fn tag - everything after "fn" is the font name
         ("fn", &part[2..])
+    } else if part.starts_with('r') && !part.starts_with("rnd") {
+        // \r takes a style name, which can have letters immediately after
+        ("r", &part[1..])
     } else if part.starts_with(|c: char| c.is_ascii_digit()) {
         // Colour/alpha tags (\1c \2c \3c \4c \1a \2a \3a \4a) are a digit plus
         // exactly one letter, with the value following immediately. Take just
-- 
2.43.0


From 543c2236afd90159553b28f79ebc77275810b650 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 63/83] fix: an override tag without arguments returns to the
 style

---
 .../src/pipeline/text_segmenter/apply.rs      | 190 +++++-------------
 1 file changed, 51 insertions(+), 139 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 834a8d5..390bc71 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -14,6 +14,26 @@ use alloc::string::ToString;
 #[cfg(not(feature = "nostd"))]
 use std::string::ToString;
 
+/// Set an override to what its tag's arguments say: without arguments the tag
+/// returns to the style, and arguments that cannot be read change nothing.
+fn value<T>(args: &str, read: impl Fn(&str) -> Option<T>, slot: &mut Option<T>) {
+    if args.trim().is_empty() {
+        *slot = None;
+    } else if let Some(value) = read(args) {
+        *slot = Some(value);
+    }
+}
+
+/// [`value`] of a tag that takes a number.
+fn number(args: &str, slot: &mut Option<f32>) {
+    value(args, |a| a.parse().ok(), slot);
+}
+
+/// [`value`] of a tag that is on unless its argument is 0.
+fn switch(args: &str, slot: &mut Option<bool>) {
+    value(args, |a| Some(a != "0"), slot);
+}
+
 /// Process tags within a tag block and update current tags
 pub(super) fn process_tag_block(
     content: &str,
@@ -32,55 +52,23 @@ pub(super) fn process_tag_block(
         // Process based on tag name
         match name {
             // Color tags
-            "c" | "1c" => {
-                if let Some(color) = parse_color(args) {
-                    current.colors.primary = Some(color);
-                }
-            }
-            "2c" => {
-                if let Some(color) = parse_color(args) {
-                    current.colors.secondary = Some(color);
-                }
-            }
-            "3c" => {
-                if let Some(color) = parse_color(args) {
-                    current.colors.outline = Some(color);
-                }
-            }
-            "4c" => {
-                if let Some(color) = parse_color(args) {
-                    current.colors.shadow = Some(color);
-                }
-            }
+            "c" | "1c" => value(args, parse_color, &mut current.colors.primary),
+            "2c" => value(args, parse_color, &mut current.colors.secondary),
+            "3c" => value(args, parse_color, &mut current.colors.outline),
+            "4c" => value(args, parse_color, &mut current.colors.shadow),
             "alpha" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha = Some(alpha);
+                if args.is_empty() || parse_alpha(args).is_some() {
+                    value(args, parse_alpha, &mut current.colors.alpha);
                     current.colors.alpha1 = None;
                     current.colors.alpha2 = None;
                     current.colors.alpha3 = None;
                     current.colors.alpha4 = None;
                 }
             }
-            "1a" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha1 = Some(alpha);
-                }
-            }
-            "2a" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha2 = Some(alpha);
-                }
-            }
-            "3a" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha3 = Some(alpha);
-                }
-            }
-            "4a" => {
-                if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha4 = Some(alpha);
-                }
-            }
+            "1a" => value(args, parse_alpha, &mut current.colors.alpha1),
+            "2a" => value(args, parse_alpha, &mut current.colors.alpha2),
+            "3a" => value(args, parse_alpha, &mut current.colors.alpha3),
+            "4a" => value(args, parse_alpha, &mut current.colors.alpha4),
 
             // Font tags
             "fn" => {
@@ -91,66 +79,26 @@ pub(super) fn process_tag_block(
                     current.font.name = Some(args.to_string());
                 }
             }
-            "fs" => {
-                if let Ok(size) = args.parse::<f32>() {
-                    current.font.size = Some(size);
-                }
-            }
-            "b" => {
-                current.formatting.bold = Some(args != "0");
-            }
-            "i" => {
-                current.formatting.italic = Some(args != "0");
-            }
-            "u" => {
-                current.formatting.underline = Some(args != "0");
-            }
-            "s" => {
-                current.formatting.strikeout = Some(args != "0");
-            }
+            "fs" => number(args, &mut current.font.size),
+            "b" => switch(args, &mut current.formatting.bold),
+            "i" => switch(args, &mut current.formatting.italic),
+            "u" => switch(args, &mut current.formatting.underline),
+            "s" => switch(args, &mut current.formatting.strikeout),
 
             // Font scale and spacing tags
-            "fscx" => {
-                if let Ok(scale) = args.parse::<f32>() {
-                    current.font.scale_x = Some(scale);
-                }
-            }
-            "fscy" => {
-                if let Ok(scale) = args.parse::<f32>() {
-                    current.font.scale_y = Some(scale);
-                }
-            }
-            "fsp" => {
-                if let Ok(spacing) = args.parse::<f32>() {
-                    current.font.spacing = Some(spacing);
-                }
-            }
-            "blur" => {
-                if let Ok(radius) = args.parse::<f32>() {
-                    current.formatting.blur = Some(radius);
-                }
-            }
-            "be" => {
-                if let Ok(radius) = args.parse::<f32>() {
-                    current.formatting.blur_edges = Some(radius);
-                }
-            }
+            "fscx" => number(args, &mut current.font.scale_x),
+            "fscy" => number(args, &mut current.font.scale_y),
+            "fsp" => number(args, &mut current.font.spacing),
+            "blur" => number(args, &mut current.formatting.blur),
+            "be" => number(args, &mut current.formatting.blur_edges),
             "clip" | "iclip" => {
                 if let Some(mut clip) = parse_clip_args(args) {
                     clip.inverse = name == "iclip";
                     current.clip = Some(clip);
                 }
             }
-            "fax" => {
-                if let Ok(shear) = args.parse::<f32>() {
-                    current.shear_x = Some(shear);
-                }
-            }
-            "fay" => {
-                if let Ok(shear) = args.parse::<f32>() {
-                    current.shear_y = Some(shear);
-                }
-            }
+            "fax" => number(args, &mut current.shear_x),
+            "fay" => number(args, &mut current.shear_y),
             "org" => {
                 if let Some((x, y)) = parse_pos_args(args) {
                     current.origin = Some((x, y));
@@ -158,54 +106,18 @@ pub(super) fn process_tag_block(
             }
 
             // Rotation tags
-            "frz" | "fr" => {
-                if let Ok(angle) = args.parse::<f32>() {
-                    current.font.rotation_z = Some(angle);
-                }
-            }
-            "frx" => {
-                if let Ok(angle) = args.parse::<f32>() {
-                    current.font.rotation_x = Some(angle);
-                }
-            }
-            "fry" => {
-                if let Ok(angle) = args.parse::<f32>() {
-                    current.font.rotation_y = Some(angle);
-                }
-            }
+            "frz" | "fr" => number(args, &mut current.font.rotation_z),
+            "frx" => number(args, &mut current.font.rotation_x),
+            "fry" => number(args, &mut current.font.rotation_y),
 
             // Border / outline width
-            "bord" => {
-                if let Ok(w) = args.parse::<f32>() {
-                    current.formatting.border = Some(w);
-                }
-            }
-            "xbord" => {
-                if let Ok(w) = args.parse::<f32>() {
-                    current.formatting.border_x = Some(w);
-                }
-            }
-            "ybord" => {
-                if let Ok(w) = args.parse::<f32>() {
-                    current.formatting.border_y = Some(w);
-                }
-            }
+            "bord" => number(args, &mut current.formatting.border),
+            "xbord" => number(args, &mut current.formatting.border_x),
+            "ybord" => number(args, &mut current.formatting.border_y),
             // Shadow depth
-            "shad" => {
-                if let Ok(d) = args.parse::<f32>() {
-                    current.formatting.shadow = Some(d);
-                }
-            }
-            "xshad" => {
-                if let Ok(d) = args.parse::<f32>() {
-                    current.formatting.shadow_x = Some(d);
-                }
-            }
-            "yshad" => {
-                if let Ok(d) = args.parse::<f32>() {
-                    current.formatting.shadow_y = Some(d);
-                }
-            }
+            "shad" => number(args, &mut current.formatting.shadow),
+            "xshad" => number(args, &mut current.formatting.shadow_x),
+            "yshad" => number(args, &mut current.formatting.shadow_y),
             // Wrap style
             "q" => {
                 if let Ok(wrap) = args.parse::<u8>() {
-- 
2.43.0


From e352b7635ef1ecc0b557b7b5074001204bb15ed2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 64/83] fix: \alpha and fades reach the outline, the shadow and
 the unsung colour

---
 crates/ass-renderer/src/pipeline/build/drawing.rs |  4 ++--
 .../src/pipeline/build/text/colors.rs             |  7 +++----
 .../ass-renderer/src/pipeline/build/text/mod.rs   |  9 +++++++--
 .../src/pipeline/text_segmenter/apply.rs          | 15 +++++++++------
 4 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index b9b3c75..2d0da33 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -56,7 +56,7 @@ impl super::SoftwarePipeline {
             // primary colour). parse_alpha already inverted ASS alpha to RGBA
             // (255 = opaque). Without this, layered glow drawings (each with a
             // decreasing `\alpha`) all draw opaque and accumulate far too much ink.
-            if let Some(alpha) = tags.colors.alpha1.or(tags.colors.alpha) {
+            if let Some(alpha) = tags.colors.alpha1 {
                 color[3] = alpha;
             }
             // `\fad`/`\fade` fade a drawing like they fade text.
@@ -195,7 +195,7 @@ impl super::SoftwarePipeline {
                         .unwrap_or([0, 0, 0, 255])
                 });
                 oc[3] = style.map_or(255, |s| Self::parse_ass_color(&s.outline_colour)[3]);
-                if let Some(a) = tags.colors.alpha3.or(tags.colors.alpha) {
+                if let Some(a) = tags.colors.alpha3 {
                     oc[3] = a;
                 }
                 oc[3] = (oc[3] as f32 * fade) as u8;
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index dc52f71..9980974 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -59,7 +59,7 @@ pub(super) fn split_into_logical_lines(segments: Vec<TextSegment>) -> Vec<Vec<Te
 }
 
 /// Resolve the primary, outline, and shadow colours for a run, applying the
-/// `\1a`/`\3a`/`\4a` alpha overrides and any `\fad`/`\fade` effect.
+/// `\alpha` and `\1a`/`\3a`/`\4a` alpha overrides and any `\fad`/`\fade` effect.
 pub(super) fn resolve_run_colors(
     tags: &ProcessedTags,
     defaults: &TextDefaults,
@@ -83,7 +83,7 @@ pub(super) fn resolve_run_colors(
     shadow_color[3] = default_back_color[3];
 
     // Apply individual alpha overrides (ASS alpha is inverted: 00=opaque, FF=transparent)
-    if let Some(alpha) = tags.colors.alpha1.or(tags.colors.alpha) {
+    if let Some(alpha) = tags.colors.alpha1 {
         // Alpha is already inverted in parse_alpha (255 = opaque, 0 = transparent)
         color[3] = alpha;
     }
@@ -155,8 +155,7 @@ pub(in crate::pipeline::build) fn fade_factor(fade: &FadeData, event: &Event, ti
             255.0 * progress.min(1.0)
         } else if time_cs >= fade_out_start && fade_out_start < event_end {
             // During fade out
-            let progress =
-                (event_end.saturating_sub(time_cs)) as f32 / fade.time_end.max(1) as f32;
+            let progress = (event_end.saturating_sub(time_cs)) as f32 / fade.time_end.max(1) as f32;
             255.0 * progress.min(1.0)
         } else {
             // Fully visible
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index d27d680..5a3ff6e 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -319,10 +319,15 @@ impl super::SoftwarePipeline {
                     };
 
                     // Unsung syllables use the secondary colour. `\2c` overrides are
-                    // 6-digit (no alpha), so inherit alpha from the style default.
+                    // 6-digit (no alpha): alpha comes from `\2a` or the style default.
                     let mut karaoke_secondary =
                         tags.colors.secondary.unwrap_or(defaults.secondary_color);
-                    karaoke_secondary[3] = defaults.secondary_color[3];
+                    karaoke_secondary[3] =
+                        tags.colors.alpha2.unwrap_or(defaults.secondary_color[3]);
+                    if let Some(fade) = &tags.fade {
+                        let factor = fade_factor(fade, event, time_cs);
+                        karaoke_secondary[3] = (karaoke_secondary[3] as f32 * factor) as u8;
+                    }
 
                     // Add karaoke effect with correct progress
                     layer.effects.push(TextEffect::Karaoke {
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 390bc71..cb33a69 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -57,12 +57,15 @@ pub(super) fn process_tag_block(
             "3c" => value(args, parse_color, &mut current.colors.outline),
             "4c" => value(args, parse_color, &mut current.colors.shadow),
             "alpha" => {
-                if args.is_empty() || parse_alpha(args).is_some() {
-                    value(args, parse_alpha, &mut current.colors.alpha);
-                    current.colors.alpha1 = None;
-                    current.colors.alpha2 = None;
-                    current.colors.alpha3 = None;
-                    current.colors.alpha4 = None;
+                let colors = &mut current.colors;
+                for slot in [
+                    &mut colors.alpha,
+                    &mut colors.alpha1,
+                    &mut colors.alpha2,
+                    &mut colors.alpha3,
+                    &mut colors.alpha4,
+                ] {
+                    value(args, parse_alpha, slot);
                 }
             }
             "1a" => value(args, parse_alpha, &mut current.colors.alpha1),
-- 
2.43.0


From 0acff57f2ef2baaa156a2c84177463790d102310 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 65/83] fix: \bord and \shad replace the per-axis values set
 before them

---
 .../src/pipeline/text_segmenter/apply.rs         | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index cb33a69..9fb6306 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -114,11 +114,23 @@ pub(super) fn process_tag_block(
             "fry" => number(args, &mut current.font.rotation_y),
 
             // Border / outline width
-            "bord" => number(args, &mut current.formatting.border),
+            "bord" => {
+                let format = &mut current.formatting;
+                if args.is_empty() || args.parse::<f32>().is_ok() {
+                    (format.border_x, format.border_y) = (None, None);
+                }
+                number(args, &mut format.border);
+            }
             "xbord" => number(args, &mut current.formatting.border_x),
             "ybord" => number(args, &mut current.formatting.border_y),
             // Shadow depth
-            "shad" => number(args, &mut current.formatting.shadow),
+            "shad" => {
+                let format = &mut current.formatting;
+                if args.is_empty() || args.parse::<f32>().is_ok() {
+                    (format.shadow_x, format.shadow_y) = (None, None);
+                }
+                number(args, &mut format.shadow);
+            }
             "xshad" => number(args, &mut current.formatting.shadow_x),
             "yshad" => number(args, &mut current.formatting.shadow_y),
             // Wrap style
-- 
2.43.0


From e8e413d27a0cd2a892eb06ce27cc7cb1340963a0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 66/83] fix: a style's Angle turns its text, and \fay slants it
 without \fax

---
 .../ass-renderer/src/pipeline/build/style.rs  |  3 +-
 .../src/pipeline/build/text/defaults.rs       | 20 ++---
 .../src/pipeline/build/text/effects.rs        | 74 +++++--------------
 .../src/pipeline/build/text/types.rs          |  2 +
 4 files changed, 28 insertions(+), 71 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/style.rs b/crates/ass-renderer/src/pipeline/build/style.rs
index 9495da1..059382e 100644
--- a/crates/ass-renderer/src/pipeline/build/style.rs
+++ b/crates/ass-renderer/src/pipeline/build/style.rs
@@ -25,8 +25,7 @@ pub(super) struct OwnedStyle {
     pub(super) scale_x: String,
     pub(super) scale_y: String,
     pub(super) spacing: String,
-    #[allow(dead_code)] // Text rotation angle - stored for completeness
-    angle: String,
+    pub(super) angle: String,
     #[allow(dead_code)] // Border rendering style - stored for completeness
     pub(super) border_style: String,
     pub(super) outline: String,
diff --git a/crates/ass-renderer/src/pipeline/build/text/defaults.rs b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
index e81f4ca..9251752 100644
--- a/crates/ass-renderer/src/pipeline/build/text/defaults.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
@@ -42,24 +42,12 @@ impl super::super::SoftwarePipeline {
             .map(|s| Self::parse_ass_color(&s.back_colour))
             .unwrap_or([0, 0, 0, 128]);
 
-        // Parse style formatting values and scale them only if ScaledBorderAndShadow is enabled
-        let default_outline_base = style
+        let default_outline = style
             .map(|s| s.outline.parse::<f32>().unwrap_or(2.0))
             .unwrap_or(2.0);
-        let default_shadow_base = style
+        let default_shadow = style
             .map(|s| s.shadow.parse::<f32>().unwrap_or(2.0))
             .unwrap_or(2.0);
-        // Scale outline and shadow from script coordinates only if ScaledBorderAndShadow is true
-        let default_outline = if self.scaled_border_and_shadow {
-            default_outline_base * scale_y
-        } else {
-            default_outline_base
-        };
-        let default_shadow = if self.scaled_border_and_shadow {
-            default_shadow_base * scale_y
-        } else {
-            default_shadow_base
-        };
         let default_scale_x = style
             .map(|s| s.scale_x.parse::<f32>().unwrap_or(100.0))
             .unwrap_or(100.0);
@@ -69,6 +57,9 @@ impl super::super::SoftwarePipeline {
         let default_spacing = style
             .map(|s| s.spacing.parse::<f32>().unwrap_or(0.0))
             .unwrap_or(0.0);
+        let default_angle = style
+            .map(|s| s.angle.parse::<f32>().unwrap_or(0.0))
+            .unwrap_or(0.0);
         let default_alignment = style
             .map(|s| s.alignment.parse::<u8>().unwrap_or(2))
             .unwrap_or(2);
@@ -89,6 +80,7 @@ impl super::super::SoftwarePipeline {
             scale_x: default_scale_x,
             scale_y: default_scale_y,
             spacing: default_spacing,
+            angle: default_angle,
             alignment: default_alignment,
         }
     }
diff --git a/crates/ass-renderer/src/pipeline/build/text/effects.rs b/crates/ass-renderer/src/pipeline/build/text/effects.rs
index fbd48d9..04ac707 100644
--- a/crates/ass-renderer/src/pipeline/build/text/effects.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/effects.rs
@@ -47,31 +47,15 @@ impl super::super::SoftwarePipeline {
         }
 
         // Add outline effect with per-axis border support
-        // Scale tag values only if ScaledBorderAndShadow is enabled
-        let outline_width_x = if self.scaled_border_and_shadow {
-            tags.formatting
-                .border_x
-                .map(|w| w * scale_x)
-                .or(tags.formatting.border.map(|w| w * scale_y))
-                .unwrap_or(default_outline)
+        // Script units are scaled only if ScaledBorderAndShadow is enabled
+        let (unit_x, unit_y) = if self.scaled_border_and_shadow {
+            (scale_x, scale_y)
         } else {
-            tags.formatting
-                .border_x
-                .or(tags.formatting.border)
-                .unwrap_or(default_outline)
-        };
-        let outline_width_y = if self.scaled_border_and_shadow {
-            tags.formatting
-                .border_y
-                .map(|w| w * scale_y)
-                .or(tags.formatting.border.map(|w| w * scale_y))
-                .unwrap_or(default_outline)
-        } else {
-            tags.formatting
-                .border_y
-                .or(tags.formatting.border)
-                .unwrap_or(default_outline)
+            (1.0, 1.0)
         };
+        let border = tags.formatting.border.unwrap_or(default_outline) * unit_y;
+        let outline_width_x = tags.formatting.border_x.map_or(border, |w| w * unit_x);
+        let outline_width_y = tags.formatting.border_y.map_or(border, |w| w * unit_y);
         let border_style = style
             .and_then(|s| s.border_style.trim().parse::<u8>().ok())
             .unwrap_or(1);
@@ -92,31 +76,12 @@ impl super::super::SoftwarePipeline {
         }
 
         // Add shadow effect with per-axis shadow support
-        // Scale tag values only if ScaledBorderAndShadow is enabled
-        let shadow_x = if self.scaled_border_and_shadow {
-            tags.formatting
-                .shadow_x
-                .map(|s| s * scale_x)
-                .or(tags.formatting.shadow.map(|s| s * scale_x))
-                .unwrap_or(default_shadow)
-        } else {
-            tags.formatting
-                .shadow_x
-                .or(tags.formatting.shadow)
-                .unwrap_or(default_shadow)
-        };
-        let shadow_y = if self.scaled_border_and_shadow {
-            tags.formatting
-                .shadow_y
-                .map(|s| s * scale_y)
-                .or(tags.formatting.shadow.map(|s| s * scale_y))
-                .unwrap_or(default_shadow)
-        } else {
-            tags.formatting
-                .shadow_y
-                .or(tags.formatting.shadow)
-                .unwrap_or(default_shadow)
+        let depth = |axis: Option<f32>, unit: f32| match axis.or(tags.formatting.shadow) {
+            Some(depth) => depth * unit,
+            None => default_shadow * unit_y,
         };
+        let shadow_x = depth(tags.formatting.shadow_x, unit_x);
+        let shadow_y = depth(tags.formatting.shadow_y, unit_y);
         if shadow_x != 0.0 || shadow_y != 0.0 {
             // libass offsets the shadow by the full (scaled) \shad distance.
             layer.effects.push(TextEffect::Shadow {
@@ -149,7 +114,7 @@ impl super::super::SoftwarePipeline {
         // Add rotation effects if present
         let rotation_x = tags.font.rotation_x.unwrap_or(0.0);
         let rotation_y = tags.font.rotation_y.unwrap_or(0.0);
-        let rotation_z = tags.font.rotation_z.or(tags.font.angle).unwrap_or(0.0);
+        let rotation_z = tags.font.rotation_z.unwrap_or(defaults.angle);
         if rotation_x != 0.0 || rotation_y != 0.0 || rotation_z != 0.0 {
             // `\org` sets the rotation centre in script coordinates; scale
             // it to screen space for the backend.
@@ -163,13 +128,12 @@ impl super::super::SoftwarePipeline {
         }
 
         // Add shear effects if present
-        if let Some(shear_x) = tags.shear_x {
-            if shear_x != 0.0 || tags.shear_y.unwrap_or(0.0) != 0.0 {
-                layer.effects.push(TextEffect::Shear {
-                    x: shear_x,
-                    y: tags.shear_y.unwrap_or(0.0),
-                });
-            }
+        let shear = (tags.shear_x.unwrap_or(0.0), tags.shear_y.unwrap_or(0.0));
+        if shear != (0.0, 0.0) {
+            layer.effects.push(TextEffect::Shear {
+                x: shear.0,
+                y: shear.1,
+            });
         }
 
         // Add a scale effect when either axis is non-100%. \fscy is folded
diff --git a/crates/ass-renderer/src/pipeline/build/text/types.rs b/crates/ass-renderer/src/pipeline/build/text/types.rs
index d93a530..efef994 100644
--- a/crates/ass-renderer/src/pipeline/build/text/types.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/types.rs
@@ -20,11 +20,13 @@ pub(super) struct TextDefaults<'a> {
     pub(super) secondary_color: [u8; 4],
     pub(super) outline_color: [u8; 4],
     pub(super) back_color: [u8; 4],
+    /// Outline width and shadow depth in script units, as the style gives them.
     pub(super) outline: f32,
     pub(super) shadow: f32,
     pub(super) scale_x: f32,
     pub(super) scale_y: f32,
     pub(super) spacing: f32,
+    pub(super) angle: f32,
     pub(super) alignment: u8,
 }
 
-- 
2.43.0


From 09c6e1a0499a1ce5044157f5ff4f68b5f7c20f8e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 67/83] fix: \t starts from the style's values and animates
 every alpha

---
 .../src/pipeline/build/animation.rs           | 217 +++++++-----------
 .../src/pipeline/build/text/mod.rs            |  10 +-
 .../src/pipeline/build/text/types.rs          |  36 +--
 .../src/pipeline/transform/mod.rs             |   2 +
 .../src/pipeline/transform/parse.rs           |  27 +--
 5 files changed, 118 insertions(+), 174 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index 932335d..d836cc3 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -1,10 +1,26 @@
 //! Transform (`\t`) animation application for the software pipeline.
 
+use super::text::TextDefaults;
 use crate::pipeline::{
     tag_processor::ProcessedTags,
     transform::{interpolate_alpha, interpolate_color, interpolate_f32, AnimatableTag},
 };
 
+/// Move an override from where it stands, or from the style's value when there is
+/// none, towards `target`.
+fn blend(slot: &mut Option<f32>, default: f32, target: f32, progress: f32) {
+    *slot = Some(if progress >= 1.0 {
+        target
+    } else {
+        interpolate_f32(slot.unwrap_or(default), target, progress)
+    });
+}
+
+/// [`blend`] of a colour.
+fn blend_color(slot: &mut Option<[u8; 4]>, default: [u8; 4], target: [u8; 4], progress: f32) {
+    *slot = Some(interpolate_color(slot.unwrap_or(default), target, progress));
+}
+
 impl super::SoftwarePipeline {
     /// Apply transform animations to tags based on current time
     pub(super) fn apply_transform_animations(
@@ -13,8 +29,7 @@ impl super::SoftwarePipeline {
         event_start_cs: u32,
         event_end_cs: u32,
         current_time_cs: u32,
-        default_colors: ([u8; 4], [u8; 4], [u8; 4], [u8; 4]), // primary, secondary, outline, shadow
-        default_font_size: f32,
+        defaults: &TextDefaults,
     ) {
         // Event duration in milliseconds: a \t with no explicit end animates over it.
         let full_duration_ms = event_end_cs
@@ -35,138 +50,82 @@ impl super::SoftwarePipeline {
             // Calculate animation progress (expects milliseconds)
             let progress = animation.calculate_progress(relative_time_ms, full_duration_ms);
 
-            // If animation hasn't started or has finished, we might not need to interpolate
-            if progress <= 0.0 || progress >= 1.0 {
-                if progress >= 1.0 {
-                    // Apply final values
-                    for target in &animation.target_tags {
-                        match target {
-                            AnimatableTag::FontSize(size) => tags.font.size = Some(*size),
-                            AnimatableTag::FontScaleX(scale) => tags.font.scale_x = Some(*scale),
-                            AnimatableTag::FontScaleY(scale) => tags.font.scale_y = Some(*scale),
-                            AnimatableTag::FontSpacing(spacing) => {
-                                tags.font.spacing = Some(*spacing)
-                            }
-                            AnimatableTag::FontRotationZ(angle) => {
-                                tags.font.rotation_z = Some(*angle)
-                            }
-                            AnimatableTag::FontRotationX(angle) => {
-                                tags.font.rotation_x = Some(*angle)
-                            }
-                            AnimatableTag::FontRotationY(angle) => {
-                                tags.font.rotation_y = Some(*angle)
-                            }
-                            AnimatableTag::PrimaryColor(color) => {
-                                tags.colors.primary = Some(*color)
-                            }
-                            AnimatableTag::SecondaryColor(color) => {
-                                tags.colors.secondary = Some(*color)
-                            }
-                            AnimatableTag::OutlineColor(color) => {
-                                tags.colors.outline = Some(*color)
-                            }
-                            AnimatableTag::ShadowColor(color) => tags.colors.shadow = Some(*color),
-                            AnimatableTag::Alpha(alpha) => tags.colors.alpha = Some(*alpha),
-                            AnimatableTag::BorderWidth(width) => {
-                                tags.formatting.border = Some(*width)
-                            }
-                            AnimatableTag::ShadowDepth(depth) => {
-                                tags.formatting.shadow = Some(*depth)
-                            }
-                            AnimatableTag::Blur(blur) => tags.formatting.blur = Some(*blur),
+            if progress <= 0.0 {
+                continue;
+            }
+            let (font, format) = (&mut tags.font, &mut tags.formatting);
+            let colors = &mut tags.colors;
+            for target in &animation.target_tags {
+                match target {
+                    AnimatableTag::FontSize(size) => {
+                        blend(&mut font.size, defaults.font_size_base, *size, progress);
+                    }
+                    AnimatableTag::FontScaleX(scale) => {
+                        blend(&mut font.scale_x, defaults.scale_x, *scale, progress);
+                    }
+                    AnimatableTag::FontScaleY(scale) => {
+                        blend(&mut font.scale_y, defaults.scale_y, *scale, progress);
+                    }
+                    AnimatableTag::FontSpacing(spacing) => {
+                        blend(&mut font.spacing, defaults.spacing, *spacing, progress);
+                    }
+                    AnimatableTag::FontRotationZ(angle) => {
+                        blend(&mut font.rotation_z, defaults.angle, *angle, progress);
+                    }
+                    AnimatableTag::FontRotationX(angle) => {
+                        blend(&mut font.rotation_x, 0.0, *angle, progress);
+                    }
+                    AnimatableTag::FontRotationY(angle) => {
+                        blend(&mut font.rotation_y, 0.0, *angle, progress);
+                    }
+                    AnimatableTag::PrimaryColor(color) => {
+                        let default = defaults.primary_color;
+                        blend_color(&mut colors.primary, default, *color, progress);
+                    }
+                    AnimatableTag::SecondaryColor(color) => {
+                        let default = defaults.secondary_color;
+                        blend_color(&mut colors.secondary, default, *color, progress);
+                    }
+                    AnimatableTag::OutlineColor(color) => {
+                        let default = defaults.outline_color;
+                        blend_color(&mut colors.outline, default, *color, progress);
+                    }
+                    AnimatableTag::ShadowColor(color) => {
+                        let default = defaults.back_color;
+                        blend_color(&mut colors.shadow, default, *color, progress);
+                    }
+                    AnimatableTag::Alpha(alpha) => {
+                        for (slot, default) in [
+                            (&mut colors.alpha1, defaults.primary_color),
+                            (&mut colors.alpha2, defaults.secondary_color),
+                            (&mut colors.alpha3, defaults.outline_color),
+                            (&mut colors.alpha4, defaults.back_color),
+                        ] {
+                            let from = slot.unwrap_or(default[3]);
+                            *slot = Some(interpolate_alpha(from, *alpha, progress));
                         }
                     }
-                }
-                // Don't return early - we still need to process the rest of the code
-                // to apply effects like rotation
-            } else if progress > 0.0 {
-                // Interpolate values
-                for target in &animation.target_tags {
-                    match target {
-                        AnimatableTag::FontSize(target_size) => {
-                            if let Some(current) = tags.font.size {
-                                tags.font.size =
-                                    Some(interpolate_f32(current, *target_size, progress));
-                            } else {
-                                // No explicit \fs before \t: animate from the style's
-                                // base size (libass), not from zero.
-                                tags.font.size = Some(interpolate_f32(
-                                    default_font_size,
-                                    *target_size,
-                                    progress,
-                                ));
+                    AnimatableTag::BorderWidth(width) => {
+                        for axis in [&mut format.border_x, &mut format.border_y] {
+                            if axis.is_some() {
+                                blend(axis, defaults.outline, *width, progress);
                             }
                         }
-                        AnimatableTag::FontScaleX(target_scale) => {
-                            let current = tags.font.scale_x.unwrap_or(100.0);
-                            tags.font.scale_x =
-                                Some(interpolate_f32(current, *target_scale, progress));
-                        }
-                        AnimatableTag::FontScaleY(target_scale) => {
-                            let current = tags.font.scale_y.unwrap_or(100.0);
-                            tags.font.scale_y =
-                                Some(interpolate_f32(current, *target_scale, progress));
-                        }
-                        AnimatableTag::FontSpacing(target_spacing) => {
-                            let current = tags.font.spacing.unwrap_or(0.0);
-                            tags.font.spacing =
-                                Some(interpolate_f32(current, *target_spacing, progress));
-                        }
-                        AnimatableTag::FontRotationZ(target_angle) => {
-                            let current = tags.font.rotation_z.unwrap_or(0.0);
-                            tags.font.rotation_z =
-                                Some(interpolate_f32(current, *target_angle, progress));
-                        }
-                        AnimatableTag::FontRotationX(target_angle) => {
-                            let current = tags.font.rotation_x.unwrap_or(0.0);
-                            tags.font.rotation_x =
-                                Some(interpolate_f32(current, *target_angle, progress));
-                        }
-                        AnimatableTag::FontRotationY(target_angle) => {
-                            let current = tags.font.rotation_y.unwrap_or(0.0);
-                            tags.font.rotation_y =
-                                Some(interpolate_f32(current, *target_angle, progress));
-                        }
-                        AnimatableTag::PrimaryColor(target_color) => {
-                            let current = tags.colors.primary.unwrap_or(default_colors.0);
-                            tags.colors.primary =
-                                Some(interpolate_color(current, *target_color, progress));
-                        }
-                        AnimatableTag::SecondaryColor(target_color) => {
-                            let current = tags.colors.secondary.unwrap_or(default_colors.1);
-                            tags.colors.secondary =
-                                Some(interpolate_color(current, *target_color, progress));
-                        }
-                        AnimatableTag::OutlineColor(target_color) => {
-                            let current = tags.colors.outline.unwrap_or(default_colors.2);
-                            tags.colors.outline =
-                                Some(interpolate_color(current, *target_color, progress));
-                        }
-                        AnimatableTag::ShadowColor(target_color) => {
-                            let current = tags.colors.shadow.unwrap_or(default_colors.3);
-                            tags.colors.shadow =
-                                Some(interpolate_color(current, *target_color, progress));
-                        }
-                        AnimatableTag::Alpha(target_alpha) => {
-                            let current = tags.colors.alpha.unwrap_or(0);
-                            tags.colors.alpha =
-                                Some(interpolate_alpha(current, *target_alpha, progress));
-                        }
-                        AnimatableTag::BorderWidth(target_width) => {
-                            let current = tags.formatting.border.unwrap_or(0.0);
-                            tags.formatting.border =
-                                Some(interpolate_f32(current, *target_width, progress));
-                        }
-                        AnimatableTag::ShadowDepth(target_depth) => {
-                            let current = tags.formatting.shadow.unwrap_or(0.0);
-                            tags.formatting.shadow =
-                                Some(interpolate_f32(current, *target_depth, progress));
-                        }
-                        AnimatableTag::Blur(target_blur) => {
-                            let current = tags.formatting.blur.unwrap_or(0.0);
-                            tags.formatting.blur =
-                                Some(interpolate_f32(current, *target_blur, progress));
+                        blend(&mut format.border, defaults.outline, *width, progress);
+                    }
+                    AnimatableTag::ShadowDepth(depth) => {
+                        for axis in [&mut format.shadow_x, &mut format.shadow_y] {
+                            if axis.is_some() {
+                                blend(axis, defaults.shadow, *depth, progress);
+                            }
                         }
+                        blend(&mut format.shadow, defaults.shadow, *depth, progress);
+                    }
+                    AnimatableTag::Blur(radius) => {
+                        blend(&mut format.blur, 0.0, *radius, progress);
+                    }
+                    AnimatableTag::EdgeBlur(radius) => {
+                        blend(&mut format.blur_edges, 0.0, *radius, progress);
                     }
                 }
             }
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 5a3ff6e..6bb8859 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -34,6 +34,7 @@ mod types;
 
 pub(super) use colors::fade_factor;
 use colors::{resolve_run_colors, split_into_logical_lines};
+pub(super) use types::TextDefaults;
 use types::{EffectColors, LineLayout, Pen, RunCtx};
 
 impl super::SoftwarePipeline {
@@ -214,19 +215,12 @@ impl super::SoftwarePipeline {
 
                 // Apply transform animations if present
                 let event_start_cs = event.start_time_cs().unwrap_or(0);
-                let default_colors = (
-                    defaults.primary_color,
-                    defaults.secondary_color,
-                    defaults.outline_color,
-                    defaults.back_color,
-                );
                 self.apply_transform_animations(
                     &mut tags,
                     event_start_cs,
                     event.end_time_cs().unwrap_or(u32::MAX),
                     time_cs,
-                    default_colors,
-                    defaults.font_size_base,
+                    &defaults,
                 );
 
                 // Shape the text first to get dimensions for proper alignment
diff --git a/crates/ass-renderer/src/pipeline/build/text/types.rs b/crates/ass-renderer/src/pipeline/build/text/types.rs
index efef994..de3d6fa 100644
--- a/crates/ass-renderer/src/pipeline/build/text/types.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/types.rs
@@ -9,25 +9,25 @@ use crate::renderer::RenderContext;
 
 /// Style-derived defaults (font, size, colours, formatting) resolved once per
 /// event. Borrows the run's resolved style for its zero-copy font name.
-pub(super) struct TextDefaults<'a> {
-    pub(super) font_name: &'a str,
-    pub(super) font_size_base: f32,
-    pub(super) bold: bool,
-    pub(super) italic: bool,
-    pub(super) underline: bool,
-    pub(super) strikeout: bool,
-    pub(super) primary_color: [u8; 4],
-    pub(super) secondary_color: [u8; 4],
-    pub(super) outline_color: [u8; 4],
-    pub(super) back_color: [u8; 4],
+pub(in crate::pipeline::build) struct TextDefaults<'a> {
+    pub(in crate::pipeline::build) font_name: &'a str,
+    pub(in crate::pipeline::build) font_size_base: f32,
+    pub(in crate::pipeline::build) bold: bool,
+    pub(in crate::pipeline::build) italic: bool,
+    pub(in crate::pipeline::build) underline: bool,
+    pub(in crate::pipeline::build) strikeout: bool,
+    pub(in crate::pipeline::build) primary_color: [u8; 4],
+    pub(in crate::pipeline::build) secondary_color: [u8; 4],
+    pub(in crate::pipeline::build) outline_color: [u8; 4],
+    pub(in crate::pipeline::build) back_color: [u8; 4],
     /// Outline width and shadow depth in script units, as the style gives them.
-    pub(super) outline: f32,
-    pub(super) shadow: f32,
-    pub(super) scale_x: f32,
-    pub(super) scale_y: f32,
-    pub(super) spacing: f32,
-    pub(super) angle: f32,
-    pub(super) alignment: u8,
+    pub(in crate::pipeline::build) outline: f32,
+    pub(in crate::pipeline::build) shadow: f32,
+    pub(in crate::pipeline::build) scale_x: f32,
+    pub(in crate::pipeline::build) scale_y: f32,
+    pub(in crate::pipeline::build) spacing: f32,
+    pub(in crate::pipeline::build) angle: f32,
+    pub(in crate::pipeline::build) alignment: u8,
 }
 
 /// Per-call rendering context shared by the per-segment helpers (constant
diff --git a/crates/ass-renderer/src/pipeline/transform/mod.rs b/crates/ass-renderer/src/pipeline/transform/mod.rs
index ecff03a..2996156 100644
--- a/crates/ass-renderer/src/pipeline/transform/mod.rs
+++ b/crates/ass-renderer/src/pipeline/transform/mod.rs
@@ -55,6 +55,8 @@ pub enum AnimatableTag {
     ShadowDepth(f32),
     /// Blur
     Blur(f32),
+    /// Blur of the edges (`\be`)
+    EdgeBlur(f32),
 }
 
 impl TransformAnimation {
diff --git a/crates/ass-renderer/src/pipeline/transform/parse.rs b/crates/ass-renderer/src/pipeline/transform/parse.rs
index 8def8d6..f45d28a 100644
--- a/crates/ass-renderer/src/pipeline/transform/parse.rs
+++ b/crates/ass-renderer/src/pipeline/transform/parse.rs
@@ -6,6 +6,7 @@ use alloc::{string::String, vec::Vec};
 use std::{string::String, vec::Vec};
 
 use super::AnimatableTag;
+use crate::pipeline::tag_processor::{parse_alpha, parse_color};
 
 /// Apply acceleration curve to linear progress
 ///
@@ -106,27 +107,15 @@ fn create_animatable_tag(name: &str, args: &str) -> Option<AnimatableTag> {
         "frz" | "fr" => args.parse::<f32>().ok().map(AnimatableTag::FontRotationZ),
         "frx" => args.parse::<f32>().ok().map(AnimatableTag::FontRotationX),
         "fry" => args.parse::<f32>().ok().map(AnimatableTag::FontRotationY),
-        "c" | "1c" => parse_color_arg(args).map(AnimatableTag::PrimaryColor),
-        "2c" => parse_color_arg(args).map(AnimatableTag::SecondaryColor),
-        "3c" => parse_color_arg(args).map(AnimatableTag::OutlineColor),
-        "4c" => parse_color_arg(args).map(AnimatableTag::ShadowColor),
-        "alpha" => parse_alpha_arg(args).map(AnimatableTag::Alpha),
+        "c" | "1c" => parse_color(args).map(AnimatableTag::PrimaryColor),
+        "2c" => parse_color(args).map(AnimatableTag::SecondaryColor),
+        "3c" => parse_color(args).map(AnimatableTag::OutlineColor),
+        "4c" => parse_color(args).map(AnimatableTag::ShadowColor),
+        "alpha" => parse_alpha(args).map(AnimatableTag::Alpha),
         "bord" => args.parse::<f32>().ok().map(AnimatableTag::BorderWidth),
         "shad" => args.parse::<f32>().ok().map(AnimatableTag::ShadowDepth),
-        "blur" | "be" => args.parse::<f32>().ok().map(AnimatableTag::Blur),
+        "blur" => args.parse::<f32>().ok().map(AnimatableTag::Blur),
+        "be" => args.parse::<f32>().ok().map(AnimatableTag::EdgeBlur),
         _ => None,
     }
 }
-
-fn parse_color_arg(args: &str) -> Option<[u8; 4]> {
-    ass_core::utils::parse_bgr_color(args).ok()
-}
-
-fn parse_alpha_arg(args: &str) -> Option<u8> {
-    let hex = args.trim_start_matches("&H").trim_start_matches("&h");
-    // ASS uses inverted alpha: 0 = opaque, 255 = transparent
-    // We need to invert it to match standard RGBA: 255 = opaque, 0 = transparent
-    u8::from_str_radix(hex, 16)
-        .ok()
-        .map(|ass_alpha| 255 - ass_alpha)
-}
-- 
2.43.0


From ccd985c684d35de773af357a8029c4b8002fae61 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 68/83] fix: a karaoke syllable starts when the one before it
 ends

---
 .../src/pipeline/build/text/mod.rs            | 15 +++---
 .../src/pipeline/text_segmenter/apply.rs      | 54 +++++++------------
 2 files changed, 24 insertions(+), 45 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 6bb8859..6178ab2 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -180,8 +180,6 @@ impl super::SoftwarePipeline {
                 current_x: 0.0,
                 needs_initial_position: true,
             };
-            let mut karaoke_accumulated_time = 0u32; // Track cumulative karaoke time for this line
-
             let layout = LineLayout {
                 is_multi_segment,
                 line_total_width,
@@ -298,10 +296,12 @@ impl super::SoftwarePipeline {
 
                 // Handle karaoke - track per-syllable timing
                 if let Some(karaoke) = &tags.karaoke {
-                    // Calculate progress for THIS syllable based on cumulative timing
-                    let syllable_start =
-                        event.start_time_cs().unwrap_or(0) + karaoke_accumulated_time;
-                    let syllable_end = syllable_start + karaoke.duration;
+                    // Calculate progress for THIS syllable from its place in the event
+                    let syllable_start = event
+                        .start_time_cs()
+                        .unwrap_or(0)
+                        .saturating_add(karaoke.start_time.unwrap_or(0));
+                    let syllable_end = syllable_start.saturating_add(karaoke.duration);
 
                     let progress = if time_cs < syllable_start {
                         0.0 // Not yet started
@@ -334,9 +334,6 @@ impl super::SoftwarePipeline {
                         },
                         secondary: karaoke_secondary,
                     });
-
-                    // Accumulate time for next syllable
-                    karaoke_accumulated_time += karaoke.duration;
                 }
 
                 // Advance the pen to the end of this segment so the next run on the
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 9fb6306..731d39d 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -34,6 +34,20 @@ fn switch(args: &str, slot: &mut Option<bool>) {
     value(args, |a| Some(a != "0"), slot);
 }
 
+/// Begin the karaoke syllable a tag asks for: it starts when the one before it ends.
+fn syllable(args: &str, style: KaraokeStyle, current: &mut Option<KaraokeData>) {
+    if let Ok(duration) = args.parse::<u32>() {
+        let start = current
+            .as_ref()
+            .map_or(0, |k| k.start_time.unwrap_or(0).saturating_add(k.duration));
+        *current = Some(KaraokeData {
+            duration,
+            style,
+            start_time: Some(start),
+        });
+    }
+}
+
 /// Process tags within a tag block and update current tags
 pub(super) fn process_tag_block(
     content: &str,
@@ -202,42 +216,10 @@ pub(super) fn process_tag_block(
             }
 
             // Karaoke tags
-            "k" => {
-                if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
-                        duration,
-                        style: KaraokeStyle::Basic,
-                        start_time: None,
-                    });
-                }
-            }
-            "kf" => {
-                if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
-                        duration,
-                        style: KaraokeStyle::Fill,
-                        start_time: None,
-                    });
-                }
-            }
-            "ko" => {
-                if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
-                        duration,
-                        style: KaraokeStyle::Outline,
-                        start_time: None,
-                    });
-                }
-            }
-            "K" => {
-                if let Ok(duration) = args.parse::<u32>() {
-                    current.karaoke = Some(KaraokeData {
-                        duration,
-                        style: KaraokeStyle::Sweep,
-                        start_time: None,
-                    });
-                }
-            }
+            "k" => syllable(args, KaraokeStyle::Basic, &mut current.karaoke),
+            "kf" => syllable(args, KaraokeStyle::Fill, &mut current.karaoke),
+            "ko" => syllable(args, KaraokeStyle::Outline, &mut current.karaoke),
+            "K" => syllable(args, KaraokeStyle::Sweep, &mut current.karaoke),
 
             _ => {
                 // Other tags can be added as needed
-- 
2.43.0


From d7be08028f57eb0b128f373ab82b100e2a91472a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 69/83] fix: comments in an override block are not tags, and
 spaces around arguments are not part of them

---
 crates/ass-renderer/src/pipeline/text_segmenter/apply.rs | 5 +++--
 crates/ass-renderer/src/pipeline/text_segmenter/split.rs | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 731d39d..4e3360d 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -17,7 +17,7 @@ use std::string::ToString;
 /// Set an override to what its tag's arguments say: without arguments the tag
 /// returns to the style, and arguments that cannot be read change nothing.
 fn value<T>(args: &str, read: impl Fn(&str) -> Option<T>, slot: &mut Option<T>) {
-    if args.trim().is_empty() {
+    if args.is_empty() {
         *slot = None;
     } else if let Some(value) = read(args) {
         *slot = Some(value);
@@ -62,6 +62,7 @@ pub(super) fn process_tag_block(
         }
 
         let (name, args) = extract_tag_name_and_args(part);
+        let args = args.trim();
 
         // Process based on tag name
         match name {
@@ -165,7 +166,7 @@ pub(super) fn process_tag_block(
                     karaoke: current.karaoke.take(),
                     drawing_mode: current.drawing_mode,
                     baseline_offset: current.baseline_offset,
-                    reset: Some(args.trim().to_string()),
+                    reset: Some(args.to_string()),
                     ..ProcessedTags::default()
                 };
                 reset.formatting.alignment = current.formatting.alignment;
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index ffc2fb6..d2b8d93 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -10,7 +10,9 @@ pub(super) fn split_tags_carefully(content: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut current = String::new();
     let mut depth = 0;
-    let mut chars = content.chars().peekable();
+    // What stands before the first tag is a comment
+    let tags = content.find('\\').map_or("", |first| &content[first..]);
+    let mut chars = tags.chars().peekable();
 
     while let Some(ch) = chars.next() {
         if ch == '\\' && depth == 0 {
@@ -25,7 +27,7 @@ pub(super) fn split_tags_carefully(content: &str) -> Vec<String> {
             // Track parentheses depth for \t tags
             if ch == '(' {
                 depth += 1;
-            } else if ch == ')' {
+            } else if ch == ')' && depth > 0 {
                 depth -= 1;
 
                 // If we closed all parentheses, this tag is complete
-- 
2.43.0


From 07ab855ebbed871fdbae368570f286e41848b43a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 70/83] fix: the text of an event that also draws is shown, and
 drawings are not wrapped

---
 crates/ass-renderer/src/pipeline/build/run.rs | 39 ++++++++-----------
 .../src/pipeline/build/text/mod.rs            | 15 -------
 2 files changed, 17 insertions(+), 37 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index 9cc8cd8..fd26057 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -29,26 +29,6 @@ impl super::SoftwarePipeline {
             return Ok(Vec::new());
         }
 
-        // Check if this is a drawing command
-        if let Some(draw_level) = segments[0].tags.drawing_mode {
-            if draw_level > 0 {
-                // Clone the style to avoid borrow issues
-                let style_cloned = self
-                    .styles_map
-                    .get(event.style)
-                    .or(self.default_style.as_ref())
-                    .cloned();
-
-                return self.process_drawing_command(
-                    &segments[0],
-                    event,
-                    style_cloned.as_ref(),
-                    time_cs,
-                    context,
-                );
-            }
-        }
-
         // Clone the style to avoid borrow issues
         let style_cloned = self
             .styles_map
@@ -56,8 +36,23 @@ impl super::SoftwarePipeline {
             .or(self.default_style.as_ref())
             .cloned();
 
-        // Process text segments with proper style inheritance
-        self.process_text_segments(segments, event, style_cloned.as_ref(), time_cs, context)
+        // Drawings are placed on their own; the rest of the event is its text
+        let style = style_cloned.as_ref();
+        let (drawings, texts): (Vec<_>, Vec<_>) = segments
+            .into_iter()
+            .partition(|s| s.tags.drawing_mode.is_some_and(|level| level > 0));
+        let mut layers = Vec::new();
+        for drawing in &drawings {
+            let reset = drawing.tags.reset.as_ref();
+            let reset = reset.and_then(|name| self.styles_map.get(name)).cloned();
+            let style = reset.as_ref().or(style);
+            layers.extend(self.process_drawing_command(drawing, event, style, time_cs, context)?);
+        }
+        if !texts.is_empty() {
+            layers.extend(self.process_text_segments(texts, event, style, time_cs, context)?);
+        }
+
+        Ok(layers)
     }
 }
 
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 6178ab2..b0fe4fb 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -196,21 +196,6 @@ impl super::SoftwarePipeline {
                 let style = style_of(&tags);
                 let defaults = self.resolve_text_defaults(style, scale_y);
 
-                // Check if this segment is in drawing mode
-                if let Some(drawing_mode) = tags.drawing_mode {
-                    if drawing_mode > 0 {
-                        // Process drawing commands
-                        if let Ok(drawing_layers) =
-                            self.process_drawing_command(&segment, event, style, time_cs, context)
-                        {
-                            for layer in drawing_layers {
-                                all_layers.push(layer);
-                            }
-                        }
-                        continue; // Skip text processing for drawing segments
-                    }
-                }
-
                 // Apply transform animations if present
                 let event_start_cs = event.start_time_cs().unwrap_or(0);
                 self.apply_transform_animations(
-- 
2.43.0


From abcbc64a506e7696a45036f521cb2d82ae8e05be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 71/83] fix: a tag after a \t replaces what the \t animates

---
 .../src/pipeline/text_segmenter/apply.rs      |  6 +++++
 .../src/pipeline/transform/mod.rs             | 24 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 4e3360d..e03e162 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -64,6 +64,12 @@ pub(super) fn process_tag_block(
         let (name, args) = extract_tag_name_and_args(part);
         let args = args.trim();
 
+        // A tag set after a `\t` replaces what the `\t` made of it
+        for transform in &mut current.transforms {
+            let targets = &mut transform.animation.target_tags;
+            targets.retain(|target| !target.is_set_by(name));
+        }
+
         // Process based on tag name
         match name {
             // Color tags
diff --git a/crates/ass-renderer/src/pipeline/transform/mod.rs b/crates/ass-renderer/src/pipeline/transform/mod.rs
index 2996156..0c44334 100644
--- a/crates/ass-renderer/src/pipeline/transform/mod.rs
+++ b/crates/ass-renderer/src/pipeline/transform/mod.rs
@@ -59,6 +59,30 @@ pub enum AnimatableTag {
     EdgeBlur(f32),
 }
 
+impl AnimatableTag {
+    /// Whether an override tag of that name sets what this one animates
+    pub fn is_set_by(&self, name: &str) -> bool {
+        match self {
+            Self::FontSize(_) => name == "fs",
+            Self::FontScaleX(_) => name == "fscx",
+            Self::FontScaleY(_) => name == "fscy",
+            Self::FontSpacing(_) => name == "fsp",
+            Self::FontRotationZ(_) => matches!(name, "fr" | "frz"),
+            Self::FontRotationX(_) => name == "frx",
+            Self::FontRotationY(_) => name == "fry",
+            Self::PrimaryColor(_) => matches!(name, "c" | "1c"),
+            Self::SecondaryColor(_) => name == "2c",
+            Self::OutlineColor(_) => name == "3c",
+            Self::ShadowColor(_) => name == "4c",
+            Self::Alpha(_) => name == "alpha",
+            Self::BorderWidth(_) => name == "bord",
+            Self::ShadowDepth(_) => name == "shad",
+            Self::Blur(_) => name == "blur",
+            Self::EdgeBlur(_) => name == "be",
+        }
+    }
+}
+
 impl TransformAnimation {
     /// Parse transform tag arguments
     pub fn parse(args: &str) -> Option<Self> {
-- 
2.43.0


From 192de771e8cda43838b1fc49e09b82dfbda74eda Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 72/83] fix: subtitle exports keep lines, tags and times of
 every dialogue

---
 crates/ass-editor/formats/cue_text.rs         | 152 ++++++++++++++++++
 crates/ass-editor/formats/mod.rs              |   1 +
 crates/ass-editor/formats/srt/export.rs       |  31 ++--
 crates/ass-editor/formats/srt/styling.rs      |  41 +----
 crates/ass-editor/formats/srt/time.rs         |  37 ++---
 crates/ass-editor/formats/webvtt/exporter.rs  |  31 ++--
 crates/ass-editor/formats/webvtt/styling.rs   |  42 +----
 crates/ass-editor/formats/webvtt/time.rs      |  37 ++---
 crates/ass-editor/utils/formats/export_srt.rs |  75 +++------
 .../ass-editor/utils/formats/export_webvtt.rs |  62 +++----
 crates/ass-editor/utils/formats/plain_text.rs |   7 +-
 crates/ass-editor/utils/formats/types.rs      |   1 +
 12 files changed, 253 insertions(+), 264 deletions(-)
 create mode 100644 crates/ass-editor/formats/cue_text.rs

diff --git a/crates/ass-editor/formats/cue_text.rs b/crates/ass-editor/formats/cue_text.rs
new file mode 100644
index 0000000..d2e34c5
--- /dev/null
+++ b/crates/ass-editor/formats/cue_text.rs
@@ -0,0 +1,152 @@
+//! ASS event text as the text of a cue of another subtitle format.
+
+#[cfg(not(feature = "std"))]
+use alloc::{format, string::String, vec::Vec};
+
+/// What the override tags of an event become.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+#[cfg_attr(not(feature = "formats"), allow(dead_code))]
+pub(crate) enum Markup {
+    /// Nothing; `escape` writes the text with WebVTT character references.
+    None { escape: bool },
+    /// Bold, italic and underline tags.
+    Basic { escape: bool },
+    /// The tags and `<font>` elements of SubRip.
+    Srt,
+    /// The tags, classes and voices of WebVTT.
+    WebVtt,
+}
+
+impl Markup {
+    fn escapes(self) -> bool {
+        matches!(
+            self,
+            Self::WebVtt | Self::None { escape: true } | Self::Basic { escape: true }
+        )
+    }
+}
+
+/// Convert the text of an event: line breaks become line feeds, the override
+/// tags `markup` knows become its tags, and other blocks and drawings go.
+pub(crate) fn convert_text(text: &str, markup: Markup) -> String {
+    let mut out = String::with_capacity(text.len());
+    let mut drawing = false;
+    let mut opened: Vec<&'static str> = Vec::new();
+    let mut rest = text;
+
+    while let Some(c) = rest.chars().next() {
+        if c == '{' {
+            if let Some(end) = rest.find('}') {
+                for tag in rest[1..end].split('\\').skip(1) {
+                    let tag = tag.trim();
+                    let level = tag.strip_prefix('p').map(str::parse::<u32>);
+                    if tag == "p" {
+                        drawing = false;
+                    } else if let Some(Ok(level)) = level {
+                        drawing = level > 0;
+                    } else {
+                        push_tag(&mut out, tag, markup, &mut opened);
+                    }
+                }
+                rest = &rest[end + 1..];
+                continue;
+            }
+        }
+
+        let (kept, len) = if rest.starts_with("\\N") || rest.starts_with("\\n") {
+            ('\n', 2)
+        } else if rest.starts_with("\\h") {
+            ('\u{a0}', 2)
+        } else {
+            (c, c.len_utf8())
+        };
+        rest = &rest[len..];
+
+        if drawing {
+            continue;
+        }
+        match kept {
+            '&' if markup.escapes() => out.push_str("&amp;"),
+            '<' if markup.escapes() => out.push_str("&lt;"),
+            '>' if markup.escapes() => out.push_str("&gt;"),
+            _ => out.push(kept),
+        }
+    }
+
+    out
+}
+
+/// Convert the text of an event to the lines of a cue, which a blank line would end.
+pub(crate) fn cue_text(text: &str, markup: Markup) -> String {
+    convert_text(text, markup)
+        .split('\n')
+        .filter(|line| !line.trim().is_empty())
+        .collect::<Vec<_>>()
+        .join("\n")
+}
+
+fn push_tag(out: &mut String, tag: &str, markup: Markup, opened: &mut Vec<&'static str>) {
+    if matches!(markup, Markup::None { .. }) {
+        return;
+    }
+    let plain = match tag {
+        "b1" => "<b>",
+        "b0" => "</b>",
+        "i1" => "<i>",
+        "i0" => "</i>",
+        "u1" => "<u>",
+        "u0" => "</u>",
+        "s1" if markup == Markup::Srt => "<s>",
+        "s0" if markup == Markup::Srt => "</s>",
+        _ => "",
+    };
+    if !plain.is_empty() {
+        out.push_str(plain);
+        return;
+    }
+
+    let (colour_end, font_end) = match markup {
+        Markup::Srt => ("</font>", "</font>"),
+        Markup::WebVtt => ("</c>", "</v>"),
+        _ => return,
+    };
+    let end = match tag {
+        "c" => colour_end,
+        "fn" => font_end,
+        _ => {
+            if let Some(colour) = colour_value(tag) {
+                out.push_str(&match markup {
+                    Markup::Srt => format!("<font color=\"#{colour}\">"),
+                    _ => format!("<c.{colour}>"),
+                });
+                opened.push(colour_end);
+            } else if let Some(name) = tag.strip_prefix("fn") {
+                out.push_str(&match markup {
+                    Markup::Srt => format!("<font face=\"{name}\">"),
+                    _ => format!("<v {name}>"),
+                });
+                opened.push(font_end);
+            }
+            return;
+        }
+    };
+    // Only what was opened can be closed
+    if let Some(at) = opened.iter().rposition(|open| *open == end) {
+        opened.remove(at);
+        out.push_str(end);
+    }
+}
+
+/// The six digits of `c&HXXXXXX&`.
+fn colour_value(tag: &str) -> Option<&str> {
+    let digits = tag.strip_prefix("c&H")?.strip_suffix('&')?;
+    (digits.len() == 6 && digits.bytes().all(|b| b.is_ascii_hexdigit())).then_some(digits)
+}
+
+/// Replace the character references WebVTT text is written with.
+pub(crate) fn unescape(text: &str) -> String {
+    text.replace("&lt;", "<")
+        .replace("&gt;", ">")
+        .replace("&nbsp;", "\u{a0}")
+        .replace("&amp;", "&")
+}
diff --git a/crates/ass-editor/formats/mod.rs b/crates/ass-editor/formats/mod.rs
index f32ca6c..cf2cfdb 100644
--- a/crates/ass-editor/formats/mod.rs
+++ b/crates/ass-editor/formats/mod.rs
@@ -3,6 +3,7 @@
 //! This module provides traits and implementations for importing and exporting
 //! various subtitle formats, reusing ass-core's parsing capabilities where possible.
 
+pub(crate) mod cue_text;
 mod registry;
 mod traits;
 mod types;
diff --git a/crates/ass-editor/formats/srt/export.rs b/crates/ass-editor/formats/srt/export.rs
index 82f4448..1f7fb36 100644
--- a/crates/ass-editor/formats/srt/export.rs
+++ b/crates/ass-editor/formats/srt/export.rs
@@ -18,25 +18,21 @@ impl FormatExporter for SrtFormat {
     ) -> Result<FormatResult, EditorError> {
         // Parse the ASS content to extract events
         let events = document.parse_script_with(|script| {
-            // Find events section and collect owned data
-            if let Some(ass_core::parser::ast::Section::Events(events)) =
-                script.find_section(ass_core::parser::ast::SectionType::Events)
-            {
-                // Convert to owned data to avoid lifetime issues
-                events
-                    .iter()
-                    .map(|event| {
+            // Collect owned data of every events section to avoid lifetime issues
+            let mut events = Vec::new();
+            for section in script.sections() {
+                if let ass_core::parser::ast::Section::Events(section_events) = section {
+                    events.extend(section_events.iter().map(|event| {
                         (
                             event.event_type,
                             event.start.to_string(),
                             event.end.to_string(),
                             event.text.to_string(),
                         )
-                    })
-                    .collect::<Vec<_>>()
-            } else {
-                Vec::new()
+                    }));
+                }
             }
+            events
         })?;
 
         let mut srt_content = String::new();
@@ -68,15 +64,8 @@ impl FormatExporter for SrtFormat {
                 }
             };
 
-            // Convert ASS text to SRT format
-            let mut text = text.clone();
-
-            // Convert ASS line breaks to actual line breaks
-            text = text.replace("\\N", "\n");
-            text = text.replace("\\n", "\n");
-
-            // Convert ASS styling to SRT styling
-            text = Self::convert_ass_to_srt_styling(&text);
+            // Convert ASS text, line breaks and styling to SRT format
+            let text = Self::convert_ass_to_srt_styling(text);
 
             // Write SRT subtitle entry
             srt_content.push_str(&format!("{subtitle_num}\n"));
diff --git a/crates/ass-editor/formats/srt/styling.rs b/crates/ass-editor/formats/srt/styling.rs
index 9d6e40e..bf2fa6a 100644
--- a/crates/ass-editor/formats/srt/styling.rs
+++ b/crates/ass-editor/formats/srt/styling.rs
@@ -1,6 +1,7 @@
 //! Conversion between SRT inline styling and ASS override tags.
 
 use super::SrtFormat;
+use crate::formats::cue_text::{cue_text, Markup};
 
 impl SrtFormat {
     /// Convert SRT styling to ASS override tags
@@ -27,45 +28,17 @@ impl SrtFormat {
             // Handle font face tags
             let font_regex = regex::Regex::new(r#"<font face="([^"]+)">"#).unwrap();
             result = font_regex.replace_all(&result, r"{\fn$1}").to_string();
+
+            // Other font tags have no ASS equivalent
+            let other_regex = regex::Regex::new(r"<font\b[^>]*>").unwrap();
+            result = other_regex.replace_all(&result, "").to_string();
         }
 
         result
     }
 
-    /// Convert ASS override tags to SRT styling
+    /// Convert ASS text with its override tags and line breaks to the text of an SRT subtitle
     pub(super) fn convert_ass_to_srt_styling(text: &str) -> String {
-        let mut result = text.to_string();
-
-        // Convert ASS override tags to HTML-like tags
-        result = result.replace(r"{\b1}", "<b>");
-        result = result.replace(r"{\b0}", "</b>");
-        result = result.replace(r"{\i1}", "<i>");
-        result = result.replace(r"{\i0}", "</i>");
-        result = result.replace(r"{\u1}", "<u>");
-        result = result.replace(r"{\u0}", "</u>");
-        result = result.replace(r"{\s1}", "<s>");
-        result = result.replace(r"{\s0}", "</s>");
-
-        #[cfg(feature = "formats")]
-        {
-            // Handle color tags
-            let color_regex = regex::Regex::new(r"\\c&H([0-9A-Fa-f]{6})&").unwrap();
-            result = color_regex
-                .replace_all(&result, "<font color=\"#$1\">")
-                .to_string();
-            result = result.replace(r"{\c}", "</font>");
-
-            // Handle font name tags
-            let font_regex = regex::Regex::new(r"\\fn([^}]+)").unwrap();
-            result = font_regex
-                .replace_all(&result, "<font face=\"$1\">")
-                .to_string();
-
-            // Remove any remaining ASS tags
-            let cleanup_regex = regex::Regex::new(r"\{[^}]*\}").unwrap();
-            result = cleanup_regex.replace_all(&result, "").to_string();
-        }
-
-        result
+        cue_text(text, Markup::Srt)
     }
 }
diff --git a/crates/ass-editor/formats/srt/time.rs b/crates/ass-editor/formats/srt/time.rs
index 089fdb3..2424a7a 100644
--- a/crates/ass-editor/formats/srt/time.rs
+++ b/crates/ass-editor/formats/srt/time.rs
@@ -2,6 +2,7 @@
 
 use super::SrtFormat;
 use crate::core::EditorError;
+use ass_core::utils::parse_ass_time;
 
 impl SrtFormat {
     /// Parse SRT timestamp (HH:MM:SS,mmm)
@@ -39,32 +40,18 @@ impl SrtFormat {
         let ass_time = ass_time.trim();
 
         // Convert ASS time format (H:MM:SS.cc) to SRT format (HH:MM:SS,mmm)
-        if let Some(dot_pos) = ass_time.find('.') {
-            let (time_part, cs_part) = ass_time.split_at(dot_pos);
-            let cs_part = &cs_part[1..]; // Remove dot
-
-            // Parse centiseconds and convert to milliseconds
-            let cs: u32 = cs_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
-            })?;
-            let ms = cs * 10; // Convert to milliseconds
-
-            // Ensure hours are zero-padded for SRT format
-            let parts: Vec<&str> = time_part.split(':').collect();
-            if parts.len() == 3 {
-                let hours: u32 = parts[0].parse().map_err(|_| {
-                    EditorError::InvalidFormat(format!("Invalid hours: {}", parts[0]))
-                })?;
-                Ok(format!("{hours:02}:{}:{},{ms:03}", parts[1], parts[2]))
-            } else {
-                Err(EditorError::InvalidFormat(format!(
-                    "Invalid ASS time format: {ass_time}"
-                )))
-            }
-        } else {
-            Err(EditorError::InvalidFormat(format!(
+        if !ass_time.contains('.') {
+            return Err(EditorError::InvalidFormat(format!(
                 "Invalid ASS time format: {ass_time}"
-            )))
+            )));
         }
+        let cs = parse_ass_time(ass_time)?;
+        Ok(format!(
+            "{:02}:{:02}:{:02},{:03}",
+            cs / 360_000,
+            cs / 6_000 % 60,
+            cs / 100 % 60,
+            cs % 100 * 10
+        ))
     }
 }
diff --git a/crates/ass-editor/formats/webvtt/exporter.rs b/crates/ass-editor/formats/webvtt/exporter.rs
index 6875850..4eac105 100644
--- a/crates/ass-editor/formats/webvtt/exporter.rs
+++ b/crates/ass-editor/formats/webvtt/exporter.rs
@@ -22,25 +22,21 @@ impl FormatExporter for WebVttFormat {
     ) -> Result<FormatResult, EditorError> {
         // Parse the ASS content to extract events
         let events = document.parse_script_with(|script| {
-            // Find events section and collect owned data
-            if let Some(ass_core::parser::ast::Section::Events(events)) =
-                script.find_section(ass_core::parser::ast::SectionType::Events)
-            {
-                // Convert to owned data to avoid lifetime issues
-                events
-                    .iter()
-                    .map(|event| {
+            // Collect owned data of every events section to avoid lifetime issues
+            let mut events = Vec::new();
+            for section in script.sections() {
+                if let ass_core::parser::ast::Section::Events(section_events) = section {
+                    events.extend(section_events.iter().map(|event| {
                         (
                             event.event_type,
                             event.start.to_string(),
                             event.end.to_string(),
                             event.text.to_string(),
                         )
-                    })
-                    .collect::<Vec<_>>()
-            } else {
-                Vec::new()
+                    }));
+                }
             }
+            events
         })?;
 
         let mut vtt_content = String::new();
@@ -73,15 +69,8 @@ impl FormatExporter for WebVttFormat {
                 }
             };
 
-            // Convert ASS text to WebVTT format
-            let mut text = text.clone();
-
-            // Convert ASS line breaks to actual line breaks
-            text = text.replace("\\N", "\n");
-            text = text.replace("\\n", "\n");
-
-            // Convert ASS styling to WebVTT styling
-            text = Self::convert_ass_to_vtt_styling(&text);
+            // Convert ASS text, line breaks and styling to WebVTT format
+            let text = Self::convert_ass_to_vtt_styling(text);
 
             // Write WebVTT cue
             vtt_content.push_str(&format!("{cue_num}\n"));
diff --git a/crates/ass-editor/formats/webvtt/styling.rs b/crates/ass-editor/formats/webvtt/styling.rs
index 802fc08..00daa46 100644
--- a/crates/ass-editor/formats/webvtt/styling.rs
+++ b/crates/ass-editor/formats/webvtt/styling.rs
@@ -5,6 +5,7 @@
 //! `formats` feature.
 
 use super::WebVttFormat;
+use crate::formats::cue_text::{cue_text, unescape, Markup};
 
 impl WebVttFormat {
     /// Convert WebVTT styling to ASS override tags
@@ -40,44 +41,17 @@ impl WebVttFormat {
             // Handle timestamp tags (cue settings)
             let timestamp_regex = regex::Regex::new(r#"<([0-9:.,]+)>"#).unwrap();
             result = timestamp_regex.replace_all(&result, "").to_string();
+
+            // Other tags have no ASS equivalent
+            let other_regex = regex::Regex::new(r"</?[A-Za-z][^>]*>").unwrap();
+            result = other_regex.replace_all(&result, "").to_string();
         }
 
-        result
+        unescape(&result)
     }
 
-    /// Convert ASS override tags to WebVTT styling
+    /// Convert ASS text with its override tags and line breaks to the text of a WebVTT cue
     pub(super) fn convert_ass_to_vtt_styling(text: &str) -> String {
-        let mut result = text.to_string();
-
-        // Convert ASS override tags to WebVTT tags
-        result = result.replace(r"{\b1}", "<b>");
-        result = result.replace(r"{\b0}", "</b>");
-        result = result.replace(r"{\i1}", "<i>");
-        result = result.replace(r"{\i0}", "</i>");
-        result = result.replace(r"{\u1}", "<u>");
-        result = result.replace(r"{\u0}", "</u>");
-
-        #[cfg(feature = "formats")]
-        {
-            // Handle color tags
-            let color_regex = regex::Regex::new(r"\\c&H([0-9A-Fa-f]{6})&").unwrap();
-            result = color_regex.replace_all(&result, r#"<c.$1>"#).to_string();
-            result = result.replace(r"{\c}", "</c>");
-
-            // Handle font name tags
-            let font_regex = regex::Regex::new(r"\\fn([^}]+)").unwrap();
-            result = font_regex.replace_all(&result, r#"<v $1>"#).to_string();
-            result = result.replace(r"{\fn}", "</v>");
-
-            // Handle positioning tags (convert to WebVTT cue settings)
-            let pos_regex = regex::Regex::new(r"\\pos\(([^,]+),([^)]+)\)").unwrap();
-            result = pos_regex.replace_all(&result, "").to_string(); // Will be handled as cue settings
-
-            // Remove any remaining ASS tags
-            let cleanup_regex = regex::Regex::new(r"\{[^}]*\}").unwrap();
-            result = cleanup_regex.replace_all(&result, "").to_string();
-        }
-
-        result
+        cue_text(text, Markup::WebVtt)
     }
 }
diff --git a/crates/ass-editor/formats/webvtt/time.rs b/crates/ass-editor/formats/webvtt/time.rs
index dae8582..ccce281 100644
--- a/crates/ass-editor/formats/webvtt/time.rs
+++ b/crates/ass-editor/formats/webvtt/time.rs
@@ -4,6 +4,7 @@
 //! inverse conversion used when exporting.
 
 use crate::core::EditorError;
+use ass_core::utils::parse_ass_time;
 
 use super::WebVttFormat;
 
@@ -64,32 +65,18 @@ impl WebVttFormat {
         let ass_time = ass_time.trim();
 
         // Convert ASS time format (H:MM:SS.cc) to WebVTT format (HH:MM:SS.mmm)
-        if let Some(dot_pos) = ass_time.find('.') {
-            let (time_part, cs_part) = ass_time.split_at(dot_pos);
-            let cs_part = &cs_part[1..]; // Remove dot
-
-            // Parse centiseconds and convert to milliseconds
-            let cs: u32 = cs_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
-            })?;
-            let ms = cs * 10; // Convert to milliseconds
-
-            // Ensure hours are zero-padded for WebVTT format
-            let parts: Vec<&str> = time_part.split(':').collect();
-            if parts.len() == 3 {
-                let hours: u32 = parts[0].parse().map_err(|_| {
-                    EditorError::InvalidFormat(format!("Invalid hours: {}", parts[0]))
-                })?;
-                Ok(format!("{hours:02}:{}:{}.{ms:03}", parts[1], parts[2]))
-            } else {
-                Err(EditorError::InvalidFormat(format!(
-                    "Invalid ASS time format: {ass_time}"
-                )))
-            }
-        } else {
-            Err(EditorError::InvalidFormat(format!(
+        if !ass_time.contains('.') {
+            return Err(EditorError::InvalidFormat(format!(
                 "Invalid ASS time format: {ass_time}"
-            )))
+            )));
         }
+        let cs = parse_ass_time(ass_time)?;
+        Ok(format!(
+            "{:02}:{:02}:{:02}.{:03}",
+            cs / 360_000,
+            cs / 6_000 % 60,
+            cs / 100 % 60,
+            cs % 100 * 10
+        ))
     }
 }
diff --git a/crates/ass-editor/utils/formats/export_srt.rs b/crates/ass-editor/utils/formats/export_srt.rs
index 145911d..b3ac6dd 100644
--- a/crates/ass-editor/utils/formats/export_srt.rs
+++ b/crates/ass-editor/utils/formats/export_srt.rs
@@ -6,7 +6,9 @@
 use super::types::ConversionOptions;
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
+use crate::formats::cue_text::{cue_text, Markup};
 use ass_core::parser::ast::EventType;
+use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -51,12 +53,12 @@ impl FormatConverter {
                             output.push_str(&format!("{start} --> {end}\n"));
 
                             // Add text
-                            let text = if options.strip_formatting {
-                                Self::strip_ass_tags(event.text)
+                            let markup = if options.strip_formatting {
+                                Markup::None { escape: false }
                             } else {
-                                Self::convert_ass_to_srt_formatting(event.text)
+                                Markup::Basic { escape: false }
                             };
-                            output.push_str(&text.replace("\\N", "\n"));
+                            output.push_str(&cue_text(event.text, markup));
                             output.push_str("\n\n");
                         }
                     }
@@ -72,58 +74,17 @@ impl FormatConverter {
         // ASS format: 0:00:00.00
         // SRT format: 00:00:00,000
 
-        let parts: Vec<&str> = time.split(':').collect();
-        if parts.len() != 3 {
-            return time.to_string();
-        }
-
-        let hours = format!("{:02}", parts[0].parse::<u32>().unwrap_or(0));
-        let minutes = parts[1];
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds = seconds_parts[0];
-        let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
-
-        // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
-
-        format!("{hours}:{minutes}:{seconds},{millis:03}")
-    }
-
-    /// Convert ASS formatting to SRT
-    fn convert_ass_to_srt_formatting(text: &str) -> String {
-        let mut result = text.to_string();
-
-        // Convert basic formatting
-        result = result.replace("{\\i1}", "<i>");
-        result = result.replace("{\\i0}", "</i>");
-        result = result.replace("{\\b1}", "<b>");
-        result = result.replace("{\\b0}", "</b>");
-        result = result.replace("{\\u1}", "<u>");
-        result = result.replace("{\\u0}", "</u>");
-
-        // Remove all other ASS tags
-        while let Some(start) = result.find('{') {
-            if let Some(end) = result[start..].find('}') {
-                result.replace_range(start..start + end + 1, "");
-            } else {
-                break;
-            }
-        }
-
-        result
-    }
-
-    /// Strip all ASS tags from text
-    pub(super) fn strip_ass_tags(text: &str) -> String {
-        let mut result = text.to_string();
-        while let Some(start) = result.find('{') {
-            if let Some(end) = result[start..].find('}') {
-                result.replace_range(start..start + end + 1, "");
-            } else {
-                break;
-            }
-        }
-        result
+        parse_ass_time(time).map_or_else(
+            |_| time.to_string(),
+            |cs| {
+                format!(
+                    "{:02}:{:02}:{:02},{:03}",
+                    cs / 360_000,
+                    cs / 6_000 % 60,
+                    cs / 100 % 60,
+                    cs % 100 * 10
+                )
+            },
+        )
     }
 }
diff --git a/crates/ass-editor/utils/formats/export_webvtt.rs b/crates/ass-editor/utils/formats/export_webvtt.rs
index a8d1eee..9b35d10 100644
--- a/crates/ass-editor/utils/formats/export_webvtt.rs
+++ b/crates/ass-editor/utils/formats/export_webvtt.rs
@@ -6,7 +6,9 @@
 use super::types::{ConversionOptions, FormatOptions};
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
+use crate::formats::cue_text::{cue_text, Markup};
 use ass_core::parser::ast::EventType;
+use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -66,12 +68,12 @@ impl FormatConverter {
                             output.push('\n');
 
                             // Add text
-                            let text = if options.strip_formatting {
-                                Self::strip_ass_tags(event.text)
+                            let markup = if options.strip_formatting {
+                                Markup::None { escape: true }
                             } else {
-                                Self::convert_ass_to_webvtt_formatting(event.text)
+                                Markup::Basic { escape: true }
                             };
-                            output.push_str(&text.replace("\\N", "\n"));
+                            output.push_str(&cue_text(event.text, markup));
                             output.push_str("\n\n");
                         }
                     }
@@ -87,45 +89,17 @@ impl FormatConverter {
         // ASS format: 0:00:00.00
         // WebVTT format: 00:00:00.000
 
-        let parts: Vec<&str> = time.split(':').collect();
-        if parts.len() != 3 {
-            return time.to_string();
-        }
-
-        let hours = format!("{:02}", parts[0].parse::<u32>().unwrap_or(0));
-        let minutes = parts[1];
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds = seconds_parts[0];
-        let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
-
-        // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
-
-        format!("{hours}:{minutes}:{seconds}.{millis:03}")
-    }
-
-    /// Convert ASS formatting to WebVTT
-    fn convert_ass_to_webvtt_formatting(text: &str) -> String {
-        let mut result = text.to_string();
-
-        // Convert basic formatting
-        result = result.replace("{\\i1}", "<i>");
-        result = result.replace("{\\i0}", "</i>");
-        result = result.replace("{\\b1}", "<b>");
-        result = result.replace("{\\b0}", "</b>");
-        result = result.replace("{\\u1}", "<u>");
-        result = result.replace("{\\u0}", "</u>");
-
-        // Remove all other ASS tags
-        while let Some(start) = result.find('{') {
-            if let Some(end) = result[start..].find('}') {
-                result.replace_range(start..start + end + 1, "");
-            } else {
-                break;
-            }
-        }
-
-        result
+        parse_ass_time(time).map_or_else(
+            |_| time.to_string(),
+            |cs| {
+                format!(
+                    "{:02}:{:02}:{:02}.{:03}",
+                    cs / 360_000,
+                    cs / 6_000 % 60,
+                    cs / 100 % 60,
+                    cs % 100 * 10
+                )
+            },
+        )
     }
 }
diff --git a/crates/ass-editor/utils/formats/plain_text.rs b/crates/ass-editor/utils/formats/plain_text.rs
index 67537ff..15140bd 100644
--- a/crates/ass-editor/utils/formats/plain_text.rs
+++ b/crates/ass-editor/utils/formats/plain_text.rs
@@ -6,6 +6,7 @@
 use super::types::ConversionOptions;
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
+use crate::formats::cue_text::{convert_text, Markup};
 use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
@@ -56,11 +57,11 @@ impl FormatConverter {
                     for event in events {
                         if event.event_type == EventType::Dialogue {
                             let text = if options.strip_formatting {
-                                Self::strip_ass_tags(event.text)
+                                convert_text(event.text, Markup::None { escape: false })
                             } else {
-                                event.text.to_string()
+                                event.text.replace("\\N", "\n")
                             };
-                            output.push_str(&text.replace("\\N", "\n"));
+                            output.push_str(&text);
                             output.push('\n');
                         }
                     }
diff --git a/crates/ass-editor/utils/formats/types.rs b/crates/ass-editor/utils/formats/types.rs
index 82b1500..e09b5a1 100644
--- a/crates/ass-editor/utils/formats/types.rs
+++ b/crates/ass-editor/utils/formats/types.rs
@@ -33,6 +33,7 @@ impl SubtitleFormat {
 
     /// Detect format from content
     pub fn from_content(content: &str) -> Self {
+        let content = content.strip_prefix('\u{feff}').unwrap_or(content);
         if content.contains("[Script Info]") || content.contains("[Events]") {
             Self::ASS
         } else if content.starts_with("WEBVTT") {
-- 
2.43.0


From 26c327cbd39709d829cd5fb87e8271962e540f0f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 73/83] fix: subtitle imports read settings, byte order marks,
 character references and text that looks like headers

---
 crates/ass-editor/formats/srt/import.rs          |  5 ++++-
 crates/ass-editor/formats/webvtt/cue.rs          |  3 ++-
 crates/ass-editor/formats/webvtt/importer.rs     |  1 +
 crates/ass-editor/utils/formats/import_srt.rs    | 14 +++++++++-----
 crates/ass-editor/utils/formats/import_webvtt.rs | 14 ++++++++++----
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/crates/ass-editor/formats/srt/import.rs b/crates/ass-editor/formats/srt/import.rs
index 3b1b145..95b243d 100644
--- a/crates/ass-editor/formats/srt/import.rs
+++ b/crates/ass-editor/formats/srt/import.rs
@@ -57,7 +57,9 @@ impl SrtFormat {
         }
 
         let start_time = Self::parse_srt_time(parts[0])?;
-        let end_time = Self::parse_srt_time(parts[1])?;
+        // The end may be followed by coordinates
+        let end = parts[1].split_whitespace().next().unwrap_or("");
+        let end_time = Self::parse_srt_time(end)?;
 
         idx += 1;
 
@@ -98,6 +100,7 @@ impl FormatImporter for SrtFormat {
             .read_to_string(&mut content)
             .map_err(|e| EditorError::IoError(format!("Failed to read SRT content: {e}")))?;
 
+        let content = content.strip_prefix('\u{feff}').unwrap_or(&content);
         let lines: Vec<String> = content.lines().map(|s| s.to_string()).collect();
         let mut warnings = Vec::new();
         let mut dialogues = Vec::new();
diff --git a/crates/ass-editor/formats/webvtt/cue.rs b/crates/ass-editor/formats/webvtt/cue.rs
index f283d7d..ae215fe 100644
--- a/crates/ass-editor/formats/webvtt/cue.rs
+++ b/crates/ass-editor/formats/webvtt/cue.rs
@@ -100,7 +100,8 @@ impl WebVttFormat {
 
             let start_time = Self::parse_vtt_time(parts[0])?;
             let end_time_and_settings: Vec<&str> = parts[1].split_whitespace().collect();
-            let end_time = Self::parse_vtt_time(end_time_and_settings[0])?;
+            let end_time =
+                Self::parse_vtt_time(end_time_and_settings.first().copied().unwrap_or(""))?;
 
             // Parse cue settings if present
             let cue_settings = if end_time_and_settings.len() > 1 {
diff --git a/crates/ass-editor/formats/webvtt/importer.rs b/crates/ass-editor/formats/webvtt/importer.rs
index e0e05b5..5dca078 100644
--- a/crates/ass-editor/formats/webvtt/importer.rs
+++ b/crates/ass-editor/formats/webvtt/importer.rs
@@ -26,6 +26,7 @@ impl FormatImporter for WebVttFormat {
             .read_to_string(&mut content)
             .map_err(|e| EditorError::IoError(format!("Failed to read WebVTT content: {e}")))?;
 
+        let content = content.strip_prefix('\u{feff}').unwrap_or(&content);
         let lines: Vec<String> = content.lines().map(|s| s.to_string()).collect();
         let mut warnings = Vec::new();
         let mut dialogues = Vec::new();
diff --git a/crates/ass-editor/utils/formats/import_srt.rs b/crates/ass-editor/utils/formats/import_srt.rs
index ea8cbe2..3569f38 100644
--- a/crates/ass-editor/utils/formats/import_srt.rs
+++ b/crates/ass-editor/utils/formats/import_srt.rs
@@ -57,11 +57,13 @@ impl FormatConverter {
         let mut current_entry: Option<SrtEntry> = None;
         let mut in_text = false;
 
+        let content = content.strip_prefix('\u{feff}').unwrap_or(content);
         for line in content.lines() {
             let line = line.trim();
 
             if line.is_empty() {
-                if let Some(entry) = current_entry.take() {
+                // A number alone is not an entry
+                if let Some(entry) = current_entry.take().filter(|_| in_text) {
                     entries.push(entry);
                 }
                 in_text = false;
@@ -76,12 +78,14 @@ impl FormatConverter {
             }
 
             // Check if it's a timestamp line
-            if line.contains("-->") {
+            if line.contains("-->") && !in_text {
                 if let Some(ref mut entry) = current_entry {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() == 2 {
                         entry.start = Self::parse_srt_time(parts[0].trim())?;
-                        entry.end = Self::parse_srt_time(parts[1].trim())?;
+                        // The end may be followed by coordinates
+                        let end = parts[1].split_whitespace().next().unwrap_or("");
+                        entry.end = Self::parse_srt_time(end)?;
                         in_text = true;
                     }
                 }
@@ -102,7 +106,7 @@ impl FormatConverter {
         }
 
         // Don't forget the last entry
-        if let Some(entry) = current_entry {
+        if let Some(entry) = current_entry.filter(|_| in_text) {
             entries.push(entry);
         }
 
@@ -166,7 +170,7 @@ impl FormatConverter {
         // Remove any other HTML tags
         #[cfg(feature = "formats")]
         {
-            result = regex::Regex::new(r"<[^>]+>")
+            result = regex::Regex::new(r"</?[A-Za-z][^>]*>")
                 .unwrap()
                 .replace_all(&result, "")
                 .to_string();
diff --git a/crates/ass-editor/utils/formats/import_webvtt.rs b/crates/ass-editor/utils/formats/import_webvtt.rs
index 8e91dea..be99f4e 100644
--- a/crates/ass-editor/utils/formats/import_webvtt.rs
+++ b/crates/ass-editor/utils/formats/import_webvtt.rs
@@ -6,6 +6,7 @@
 use super::FormatConverter;
 use crate::core::errors::EditorError;
 use crate::core::Result;
+use crate::formats::cue_text::unescape;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -57,11 +58,14 @@ impl FormatConverter {
         let mut current_cue: Option<WebVttCue> = None;
         let mut in_cue = false;
 
+        let content = content.strip_prefix('\u{feff}').unwrap_or(content);
         for line in content.lines() {
             let line = line.trim();
 
-            // Skip WEBVTT header and empty lines
-            if line.starts_with("WEBVTT") || line.starts_with("NOTE") || line.is_empty() {
+            // Skip WEBVTT header and empty lines; a cue's text may start with either word
+            if line.is_empty()
+                || (!in_cue && (line.starts_with("WEBVTT") || line.starts_with("NOTE")))
+            {
                 if let Some(cue) = current_cue.take() {
                     cues.push(cue);
                 }
@@ -76,7 +80,9 @@ impl FormatConverter {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() >= 2 {
                         cue.start = Self::parse_webvtt_time(parts[0].trim())?;
-                        cue.end = Self::parse_webvtt_time(parts[1].trim())?;
+                        // The end may be followed by cue settings
+                        let end = parts[1].split_whitespace().next().unwrap_or("");
+                        cue.end = Self::parse_webvtt_time(end)?;
                         in_cue = true;
                     }
                 }
@@ -171,7 +177,7 @@ impl FormatConverter {
             .replace_all(&result, "")
             .to_string();
 
-        result
+        unescape(&result)
     }
 }
 
-- 
2.43.0


From 288b12a1a31d6c51e65a22cfba7ca47b1b563267 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 74/83] fix: tag commands rewrite the tags named and nothing
 else

---
 crates/ass-editor/commands/mod.rs             |   1 +
 crates/ass-editor/commands/override_blocks.rs | 151 ++++++++++++++++++
 .../commands/tag_commands/insert.rs           |  10 +-
 .../ass-editor/commands/tag_commands/parse.rs |  57 ++-----
 .../commands/tag_commands/remove.rs           |  96 ++++-------
 .../commands/tag_commands/replace.rs          |  91 +++--------
 .../ass-editor/commands/tag_commands/wrap.rs  |  42 +++--
 7 files changed, 243 insertions(+), 205 deletions(-)
 create mode 100644 crates/ass-editor/commands/override_blocks.rs

diff --git a/crates/ass-editor/commands/mod.rs b/crates/ass-editor/commands/mod.rs
index 08f02d0..8bb7795 100644
--- a/crates/ass-editor/commands/mod.rs
+++ b/crates/ass-editor/commands/mod.rs
@@ -17,6 +17,7 @@ mod batch_command;
 mod command_result;
 mod command_trait;
 mod fluent_builder;
+mod override_blocks;
 mod text_commands;
 
 #[cfg(test)]
diff --git a/crates/ass-editor/commands/override_blocks.rs b/crates/ass-editor/commands/override_blocks.rs
new file mode 100644
index 0000000..66aa49c
--- /dev/null
+++ b/crates/ass-editor/commands/override_blocks.rs
@@ -0,0 +1,151 @@
+//! Where the override blocks of an event text and the tags in them are.
+
+use crate::core::{EditorError, Result};
+use ass_core::analysis::events::tags::parse_override_block;
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::{format, string::String, vec::Vec};
+
+/// A stretch of event text.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(super) enum Piece<'a> {
+    /// Text outside of override blocks, or from a brace that is never closed
+    Text(&'a str),
+    /// The content of an override block, without its braces
+    Block(&'a str),
+}
+
+/// Cut `text` at its override blocks, in which braces nest.
+pub(super) fn pieces(text: &str) -> Vec<Piece<'_>> {
+    let mut pieces = Vec::new();
+    let mut rest = text;
+    while let Some(open) = rest.find('{') {
+        let Some(len) = block_len(&rest[open + 1..]) else {
+            break;
+        };
+        if open > 0 {
+            pieces.push(Piece::Text(&rest[..open]));
+        }
+        pieces.push(Piece::Block(&rest[open + 1..open + 1 + len]));
+        rest = &rest[open + len + 2..];
+    }
+    if !rest.is_empty() {
+        pieces.push(Piece::Text(rest));
+    }
+    pieces
+}
+
+/// Length of the block content `text` starts with, if its brace is closed.
+fn block_len(text: &str) -> Option<usize> {
+    let mut depth = 1;
+    for (at, b) in text.bytes().enumerate() {
+        match b {
+            b'{' => depth += 1,
+            b'}' => depth -= 1,
+            _ => {}
+        }
+        if depth == 0 {
+            return Some(at);
+        }
+    }
+    None
+}
+
+/// A tag in the content of a block.
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub(super) struct BlockTag<'a> {
+    /// Name, without the backslash
+    pub name: &'a str,
+    /// Everything up to the next tag
+    pub args: &'a str,
+    /// Where the tag is in the content, from its backslash on
+    pub range: Range<usize>,
+}
+
+/// The tags of a block, as ass-core reads them.
+pub(super) fn block_tags(content: &str) -> Vec<BlockTag<'_>> {
+    let mut tags = Vec::new();
+    parse_override_block(content, 0, &mut tags, &mut Vec::new());
+    tags.iter()
+        .map(|tag| BlockTag {
+            name: tag.name(),
+            args: tag.args(),
+            range: tag.position()..tag.position() + 1 + tag.name().len() + tag.args().len(),
+        })
+        .collect()
+}
+
+/// Rewrite the tags of a block: `f` gives what takes the place of a tag, or
+/// `None` to keep it. All other bytes of the block stay.
+pub(super) fn rewrite_tags(
+    content: &str,
+    mut f: impl FnMut(&BlockTag<'_>) -> Option<String>,
+) -> String {
+    let mut out = String::with_capacity(content.len());
+    let mut copied = 0;
+    for tag in block_tags(content) {
+        if let Some(new) = f(&tag) {
+            out.push_str(&content[copied..tag.range.start]);
+            out.push_str(&new);
+            copied = tag.range.end;
+        }
+    }
+    out.push_str(&content[copied..]);
+    out
+}
+
+/// Whether a tag times a karaoke syllable.
+pub(super) fn is_karaoke(name: &str) -> bool {
+    matches!(name, "k" | "K" | "kf" | "ko" | "kt")
+}
+
+/// The text between the blocks of `pieces`, unless a brace in it is never
+/// closed: what is inserted after one would become part of a block.
+pub(super) fn plain_text(pieces: &[Piece<'_>]) -> Result<String> {
+    let mut plain = String::new();
+    for piece in pieces {
+        if let Piece::Text(text) = piece {
+            plain.push_str(text);
+        }
+    }
+    if plain.contains('{') {
+        return Err(EditorError::command_failed(
+            "Cannot time text with an unclosed override block",
+        ));
+    }
+    Ok(plain)
+}
+
+/// Time the syllables that start at the given bytes of the plain text, each by
+/// the tag given, in place of the karaoke tags there are.
+pub(super) fn time_syllables(pieces: &[Piece<'_>], syllables: &[(usize, String)]) -> String {
+    let mut out = String::new();
+    let mut syllables = syllables.iter().peekable();
+    let mut plain = 0;
+
+    for piece in pieces {
+        match piece {
+            Piece::Text(text) => {
+                let mut copied = 0;
+                while let Some((start, tag)) =
+                    syllables.next_if(|(start, _)| *start < plain + text.len())
+                {
+                    out.push_str(&text[copied..start - plain]);
+                    out.push_str(&format!("{{{tag}}}"));
+                    copied = start - plain;
+                }
+                out.push_str(&text[copied..]);
+                plain += text.len();
+            }
+            Piece::Block(content) => {
+                let kept = rewrite_tags(content, |tag| is_karaoke(tag.name).then(String::new));
+                if !kept.is_empty() || content.is_empty() {
+                    out.push_str(&format!("{{{kept}}}"));
+                }
+            }
+        }
+    }
+
+    out
+}
diff --git a/crates/ass-editor/commands/tag_commands/insert.rs b/crates/ass-editor/commands/tag_commands/insert.rs
index 0730015..e437e47 100644
--- a/crates/ass-editor/commands/tag_commands/insert.rs
+++ b/crates/ass-editor/commands/tag_commands/insert.rs
@@ -44,6 +44,11 @@ impl InsertTagCommand {
     fn format_tag(&self) -> Result<String> {
         let tag = self.tag.trim();
 
+        // Check if already wrapped in override brackets
+        if tag.starts_with('{') && tag.ends_with('}') {
+            return Ok(tag.to_string());
+        }
+
         // Validate tag format - should start with backslash
         if !tag.starts_with('\\') {
             return Err(EditorError::command_failed(format!(
@@ -51,11 +56,6 @@ impl InsertTagCommand {
             )));
         }
 
-        // Check if already wrapped in override brackets
-        if tag.starts_with('{') && tag.ends_with('}') {
-            return Ok(tag.to_string());
-        }
-
         // Auto-wrap if enabled
         if self.auto_wrap {
             Ok(format!("{{{tag}}}"))
diff --git a/crates/ass-editor/commands/tag_commands/parse.rs b/crates/ass-editor/commands/tag_commands/parse.rs
index 3494f0b..1be8298 100644
--- a/crates/ass-editor/commands/tag_commands/parse.rs
+++ b/crates/ass-editor/commands/tag_commands/parse.rs
@@ -3,6 +3,7 @@
 //! Provides [`ParseTagCommand`] for extracting override tags from a range into
 //! [`ParsedTag`] records, optionally including their positions.
 
+use crate::commands::override_blocks::{block_tags, pieces, Piece};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -71,31 +72,15 @@ impl ParseTagCommand {
     /// Parse tags from text content
     pub fn parse_tags_from_text(&self, text: &str) -> Result<Vec<ParsedTag>> {
         let mut tags = Vec::new();
-        let mut chars = text.chars().enumerate().peekable();
-
-        while let Some((pos, ch)) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-                let start_pos = pos;
-
-                while let Some((_, inner_ch)) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
+        let mut offset = 0;
+
+        for piece in pieces(text) {
+            match piece {
+                Piece::Text(plain) => offset += plain.len(),
+                Piece::Block(content) => {
+                    tags.append(&mut self.extract_tags_from_override(content, offset + 1));
+                    offset += content.len() + 2;
                 }
-
-                // Parse tags from override content
-                let mut override_tags =
-                    self.extract_tags_from_override(&override_content, start_pos)?;
-                tags.append(&mut override_tags);
             }
         }
 
@@ -103,22 +88,12 @@ impl ParseTagCommand {
     }
 
     /// Extract individual tags from override block content using ass-core's parser
-    fn extract_tags_from_override(
-        &self,
-        content: &str,
-        base_position: usize,
-    ) -> Result<Vec<ParsedTag>> {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        let mut core_tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut core_tags, &mut diagnostics);
-
+    fn extract_tags_from_override(&self, content: &str, base_position: usize) -> Vec<ParsedTag> {
         let mut tags = Vec::new();
 
         // Convert ass-core tags to ParsedTag format
-        for core_tag in &core_tags {
-            let args = core_tag.args();
+        for core_tag in block_tags(content) {
+            let args = core_tag.args;
 
             // Parse parameters and determine tag format based on argument structure
             let mut parameters = Vec::new();
@@ -131,15 +106,15 @@ impl ParseTagCommand {
                         .map(|p| p.trim().to_string())
                         .collect();
                 }
-                format!("\\{}", core_tag.name())
+                format!("\\{}", core_tag.name)
             } else {
                 // Arguments not in parentheses - include in tag field
-                format!("\\{}{}", core_tag.name(), args)
+                format!("\\{}{}", core_tag.name, args)
             };
 
             let position = if self.include_positions {
                 Some(Position::new(
-                    self.range.start.offset + base_position + core_tag.position(),
+                    self.range.start.offset + base_position + core_tag.range.start,
                 ))
             } else {
                 None
@@ -152,6 +127,6 @@ impl ParseTagCommand {
             });
         }
 
-        Ok(tags)
+        tags
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index 79a0656..aa34f5b 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -4,11 +4,12 @@
 //! matching a specific pattern, from a range, optionally cleaning up empty
 //! override brackets.
 
+use crate::commands::override_blocks::{pieces, rewrite_tags, Piece};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::String, vec::Vec};
+use alloc::string::String;
 
 /// Remove ASS override tags from specified range
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -49,7 +50,7 @@ impl RemoveTagCommand {
 impl EditorCommand for RemoveTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let original_text = document.text_range(self.range)?;
-        let cleaned_text = self.remove_tags_from_text(&original_text)?;
+        let cleaned_text = self.remove_tags_from_text(&original_text);
 
         document.replace(self.range, &cleaned_text)?;
 
@@ -73,79 +74,40 @@ impl EditorCommand for RemoveTagCommand {
 
 impl RemoveTagCommand {
     /// Remove tags from text content
-    fn remove_tags_from_text(&self, text: &str) -> Result<String> {
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block - process it
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
+    fn remove_tags_from_text(&self, text: &str) -> String {
+        let mut result = String::with_capacity(text.len());
+
+        for piece in pieces(text) {
+            match piece {
+                Piece::Text(plain) => result.push_str(plain),
+                Piece::Block(content) => {
+                    let cleaned = self.process_override_content(content);
+
+                    // Add back if not empty or if we're keeping empty overrides
+                    if !cleaned.is_empty() || !self.clean_empty_overrides {
+                        result.push('{');
+                        result.push_str(&cleaned);
+                        result.push('}');
                     }
-                    override_content.push(inner_ch);
                 }
-
-                // Process override content
-                let cleaned_override = self.process_override_content(&override_content);
-
-                // Add back if not empty or if we're keeping empty overrides
-                if !cleaned_override.is_empty() || !self.clean_empty_overrides {
-                    result.push('{');
-                    result.push_str(&cleaned_override);
-                    result.push('}');
-                }
-            } else {
-                result.push(ch);
             }
         }
 
-        Ok(result)
+        result
     }
 
     /// Process content inside override brackets using ass-core's parser
     fn process_override_content(&self, content: &str) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        if let Some(pattern) = &self.tag_pattern {
-            // Remove only specific pattern using ass-core's parser
-            let mut tags = Vec::new();
-            let mut diagnostics = Vec::new();
-            parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-            // Rebuild content without matching tags
-            let mut result = String::new();
-            let mut processed_positions = Vec::new();
-
-            // Process tags from ass-core parser
-            for tag in &tags {
-                let pattern_without_backslash = &pattern[1..]; // Remove leading backslash from pattern
-                if !tag.name().starts_with(pattern_without_backslash) {
-                    // This tag should be kept - track its position
-                    processed_positions.push((tag.position(), tag.name(), tag.args()));
-                }
-            }
-
-            // Rebuild the override content, keeping only non-matching tags
-            for (_, name, args) in processed_positions {
-                result.push('\\');
-                result.push_str(name);
-                result.push_str(args);
-            }
-
-            result
-        } else {
-            // Remove all tags - return empty string
-            String::new()
-        }
+        let Some(pattern) = &self.tag_pattern else {
+            // Remove all tags
+            return String::new();
+        };
+
+        let pattern = pattern.strip_prefix('\\').unwrap_or(pattern);
+        rewrite_tags(content, |tag| {
+            content[tag.range.clone()][1..]
+                .starts_with(pattern)
+                .then(String::new)
+        })
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/replace.rs b/crates/ass-editor/commands/tag_commands/replace.rs
index 5280729..1ed74aa 100644
--- a/crates/ass-editor/commands/tag_commands/replace.rs
+++ b/crates/ass-editor/commands/tag_commands/replace.rs
@@ -3,15 +3,12 @@
 //! Provides [`ReplaceTagCommand`] for finding tags matching a pattern within a
 //! range and replacing them with another tag, either once or for all matches.
 
+use crate::commands::override_blocks::{pieces, rewrite_tags, Piece};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{format, string::String};
 
 /// Replace ASS override tag with another tag
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -48,7 +45,7 @@ impl ReplaceTagCommand {
 impl EditorCommand for ReplaceTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let original_text = document.text_range(self.range)?;
-        let replaced_text = self.replace_tags_in_text(&original_text)?;
+        let replaced_text = self.replace_tags_in_text(&original_text);
 
         document.replace(self.range, &replaced_text)?;
 
@@ -69,42 +66,24 @@ impl EditorCommand for ReplaceTagCommand {
 
 impl ReplaceTagCommand {
     /// Replace tags in text content
-    fn replace_tags_in_text(&self, text: &str) -> Result<String> {
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
+    fn replace_tags_in_text(&self, text: &str) -> String {
+        let mut result = String::with_capacity(text.len());
         let mut replacements_made = 0;
 
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                result.push(ch);
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            // Process override content before closing
-                            let processed = self.process_override_for_replacement(
-                                &override_content,
-                                &mut replacements_made,
-                            );
-                            result.push_str(&processed);
-                            result.push(inner_ch);
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
+        for piece in pieces(text) {
+            match piece {
+                Piece::Text(plain) => result.push_str(plain),
+                Piece::Block(content) => {
+                    result.push('{');
+                    result.push_str(
+                        &self.process_override_for_replacement(content, &mut replacements_made),
+                    );
+                    result.push('}');
                 }
-            } else {
-                result.push(ch);
             }
         }
 
-        Ok(result)
+        result
     }
 
     /// Process override content for tag replacement using ass-core's parser
@@ -113,38 +92,14 @@ impl ReplaceTagCommand {
         content: &str,
         replacements_made: &mut usize,
     ) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        if !self.replace_all && *replacements_made > 0 {
-            return content.to_string();
-        }
-
-        let mut tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-        let mut result = String::new();
-
-        // Process tags from ass-core parser
-        for tag in &tags {
-            // Reconstruct the full tag to match against the find pattern
-            let tag_full = format!("\\{}{}", tag.name(), tag.args());
-
-            // Check if this tag matches our find pattern
-            if tag_full.starts_with(&self.find_pattern)
-                && (self.replace_all || *replacements_made == 0)
-            {
-                // Replace the tag - preserve any suffix
-                let suffix = &tag_full[self.find_pattern.len()..];
-                result.push_str(&self.replace_with);
-                result.push_str(suffix);
-                *replacements_made += 1;
-            } else {
-                // Add the original tag back
-                result.push_str(&tag_full);
+        rewrite_tags(content, |tag| {
+            if !self.replace_all && *replacements_made > 0 {
+                return None;
             }
-        }
-
-        result
+            // Preserve any suffix
+            let suffix = content[tag.range.clone()].strip_prefix(self.find_pattern.as_str())?;
+            *replacements_made += 1;
+            Some(format!("{}{suffix}", self.replace_with))
+        })
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 5e10071..7033d22 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -58,19 +58,19 @@ impl WrapTagCommand {
 
         // Auto-generate closing tag based on opening tag
         let tag = self.opening_tag.trim_start_matches('\\');
-
-        if tag.starts_with('b') {
-            "\\b0".to_string()
-        } else if tag.starts_with('i') {
-            "\\i0".to_string()
-        } else if tag.starts_with('u') {
-            "\\u0".to_string()
-        } else if tag.starts_with('s') {
-            "\\s0".to_string()
-        } else if tag.starts_with("c&") || tag.starts_with("1c&") {
-            "\\c".to_string() // Reset to default color
-        } else {
-            "\\r".to_string() // Generic reset
+        let name_len = tag
+            .bytes()
+            .enumerate()
+            .take_while(|(at, b)| b.is_ascii_alphabetic() || (*at == 0 && b.is_ascii_digit()))
+            .count();
+
+        match &tag[..name_len] {
+            "b" => "\\b0".to_string(),
+            "i" => "\\i0".to_string(),
+            "u" => "\\u0".to_string(),
+            "s" => "\\s0".to_string(),
+            "c" | "1c" => "\\c".to_string(), // Reset to default color
+            _ => "\\r".to_string(),          // Generic reset
         }
     }
 }
@@ -79,18 +79,12 @@ impl EditorCommand for WrapTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let closing_tag = self.get_closing_tag();
 
-        // Insert closing tag first (so positions don't shift)
-        let closing_formatted = format!("{{{closing_tag}}}");
-        document.insert(self.range.end, &closing_formatted)?;
-
-        // Insert opening tag
-        let opening_formatted = format!("{{{}}}", self.opening_tag);
-        document.insert(self.range.start, &opening_formatted)?;
+        // Both tags in one edit, which fails or is undone as a whole
+        let text = document.text_range(self.range)?;
+        let wrapped = format!("{{{}}}{text}{{{closing_tag}}}", self.opening_tag);
+        document.replace(self.range, &wrapped)?;
 
-        let total_length = opening_formatted.len()
-            + (self.range.end.offset - self.range.start.offset)
-            + closing_formatted.len();
-        let end_pos = Position::new(self.range.start.offset + total_length);
+        let end_pos = Position::new(self.range.start.offset + wrapped.len());
         let range = Range::new(self.range.start, end_pos);
 
         Ok(CommandResult::success_with_change(range, end_pos))
-- 
2.43.0


From 25f4ae8848c261cb6b278be47ba633981cfc3419 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 75/83] fix: a reversed range is refused instead of panicking

---
 crates/ass-editor/core/document/editing_raw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 5d01907..c2a3492 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -72,7 +72,10 @@ impl EditorDocument {
         #[cfg(not(feature = "rope"))]
         let is_boundary = |offset: usize| self.text_content.is_char_boundary(offset);
 
-        if is_boundary(range.start.offset) && is_boundary(range.end.offset) {
+        if range.start.offset <= range.end.offset
+            && is_boundary(range.start.offset)
+            && is_boundary(range.end.offset)
+        {
             Ok(())
         } else {
             Err(EditorError::InvalidRange {
-- 
2.43.0


From f450004714b328dca6091e7e98e2ad2a33b75612 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 76/83] fix: karaoke commands keep the text, other tags and
 each tag's own duration

---
 .../commands/karaoke_commands/adjust_impl.rs  | 141 ++++--------------
 .../commands/karaoke_commands/apply_impl.rs   | 136 +++++------------
 .../commands/karaoke_commands/generate.rs     |  67 ++-------
 .../commands/karaoke_commands/split.rs        |  38 ++---
 4 files changed, 100 insertions(+), 282 deletions(-)

diff --git a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
index bc1b4f0..e286478 100644
--- a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
@@ -1,20 +1,17 @@
 //! Execution and timing-rewrite logic for [`AdjustKaraokeCommand`].
 
 use super::{AdjustKaraokeCommand, TimingAdjustment};
+use crate::commands::override_blocks::{is_karaoke, pieces, rewrite_tags, Piece};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{format, string::String};
 
 impl EditorCommand for AdjustKaraokeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let original_text = document.text_range(self.range)?;
-        let adjusted_text = self.adjust_karaoke_timing(&original_text)?;
+        let adjusted_text = self.adjust_karaoke_timing(&original_text);
 
         document.replace(self.range, &adjusted_text)?;
 
@@ -43,118 +40,46 @@ impl EditorCommand for AdjustKaraokeCommand {
 }
 
 impl AdjustKaraokeCommand {
-    /// Adjust karaoke timing in text using ass-core's ExtensionRegistry system
-    fn adjust_karaoke_timing(&self, text: &str) -> Result<String> {
-        use ass_core::analysis::events::tags::parse_override_block_with_registry;
-        use ass_core::plugin::{tags::karaoke::create_karaoke_handlers, ExtensionRegistry};
-
-        // Create registry with karaoke handlers
-        let mut registry = ExtensionRegistry::new();
-        for handler in create_karaoke_handlers() {
-            registry.register_tag_handler(handler).map_err(|e| {
-                crate::core::errors::EditorError::ValidationError {
-                    message: format!("Failed to register karaoke handler: {e:?}"),
-                }
-            })?;
-        }
-
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
+    /// Adjust the karaoke timing in text
+    fn adjust_karaoke_timing(&self, text: &str) -> String {
+        let mut result = String::with_capacity(text.len());
         let mut custom_index = 0;
 
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block - extract content
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                for inner_ch in chars.by_ref() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
+        for piece in pieces(text) {
+            match piece {
+                Piece::Text(plain) => result.push_str(plain),
+                Piece::Block(content) => {
+                    result.push('{');
+                    result.push_str(&rewrite_tags(content, |tag| {
+                        if !is_karaoke(tag.name) {
+                            return None;
                         }
-                    }
-                    override_content.push(inner_ch);
+                        let duration = tag.args.trim();
+                        let new_duration = self.adjust(duration.parse().ok()?, &mut custom_index);
+                        let args = tag.args.replacen(duration, &format!("{new_duration}"), 1);
+                        Some(format!("\\{}{args}", tag.name))
+                    }));
+                    result.push('}');
                 }
-
-                // Use ass-core's registry-based parser
-                let mut tags = Vec::new();
-                let mut diagnostics = Vec::new();
-                parse_override_block_with_registry(
-                    &override_content,
-                    0,
-                    &mut tags,
-                    &mut diagnostics,
-                    Some(&registry),
-                );
-
-                // Process karaoke tags using ass-core's validated data
-                let processed_content = self.adjust_karaoke_tags_with_registry(
-                    &override_content,
-                    &tags,
-                    &mut custom_index,
-                )?;
-
-                result.push('{');
-                result.push_str(&processed_content);
-                result.push('}');
-            } else {
-                result.push(ch);
             }
         }
 
-        Ok(result)
+        result
     }
 
-    /// Adjust karaoke tags using registry-validated tag information
-    fn adjust_karaoke_tags_with_registry(
-        &self,
-        original_content: &str,
-        tags: &[ass_core::analysis::events::tags::OverrideTag],
-        custom_index: &mut usize,
-    ) -> Result<String> {
-        let mut result = original_content.to_string();
-
-        // Process tags in reverse order to maintain position accuracy
-        for tag in tags.iter().rev() {
-            if tag.name().starts_with('k') {
-                // This tag was validated by ass-core's karaoke handlers
-                let tag_name = tag.name();
-                let args = tag.args();
-
-                // Extract duration from args (ass-core already validated this)
-                let current_duration: u32 = args.trim().parse().unwrap_or(0);
-
-                // Calculate new duration based on adjustment type
-                let new_duration = match &self.adjustment {
-                    TimingAdjustment::Scale(factor) => {
-                        ((current_duration as f32 * factor) as u32).max(1)
-                    }
-                    TimingAdjustment::Offset(offset) => {
-                        ((current_duration as i32 + offset).max(1)) as u32
-                    }
-                    TimingAdjustment::SetAll(duration) => *duration,
-                    TimingAdjustment::Custom(timings) => {
-                        if *custom_index < timings.len() {
-                            let timing = timings[*custom_index];
-                            *custom_index += 1;
-                            timing
-                        } else {
-                            current_duration
-                        }
-                    }
-                };
-
-                // Replace the validated tag with adjusted version
-                let old_tag = format!("\\{tag_name}{current_duration}");
-                let new_tag = format!("\\{tag_name}{new_duration}");
-                result = result.replace(&old_tag, &new_tag);
+    /// The new duration of a syllable
+    fn adjust(&self, current_duration: u32, custom_index: &mut usize) -> u32 {
+        match &self.adjustment {
+            TimingAdjustment::Scale(factor) => ((current_duration as f32 * factor) as u32).max(1),
+            TimingAdjustment::Offset(offset) => {
+                current_duration.saturating_add_signed(*offset).max(1)
+            }
+            TimingAdjustment::SetAll(duration) => *duration,
+            TimingAdjustment::Custom(timings) => {
+                let timing = timings.get(*custom_index).copied();
+                *custom_index += 1;
+                timing.unwrap_or(current_duration)
             }
         }
-
-        Ok(result)
     }
 }
diff --git a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
index acc59f9..c8236d3 100644
--- a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
@@ -1,21 +1,21 @@
 //! Execution and template-application logic for [`ApplyKaraokeCommand`].
 
 use super::{ApplyKaraokeCommand, KaraokeTemplate, KaraokeType};
+use crate::commands::override_blocks::{pieces, plain_text, time_syllables};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec,
     vec::Vec,
 };
 
 impl EditorCommand for ApplyKaraokeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let original_text = document.text_range(self.event_range)?;
-        let karaoke_text = self.apply_karaoke_template(&original_text, document)?;
+        let karaoke_text = self.apply_karaoke_template(&original_text)?;
 
         document.replace(self.event_range, &karaoke_text)?;
 
@@ -47,30 +47,31 @@ impl EditorCommand for ApplyKaraokeCommand {
 
 impl ApplyKaraokeCommand {
     /// Apply karaoke template to text
-    fn apply_karaoke_template(&self, text: &str, _document: &EditorDocument) -> Result<String> {
-        // Extract text content from event (skip override blocks for syllable detection)
-        let clean_text = self.extract_clean_text(text);
-        let syllables = self.detect_syllables(&clean_text);
-
+    fn apply_karaoke_template(&self, text: &str) -> Result<String> {
         match &self.karaoke_template {
             KaraokeTemplate::Equal {
                 syllable_duration,
                 karaoke_type,
-            } => self.apply_equal_timing(&syllables, *syllable_duration, *karaoke_type),
+            } => self.apply_pattern_timing(text, &[*syllable_duration], *karaoke_type),
             KaraokeTemplate::Beat {
                 beats_per_minute,
                 beats_per_syllable,
                 karaoke_type,
-            } => self.apply_beat_timing(
-                &syllables,
-                *beats_per_minute,
-                *beats_per_syllable,
-                *karaoke_type,
-            ),
+            } => {
+                if *beats_per_minute == 0 {
+                    return Err(EditorError::command_failed(
+                        "Beats per minute must not be 0",
+                    ));
+                }
+                // Calculate duration in centiseconds: (60 seconds / BPM) * beats_per_syllable * 100 cs/s
+                let duration =
+                    ((60.0 / *beats_per_minute as f32) * beats_per_syllable * 100.0) as u32;
+                self.apply_pattern_timing(text, &[duration], *karaoke_type)
+            }
             KaraokeTemplate::Pattern {
                 durations,
                 karaoke_type,
-            } => self.apply_pattern_timing(&syllables, durations, *karaoke_type),
+            } => self.apply_pattern_timing(text, durations, *karaoke_type),
             KaraokeTemplate::ImportFrom {
                 source_event_index: _,
             } => {
@@ -80,96 +81,31 @@ impl ApplyKaraokeCommand {
         }
     }
 
-    /// Extract clean text without override blocks
-    fn extract_clean_text(&self, text: &str) -> String {
-        let mut result = String::new();
-        let mut chars = text.chars();
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Skip override block
-                let mut brace_count = 1;
-                for inner_ch in chars.by_ref() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                }
-            } else {
-                result.push(ch);
-            }
-        }
-
-        result
-    }
-
-    /// Detect syllables in clean text
-    fn detect_syllables(&self, text: &str) -> Vec<String> {
-        // Simple syllable detection - split on spaces and vowel boundaries
-        text.split_whitespace()
-            .flat_map(|word| {
-                // For now, treat each word as one syllable
-                // In practice, you'd want more sophisticated syllable detection
-                vec![word.to_string()]
-            })
-            .collect()
-    }
-
-    /// Apply equal timing to syllables
-    fn apply_equal_timing(
-        &self,
-        syllables: &[String],
-        duration: u32,
-        karaoke_type: KaraokeType,
-    ) -> Result<String> {
-        let tag = karaoke_type.tag_string();
-        let mut result = String::new();
-
-        for (i, syllable) in syllables.iter().enumerate() {
-            if i > 0 {
-                result.push(' '); // Add space between syllables
-            }
-            result.push_str(&format!("{{\\{tag}{duration}}}{syllable}"));
-        }
-
-        Ok(result)
-    }
-
-    /// Apply beat-based timing to syllables
-    fn apply_beat_timing(
-        &self,
-        syllables: &[String],
-        bpm: u32,
-        beats_per_syllable: f32,
-        karaoke_type: KaraokeType,
-    ) -> Result<String> {
-        // Calculate duration in centiseconds: (60 seconds / BPM) * beats_per_syllable * 100 cs/s
-        let duration = ((60.0 / bpm as f32) * beats_per_syllable * 100.0) as u32;
-        self.apply_equal_timing(syllables, duration, karaoke_type)
-    }
-
-    /// Apply pattern-based timing to syllables
+    /// Time the words of a text by durations that repeat; for now, each word is one syllable
     fn apply_pattern_timing(
         &self,
-        syllables: &[String],
+        text: &str,
         durations: &[u32],
         karaoke_type: KaraokeType,
     ) -> Result<String> {
-        let tag = karaoke_type.tag_string();
-        let mut result = String::new();
-
-        for (i, syllable) in syllables.iter().enumerate() {
-            if i > 0 {
-                result.push(' ');
-            }
-            let duration = durations.get(i % durations.len()).copied().unwrap_or(50);
-            result.push_str(&format!("{{\\{tag}{duration}}}{syllable}"));
+        if durations.is_empty() {
+            return Err(EditorError::command_failed(
+                "A karaoke pattern needs a duration",
+            ));
         }
 
-        Ok(result)
+        let pieces = pieces(text);
+        let plain = plain_text(&pieces)?;
+        let tag = karaoke_type.tag_string();
+        let syllables: Vec<_> = plain
+            .split_whitespace()
+            .zip(durations.iter().cycle())
+            .map(|(word, duration)| {
+                let start = word.as_ptr() as usize - plain.as_ptr() as usize;
+                (start, format!("\\{tag}{duration}"))
+            })
+            .collect();
+
+        Ok(time_syllables(&pieces, &syllables))
     }
 }
diff --git a/crates/ass-editor/commands/karaoke_commands/generate.rs b/crates/ass-editor/commands/karaoke_commands/generate.rs
index 331db83..818b7b7 100644
--- a/crates/ass-editor/commands/karaoke_commands/generate.rs
+++ b/crates/ass-editor/commands/karaoke_commands/generate.rs
@@ -56,57 +56,26 @@ impl GenerateKaraokeCommand {
             return vec![text.to_string()];
         }
 
-        // Simple syllable detection based on vowels and common patterns
-        let mut syllables = Vec::new();
-        let mut current_start = 0;
+        // Simple syllable detection based on vowels and common patterns; the white
+        // space between words belongs to the syllable after it
+        let mut syllables: Vec<String> = Vec::new();
         let chars: Vec<char> = text.chars().collect();
-
-        if chars.is_empty() {
-            return vec![text.to_string()];
-        }
+        let mut current = String::new();
 
         for (i, &ch) in chars.iter().enumerate() {
-            // Split on spaces and common syllable boundaries
-            if ch.is_whitespace() || (i > 0 && self.is_syllable_boundary(&chars, i)) {
-                if current_start < i {
-                    let syllable: String = chars[current_start..i].iter().collect();
-                    if !syllable.trim().is_empty() {
-                        syllables.push(syllable);
-                    }
-                }
-
-                // Handle whitespace
-                if ch.is_whitespace() {
-                    let mut end = i + 1;
-                    while end < chars.len() && chars[end].is_whitespace() {
-                        end += 1;
-                    }
-                    if end > i + 1 {
-                        let whitespace: String = chars[i..end].iter().collect();
-                        syllables.push(whitespace);
-                        current_start = end;
-                        continue;
-                    }
-                }
-
-                current_start = i;
+            let word_ends = ch.is_whitespace() && i > 0 && !chars[i - 1].is_whitespace();
+            if (word_ends || self.is_syllable_boundary(&chars, i)) && !current.trim().is_empty() {
+                syllables.push(core::mem::take(&mut current));
             }
+            current.push(ch);
         }
 
-        // Add remaining text
-        if current_start < chars.len() {
-            let remaining: String = chars[current_start..].iter().collect();
-            if !remaining.trim().is_empty() {
-                syllables.push(remaining);
-            }
-        }
-
-        // Return syllables or whole text if none found
-        if syllables.is_empty() {
-            vec![text.to_string()]
-        } else {
-            syllables
+        // Add remaining text; white space at the end has no timing of its own
+        match syllables.last_mut() {
+            Some(last) if current.trim().is_empty() => last.push_str(&current),
+            _ => syllables.push(current),
         }
+        syllables
     }
 
     /// Check if position is a syllable boundary
@@ -143,14 +112,8 @@ impl EditorCommand for GenerateKaraokeCommand {
         let tag = self.karaoke_type.tag_string();
 
         let mut karaoke_text = String::new();
-        for (i, syllable) in syllables.iter().enumerate() {
-            if i == 0 {
-                // First syllable gets the karaoke tag
-                karaoke_text.push_str(&format!("{{\\{tag}{}}}", self.default_duration));
-            } else if !syllable.trim().is_empty() {
-                // Subsequent syllables get their own timing
-                karaoke_text.push_str(&format!("{{\\{tag}{}}}", self.default_duration));
-            }
+        for syllable in &syllables {
+            karaoke_text.push_str(&format!("{{\\{tag}{}}}", self.default_duration));
             karaoke_text.push_str(syllable);
         }
 
diff --git a/crates/ass-editor/commands/karaoke_commands/split.rs b/crates/ass-editor/commands/karaoke_commands/split.rs
index 8fa7294..7f031b8 100644
--- a/crates/ass-editor/commands/karaoke_commands/split.rs
+++ b/crates/ass-editor/commands/karaoke_commands/split.rs
@@ -1,5 +1,6 @@
 //! Split existing karaoke timing into separate timed segments.
 
+use crate::commands::override_blocks::{pieces, plain_text, time_syllables};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -58,35 +59,28 @@ impl EditorCommand for SplitKaraokeCommand {
 }
 
 impl SplitKaraokeCommand {
-    /// Split karaoke text at specified positions
+    /// Split karaoke text at specified positions, which count its characters
+    /// without override blocks
     fn split_karaoke_text(&self, text: &str) -> Result<String> {
-        // For now, return simplified version
-        // In practice, this would parse existing karaoke tags and split them
-        let mut result = String::new();
-        let mut last_pos = 0;
+        let pieces = pieces(text);
+        let plain = plain_text(&pieces)?;
+        let tag = format!("\\k{}", self.new_duration.unwrap_or(50));
 
+        let mut syllables = Vec::new();
+        if !plain.is_empty() {
+            syllables.push((0, tag.clone()));
+        }
+        let mut last_pos = 0;
         for &pos in &self.split_positions {
-            if pos <= last_pos || pos >= text.len() {
+            if pos <= last_pos {
                 continue;
             }
-
-            let segment = &text[last_pos..pos];
-            if !segment.is_empty() {
-                let duration = self.new_duration.unwrap_or(50);
-                result.push_str(&format!("{{\\k{duration}}}{segment}"));
-            }
-            last_pos = pos;
-        }
-
-        // Add remaining text
-        if last_pos < text.len() {
-            let segment = &text[last_pos..];
-            if !segment.is_empty() {
-                let duration = self.new_duration.unwrap_or(50);
-                result.push_str(&format!("{{\\k{duration}}}{segment}"));
+            if let Some((start, _)) = plain.char_indices().nth(pos) {
+                syllables.push((start, tag.clone()));
+                last_pos = pos;
             }
         }
 
-        Ok(result)
+        Ok(time_syllables(&pieces, &syllables))
     }
 }
-- 
2.43.0


From c1a4168063d120c248c8a43db0c374ff695a179f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:27:42 +0000
Subject: [PATCH 77/83] fix: searches find the pattern where it is, as their
 options ask, and replace only that

---
 crates/ass-editor/utils/indexing/fst.rs       |  28 +-
 crates/ass-editor/utils/indexing/fst_build.rs |   5 +-
 .../ass-editor/utils/indexing/fst_search.rs   |  73 +-----
 crates/ass-editor/utils/indexing/linear.rs    |  42 +--
 crates/ass-editor/utils/search/basic.rs       | 122 ---------
 crates/ass-editor/utils/search/incremental.rs | 175 +------------
 crates/ass-editor/utils/search/index.rs       |  27 +-
 crates/ass-editor/utils/search/matching.rs    | 241 ++++++++++++++++++
 crates/ass-editor/utils/search/mod.rs         |   5 +-
 crates/ass-editor/utils/search/query.rs       | 125 +++------
 .../ass-editor/utils/search/regex_search.rs   | 119 ---------
 crates/ass-editor/utils/search/trait_impl.rs  |  15 +-
 12 files changed, 332 insertions(+), 645 deletions(-)
 delete mode 100644 crates/ass-editor/utils/search/basic.rs
 create mode 100644 crates/ass-editor/utils/search/matching.rs
 delete mode 100644 crates/ass-editor/utils/search/regex_search.rs

diff --git a/crates/ass-editor/utils/indexing/fst.rs b/crates/ass-editor/utils/indexing/fst.rs
index 15e47db..bedf45d 100644
--- a/crates/ass-editor/utils/indexing/fst.rs
+++ b/crates/ass-editor/utils/indexing/fst.rs
@@ -1,11 +1,10 @@
 //! FST search index state and lightweight helpers.
 //!
 //! Holds the [`FstSearchIndex`] struct definition along with its constructor
-//! and search-scope filtering used by the
+//! used by the
 //! [`DocumentSearch`](crate::utils::search::DocumentSearch) implementation.
 
 use super::common::IndexEntry;
-use crate::utils::search::SearchScope;
 
 use fst::Set;
 
@@ -20,6 +19,9 @@ pub struct FstSearchIndex {
     /// Map from FST keys to document positions
     pub(super) position_map: HashMap<String, Vec<IndexEntry>>,
 
+    /// Document text the index was built from
+    pub(super) content: String,
+
     /// Last known document content hash for cache invalidation
     pub(super) content_hash: u64,
 
@@ -44,6 +46,7 @@ impl FstSearchIndex {
         Self {
             fst_set: None,
             position_map: HashMap::new(),
+            content: String::new(),
             content_hash: 0,
             build_time: {
                 #[cfg(feature = "std")]
@@ -59,24 +62,3 @@ impl FstSearchIndex {
         }
     }
 }
-
-#[cfg(feature = "search-index")]
-impl FstSearchIndex {
-    pub(super) fn matches_scope(&self, entry: &IndexEntry, scope: &SearchScope) -> bool {
-        match scope {
-            SearchScope::All => true,
-            SearchScope::Lines { start, end } => entry.line >= *start && entry.line <= *end,
-            SearchScope::Sections(sections) => {
-                if let Some(ref section) = entry.section_type {
-                    sections.contains(section)
-                } else {
-                    false
-                }
-            }
-            SearchScope::Range(range) => {
-                entry.position.offset >= range.start.offset
-                    && entry.position.offset <= range.end.offset
-            }
-        }
-    }
-}
diff --git a/crates/ass-editor/utils/indexing/fst_build.rs b/crates/ass-editor/utils/indexing/fst_build.rs
index de58176..46ed21b 100644
--- a/crates/ass-editor/utils/indexing/fst_build.rs
+++ b/crates/ass-editor/utils/indexing/fst_build.rs
@@ -3,6 +3,7 @@
 use super::common::IndexEntry;
 use super::fst::FstSearchIndex;
 use crate::core::{Position, Result};
+use crate::utils::search::matching::fold_case;
 
 use fst::{Set, SetBuilder};
 
@@ -44,7 +45,7 @@ impl FstSearchIndex {
                             column: word_start,
                             section_type: current_section.clone(),
                         };
-                        words.push((word.to_lowercase(), entry));
+                        words.push((fold_case(word).collect(), entry));
                     }
                     in_word = false;
                 }
@@ -61,7 +62,7 @@ impl FstSearchIndex {
                         column: word_start,
                         section_type: current_section.clone(),
                     };
-                    words.push((word.to_lowercase(), entry));
+                    words.push((fold_case(word).collect(), entry));
                 }
             }
 
diff --git a/crates/ass-editor/utils/indexing/fst_search.rs b/crates/ass-editor/utils/indexing/fst_search.rs
index 86cebfa..21c2a7f 100644
--- a/crates/ass-editor/utils/indexing/fst_search.rs
+++ b/crates/ass-editor/utils/indexing/fst_search.rs
@@ -2,11 +2,11 @@
 
 use super::common::calculate_hash;
 use super::fst::FstSearchIndex;
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, Range, Result};
+use crate::utils::search::matching::{find_matches, fold_case, replace_matches};
+use crate::utils::search::query::words_may_contain;
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
-use fst::{automaton, IntoStreamer, Streamer};
-
 use std::time::Instant;
 
 #[cfg(feature = "search-index")]
@@ -27,6 +27,7 @@ impl DocumentSearch for FstSearchIndex {
 
         let words = self.extract_words(&content);
         self.build_fst(words)?;
+        self.content = content;
 
         Ok(())
     }
@@ -42,53 +43,13 @@ impl DocumentSearch for FstSearchIndex {
         pattern: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        #[cfg(feature = "std")]
-        let _start_time = Instant::now();
-        let mut results = Vec::new();
-
-        if let Some(ref fst_set) = self.fst_set {
-            let query = if options.case_sensitive {
-                pattern.to_string()
-            } else {
-                pattern.to_lowercase()
-            };
-
-            // For simplicity, use subsequence automaton for all searches
-            // In production, this could be optimized with different automaton types
-            let automaton = automaton::Subsequence::new(&query);
-            let mut stream = fst_set.search(automaton).into_stream();
-            let mut count = 0;
-
-            while let Some(key) = stream.next() {
-                if options.max_results > 0 && count >= options.max_results {
-                    break;
-                }
-
-                let key_str = String::from_utf8_lossy(key);
-                if let Some(entries) = self.position_map.get(key_str.as_ref()) {
-                    for entry in entries {
-                        // Apply scope filtering
-                        if self.matches_scope(entry, &options.scope) {
-                            results.push(SearchResult {
-                                start: entry.position,
-                                end: Position::new(entry.position.offset + pattern.len()),
-                                text: std::borrow::Cow::Owned(pattern.to_string()),
-                                context: std::borrow::Cow::Owned(entry.context.clone()),
-                                line: entry.line,
-                                column: entry.column,
-                            });
-                            count += 1;
-
-                            if options.max_results > 0 && count >= options.max_results {
-                                break;
-                            }
-                        }
-                    }
-                }
-            }
+        // Words of a single character are not in the index
+        let indexed = !options.use_regex && fold_case(pattern).nth(1).is_some();
+        match &self.fst_set {
+            Some(words) if indexed && !words_may_contain(words, pattern) => Ok(Vec::new()),
+            Some(_) => find_matches(&self.content, pattern, options),
+            None => Ok(Vec::new()),
         }
-
-        Ok(results)
     }
 
     fn find_replace<'a>(
@@ -98,18 +59,7 @@ impl DocumentSearch for FstSearchIndex {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-
-        // Apply replacements in reverse order to maintain position validity
-        let mut sorted_results = results.clone();
-        sorted_results.sort_by_key(|r| core::cmp::Reverse(r.start.offset));
-
-        for result in &sorted_results {
-            let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
-        }
-
-        Ok(results)
+        replace_matches(document, pattern, replacement, options)
     }
 
     fn stats(&self) -> SearchStats {
@@ -132,6 +82,7 @@ impl DocumentSearch for FstSearchIndex {
 
     fn clear_index(&mut self) {
         self.fst_set = None;
+        self.content.clear();
         self.position_map.clear();
         self.index_size = 0;
     }
diff --git a/crates/ass-editor/utils/indexing/linear.rs b/crates/ass-editor/utils/indexing/linear.rs
index d6fca10..1406201 100644
--- a/crates/ass-editor/utils/indexing/linear.rs
+++ b/crates/ass-editor/utils/indexing/linear.rs
@@ -2,14 +2,14 @@
 
 use super::common::{calculate_hash, IndexEntry};
 use crate::core::{EditorDocument, Position, Range, Result};
+use crate::utils::search::matching::{find_matches, replace_matches};
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
 #[cfg(feature = "std")]
-use std::{borrow::Cow, collections::HashMap, time::Instant};
+use std::{collections::HashMap, time::Instant};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
-    borrow::Cow,
     collections::BTreeMap as HashMap,
     string::{String, ToString},
     vec::Vec,
@@ -23,6 +23,9 @@ pub struct LinearSearchIndex {
     /// Simple word -> positions mapping
     word_positions: HashMap<String, Vec<IndexEntry>>,
 
+    /// Document text the index was built from
+    content: String,
+
     /// Content hash for invalidation
     content_hash: u64,
 
@@ -41,6 +44,7 @@ impl LinearSearchIndex {
     pub fn new() -> Self {
         Self {
             word_positions: HashMap::new(),
+            content: String::new(),
             content_hash: 0,
             build_time: {
                 #[cfg(feature = "std")]
@@ -92,6 +96,7 @@ impl DocumentSearch for LinearSearchIndex {
             }
             line_start += line.len() + 1;
         }
+        self.content = content;
 
         Ok(())
     }
@@ -100,27 +105,8 @@ impl DocumentSearch for LinearSearchIndex {
         self.build_index(document)
     }
 
-    fn search(&self, pattern: &str, _options: &SearchOptions) -> Result<Vec<SearchResult<'_>>> {
-        let query = pattern.to_lowercase();
-        let mut results = Vec::new();
-
-        // Simple linear search through indexed words
-        for (word, entries) in &self.word_positions {
-            if word.contains(&query) {
-                for entry in entries {
-                    results.push(SearchResult {
-                        start: entry.position,
-                        end: Position::new(entry.position.offset + pattern.len()),
-                        text: Cow::Owned(pattern.to_string()),
-                        context: Cow::Owned(entry.context.clone()),
-                        line: entry.line,
-                        column: entry.column,
-                    });
-                }
-            }
-        }
-
-        Ok(results)
+    fn search(&self, pattern: &str, options: &SearchOptions) -> Result<Vec<SearchResult<'_>>> {
+        find_matches(&self.content, pattern, options)
     }
 
     fn find_replace<'a>(
@@ -130,14 +116,7 @@ impl DocumentSearch for LinearSearchIndex {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-
-        for result in &results {
-            let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
-        }
-
-        Ok(results)
+        replace_matches(document, pattern, replacement, options)
     }
 
     fn stats(&self) -> SearchStats {
@@ -160,5 +139,6 @@ impl DocumentSearch for LinearSearchIndex {
 
     fn clear_index(&mut self) {
         self.word_positions.clear();
+        self.content.clear();
     }
 }
diff --git a/crates/ass-editor/utils/search/basic.rs b/crates/ass-editor/utils/search/basic.rs
deleted file mode 100644
index 99b3f39..0000000
--- a/crates/ass-editor/utils/search/basic.rs
+++ /dev/null
@@ -1,122 +0,0 @@
-//! Basic (non-indexed) substring search
-//!
-//! Implements the fallback text search used by
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl) when no FST index is
-//! available or the `search-index` feature is disabled.
-
-use super::engine::DocumentSearchImpl;
-use super::options::{SearchOptions, SearchResult, SearchScope};
-use crate::core::{Position, Result};
-
-#[cfg(feature = "std")]
-use std::borrow::Cow;
-
-#[cfg(not(feature = "std"))]
-use alloc::borrow::Cow;
-
-#[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
-
-impl DocumentSearchImpl {
-    /// Perform basic text search without FST indexing
-    pub(super) fn basic_search(
-        &self,
-        pattern: &str,
-        options: &SearchOptions,
-    ) -> Result<Vec<SearchResult<'static>>> {
-        let mut results = Vec::new();
-        let search_pattern = if options.case_sensitive {
-            pattern.to_string()
-        } else {
-            pattern.to_lowercase()
-        };
-
-        let search_text = if options.case_sensitive {
-            Cow::Borrowed(&self.cached_text)
-        } else {
-            Cow::Owned(self.cached_text.to_lowercase())
-        };
-
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, search_text.len()),
-            SearchScope::Range(range) => {
-                (range.start.offset, range.end.offset.min(search_text.len()))
-            }
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = search_text.len();
-
-                for (i, ch) in search_text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
-                }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, search_text.len())
-            }
-        };
-
-        let search_region = &search_text[search_start..search_end];
-        let mut region_offset = 0;
-
-        while let Some(match_idx) = search_region[region_offset..].find(&search_pattern) {
-            let absolute_idx = search_start + region_offset + match_idx;
-            let match_end = absolute_idx + search_pattern.len();
-
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-
-            for (i, ch) in self.cached_text[..absolute_idx].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
-                }
-            }
-
-            let column = absolute_idx - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = self.cached_text[..absolute_idx]
-                .rfind('\n')
-                .map(|i| i + 1)
-                .unwrap_or(0);
-            let context_end = self.cached_text[absolute_idx..]
-                .find('\n')
-                .map(|i| absolute_idx + i)
-                .unwrap_or(self.cached_text.len());
-            let context = self.cached_text[context_start..context_end].to_string();
-
-            results.push(SearchResult {
-                start: Position::new(absolute_idx),
-                end: Position::new(match_end),
-                text: Cow::Owned(self.cached_text[absolute_idx..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
-
-            if options.max_results > 0 && results.len() >= options.max_results {
-                break;
-            }
-
-            region_offset += match_idx + 1;
-        }
-
-        Ok(results)
-    }
-}
diff --git a/crates/ass-editor/utils/search/incremental.rs b/crates/ass-editor/utils/search/incremental.rs
index eeee808..d48ef38 100644
--- a/crates/ass-editor/utils/search/incremental.rs
+++ b/crates/ass-editor/utils/search/incremental.rs
@@ -1,34 +1,18 @@
-//! Incremental search-index updates
+//! Search-index updates
 //!
-//! Implements the incremental re-indexing path for
+//! Implements the re-indexing path for
 //! [`DocumentSearchImpl`](super::DocumentSearchImpl) used when a document
 //! changes after an initial index build.
 
 use super::engine::DocumentSearchImpl;
-use crate::core::{EditorDocument, Range, Result};
-
-#[cfg(feature = "search-index")]
 use super::traits::DocumentSearch;
-
-#[cfg(feature = "search-index")]
-use crate::core::Position;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::borrow::Cow;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::collections::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use hashbrown::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::vec::Vec;
+use crate::core::{EditorDocument, Range, Result};
 
 impl DocumentSearchImpl {
+    /// Bring the index up to date with a changed document
+    ///
+    /// The ranges of the changes say what was replaced but not with what, so
+    /// the words after them cannot be placed without reading the text again.
     pub(super) fn update_index_impl(
         &mut self,
         document: &EditorDocument,
@@ -37,149 +21,6 @@ impl DocumentSearchImpl {
         if changes.is_empty() {
             return Ok(());
         }
-
-        // Update cached text first
-        self.cached_text = document.text();
-
-        // For non-FST search, we're done after updating the text
-        #[cfg(not(feature = "search-index"))]
-        {
-            self.document_version += 1;
-            self.result_cache.clear();
-            Ok(())
-        }
-
-        // For FST search, perform incremental updates
-        #[cfg(feature = "search-index")]
-        {
-            // Calculate total change size
-            let total_change_size: usize = changes
-                .iter()
-                .map(|r| r.end.offset.saturating_sub(r.start.offset))
-                .sum();
-
-            // If too many changes or large changes, rebuild entirely
-            if changes.len() > 10 || total_change_size > 1000 {
-                return self.build_index(document);
-            }
-
-            // Sort changes by position to process them in order
-            let mut sorted_changes = changes.to_vec();
-            sorted_changes.sort_by_key(|r| r.start.offset);
-
-            // Calculate cumulative offset adjustments
-            let mut offset_adjustments: Vec<(usize, isize)> = Vec::new();
-            let mut cumulative_adjustment = 0isize;
-
-            for change in &sorted_changes {
-                let old_len = change.end.offset - change.start.offset;
-                // Find the actual new text in this region
-                let new_text_region = &self.cached_text[change
-                    .start
-                    .offset
-                    .saturating_add_signed(cumulative_adjustment)..];
-
-                // Estimate new length by finding next unchanged content
-                let new_len = if let Some(next_change) = sorted_changes
-                    .iter()
-                    .find(|c| c.start.offset > change.end.offset)
-                {
-                    let expected_gap = next_change.start.offset - change.end.offset;
-                    new_text_region.len().min(expected_gap)
-                } else {
-                    // No more changes, estimate based on word boundaries
-                    new_text_region
-                        .find(['\n', '\r'])
-                        .unwrap_or(new_text_region.len().min(old_len * 2))
-                };
-
-                let adjustment = new_len as isize - old_len as isize;
-                offset_adjustments.push((change.start.offset, adjustment));
-                cumulative_adjustment += adjustment;
-            }
-
-            // Update word positions
-            let mut updated_positions = HashMap::new();
-
-            for (word, positions) in &self.word_positions {
-                let mut new_positions = Vec::new();
-
-                for &pos in positions {
-                    let mut adjusted_offset = pos.offset;
-                    let mut should_remove = false;
-
-                    // Check each change to see how it affects this position
-                    for (i, change) in sorted_changes.iter().enumerate() {
-                        if pos.offset >= change.start.offset && pos.offset < change.end.offset {
-                            // Word was in changed region - remove it
-                            should_remove = true;
-                            break;
-                        } else if pos.offset >= change.end.offset {
-                            // Word is after this change - apply adjustment
-                            let (_, adjustment) = offset_adjustments[i];
-                            adjusted_offset = adjusted_offset.saturating_add_signed(adjustment);
-                        }
-                    }
-
-                    if !should_remove {
-                        new_positions.push(Position::new(adjusted_offset));
-                    }
-                }
-
-                if !new_positions.is_empty() {
-                    updated_positions.insert(word.clone(), new_positions);
-                }
-            }
-
-            // Extract new words from changed regions
-            for (i, change) in sorted_changes.iter().enumerate() {
-                let start_adjustment: isize =
-                    offset_adjustments[..i].iter().map(|(_, adj)| adj).sum();
-                let adjusted_start = change.start.offset.saturating_add_signed(start_adjustment);
-
-                // Get text around the change
-                let extract_start = adjusted_start.saturating_sub(50);
-                let extract_end = (adjusted_start + 100).min(self.cached_text.len());
-
-                if extract_start < extract_end {
-                    let region_text = &self.cached_text[extract_start..extract_end];
-                    let new_words = self.extract_words(region_text);
-
-                    // Add new words with adjusted positions
-                    for (word, positions) in new_words {
-                        let entry = updated_positions.entry(word.into_owned()).or_default();
-                        for pos in positions {
-                            let global_pos = Position::new(pos.offset + extract_start);
-                            if !entry.contains(&global_pos) {
-                                entry.push(global_pos);
-                            }
-                        }
-                        entry.sort_by_key(|p| p.offset);
-                    }
-                }
-            }
-
-            // Update the word positions
-            self.word_positions = updated_positions;
-
-            // Rebuild FST with updated word list
-            if !self.word_positions.is_empty() {
-                let words: Vec<(Cow<str>, Vec<Position>)> = self
-                    .word_positions
-                    .iter()
-                    .map(|(k, v)| (Cow::Borrowed(k.as_str()), v.clone()))
-                    .collect();
-                self.word_index = Some(self.build_fst(&words)?);
-            } else {
-                self.word_index = None;
-            }
-
-            // Update statistics
-            self.stats.index_size = self.word_positions.len() * 50;
-            self.document_version += 1;
-            self.result_cache.clear();
-
-            Ok(())
-        }
+        self.build_index(document)
     }
 }
diff --git a/crates/ass-editor/utils/search/index.rs b/crates/ass-editor/utils/search/index.rs
index b28ba4d..bb94af2 100644
--- a/crates/ass-editor/utils/search/index.rs
+++ b/crates/ass-editor/utils/search/index.rs
@@ -6,6 +6,9 @@
 
 use super::engine::DocumentSearchImpl;
 
+#[cfg(feature = "search-index")]
+use super::matching::{fold_case, is_word_char};
+
 #[cfg(feature = "search-index")]
 use crate::core::{Position, Result};
 
@@ -27,6 +30,16 @@ use alloc::{format, string::String, vec::Vec};
 #[cfg(feature = "search-index")]
 use fst::{Set, SetBuilder};
 
+/// Key of a word in the index, without its case
+#[cfg(feature = "search-index")]
+fn word_key(word: &str) -> Cow<'_, str> {
+    if fold_case(word).eq(word.chars()) {
+        Cow::Borrowed(word)
+    } else {
+        Cow::Owned(fold_case(word).collect())
+    }
+}
+
 impl DocumentSearchImpl {
     /// Extract words from document text for indexing
     #[cfg(feature = "search-index")]
@@ -37,7 +50,7 @@ impl DocumentSearchImpl {
         let mut word_start_idx = 0;
 
         for (byte_idx, ch) in text.char_indices() {
-            if ch.is_alphanumeric() || ch == '_' {
+            if is_word_char(ch) {
                 if word_start_byte.is_none() {
                     word_start_byte = Some(byte_idx);
                     word_start_idx = byte_idx;
@@ -48,11 +61,7 @@ impl DocumentSearchImpl {
                     if !current_word.is_empty() {
                         // Use Cow to avoid allocation when possible
                         let word_slice = &text[word_start_idx..byte_idx];
-                        let word_key = if word_slice.chars().all(|c| c.is_lowercase()) {
-                            Cow::Borrowed(word_slice)
-                        } else {
-                            Cow::Owned(current_word.to_lowercase())
-                        };
+                        let word_key = word_key(word_slice);
 
                         words
                             .entry(word_key)
@@ -69,11 +78,7 @@ impl DocumentSearchImpl {
         if let Some(start_byte) = word_start_byte {
             if !current_word.is_empty() {
                 let word_slice = &text[word_start_idx..];
-                let word_key = if word_slice.chars().all(|c| c.is_lowercase()) {
-                    Cow::Borrowed(word_slice)
-                } else {
-                    Cow::Owned(current_word.to_lowercase())
-                };
+                let word_key = word_key(word_slice);
 
                 words
                     .entry(word_key)
diff --git a/crates/ass-editor/utils/search/matching.rs b/crates/ass-editor/utils/search/matching.rs
new file mode 100644
index 0000000..665fc6e
--- /dev/null
+++ b/crates/ass-editor/utils/search/matching.rs
@@ -0,0 +1,241 @@
+//! Matching of search patterns against document text
+//!
+//! Finds the occurrences of a pattern within the scope of a search. Shared by
+//! every [`DocumentSearch`](super::DocumentSearch) implementation.
+
+use super::options::{SearchOptions, SearchResult, SearchScope};
+use crate::core::{EditorDocument, Position, Range, Result};
+
+#[cfg(not(feature = "std"))]
+use alloc::{borrow::Cow, string::ToString, vec, vec::Vec};
+#[cfg(feature = "std")]
+use std::borrow::Cow;
+
+use core::ops::Range as ByteRange;
+
+/// Whether `ch` is part of a word
+pub(crate) fn is_word_char(ch: char) -> bool {
+    ch.is_alphanumeric() || ch == '_'
+}
+
+/// Characters of `text` with their case folded
+pub(crate) fn fold_case(text: &str) -> impl Iterator<Item = char> + '_ {
+    text.chars().flat_map(char::to_lowercase)
+}
+
+/// Find all non-overlapping occurrences of `pattern` in `text`, in order
+pub(crate) fn find_matches(
+    text: &str,
+    pattern: &str,
+    options: &SearchOptions,
+) -> Result<Vec<SearchResult<'static>>> {
+    let find = matcher(pattern, options)?;
+    let mut results = Vec::new();
+    for region in scope_regions(text, &options.scope) {
+        collect_matches(text, region, &find, options, &mut results);
+    }
+    Ok(results)
+}
+
+/// Replace all occurrences of `pattern` in `document`, returning where they were
+pub(crate) fn replace_matches(
+    document: &mut EditorDocument,
+    pattern: &str,
+    replacement: &str,
+    options: &SearchOptions,
+) -> Result<Vec<SearchResult<'static>>> {
+    let results = find_matches(&document.text(), pattern, options)?;
+
+    // Apply replacements in reverse order to maintain position validity
+    for result in results.iter().rev() {
+        document.replace(Range::new(result.start, result.end), replacement)?;
+    }
+    Ok(results)
+}
+
+/// Collect the matches that lie within one region of `text`
+fn collect_matches(
+    text: &str,
+    region: ByteRange<usize>,
+    find: &Matcher<'_>,
+    options: &SearchOptions,
+    results: &mut Vec<SearchResult<'static>>,
+) {
+    let region_text = &text[region.clone()];
+    let mut from = 0;
+    let mut previous_end = None;
+
+    while options.max_results == 0 || results.len() < options.max_results {
+        let Some(found) = find(region_text, from) else {
+            break;
+        };
+        let (start, end) = (region.start + found.start, region.start + found.end);
+        let rejected = (options.whole_words && !is_whole_word(text, start, end))
+            || (found.is_empty() && previous_end == Some(found.start));
+
+        if !rejected {
+            results.push(search_result(text, start, end));
+            previous_end = Some(found.end);
+        }
+        from = if rejected || found.is_empty() {
+            match region_text[found.start..].chars().next() {
+                Some(ch) => found.start + ch.len_utf8(),
+                None => break,
+            }
+        } else {
+            found.end
+        };
+    }
+}
+
+/// Function finding the first match in a text at or after an offset
+type Matcher<'p> = dyn Fn(&str, usize) -> Option<ByteRange<usize>> + 'p;
+
+#[cfg(not(feature = "std"))]
+use alloc::boxed::Box;
+
+/// Build the function that finds `pattern` as `options` ask
+fn matcher<'p>(pattern: &'p str, options: &SearchOptions) -> Result<Box<Matcher<'p>>> {
+    if options.use_regex {
+        return regex_matcher(pattern, options.case_sensitive);
+    }
+    if pattern.is_empty() {
+        return Ok(Box::new(|_, _| None));
+    }
+    if options.case_sensitive {
+        return Ok(Box::new(move |text, from| {
+            let start = from + text[from..].find(pattern)?;
+            Some(start..start + pattern.len())
+        }));
+    }
+    let folded: Vec<char> = fold_case(pattern).collect();
+    Ok(Box::new(move |text, from| {
+        text[from..].char_indices().find_map(|(at, _)| {
+            let start = from + at;
+            let len = folded_match_len(&text[start..], &folded)?;
+            Some(start..start + len)
+        })
+    }))
+}
+
+#[cfg(all(feature = "formats", feature = "std"))]
+fn regex_matcher<'p>(pattern: &str, case_sensitive: bool) -> Result<Box<Matcher<'p>>> {
+    let regex = regex::RegexBuilder::new(pattern)
+        .case_insensitive(!case_sensitive)
+        .build()
+        .map_err(|e| crate::core::EditorError::CommandFailed {
+            message: format!("Invalid regex pattern: {e}"),
+        })?;
+    Ok(Box::new(move |text, from| {
+        regex.find_at(text, from).map(|found| found.range())
+    }))
+}
+
+#[cfg(not(all(feature = "formats", feature = "std")))]
+fn regex_matcher<'p>(_pattern: &str, _case_sensitive: bool) -> Result<Box<Matcher<'p>>> {
+    Err(crate::core::EditorError::CommandFailed {
+        message: "Regex search requires the 'formats' feature to be enabled".to_string(),
+    })
+}
+
+/// Length of the start of `text` that equals `folded` once its case is folded
+fn folded_match_len(text: &str, folded: &[char]) -> Option<usize> {
+    let mut rest = folded;
+    for (at, ch) in text.char_indices() {
+        for lower in ch.to_lowercase() {
+            let (first, others) = rest.split_first()?;
+            if *first != lower {
+                return None;
+            }
+            rest = others;
+        }
+        if rest.is_empty() {
+            return Some(at + ch.len_utf8());
+        }
+    }
+    None
+}
+
+/// Whether no word reaches across an end of `start..end`
+fn is_whole_word(text: &str, start: usize, end: usize) -> bool {
+    let before = text[..start].chars().next_back();
+    let after = text[end..].chars().next();
+    !before.is_some_and(is_word_char) && !after.is_some_and(is_word_char)
+}
+
+/// Byte ranges of `text` that a scope covers, in order
+fn scope_regions(text: &str, scope: &SearchScope) -> Vec<ByteRange<usize>> {
+    match scope {
+        SearchScope::All => vec![0..text.len()],
+        SearchScope::Range(range) => {
+            let mut start = range.start.offset;
+            let mut end = range.end.offset.min(text.len());
+            while start < end && !text.is_char_boundary(start) {
+                start += 1;
+            }
+            while end > start && !text.is_char_boundary(end) {
+                end -= 1;
+            }
+            if start < end || (start == end && text.is_char_boundary(start)) {
+                vec![start..end]
+            } else {
+                Vec::new()
+            }
+        }
+        SearchScope::Lines { start, end } => {
+            let wanted = |(number, _): &(usize, ByteRange<usize>)| number >= start && number <= end;
+            let mut lines = line_ranges(text).enumerate().filter(wanted);
+            match lines.next() {
+                Some((_, first)) => {
+                    let last = lines.last().map_or(first.end, |(_, line)| line.end);
+                    vec![first.start..last]
+                }
+                None => Vec::new(),
+            }
+        }
+        SearchScope::Sections(names) => {
+            let mut regions = Vec::new();
+            let mut current: Option<ByteRange<usize>> = None;
+            for line in line_ranges(text) {
+                let header = text[line.clone()]
+                    .trim()
+                    .strip_prefix('[')
+                    .and_then(|rest| rest.strip_suffix(']'));
+                if let Some(name) = header {
+                    regions.extend(current.take());
+                    if names.iter().any(|wanted| wanted == name) {
+                        current = Some(line);
+                    }
+                } else if let Some(region) = &mut current {
+                    region.end = line.end;
+                }
+            }
+            regions.extend(current);
+            regions
+        }
+    }
+}
+
+/// Byte ranges of the lines of `text`, without their line feeds
+fn line_ranges(text: &str) -> impl Iterator<Item = ByteRange<usize>> + '_ {
+    let mut start = 0;
+    text.split('\n').map(move |line| {
+        let range = start..start + line.len();
+        start = range.end + 1;
+        range
+    })
+}
+
+/// Describe the match at `start..end` of `text`
+fn search_result(text: &str, start: usize, end: usize) -> SearchResult<'static> {
+    let line_start = text[..start].rfind('\n').map_or(0, |at| at + 1);
+    let line_end = text[start..].find('\n').map_or(text.len(), |at| start + at);
+    SearchResult {
+        start: Position::new(start),
+        end: Position::new(end),
+        text: Cow::Owned(text[start..end].to_string()),
+        context: Cow::Owned(text[line_start..line_end].to_string()),
+        line: text[..start].matches('\n').count(),
+        column: start - line_start,
+    }
+}
diff --git a/crates/ass-editor/utils/search/mod.rs b/crates/ass-editor/utils/search/mod.rs
index 3d8f42b..65b43e9 100644
--- a/crates/ass-editor/utils/search/mod.rs
+++ b/crates/ass-editor/utils/search/mod.rs
@@ -4,13 +4,12 @@
 //! FST-based indexing, regex support, and incremental updates. Targets
 //! <10ms initial indexing and <1ms query response times.
 
-mod basic;
 mod engine;
 mod incremental;
 mod index;
+pub(crate) mod matching;
 mod options;
-mod query;
-mod regex_search;
+pub(crate) mod query;
 mod trait_impl;
 mod traits;
 
diff --git a/crates/ass-editor/utils/search/query.rs b/crates/ass-editor/utils/search/query.rs
index 2f00fbe..6792816 100644
--- a/crates/ass-editor/utils/search/query.rs
+++ b/crates/ass-editor/utils/search/query.rs
@@ -1,31 +1,22 @@
 //! Search query execution
 //!
 //! Implements the core query dispatch for
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl), routing between FST,
-//! regex, and basic search depending on enabled features and options.
+//! [`DocumentSearchImpl`](super::DocumentSearchImpl), consulting the result
+//! cache and the word index before matching against the indexed text.
 
 use super::engine::DocumentSearchImpl;
+use super::matching::find_matches;
 use super::options::{SearchOptions, SearchResult};
 use crate::core::Result;
 
-#[cfg(feature = "std")]
-use std::time::Instant;
-
-#[cfg(not(feature = "std"))]
-#[allow(dead_code)]
-type Instant = u64;
-
 #[cfg(feature = "search-index")]
-use crate::core::Position;
+use super::matching::{fold_case, is_word_char};
 
 #[cfg(feature = "search-index")]
-use fst::{automaton, IntoStreamer, Streamer};
+use fst::{automaton, IntoStreamer, Set, Streamer};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::{format, string::String};
+use alloc::vec::Vec;
 
 impl DocumentSearchImpl {
     pub(super) fn search_impl<'a>(
@@ -33,92 +24,40 @@ impl DocumentSearchImpl {
         pattern: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        #[cfg(feature = "std")]
-        let _start_time = Instant::now();
-
         // Check cache first
         let cache_key = self.cache_key(pattern, options);
         if let Some(cached_results) = self.result_cache.get(&cache_key) {
             return Ok(cached_results.clone());
         }
 
-        let results = if options.use_regex {
-            // Use regex search
-            #[cfg(all(feature = "formats", feature = "std"))]
-            {
-                self.regex_search(pattern, options)?
-            }
-            #[cfg(not(all(feature = "formats", feature = "std")))]
-            {
-                return Err(crate::core::EditorError::CommandFailed {
-                    message: "Regex search requires the 'formats' feature to be enabled"
-                        .to_string(),
-                });
-            }
-        } else {
-            // Check if we should use FST or basic search
-            #[cfg(feature = "search-index")]
-            {
-                if let Some(ref fst) = self.word_index {
-                    // Use FST for search
-                    let search_pattern = if options.case_sensitive {
-                        pattern.to_string()
-                    } else {
-                        pattern.to_lowercase()
-                    };
-
-                    let mut results = Vec::new();
-
-                    // Create automaton for prefix search
-                    let mut stream = fst
-                        .search(automaton::Str::new(&search_pattern))
-                        .into_stream();
-
-                    while let Some(key) = stream.next() {
-                        let word = String::from_utf8_lossy(key);
-                        if let Some(positions) = self.word_positions.get(word.as_ref()) {
-                            for &pos in positions {
-                                results.push(SearchResult {
-                                    start: pos,
-                                    end: Position::new(pos.offset + pattern.len()),
-                                    text: std::borrow::Cow::Owned(pattern.to_string()),
-                                    context: std::borrow::Cow::Owned(format!(
-                                        "Offset {}",
-                                        pos.offset
-                                    )),
-                                    line: 0, // Would need document context to calculate actual line
-                                    column: pos.offset,
-                                });
-
-                                if options.max_results > 0 && results.len() >= options.max_results {
-                                    break;
-                                }
-                            }
-                        }
-
-                        if options.max_results > 0 && results.len() >= options.max_results {
-                            break;
-                        }
-                    }
-
-                    results
-                } else {
-                    // FST index not built yet, use basic search
-                    self.basic_search(pattern, options)?
-                }
+        // The word index tells when no word can contain the pattern
+        #[cfg(feature = "search-index")]
+        if let Some(index) = &self.word_index {
+            if !options.use_regex && !words_may_contain(index, pattern) {
+                return Ok(Vec::new());
             }
-            #[cfg(not(feature = "search-index"))]
-            {
-                // Use basic text search when FST is not available
-                self.basic_search(pattern, options)?
-            }
-        };
+        }
 
-        // Update statistics (would need mutable access in real implementation)
-        // self.stats.match_count = results.len();
-        // self.stats.search_time_us = search_time;
-        // self.stats.hit_limit = options.max_results > 0 && results.len() >= options.max_results;
+        find_matches(&self.cached_text, pattern, options)
+    }
+}
 
-        Ok(results)
+/// Whether a text whose words are in `index` may contain `pattern`
+///
+/// Only a pattern that lies within one word can be ruled out.
+#[cfg(feature = "search-index")]
+pub(crate) fn words_may_contain(index: &Set<Vec<u8>>, pattern: &str) -> bool {
+    if !fold_case(pattern).all(is_word_char) {
+        return true;
+    }
+    let folded: String = fold_case(pattern).collect();
+    let mut words = index
+        .search(automaton::Subsequence::new(&folded))
+        .into_stream();
+    while let Some(word) = words.next() {
+        if String::from_utf8_lossy(word).contains(&folded) {
+            return true;
+        }
     }
+    false
 }
diff --git a/crates/ass-editor/utils/search/regex_search.rs b/crates/ass-editor/utils/search/regex_search.rs
deleted file mode 100644
index 92dbd0d..0000000
--- a/crates/ass-editor/utils/search/regex_search.rs
+++ /dev/null
@@ -1,119 +0,0 @@
-//! Regular-expression search
-//!
-//! Implements regex-based matching for
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl) when both the `formats`
-//! and `std` features are enabled.
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use super::engine::DocumentSearchImpl;
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use super::options::{SearchOptions, SearchResult, SearchScope};
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use crate::core::{Position, Result};
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use regex::Regex;
-
-#[cfg(all(feature = "formats", feature = "std"))]
-impl DocumentSearchImpl {
-    /// Perform regex-based search
-    pub(super) fn regex_search(
-        &self,
-        pattern: &str,
-        options: &SearchOptions,
-    ) -> Result<Vec<SearchResult<'static>>> {
-        use crate::core::EditorError;
-
-        // Compile regex
-        let regex_pattern = if options.case_sensitive {
-            Regex::new(pattern)
-        } else {
-            Regex::new(&format!("(?i){pattern}"))
-        };
-
-        let regex = regex_pattern.map_err(|e| EditorError::CommandFailed {
-            message: format!("Invalid regex pattern: {e}"),
-        })?;
-
-        let mut results = Vec::new();
-        let text = &self.cached_text;
-
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, text.len()),
-            SearchScope::Range(range) => (range.start.offset, range.end.offset.min(text.len())),
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = text.len();
-
-                for (i, ch) in text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
-                }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_sections) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, text.len())
-            }
-        };
-
-        let search_text = &text[search_start..search_end];
-
-        // Find all matches
-        for mat in regex.find_iter(search_text) {
-            let match_start = search_start + mat.start();
-            let match_end = search_start + mat.end();
-
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-            for (i, ch) in text[..match_start].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
-                }
-            }
-            let column = match_start - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = text[..match_start].rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let context_end = text[match_start..]
-                .find('\n')
-                .map(|i| match_start + i)
-                .unwrap_or(text.len());
-            let context = text[context_start..context_end].to_string();
-
-            results.push(SearchResult {
-                start: Position::new(match_start),
-                end: Position::new(match_end),
-                text: Cow::Owned(text[match_start..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
-
-            if options.max_results > 0 && results.len() >= options.max_results {
-                break;
-            }
-        }
-
-        Ok(results)
-    }
-}
diff --git a/crates/ass-editor/utils/search/trait_impl.rs b/crates/ass-editor/utils/search/trait_impl.rs
index baa647f..5adcc3b 100644
--- a/crates/ass-editor/utils/search/trait_impl.rs
+++ b/crates/ass-editor/utils/search/trait_impl.rs
@@ -4,6 +4,7 @@
 //! sibling modules and holds the index-build and find-replace logic.
 
 use super::engine::DocumentSearchImpl;
+use super::matching::replace_matches;
 use super::options::{SearchOptions, SearchResult, SearchStats};
 use super::traits::DocumentSearch;
 use crate::core::{EditorDocument, Range, Result};
@@ -76,19 +77,7 @@ impl DocumentSearch for DocumentSearchImpl {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-        let mut replaced = Vec::new();
-
-        // Apply replacements in reverse order to maintain position validity
-        for result in results.iter().rev() {
-            let range = Range::new(result.start, result.end);
-            document.delete(range)?;
-            document.insert(result.start, replacement)?;
-            replaced.push(result.clone());
-        }
-
-        replaced.reverse(); // Restore original order
-        Ok(replaced)
+        replace_matches(document, pattern, replacement, options)
     }
 
     fn stats(&self) -> SearchStats {
-- 
2.43.0


From f1b00089f3b6bb5794319ee0587d8bafb70d6d92 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 78/83] fix: text and drawings are placed where their position,
 or alignment and margins, say

The lines of a positioned event no longer lie on each other, runs of different
sizes stand on one baseline, scale and spacing count for the width a line is
aligned by, empty lines keep their place, margins written 0000 are the style's,
centred text is centred between the margins, and the first placing tag holds for
the whole event wherever it stands.
---
 .../src/backends/software/cache/blur_tile.rs  |   2 +-
 .../src/backends/software/cache/mod.rs        |   2 +-
 .../src/backends/software/dirty.rs            |  11 +-
 .../src/backends/software/text/blur.rs        |   5 +-
 .../src/backends/software/text/decorations.rs |   7 +-
 .../src/backends/software/text/prepare.rs     |  20 +-
 .../src/pipeline/build/drawing.rs             |  80 +---
 .../src/pipeline/build/position.rs            | 358 ++++++------------
 crates/ass-renderer/src/pipeline/build/run.rs |  34 +-
 .../src/pipeline/build/text/colors.rs         |  49 +--
 .../src/pipeline/build/text/mod.rs            | 187 ++++-----
 .../src/pipeline/build/text/position.rs       | 183 ---------
 .../src/pipeline/build/text/types.rs          |  37 +-
 .../ass-renderer/src/pipeline/build/wrap.rs   |  19 +-
 crates/ass-renderer/src/pipeline/mod.rs       |  24 ++
 .../ass-renderer/src/pipeline/shaping/mod.rs  |  17 +
 .../src/pipeline/text_segmenter/apply.rs      |  38 +-
 .../src/pipeline/text_segmenter/mod.rs        |  31 +-
 18 files changed, 372 insertions(+), 732 deletions(-)
 delete mode 100644 crates/ass-renderer/src/pipeline/build/text/position.rs

diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 92ad0f0..5563aed 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -190,7 +190,7 @@ impl super::super::SoftwareBackend {
             text: data.text.clone(),
             font: data.font_family.clone(),
             size: data.font_size.to_bits(),
-            spacing: data.spacing.to_bits(),
+            spacing: data.glyph_spacing().to_bits(),
             bold,
             italic,
             blur: radius.to_bits(),
diff --git a/crates/ass-renderer/src/backends/software/cache/mod.rs b/crates/ass-renderer/src/backends/software/cache/mod.rs
index 7b4ab40..ad1fd29 100644
--- a/crates/ass-renderer/src/backends/software/cache/mod.rs
+++ b/crates/ass-renderer/src/backends/software/cache/mod.rs
@@ -176,7 +176,7 @@ fn coverage_key(
         text: data.text.clone(),
         font: data.font_family.clone(),
         size: data.font_size.to_bits(),
-        spacing: data.spacing.to_bits(),
+        spacing: data.glyph_spacing().to_bits(),
         bold,
         italic,
         outline: outline.map(|(_, wx, wy)| (wx.to_bits(), wy.to_bits())),
diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 6ac969c..fbe6749 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -70,19 +70,16 @@ pub(super) fn text_vector_dirty_bbox(
         bottom = bottom.max(y + around);
     };
 
+    let inked = shaped.drawn_width(data.glyph_spacing(), 100.0, 100.0);
     if let Some(radius) = blur {
         let pad = (radius * 3.0).ceil();
         let (x, y) = (data.x - pad, baseline_y - pad - shaped.ascent);
         cover(x, y, 2.0);
-        cover(
-            x + shaped.width + pad * 2.0,
-            y + shaped.height + pad * 2.0,
-            2.0,
-        );
+        cover(x + inked + pad * 2.0, y + shaped.height + pad * 2.0, 2.0);
     }
     if let Some(radius) = edge_blur {
         let pad = (radius * 3.0).ceil() + outline;
-        let (x1, y1) = (shaped.width + pad, shaped.height + pad);
+        let (x1, y1) = (inked + pad, shaped.height + pad);
         let mut corners = [(-pad, -pad), (x1, -pad), (-pad, y1), (x1, y1)]
             .map(|(x, y)| tiny_skia::Point::from_xy(x, y));
         base_transform.map_points(&mut corners);
@@ -97,7 +94,7 @@ pub(super) fn text_vector_dirty_bbox(
             baseline_y - shaped.ascent / 3.0,
         );
         cover(data.x, under.min(strike), around);
-        cover(data.x + shaped.width, under.max(strike), around);
+        cover(data.x + data.drawn_width(shaped), under.max(strike), around);
     }
     Some((
         left.floor() as i32,
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 8efffa3..02ee752 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -28,7 +28,8 @@ impl super::super::SoftwareBackend {
         // the full Gaussian kernel (~3*sigma) or the soft tail is clipped and
         // the blurred glyph loses mass at larger radii.
         let blur_size = (radius * 3.0).ceil() as u32;
-        let text_width = (shaped.width + blur_size as f32 * 2.0).ceil() as u32;
+        let inked = shaped.drawn_width(data.glyph_spacing(), 100.0, 100.0);
+        let text_width = (inked + blur_size as f32 * 2.0).ceil() as u32;
         let text_height = (shaped.height + blur_size as f32 * 2.0).ceil() as u32;
 
         // The blurred bitmap is a pure function of the glyph outlines, blur
@@ -39,7 +40,7 @@ impl super::super::SoftwareBackend {
             text: data.text.clone(),
             font: data.font_family.clone(),
             size: data.font_size.to_bits(),
-            spacing: data.spacing.to_bits(),
+            spacing: data.glyph_spacing().to_bits(),
             bold: run.bold,
             italic: run.italic,
             blur: radius.to_bits(),
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 76d6304..3d18a07 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -126,8 +126,9 @@ impl super::super::SoftwareBackend {
                 if let Some(blur_radius) = run.edge_blur_radius {
                     if blur_radius > 0.0 {
                         let blur_size = (blur_radius * 3.0).ceil() as u32;
+                        let inked = run.shaped.drawn_width(data.glyph_spacing(), 100.0, 100.0);
                         let outline_width =
-                            (run.shaped.width + blur_size as f32 * 2.0 + width * 2.0).ceil() as u32;
+                            (inked + blur_size as f32 * 2.0 + width * 2.0).ceil() as u32;
                         let outline_height =
                             (run.shaped.height + blur_size as f32 * 2.0 + width * 2.0).ceil()
                                 as u32;
@@ -223,7 +224,7 @@ impl super::super::SoftwareBackend {
             let underline_y = baseline_y - shaped.descent / 2.0;
             let mut builder = tiny_skia::PathBuilder::new();
             builder.move_to(data.x, underline_y);
-            builder.line_to(data.x + shaped.width, underline_y);
+            builder.line_to(data.x + data.drawn_width(shaped), underline_y);
 
             if let Some(underline_path) = builder.finish() {
                 let stroke = tiny_skia::Stroke {
@@ -248,7 +249,7 @@ impl super::super::SoftwareBackend {
             let strike_y = baseline_y - shaped.ascent / 3.0;
             let mut builder = tiny_skia::PathBuilder::new();
             builder.move_to(data.x, strike_y);
-            builder.line_to(data.x + shaped.width, strike_y);
+            builder.line_to(data.x + data.drawn_width(shaped), strike_y);
 
             if let Some(strike_path) = builder.finish() {
                 let stroke = tiny_skia::Stroke {
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index f14106e..da3c404 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -6,7 +6,7 @@
 use tiny_skia::Transform;
 
 use crate::backends::geometry::{merge_transformed, project_path_3d};
-use crate::pipeline::TextData;
+use crate::pipeline::{shaping::ShapedText, TextData};
 use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
@@ -82,7 +82,10 @@ impl super::super::SoftwareBackend {
                     // ascent too low.
                     let (text_center_x, text_center_y) = match origin {
                         Some((ox, oy)) => (ox - data.x, oy - baseline_y),
-                        None => (shaped.width / 2.0, shaped.height / 2.0 - shaped.baseline),
+                        None => (
+                            data.drawn_width(&shaped) / 2.0,
+                            shaped.height / 2.0 - shaped.baseline,
+                        ),
                     };
 
                     // Z rotation (true 2D rotation). tiny-skia's pre_rotate takes
@@ -117,14 +120,9 @@ impl super::super::SoftwareBackend {
                     // `\fscx` while the vertical stays `\fscy`. (For `\fscx` alone, y is
                     // 100 so this reduces to the plain x-scale; for uniform scaling the
                     // ratio is 1 and this is a no-op.)
-                    let x_scale = if *y != 0.0 { *x / *y } else { *x / 100.0 };
-                    if (x_scale - 1.0).abs() > 0.01 {
-                        let text_center_x = shaped.width / 2.0;
-                        base_transform = base_transform
-                            .pre_translate(text_center_x, 0.0)
-                            .pre_scale(x_scale, 1.0)
-                            .pre_translate(-text_center_x, 0.0);
-                    }
+                    // The run stays where it begins: its place is that of its left edge.
+                    let x_scale = ShapedText::stretch(*x, *y);
+                    base_transform = base_transform.pre_scale(x_scale, 1.0);
                 }
                 crate::pipeline::TextEffect::Shear { x, y } => {
                     // Apply shear (\fax/\fay) around the text centre. Shearing around
@@ -173,7 +171,7 @@ impl super::super::SoftwareBackend {
             &shaped,
             font_id,
             &self.font_database,
-            data.spacing,
+            data.glyph_spacing(),
         )?;
 
         // For \frx/\fry, project the positioned glyph paths through the perspective
diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index 2d0da33..20348f3 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -8,10 +8,10 @@ use std::vec::Vec;
 use ass_core::parser::Event;
 use tiny_skia::Transform;
 
-use super::{text::fade_factor, OwnedStyle};
+use super::{position::Placement, text::fade_factor, OwnedStyle};
 use crate::pipeline::{
-    animation::calculate_move_progress, drawing::process_drawing_commands,
-    text_segmenter::TextSegment, IntermediateLayer, StrokeInfo, VectorData,
+    drawing::process_drawing_commands, text_segmenter::TextSegment, IntermediateLayer, StrokeInfo,
+    VectorData,
 };
 use crate::renderer::RenderContext;
 use crate::utils::RenderError;
@@ -22,6 +22,7 @@ impl super::SoftwarePipeline {
         segment: &TextSegment,
         _event: &Event,
         style: Option<&OwnedStyle>,
+        placement: &Placement,
         time_cs: u32,
         context: &RenderContext,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
@@ -84,76 +85,13 @@ impl super::SoftwarePipeline {
                 .transform(Transform::from_scale(scale_x * unit, scale_y * unit))
                 .unwrap_or(path);
 
-            // Calculate position with proper scaling
-            let (x, y) = if let Some((px, py)) = tags.position {
-                // Scale from script coordinates to render coordinates
-                (px * scale_x, py * scale_y)
-            } else if let Some((x1, y1, x2, y2, t1, t2)) = tags.movement {
-                // Movement times are relative to event start
-                let event_start_cs = _event.start_time_cs().unwrap_or(0);
-                let event_end_cs = _event.end_time_cs().unwrap_or(u32::MAX);
-
-                // If t1 and t2 are both 0, movement spans the entire event duration
-                let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
-                    (event_start_cs, event_end_cs)
-                } else {
-                    (event_start_cs + t1, event_start_cs + t2)
-                };
-
-                let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
-                let x = x1 + (x2 - x1) * progress;
-                let y = y1 + (y2 - y1) * progress;
-                // Scale from script coordinates to render coordinates
-                (x * scale_x, y * scale_y)
-            } else {
-                // Default center (in render coordinates)
-                (context.width() as f32 / 2.0, context.height() as f32 / 2.0)
-            };
-
-            // Get path bounds to calculate proper alignment offset
+            // Where the bounding box of the path comes to lie
             let bounds = path.bounds();
 
-            // Get alignment from tags or style (default to 5 = center)
-            let alignment = tags
-                .formatting
-                .alignment
-                .map(|a| a as i32)
-                .or(style.and_then(|s| {
-                    // Parse alignment from style - it's stored as a string like "5"
-                    s.alignment.parse::<i32>().ok()
-                }))
-                .unwrap_or(5);
-
-            // Calculate alignment offset based on path bounds
-            // Alignment uses numpad layout: 1-3 bottom, 4-6 middle, 7-9 top
-            let (align_x_offset, align_y_offset) = {
-                // For alignment, we need to position the bounding box
-                // The \pos coordinate should be where the alignment point ends up
-
-                // Horizontal alignment: 1,4,7 = left, 2,5,8 = center, 3,6,9 = right
-                let x_offset = match alignment % 3 {
-                    1 => -bounds.left(), // Left align: move left edge to pos
-                    2 => -(bounds.left() + bounds.right()) / 2.0, // Center align: move center to pos
-                    0 => -bounds.right(), // Right align: move right edge to pos
-                    _ => -(bounds.left() + bounds.right()) / 2.0, // Default center
-                };
-
-                // Vertical alignment: 1,2,3 = bottom, 4,5,6 = middle, 7,8,9 = top
-                let y_offset = match alignment {
-                    1..=3 => -bounds.bottom(), // Bottom align: move bottom edge to pos
-                    4..=6 => -(bounds.top() + bounds.bottom()) / 2.0, // Middle align: move center to pos
-                    7..=9 => -bounds.top(), // Top align: move top edge to pos
-                    _ => -(bounds.top() + bounds.bottom()) / 2.0, // Default middle
-                };
-
-                (x_offset, y_offset)
-            };
-
-            // Apply transform to path with alignment offset
-            let transformed_path = path.transform(Transform::from_translate(
-                x + align_x_offset,
-                y + align_y_offset,
-            ));
+            // The point of them that the alignment names comes to lie on the anchor
+            let x = placement.left(bounds.width()) - bounds.left();
+            let y = placement.top(bounds.height()) - bounds.top();
+            let transformed_path = path.transform(Transform::from_translate(x, y));
 
             // `\clip` / `\iclip` coordinates are in script space (like `\pos`),
             // so scale them into render space the same way the text path does.
diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index 5525867..cfc648c 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -6,51 +6,71 @@ use crate::pipeline::{
 };
 use crate::renderer::RenderContext;
 use ass_core::parser::Event;
+use tiny_skia::Transform;
+
+use super::OwnedStyle;
+
+/// Where an event is placed on the frame, in render pixels.
+pub(super) struct Placement {
+    /// The point its text and drawings are aligned to.
+    pub(super) anchor: (f32, f32),
+    /// Numpad alignment: which point of them comes to lie on the anchor.
+    pub(super) alignment: u8,
+    /// Whether it pins its own position (`\pos`/`\move`), and is therefore exempt
+    /// from collision stacking.
+    pub(super) positioned: bool,
+    pub(super) margin_l: f32,
+    pub(super) margin_r: f32,
+    pub(super) margin_v: f32,
+}
 
-impl super::SoftwarePipeline {
-    /// Whether an event pins its own position (`\pos`/`\move`) and is therefore
-    /// exempt from collision stacking.
-    pub(super) fn event_is_positioned(event: &Event) -> bool {
-        event.text.contains("\\pos") || event.text.contains("\\move")
+impl Placement {
+    /// The left edge of what is `width` wide.
+    pub(super) fn left(&self, width: f32) -> f32 {
+        match self.alignment {
+            1 | 4 | 7 => self.anchor.0,
+            3 | 6 | 9 => self.anchor.0 - width,
+            _ => self.anchor.0 - width / 2.0,
+        }
     }
 
-    /// Effective vertical-alignment row for collision: an inline `\an` override
-    /// wins over the style alignment (default 2 = bottom-centre).
-    pub(super) fn effective_alignment(&self, event: &Event) -> u8 {
-        if let Some(idx) = event.text.find("\\an") {
-            if let Some(d) = event.text[idx + 3..]
-                .chars()
-                .next()
-                .and_then(|c| c.to_digit(10))
-            {
-                if (1..=9).contains(&d) {
-                    return d as u8;
-                }
-            }
+    /// The top edge of what is `height` high.
+    pub(super) fn top(&self, height: f32) -> f32 {
+        match self.alignment {
+            1..=3 => self.anchor.1 - height,
+            4..=6 => self.anchor.1 - height / 2.0,
+            _ => self.anchor.1,
         }
-        self.styles_map
-            .get(event.style)
-            .and_then(|s| s.alignment.parse::<u8>().ok())
-            .filter(|a| (1..=9).contains(a))
-            .unwrap_or(2)
     }
+}
 
-    /// Event vertical margin in render-pixel space (event margin overrides the
-    /// style margin; `0`/empty means "use the style").
-    pub(super) fn event_margin_v(&self, event: &Event, scale_y: f32) -> f32 {
-        let style_mv = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_v.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let mv = if event.margin_v.is_empty() || event.margin_v == "0" {
-            style_mv
-        } else {
-            event.margin_v.parse::<f32>().unwrap_or(style_mv)
-        };
-        mv * scale_y
-    }
+/// A margin in script units: that of the event, or the style's where it is 0.
+fn margin(event_margin: &str, style_margin: Option<&str>) -> f32 {
+    let read = |m: &str| m.trim().parse::<f32>().ok();
+    read(event_margin)
+        .filter(|m| *m != 0.0)
+        .or_else(|| style_margin.and_then(read))
+        .unwrap_or(0.0)
+}
+
+/// Where a `\move` has come to. Its times count from the start of the event; with
+/// both zero it takes the whole event.
+fn moved(movement: (f32, f32, f32, f32, u32, u32), event: &Event, time_cs: u32) -> (f32, f32) {
+    let (x1, y1, x2, y2, t1, t2) = movement;
+    let start = event.start_time_cs().unwrap_or(0);
+    let (from, to) = if t1 == 0 && t2 == 0 {
+        (start, event.end_time_cs().unwrap_or(u32::MAX))
+    } else {
+        (
+            start.saturating_add(t1.min(t2)),
+            start.saturating_add(t1.max(t2)),
+        )
+    };
+    let progress = calculate_move_progress(time_cs, from, to);
+    (x1 + (x2 - x1) * progress, y1 + (y2 - y1) * progress)
+}
 
+impl super::SoftwarePipeline {
     /// Approximate the rendered bounding box of an event from its text layers.
     /// Per-line height uses the nominal font size (`font_size / dpi_scale`) so it
     /// matches libass's baseline-to-baseline line box used for stacking.
@@ -80,231 +100,75 @@ impl super::SoftwarePipeline {
                 IntermediateLayer::Raster(raster) => {
                     raster.y = (raster.y as f32 + dy).max(0.0) as u32;
                 }
-                IntermediateLayer::Vector(_) => {}
+                IntermediateLayer::Vector(vector) => {
+                    let down = Transform::from_translate(0.0, dy);
+                    vector.path = vector.path.take().and_then(|path| path.transform(down));
+                }
             }
         }
     }
 
-    /// Resolve a margin (script coordinates): the event margin overrides the style
-    /// margin, but `0`/empty means "use the style".
-    pub(super) fn margin_or_style(event_margin: &str, style_margin: Option<&str>) -> f32 {
-        let style = style_margin
-            .and_then(|m| m.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        if event_margin.is_empty() || event_margin == "0" {
-            style
-        } else {
-            event_margin.parse::<f32>().unwrap_or(style)
-        }
-    }
-
-    pub(super) fn calculate_position_from_tags(
+    /// Where an event is placed: the place its `\pos` or `\move` gives, or else the
+    /// one its alignment and margins do.
+    pub(super) fn place_event(
         &self,
         tags: &ProcessedTags,
         event: &Event,
-        context: &RenderContext,
+        style: Option<&OwnedStyle>,
         time_cs: u32,
-        default_alignment: u8,
-    ) -> (f32, f32) {
-        // Calculate scaling factors
-        let scale_x = context.width() as f32 / self.play_res_x;
-        let scale_y = context.height() as f32 / self.play_res_y;
+        context: &RenderContext,
+    ) -> Placement {
+        let (width, height) = (context.width() as f32, context.height() as f32);
+        let scale_x = width / self.play_res_x;
+        let scale_y = height / self.play_res_y;
 
-        // Check for explicit position
-        if let Some((mut px, mut py)) = tags.position {
+        let alignment = tags
+            .formatting
+            .alignment
+            .or_else(|| style.and_then(|s| s.alignment.trim().parse().ok()))
+            .filter(|a| (1..=9).contains(a))
+            .unwrap_or(2);
+        let margin_l = margin(event.margin_l, style.map(|s| s.margin_l.as_str())) * scale_x;
+        let margin_r = margin(event.margin_r, style.map(|s| s.margin_r.as_str())) * scale_x;
+        let margin_v = margin(event.margin_v, style.map(|s| s.margin_v.as_str())) * scale_y;
+
+        let point = tags
+            .position
+            .or_else(|| tags.movement.map(|m| moved(m, event, time_cs)));
+        let anchor = if let Some((mut x, mut y)) = point {
             // If LayoutRes is present, positions are in LayoutRes coordinates
             // and need to be scaled to PlayRes first
             if let (Some(layout_x), Some(layout_y)) = (self.layout_res_x, self.layout_res_y) {
-                px *= self.play_res_x / layout_x;
-                py *= self.play_res_y / layout_y;
+                x *= self.play_res_x / layout_x;
+                y *= self.play_res_y / layout_y;
             }
             // Then scale from script (PlayRes) coordinates to render coordinates
-            return (px * scale_x, py * scale_y);
-        }
-
-        // Check for movement
-        if let Some((mut x1, mut y1, mut x2, mut y2, t1, t2)) = tags.movement {
-            // If LayoutRes is present, movement coordinates are in LayoutRes coordinates
-            if let (Some(layout_x), Some(layout_y)) = (self.layout_res_x, self.layout_res_y) {
-                x1 *= self.play_res_x / layout_x;
-                y1 *= self.play_res_y / layout_y;
-                x2 *= self.play_res_x / layout_x;
-                y2 *= self.play_res_y / layout_y;
-            }
-
-            // Movement times are relative to event start
-            let event_start_cs = event.start_time_cs().unwrap_or(0);
-            let event_end_cs = event.end_time_cs().unwrap_or(u32::MAX);
-
-            // t1/t2 already arrive in centiseconds: the \move parser converted the
-            // tag's milliseconds once. With both zero the movement spans the whole
-            // event duration (libass default).
-            let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
-                (event_start_cs, event_end_cs)
-            } else {
-                (event_start_cs + t1, event_start_cs + t2)
-            };
-
-            let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
-            let x = x1 + (x2 - x1) * progress;
-            let y = y1 + (y2 - y1) * progress;
-
-            // Scale from script (PlayRes) coordinates to render coordinates
-            return (x * scale_x, y * scale_y);
-        }
-
-        // Calculate based on alignment
-        let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-        self.calculate_position_from_alignment(alignment, event, context)
-    }
-
-    pub(super) fn calculate_position_from_alignment(
-        &self,
-        alignment: u8,
-        event: &Event,
-        context: &RenderContext,
-    ) -> (f32, f32) {
-        let width = context.width() as f32;
-        let height = context.height() as f32;
-
-        // Calculate scaling factors for margins
-        let scale_x = width / self.play_res_x;
-        let scale_y = height / self.play_res_y;
-
-        // Parse margins - use style margins if event margins are 0 or empty
-        // Get margins in script coordinates first
-        let style_margin_l = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_l.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let style_margin_r = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_r.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let style_margin_v = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_v.parse::<f32>().ok())
-            .unwrap_or(0.0);
-
-        // Get margins in script coordinates
-        let margin_l_script = if event.margin_l.is_empty() || event.margin_l == "0" {
-            style_margin_l
+            (x * scale_x, y * scale_y)
         } else {
-            event.margin_l.parse::<f32>().unwrap_or(style_margin_l)
-        };
-        let margin_r_script = if event.margin_r.is_empty() || event.margin_r == "0" {
-            style_margin_r
-        } else {
-            event.margin_r.parse::<f32>().unwrap_or(style_margin_r)
-        };
-        let margin_v_script = if event.margin_v.is_empty() || event.margin_v == "0" {
-            style_margin_v
-        } else {
-            event.margin_v.parse::<f32>().unwrap_or(style_margin_v)
-        };
-
-        // Scale margins to screen coordinates
-        let margin_l = margin_l_script * scale_x;
-        let margin_r = margin_r_script * scale_x;
-
-        // ASS alignment uses numpad layout
-        // SubStation numpad-style alignment:
-        // 7 8 9  (top-left, top-center, top-right)
-        // 4 5 6  (middle-left, middle-center, middle-right)
-        // 1 2 3  (bottom-left, bottom-center, bottom-right)
-
-        // For legacy alignment (\a tag), map to numpad:
-        // 1-3: bottom, 4-6: unused, 7-9: top, 10-12: middle
-        let mapped_alignment = if alignment > 9 {
-            // Legacy alignment mapping
-            match alignment {
-                10 => 4, // Left middle
-                11 => 5, // Center middle
-                12 => 6, // Right middle
-                _ => alignment,
-            }
-        } else {
-            alignment
-        };
-
-        // Return the anchor point based on alignment and margins
-        // This is where the aligned point of the text box should be placed
-        // ASS alignment uses numpad layout: 1,4,7 = left; 2,5,8 = center; 3,6,9 = right
-        let x = match mapped_alignment {
-            1 | 4 | 7 => margin_l,         // Left column
-            2 | 5 | 8 => width / 2.0,      // Center column
-            3 | 6 | 9 => width - margin_r, // Right column
-            _ => width / 2.0,              // Default center
-        };
-
-        // Position calculation following libass approach
-        // libass uses: (PlayResY - MarginV) * scale_y for bottom alignment
-        // Calculate position in script coordinates first, then scale to screen
-        let y_script = match mapped_alignment {
-            1..=3 => self.play_res_y - margin_v_script, // Bottom row: PlayResY - MarginV
-            4..=6 => self.play_res_y / 2.0,             // Middle row: PlayResY / 2
-            7..=9 => margin_v_script,                   // Top row: MarginV
-            _ => self.play_res_y - margin_v_script,     // Default bottom
-        };
-
-        // Transform from script coordinates to screen coordinates
-        let y = y_script * scale_y;
-
-        (x, y)
-    }
-
-    /// Apply alignment offset to convert from anchor point to top-left corner
-    /// Takes the anchor point and text dimensions, returns top-left corner for rendering
-    pub(super) fn apply_alignment_offset(
-        &self,
-        anchor_x: f32,
-        anchor_y: f32,
-        text_width: f32,
-        text_height: f32,
-        alignment: u8,
-    ) -> (f32, f32) {
-        // Map legacy alignment if needed
-        let mapped_alignment = if alignment > 9 {
-            match alignment {
-                10 => 4,
-                11 => 5,
-                12 => 6,
-                _ => alignment,
-            }
-        } else {
-            alignment
-        };
-
-        // Calculate horizontal offset based on alignment
-        // ASS alignment uses numpad layout: 1,4,7 = left; 2,5,8 = center; 3,6,9 = right
-        let x = match mapped_alignment {
-            1 | 4 | 7 => anchor_x,                    // Left-aligned: anchor is left edge
-            2 | 5 | 8 => anchor_x - text_width / 2.0, // Center-aligned: anchor is center
-            3 | 6 | 9 => anchor_x - text_width,       // Right-aligned: anchor is right edge
-            _ => anchor_x - text_width / 2.0,         // Default center
-        };
-
-        // Calculate vertical offset based on alignment
-        // For ASS/SSA subtitles, the anchor point represents:
-        // - Bottom alignment: where the bottom of the text block should be
-        // - Middle alignment: center of text box
-        // - Top alignment: top of text box
-        // We return the top-left corner position for rendering
-        let y = match mapped_alignment {
-            1..=3 => {
-                // Bottom: anchor is where bottom of text should be
-                // Subtract text_height to get top of text box
-                // libass uses font metrics for exact positioning, not hardcoded factors
-                anchor_y - text_height
-            }
-            4..=6 => anchor_y - text_height / 2.0, // Middle: anchor is center
-            7..=9 => anchor_y,                     // Top: anchor is top edge
-            _ => anchor_y - text_height,           // Default bottom
+            // ASS alignment uses numpad layout:
+            // 7 8 9  (top-left, top-center, top-right)
+            // 4 5 6  (middle-left, middle-center, middle-right)
+            // 1 2 3  (bottom-left, bottom-center, bottom-right)
+            let x = match alignment {
+                1 | 4 | 7 => margin_l,
+                3 | 6 | 9 => width - margin_r,
+                _ => (margin_l + width - margin_r) / 2.0,
+            };
+            let y = match alignment {
+                1..=3 => height - margin_v,
+                4..=6 => height / 2.0,
+                _ => margin_v,
+            };
+            (x, y)
         };
 
-        (x, y)
+        Placement {
+            anchor,
+            alignment,
+            positioned: point.is_some(),
+            margin_l,
+            margin_r,
+            margin_v,
+        }
     }
 }
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index fd26057..9a5a607 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -9,9 +9,10 @@ use std::{string::ToString, vec::Vec};
 use ass_core::analysis::ScriptAnalysis;
 use ass_core::parser::{Event, Script, Section};
 
+use super::position::Placement;
 use super::OwnedStyle;
 use crate::collision::PositionedEvent;
-use crate::pipeline::{text_segmenter::segment_text_with_tags, IntermediateLayer, Pipeline};
+use crate::pipeline::{text_segmenter::segment_line, IntermediateLayer, Pipeline};
 use crate::renderer::RenderContext;
 use crate::utils::{DirtyRegion, RenderError};
 
@@ -21,13 +22,9 @@ impl super::SoftwarePipeline {
         event: &Event,
         time_cs: u32,
         context: &RenderContext,
-    ) -> Result<Vec<IntermediateLayer>, RenderError> {
+    ) -> Result<(Vec<IntermediateLayer>, Placement), RenderError> {
         // Get text segments with their individual tags
-        let segments = segment_text_with_tags(event.text, None)?;
-
-        if segments.is_empty() {
-            return Ok(Vec::new());
-        }
+        let (segments, line_tags) = segment_line(event.text, None)?;
 
         // Clone the style to avoid borrow issues
         let style_cloned = self
@@ -35,9 +32,10 @@ impl super::SoftwarePipeline {
             .get(event.style)
             .or(self.default_style.as_ref())
             .cloned();
+        let style = style_cloned.as_ref();
+        let placement = self.place_event(&line_tags, event, style, time_cs, context);
 
         // Drawings are placed on their own; the rest of the event is its text
-        let style = style_cloned.as_ref();
         let (drawings, texts): (Vec<_>, Vec<_>) = segments
             .into_iter()
             .partition(|s| s.tags.drawing_mode.is_some_and(|level| level > 0));
@@ -46,13 +44,17 @@ impl super::SoftwarePipeline {
             let reset = drawing.tags.reset.as_ref();
             let reset = reset.and_then(|name| self.styles_map.get(name)).cloned();
             let style = reset.as_ref().or(style);
-            layers.extend(self.process_drawing_command(drawing, event, style, time_cs, context)?);
+            layers.extend(
+                self.process_drawing_command(drawing, event, style, &placement, time_cs, context)?,
+            );
         }
         if !texts.is_empty() {
-            layers.extend(self.process_text_segments(texts, event, style, time_cs, context)?);
+            layers.extend(
+                self.process_text_segments(texts, event, style, &placement, time_cs, context)?,
+            );
         }
 
-        Ok(layers)
+        Ok((layers, placement))
     }
 }
 
@@ -249,24 +251,22 @@ impl Pipeline for super::SoftwarePipeline {
             layer_a.cmp(&layer_b).then(start_a.cmp(&start_b))
         });
 
-        let scale_y = context.height() as f32 / self.play_res_y;
-
         // Process each event, applying collision resolution so simultaneous
         // non-positioned events stack instead of overlapping (libass "Normal"
         // collisions). Positioned events (\pos/\move) are exempt and do not
         // participate in stacking.
         for event in sorted_events {
-            let mut event_layers = self.process_event(event, time_cs, context)?;
+            let (mut event_layers, placement) = self.process_event(event, time_cs, context)?;
 
-            if !Self::event_is_positioned(event) {
+            if !placement.positioned {
                 if let Some(bbox) = self.event_bounding_box(&event_layers) {
                     let positioned = PositionedEvent {
                         bbox,
                         layer: event.layer.parse::<i32>().unwrap_or(0),
-                        margin_v: self.event_margin_v(event, scale_y) as i32,
+                        margin_v: placement.margin_v as i32,
                         margin_l: 0,
                         margin_r: 0,
-                        alignment: self.effective_alignment(event),
+                        alignment: placement.alignment,
                         priority: 0,
                     };
                     let resolved = self.collision_resolver.find_position(positioned);
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index 9980974..9bd1e81 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -16,46 +16,29 @@ use crate::pipeline::{
 use super::types::{RunCtx, TextDefaults};
 
 /// Split the event's tagged segments into logical lines on explicit `\N`
-/// newlines, preserving per-segment tags.
+/// newlines, preserving per-segment tags. A line without text stays as an empty one.
 pub(super) fn split_into_logical_lines(segments: Vec<TextSegment>) -> Vec<Vec<TextSegment>> {
-    let mut logical_lines: Vec<Vec<TextSegment>> = Vec::new();
-    let mut current_line_segments: Vec<TextSegment> = Vec::new();
+    let mut lines: Vec<Vec<TextSegment>> = Vec::new();
+    let mut line: Vec<TextSegment> = Vec::new();
 
     for segment in segments {
-        if segment.text.is_empty() {
-            continue;
-        }
-
-        // Check for newlines
-        if segment.text.contains('\n') {
-            let parts: Vec<&str> = segment.text.split('\n').collect();
-            for (i, part) in parts.iter().enumerate() {
-                if i > 0 && !current_line_segments.is_empty() {
-                    logical_lines.push(current_line_segments.clone());
-                    current_line_segments.clear();
-                }
-
-                if !part.is_empty() {
-                    let sub_segment = TextSegment {
-                        text: part.to_string(),
-                        start: segment.start,
-                        end: segment.end,
-                        tags: segment.tags.clone(),
-                    };
-                    current_line_segments.push(sub_segment);
-                }
+        for (i, part) in segment.text.split('\n').enumerate() {
+            if i > 0 {
+                lines.push(core::mem::take(&mut line));
+            }
+            if !part.is_empty() {
+                line.push(TextSegment {
+                    text: part.to_string(),
+                    start: segment.start,
+                    end: segment.end,
+                    tags: segment.tags.clone(),
+                });
             }
-        } else {
-            current_line_segments.push(segment);
         }
     }
+    lines.push(line);
 
-    // Add the last line
-    if !current_line_segments.is_empty() {
-        logical_lines.push(current_line_segments);
-    }
-
-    logical_lines
+    lines
 }
 
 /// Resolve the primary, outline, and shadow colours for a run, applying the
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index b0fe4fb..17fb44e 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -16,7 +16,7 @@ use ahash::AHashMap;
 use ass_core::parser::Event;
 use smallvec::SmallVec;
 
-use super::OwnedStyle;
+use super::{position::Placement, OwnedStyle};
 use crate::pipeline::{
     shaping::shape_text_cached,
     tag_processor::{KaraokeStyle, ProcessedTags},
@@ -29,13 +29,12 @@ use crate::utils::RenderError;
 mod colors;
 mod defaults;
 mod effects;
-mod position;
 mod types;
 
 pub(super) use colors::fade_factor;
 use colors::{resolve_run_colors, split_into_logical_lines};
 pub(super) use types::TextDefaults;
-use types::{EffectColors, LineLayout, Pen, RunCtx};
+use types::{EffectColors, LineRun, RunCtx};
 
 impl super::SoftwarePipeline {
     pub(super) fn process_text_segments(
@@ -43,6 +42,7 @@ impl super::SoftwarePipeline {
         segments: Vec<TextSegment>,
         event: &Event,
         style: Option<&OwnedStyle>,
+        placement: &Placement,
         time_cs: u32,
         context: &RenderContext,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
@@ -66,9 +66,6 @@ impl super::SoftwarePipeline {
         };
         let defaults = self.resolve_text_defaults(style, scale_y);
 
-        // Get base position from first segment - we'll adjust per-segment as needed
-        let _base_tags = &segments[0].tags;
-
         // Effective wrap style: a `\q` override (clamped to 0..=3, like libass which
         // falls back to the track style on an invalid value) takes precedence over
         // the script's WrapStyle header.
@@ -85,12 +82,9 @@ impl super::SoftwarePipeline {
         // explicit \N breaks, already split into logical_lines); positioned events
         // (\pos/\move) keep their explicit layout. WrapStyle 1 wraps greedily with
         // no balancing; 0/3 balance the lines (libass smart wrapping).
-        if !Self::event_is_positioned(event) && event_wrap_style != 2 {
-            let margin_l =
-                Self::margin_or_style(event.margin_l, style.map(|s| s.margin_l.as_str()));
-            let margin_r =
-                Self::margin_or_style(event.margin_r, style.map(|s| s.margin_r.as_str()));
-            let available = (context.width() as f32 - (margin_l + margin_r) * scale_x).max(1.0);
+        if !placement.positioned && event_wrap_style != 2 {
+            let margins = placement.margin_l + placement.margin_r;
+            let available = (context.width() as f32 - margins).max(1.0);
             let balance = event_wrap_style != 1;
             let mut wrapped: Vec<Vec<TextSegment>> = Vec::with_capacity(logical_lines.len());
             for line in logical_lines {
@@ -105,6 +99,7 @@ impl super::SoftwarePipeline {
                     defaults.italic,
                     defaults.spacing,
                     defaults.scale_x,
+                    scale_x,
                     scale_y,
                     available,
                     balance,
@@ -113,19 +108,11 @@ impl super::SoftwarePipeline {
             logical_lines = wrapped;
         }
 
-        // Calculate total height for multi-line text
-        let num_lines = logical_lines.len();
-        // For line height in libass:
-        // - Line spacing uses the font size in script resolution scaled to render resolution
-        // - DPI scaling affects glyph rendering but NOT line spacing
-        // - ScaleY affects glyph size but NOT line spacing
-        let line_spacing_multiplier = 1.0; // Match libass line spacing
-
         // Line height for spacing between lines (not affected by the glyph DPI
         // scale in libass). libass advances by the line's font size, so use the
-        // largest font size across the event (covering inline `\fs` overrides)
-        // rather than only the style default, which packed large-`\fs` lines too
-        // tightly.
+        // largest font size across the event's text (covering inline `\fs` overrides)
+        // rather than the style default, which packed large-`\fs` lines too tightly
+        // and set small ones too far apart.
         let max_font_size = logical_lines
             .iter()
             .flatten()
@@ -134,12 +121,16 @@ impl super::SoftwarePipeline {
                 let size = seg.tags.font.size;
                 size.unwrap_or_else(|| self.resolve_text_defaults(style, scale_y).font_size_base)
             })
-            .fold(defaults.font_size_base, f32::max);
+            .fold(0.0, f32::max);
         let estimated_line_height = max_font_size * scale_y;
 
-        let _total_text_height = estimated_line_height * num_lines as f32 * line_spacing_multiplier;
-
-        // Process each logical line
+        // An empty line is half as high as one with text, as in libass.
+        let line_height = |line: &[TextSegment]| {
+            let share = if line.is_empty() { 0.5 } else { 1.0 };
+            estimated_line_height * share
+        };
+        let text_height: f32 = logical_lines.iter().map(|line| line_height(line)).sum();
+        let is_multi_line = logical_lines.len() > 1;
         let mut line_y_offset = 0.0;
 
         let run_ctx = RunCtx {
@@ -150,49 +141,14 @@ impl super::SoftwarePipeline {
             scale_y,
         };
 
-        for (line_index, line_segments) in logical_lines.into_iter().enumerate() {
-            // For a multi-segment line, total rendered width so it is aligned as
-            // one unit rather than each segment re-centering on its own width. A
-            // single-segment line uses its per-segment shaped width below (which
-            // already reflects \t animations), so skip the pre-pass there.
-            let is_multi_segment = line_segments.len() > 1;
-            let line_total_width: f32 = if is_multi_segment {
-                line_segments
-                    .iter()
-                    .map(|seg| {
-                        let defaults = self.resolve_text_defaults(style_of(&seg.tags), scale_y);
-                        let size = seg.tags.font.size.unwrap_or(defaults.font_size_base)
-                            * scale_y
-                            * (seg.tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0)
-                            * self.dpi_scale;
-                        let fsx = seg.tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
-                        let font = seg.tags.font.name.as_deref().unwrap_or(defaults.font_name);
-                        let bold = seg.tags.formatting.bold.unwrap_or(defaults.bold);
-                        let italic = seg.tags.formatting.italic.unwrap_or(defaults.italic);
-                        shape_text_cached(&seg.text, font, size, bold, italic, &self.font_database)
-                            .map_or(0.0, |sh| sh.width * fsx)
-                    })
-                    .sum()
-            } else {
-                0.0
-            };
-            let mut pen = Pen {
-                current_x: 0.0,
-                needs_initial_position: true,
-            };
-            let layout = LineLayout {
-                is_multi_segment,
-                line_total_width,
-                num_lines,
-                line_index,
-                estimated_line_height,
-                line_spacing_multiplier,
-                line_y_offset,
-            };
+        for line_segments in logical_lines {
+            let line_height = line_height(&line_segments);
 
+            // Shape every run of the line first: the line is aligned as one unit and
+            // its runs stand on one baseline.
+            let mut runs = Vec::with_capacity(line_segments.len());
             for segment in line_segments {
-                let mut tags = segment.tags.clone();
-                let line_text = &segment.text;
+                let mut tags = segment.tags;
                 let style = style_of(&tags);
                 let defaults = self.resolve_text_defaults(style, scale_y);
 
@@ -206,56 +162,76 @@ impl super::SoftwarePipeline {
                     &defaults,
                 );
 
-                // Shape the text first to get dimensions for proper alignment
                 // Get base font size and scale factors
                 let base_font_size = tags.font.size.unwrap_or(defaults.font_size_base); // Use unscaled base size
-                let font_scale_x = tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
-                let font_scale_y = tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0;
+                let font_scale_x = tags.font.scale_x.unwrap_or(defaults.scale_x);
+                let font_scale_y = tags.font.scale_y.unwrap_or(defaults.scale_y);
                 // Apply both resolution scaling, percentage scaling, and DPI scaling
-                let actual_font_size = base_font_size * scale_y * font_scale_y * self.dpi_scale;
-
-                let font_to_use = tags.font.name.as_deref().unwrap_or(defaults.font_name);
-
+                let font_size = base_font_size * scale_y * (font_scale_y / 100.0) * self.dpi_scale;
                 let shaped = shape_text_cached(
-                    line_text,
-                    font_to_use,
-                    actual_font_size,
+                    &segment.text,
+                    tags.font.name.as_deref().unwrap_or(defaults.font_name),
+                    font_size,
                     tags.formatting.bold.unwrap_or(defaults.bold),
                     tags.formatting.italic.unwrap_or(defaults.italic),
                     &self.font_database,
                 )?;
 
-                // Calculate position for this segment
-                let (segment_x, segment_y) = self.position_segment(
-                    &tags,
-                    &shaped,
-                    &layout,
-                    &mut pen,
-                    &run_ctx,
-                    defaults.alignment,
-                );
+                // Get spacing value (from tags or default style). `\fsp`/style
+                // spacing is in script units; scale it to screen like positions so
+                // the rendered run width (and thus wrapping) matches libass, which
+                // applies fsp * scale. Unscaled, spaced text drew ~2% too wide.
+                let spacing = tags.font.spacing.unwrap_or(defaults.spacing) * scale_x;
 
-                // Get font information with proper inheritance
-                let font_family = tags.font.name.as_deref().unwrap_or(defaults.font_name);
-                // Font size was already calculated above for shaping
-                // Use the same value here for consistency
-                let font_size = actual_font_size;
+                runs.push(LineRun {
+                    width: shaped.drawn_width(spacing, font_scale_x, font_scale_y),
+                    gap: spacing * font_scale_x / 100.0,
+                    text: segment.text,
+                    tags,
+                    style,
+                    defaults,
+                    font_size,
+                    spacing,
+                    shaped,
+                });
+            }
+
+            // The spacing after a run parts it from the next one on the line
+            let gaps = runs.iter().rev().skip(1).map(|run| run.gap);
+            let line_width = runs.iter().map(|run| run.width).chain(gaps).sum();
+            let ascent = runs.iter().map(|r| r.shaped.ascent).fold(0.0, f32::max);
+            let descent = runs.iter().map(|r| r.shaped.descent).fold(0.0, f32::min);
+            let line_top = if is_multi_line {
+                placement.top(text_height) + line_y_offset
+            } else {
+                placement.top(ascent - descent)
+            };
+            let mut pen_x = placement.left(line_width);
 
-                // Note: 'shaped' was already created above for alignment calculation
+            for run in runs {
+                let LineRun {
+                    text: line_text,
+                    tags,
+                    style,
+                    defaults,
+                    font_size,
+                    spacing,
+                    ..
+                } = run;
+                let segment_x = pen_x;
+                let segment_y = line_top + ascent - run.shaped.ascent;
+                // The next run on the line continues right after this one
+                pen_x += run.width + run.gap;
 
+                // Get font information with proper inheritance
+                let font_family = tags.font.name.as_deref().unwrap_or(defaults.font_name);
                 // Resolve colours, alpha overrides, and fade for this run.
                 let (color, outline_color, shadow_color) =
                     resolve_run_colors(&tags, &defaults, &run_ctx);
 
-                // Get spacing value (from tags or default style). `\fsp`/style
-                // spacing is in script units; scale it to screen like positions so
-                // the rendered run width (and thus wrapping) matches libass, which
-                // applies fsp * scale. Unscaled, spaced text drew ~2% too wide.
-                let spacing = tags.font.spacing.unwrap_or(defaults.spacing) * scale_x;
-
                 // Create text layer
                 let mut layer = TextData {
-                    text: line_text.to_string(),
+                    text: line_text,
                     font_family: font_family.to_string(),
                     font_size,
                     color,
@@ -321,15 +297,6 @@ impl super::SoftwarePipeline {
                     });
                 }
 
-                // Advance the pen to the end of this segment so the next run on the
-                // line continues right after it. Always use the real shaped advance:
-                // the old character-count estimate (used whenever alignment was set,
-                // including inherited `\an`) over-advanced and left gaps between the
-                // runs of a multi-segment line.
-                if let Some(advance) = shaped.total_advance() {
-                    pen.current_x += advance * font_scale_x;
-                }
-
                 all_layers.push(IntermediateLayer::Text(layer));
             }
 
@@ -337,7 +304,7 @@ impl super::SoftwarePipeline {
             // render resolution), matching libass's baseline-to-baseline spacing.
             // `line_height` carries the 0.9 glyph dpi_scale, which libass does not
             // apply to line advance, so it must not be used here.
-            line_y_offset += estimated_line_height * line_spacing_multiplier;
+            line_y_offset += line_height;
         }
 
         Ok(all_layers)
diff --git a/crates/ass-renderer/src/pipeline/build/text/position.rs b/crates/ass-renderer/src/pipeline/build/text/position.rs
deleted file mode 100644
index 2bf4840..0000000
--- a/crates/ass-renderer/src/pipeline/build/text/position.rs
+++ /dev/null
@@ -1,183 +0,0 @@
-//! Per-segment positioning for the software pipeline: anchoring lines, applying
-//! alignment offsets, and advancing the line pen.
-
-use super::types::{LineLayout, Pen, RunCtx};
-use crate::pipeline::shaping::ShapedText;
-use crate::pipeline::tag_processor::ProcessedTags;
-
-impl super::super::SoftwarePipeline {
-    /// Compute the top-left render position of a segment, advancing the line's
-    /// pen and seeding it on the first segment of the line.
-    pub(super) fn position_segment(
-        &self,
-        tags: &ProcessedTags,
-        shaped: &ShapedText,
-        layout: &LineLayout,
-        pen: &mut Pen,
-        ctx: &RunCtx,
-        default_alignment: u8,
-    ) -> (f32, f32) {
-        let event = ctx.event;
-        let context = ctx.context;
-        let time_cs = ctx.time_cs;
-        let is_multi_segment = layout.is_multi_segment;
-        let line_total_width = layout.line_total_width;
-        let num_lines = layout.num_lines;
-        let line_index = layout.line_index;
-        let estimated_line_height = layout.estimated_line_height;
-        let line_spacing_multiplier = layout.line_spacing_multiplier;
-        let line_y_offset = layout.line_y_offset;
-
-        if tags.position.is_some() || tags.movement.is_some() {
-            // Explicit \pos/\move override (inherited by every segment of the
-            // line). The first segment anchors the whole line — centred on the
-            // full line width for multi-segment lines — and seeds current_x;
-            // later segments continue left-to-right from current_x instead of
-            // each re-centering on the same point (which stacked karaoke and
-            // colour-split segments on top of one another).
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_tags(tags, event, context, time_cs, default_alignment);
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            if pen.needs_initial_position {
-                let line_width = if is_multi_segment {
-                    line_total_width
-                } else {
-                    shaped.width
-                };
-                let (x, y) = self.apply_alignment_offset(
-                    anchor_x,
-                    anchor_y,
-                    line_width,
-                    shaped.height,
-                    alignment,
-                );
-                pen.current_x = x;
-                pen.needs_initial_position = false;
-                (x, y)
-            } else {
-                let (_, y) = self.apply_alignment_offset(
-                    anchor_x,
-                    anchor_y,
-                    shaped.width,
-                    shaped.height,
-                    alignment,
-                );
-                (pen.current_x, y)
-            }
-        } else if pen.needs_initial_position {
-            // First segment of the line: position the whole line. Later
-            // segments continue from current_x (below) so they lay out
-            // left-to-right instead of each re-centering.
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_alignment(alignment, event, context);
-
-            // For multi-line text, adjust positioning based on alignment
-            let adjusted_y = if num_lines > 1 {
-                match alignment {
-                    1..=3 => {
-                        // Bottom alignment: stack lines upward from bottom
-                        // First line is at the bottom, subsequent lines above it
-                        let line_offset = (num_lines - 1 - line_index) as f32
-                            * estimated_line_height
-                            * line_spacing_multiplier;
-                        anchor_y - line_offset
-                    }
-                    7..=9 => {
-                        // Top alignment: stack lines downward from top
-                        anchor_y + line_y_offset
-                    }
-                    _ => {
-                        // Middle alignment: center the block vertically
-                        let block_offset = -((num_lines as f32 - 1.0)
-                            * estimated_line_height
-                            * line_spacing_multiplier
-                            / 2.0);
-                        anchor_y + block_offset + line_y_offset
-                    }
-                }
-            } else {
-                anchor_y
-            };
-
-            // For multi-line text, use the line height for vertical positioning
-            // to ensure proper spacing between lines
-            let height_for_positioning = if num_lines > 1 {
-                estimated_line_height
-            } else {
-                shaped.height
-            };
-
-            // Multi-segment lines centre on the whole-line width; single
-            // segments use their own shaped width (reflects \t animations).
-            let line_width = if is_multi_segment {
-                line_total_width
-            } else {
-                shaped.width
-            };
-            let (x, y) = self.apply_alignment_offset(
-                anchor_x,
-                adjusted_y,
-                line_width,
-                height_for_positioning,
-                alignment,
-            );
-
-            // Start the pen at the line's left edge; the post-draw advance
-            // below moves current_x past each segment (centering uses the
-            // whole line's width so multi-segment lines align as a unit).
-            pen.current_x = x;
-            pen.needs_initial_position = false;
-            (x, y)
-        } else {
-            // Continue from previous segment position
-            // Need to maintain the absolute Y position from the previous segment
-            // For now, calculate it based on alignment and line offset
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_alignment(alignment, event, context);
-
-            let adjusted_y = if num_lines > 1 {
-                match alignment {
-                    1..=3 => {
-                        // Bottom alignment: stack lines upward from bottom
-                        let line_offset = (num_lines - 1 - line_index) as f32
-                            * estimated_line_height
-                            * line_spacing_multiplier;
-                        anchor_y - line_offset
-                    }
-                    7..=9 => {
-                        // Top alignment: stack lines downward from top
-                        anchor_y + line_y_offset
-                    }
-                    _ => {
-                        // Middle alignment: center the block vertically
-                        let block_offset = -((num_lines as f32 - 1.0)
-                            * estimated_line_height
-                            * line_spacing_multiplier
-                            / 2.0);
-                        anchor_y + block_offset + line_y_offset
-                    }
-                }
-            } else {
-                anchor_y
-            };
-
-            // For multi-line text, use the line height for vertical positioning
-            let height_for_positioning = if num_lines > 1 {
-                estimated_line_height
-            } else {
-                shaped.height
-            };
-
-            let (_, y) = self.apply_alignment_offset(
-                anchor_x,
-                adjusted_y,
-                shaped.width,
-                height_for_positioning,
-                alignment,
-            );
-            (pen.current_x, y)
-        }
-    }
-}
diff --git a/crates/ass-renderer/src/pipeline/build/text/types.rs b/crates/ass-renderer/src/pipeline/build/text/types.rs
index de3d6fa..17f77a7 100644
--- a/crates/ass-renderer/src/pipeline/build/text/types.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/types.rs
@@ -1,10 +1,15 @@
 //! Shared layout types for the software pipeline's text builder: style-derived
-//! defaults, per-call and per-line context, pen state, and resolved effect
-//! colours. Consumed by the descendant `defaults`/`position`/`effects` modules
+//! defaults, per-call context, the runs of a line, and resolved effect
+//! colours. Consumed by the descendant `defaults`/`effects` modules
 //! and the orchestrator in the parent module.
 
+#[cfg(feature = "nostd")]
+use alloc::string::String;
+
 use ass_core::parser::Event;
 
+use crate::pipeline::build::OwnedStyle;
+use crate::pipeline::{shaping::ShapedText, tag_processor::ProcessedTags};
 use crate::renderer::RenderContext;
 
 /// Style-derived defaults (font, size, colours, formatting) resolved once per
@@ -40,21 +45,19 @@ pub(super) struct RunCtx<'a, 'b> {
     pub(super) scale_y: f32,
 }
 
-/// Per-line layout constants consumed when positioning each segment.
-pub(super) struct LineLayout {
-    pub(super) is_multi_segment: bool,
-    pub(super) line_total_width: f32,
-    pub(super) num_lines: usize,
-    pub(super) line_index: usize,
-    pub(super) estimated_line_height: f32,
-    pub(super) line_spacing_multiplier: f32,
-    pub(super) line_y_offset: f32,
-}
-
-/// Pen state carried across the segments of a single line.
-pub(super) struct Pen {
-    pub(super) current_x: f32,
-    pub(super) needs_initial_position: bool,
+/// A run of a line, shaped and measured, before it is placed.
+pub(super) struct LineRun<'a> {
+    pub(super) text: String,
+    pub(super) tags: ProcessedTags,
+    pub(super) style: Option<&'a OwnedStyle>,
+    pub(super) defaults: TextDefaults<'a>,
+    pub(super) font_size: f32,
+    pub(super) spacing: f32,
+    pub(super) shaped: ShapedText,
+    /// The width it is drawn with.
+    pub(super) width: f32,
+    /// What parts it from the next run on the line.
+    pub(super) gap: f32,
 }
 
 /// Resolved outline and shadow colours handed to the effects builder.
diff --git a/crates/ass-renderer/src/pipeline/build/wrap.rs b/crates/ass-renderer/src/pipeline/build/wrap.rs
index 35f076d..e36c12b 100644
--- a/crates/ass-renderer/src/pipeline/build/wrap.rs
+++ b/crates/ass-renderer/src/pipeline/build/wrap.rs
@@ -5,7 +5,10 @@ use alloc::{string::String, vec, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::{string::String, vec::Vec};
 
-use crate::pipeline::{shaping::shape_text_cached, text_segmenter::TextSegment};
+use crate::pipeline::{
+    shaping::{shape_text_cached, ShapedText},
+    text_segmenter::TextSegment,
+};
 
 impl super::SoftwarePipeline {
     /// Word-wrap a logical line (one or more tagged segments) to fit `max_width`
@@ -25,6 +28,7 @@ impl super::SoftwarePipeline {
         default_italic: bool,
         default_spacing: f32,
         default_scale_x: f32,
+        scale_x: f32,
         scale_y: f32,
         max_width: f32,
         balance: bool,
@@ -73,16 +77,17 @@ impl super::SoftwarePipeline {
         // screen `size`, so scale spacing to screen too (libass uses fsp * scale).
         // Adding it unscaled over-measures the line and forces an early wrap (an
         // extra line vs libass on borderline-width subtitles).
-        let spacing = lead.tags.font.spacing.unwrap_or(default_spacing) * scale_y;
+        let spacing = lead.tags.font.spacing.unwrap_or(default_spacing) * scale_x;
         // The shaped advance already carries \fscy (folded into `size`), and the
         // render's net horizontal scale is \fscx, so the wrap multiplier is the
         // x/y ratio (reduces to \fscx/100 in the common \fscy=100 case).
         let scale_y_pct = lead.tags.font.scale_y.unwrap_or(default_scale_y);
-        let sx = if scale_y_pct.abs() > 0.01 {
-            lead.tags.font.scale_x.unwrap_or(default_scale_x) / scale_y_pct
-        } else {
-            lead.tags.font.scale_x.unwrap_or(default_scale_x) / 100.0
-        };
+        let sx = ShapedText::stretch(
+            lead.tags.font.scale_x.unwrap_or(default_scale_x),
+            scale_y_pct,
+        );
+        // Spacing is stretched with the glyphs, to \fscx of its own size.
+        let spacing = spacing * scale_y_pct / 100.0;
         let measure = |s: &str| -> (f32, f32, f32) {
             // (advance, ink_min, ink_max)
             shape_text_cached(s, font, size, bold, italic, &self.font_database)
diff --git a/crates/ass-renderer/src/pipeline/mod.rs b/crates/ass-renderer/src/pipeline/mod.rs
index aec0dd1..bafb1bc 100644
--- a/crates/ass-renderer/src/pipeline/mod.rs
+++ b/crates/ass-renderer/src/pipeline/mod.rs
@@ -170,6 +170,30 @@ pub struct TextData {
     pub spacing: f32,
 }
 
+#[cfg(feature = "software-backend")]
+impl TextData {
+    /// The horizontal and vertical scale it is drawn at, in percent.
+    pub(crate) fn scale(&self) -> (f32, f32) {
+        let scale = self.effects.iter().find_map(|effect| match effect {
+            TextEffect::Scale { x, y } => Some((*x, *y)),
+            _ => None,
+        });
+        scale.unwrap_or((100.0, 100.0))
+    }
+
+    /// The spacing between its glyphs as they are shaped: it is stretched with them,
+    /// and they have the vertical scale in their size already.
+    pub(crate) fn glyph_spacing(&self) -> f32 {
+        self.spacing * self.scale().1 / 100.0
+    }
+
+    /// The width it is drawn with.
+    pub(crate) fn drawn_width(&self, shaped: &shaping::ShapedText) -> f32 {
+        let (x, y) = self.scale();
+        shaped.drawn_width(self.spacing, x, y)
+    }
+}
+
 /// Text effect enumeration
 #[derive(Clone, Debug)]
 pub enum TextEffect {
diff --git a/crates/ass-renderer/src/pipeline/shaping/mod.rs b/crates/ass-renderer/src/pipeline/shaping/mod.rs
index 51c612d..6007bef 100644
--- a/crates/ass-renderer/src/pipeline/shaping/mod.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/mod.rs
@@ -62,6 +62,23 @@ pub struct ShapedText {
 }
 
 impl ShapedText {
+    /// How much wider than high the glyphs are drawn: `\fscy` is part of the font
+    /// size, so `\fscx` is reached by stretching them horizontally.
+    pub(crate) fn stretch(scale_x: f32, scale_y: f32) -> f32 {
+        if scale_y == 0.0 {
+            scale_x / 100.0
+        } else {
+            scale_x / scale_y
+        }
+    }
+
+    /// The width the run is drawn with, `spacing` apart and at the scales given in
+    /// percent; nothing follows the last glyph.
+    pub(crate) fn drawn_width(&self, spacing: f32, scale_x: f32, scale_y: f32) -> f32 {
+        let gaps = self.glyphs.len().saturating_sub(1) as f32;
+        self.width * Self::stretch(scale_x, scale_y) + gaps * spacing * scale_x / 100.0
+    }
+
     /// Get the total horizontal advance of the shaped text
     pub fn total_advance(&self) -> Option<f32> {
         if self.glyphs.is_empty() {
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index e03e162..6f44f1c 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -34,6 +34,17 @@ fn switch(args: &str, slot: &mut Option<bool>) {
     value(args, |a| Some(a != "0"), slot);
 }
 
+/// The numpad alignment a legacy `\a` stands for: 1 to 3 at the bottom, 5 to 7 at
+/// the top, 9 to 11 in the middle.
+fn numpad_alignment(legacy: u8) -> Option<u8> {
+    match legacy {
+        1..=3 => Some(legacy),
+        5..=7 => Some(legacy + 2),
+        9..=11 => Some(legacy - 5),
+        _ => None,
+    }
+}
+
 /// Begin the karaoke syllable a tag asks for: it starts when the one before it ends.
 fn syllable(args: &str, style: KaraokeStyle, current: &mut Option<KaraokeData>) {
     if let Ok(duration) = args.parse::<u32>() {
@@ -180,23 +191,24 @@ pub(super) fn process_tag_block(
                 *current = reset;
             }
 
-            // Alignment tags
+            // Alignment tags: the first one holds for the whole event
             "a" | "an" => {
-                if let Ok(align) = args.parse::<u8>() {
-                    current.formatting.alignment = Some(align);
-                }
+                let align = match args.parse::<u8>() {
+                    Ok(value @ 1..=9) if name == "an" => Some(value),
+                    Ok(value) if name == "a" => numpad_alignment(value),
+                    _ => None,
+                };
+                let held = &mut current.formatting.alignment;
+                *held = held.or(align);
             }
 
-            // Position tags - these apply to the whole event, not segments
-            "pos" => {
-                if let Some((x, y)) = parse_pos_args(args) {
-                    current.position = Some((x, y));
-                }
+            // Position tags - these apply to the whole event, not segments, and only
+            // the first of them counts
+            "pos" if current.position.is_none() && current.movement.is_none() => {
+                current.position = parse_pos_args(args);
             }
-            "move" => {
-                if let Some(data) = parse_move_args(args) {
-                    current.movement = Some(data);
-                }
+            "move" if current.position.is_none() && current.movement.is_none() => {
+                current.movement = parse_move_args(args);
             }
 
             // Fade effects
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs b/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
index 6a318bc..f40663a 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
@@ -37,8 +37,17 @@ pub struct TextSegment {
 /// Process text with inline tag changes into segments
 pub fn segment_text_with_tags(
     text: &str,
-    _registry: Option<&ExtensionRegistry>,
+    registry: Option<&ExtensionRegistry>,
 ) -> Result<Vec<TextSegment>, RenderError> {
+    segment_line(text, registry).map(|(segments, _)| segments)
+}
+
+/// The segments of a line, and the tags in force where it ends: those that place
+/// the line hold for all of it, wherever they stand.
+pub(crate) fn segment_line(
+    text: &str,
+    _registry: Option<&ExtensionRegistry>,
+) -> Result<(Vec<TextSegment>, super::tag_processor::ProcessedTags), RenderError> {
     // Analyze text to get tags and their positions
     #[cfg(feature = "plugins")]
     let analysis = TextAnalysis::analyze_with_registry(text, _registry)
@@ -51,12 +60,16 @@ pub fn segment_text_with_tags(
     let tags = analysis.override_tags();
     if tags.is_empty() {
         // No tags, return single segment with plain text
-        return Ok(vec![TextSegment {
-            text: analysis.plain_text().to_string(),
-            start: 0,
-            end: text.len(),
-            tags: super::tag_processor::ProcessedTags::default(),
-        }]);
+        let tags = super::tag_processor::ProcessedTags::default();
+        return Ok((
+            vec![TextSegment {
+                text: analysis.plain_text().to_string(),
+                start: 0,
+                end: text.len(),
+                tags: tags.clone(),
+            }],
+            tags,
+        ));
     }
 
     // Build segments based on tag positions
@@ -148,11 +161,11 @@ pub fn segment_text_with_tags(
             text: current_text,
             start: last_pos,
             end: text.len(),
-            tags: current_tags,
+            tags: current_tags.clone(),
         });
     }
 
-    Ok(segments)
+    Ok((segments, current_tags))
 }
 
 // Re-export helper functions from tag_processor
-- 
2.43.0


From 69a45378b30b930485449148f800ba59485f8988 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 79/83] fix: \n breaks lines only where they are not wrapped,
 and the wrap style holds for the whole event

---
 .../src/pipeline/build/position.rs            | 11 ++++++++
 crates/ass-renderer/src/pipeline/build/run.rs | 13 +++++++---
 .../src/pipeline/build/text/mod.rs            | 13 ++--------
 .../src/pipeline/text_segmenter/mod.rs        | 26 +++++++++++++++++++
 4 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index cfc648c..a19a088 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -22,6 +22,8 @@ pub(super) struct Placement {
     pub(super) margin_l: f32,
     pub(super) margin_r: f32,
     pub(super) margin_v: f32,
+    /// How its lines are wrapped (`\q`, or the script's WrapStyle).
+    pub(super) wrap_style: u8,
 }
 
 impl Placement {
@@ -169,6 +171,15 @@ impl super::SoftwarePipeline {
             margin_l,
             margin_r,
             margin_v,
+            wrap_style: self.event_wrap_style(tags),
         }
     }
+
+    /// Effective wrap style: a `\q` override (clamped to 0..=3, like libass which
+    /// falls back to the track style on an invalid value) takes precedence over
+    /// the script's WrapStyle header.
+    pub(super) fn event_wrap_style(&self, tags: &ProcessedTags) -> u8 {
+        let over = tags.formatting.wrap_style.filter(|&q| q <= 3);
+        over.unwrap_or(self.wrap_style)
+    }
 }
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index 9a5a607..0c26863 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -12,7 +12,10 @@ use ass_core::parser::{Event, Script, Section};
 use super::position::Placement;
 use super::OwnedStyle;
 use crate::collision::PositionedEvent;
-use crate::pipeline::{text_segmenter::segment_line, IntermediateLayer, Pipeline};
+use crate::pipeline::{
+    text_segmenter::{join_soft_breaks, segment_line},
+    IntermediateLayer, Pipeline,
+};
 use crate::renderer::RenderContext;
 use crate::utils::{DirtyRegion, RenderError};
 
@@ -23,8 +26,12 @@ impl super::SoftwarePipeline {
         time_cs: u32,
         context: &RenderContext,
     ) -> Result<(Vec<IntermediateLayer>, Placement), RenderError> {
-        // Get text segments with their individual tags
-        let (segments, line_tags) = segment_line(event.text, None)?;
+        // Get text segments with their individual tags; `\n` breaks the line only
+        // where lines are not wrapped, and is a space otherwise
+        let (mut segments, mut line_tags) = segment_line(event.text, None)?;
+        if event.text.contains("\\n") && self.event_wrap_style(&line_tags) != 2 {
+            (segments, line_tags) = segment_line(&join_soft_breaks(event.text), None)?;
+        }
 
         // Clone the style to avoid borrow issues
         let style_cloned = self
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 17fb44e..87c2523 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -66,15 +66,6 @@ impl super::SoftwarePipeline {
         };
         let defaults = self.resolve_text_defaults(style, scale_y);
 
-        // Effective wrap style: a `\q` override (clamped to 0..=3, like libass which
-        // falls back to the track style on an invalid value) takes precedence over
-        // the script's WrapStyle header.
-        let event_wrap_style = segments
-            .iter()
-            .find_map(|s| s.tags.formatting.wrap_style)
-            .filter(|&q| q <= 3)
-            .unwrap_or(self.wrap_style);
-
         // Restructure segments into logical lines
         let mut logical_lines = split_into_logical_lines(segments);
 
@@ -82,10 +73,10 @@ impl super::SoftwarePipeline {
         // explicit \N breaks, already split into logical_lines); positioned events
         // (\pos/\move) keep their explicit layout. WrapStyle 1 wraps greedily with
         // no balancing; 0/3 balance the lines (libass smart wrapping).
-        if !placement.positioned && event_wrap_style != 2 {
+        if !placement.positioned && placement.wrap_style != 2 {
             let margins = placement.margin_l + placement.margin_r;
             let available = (context.width() as f32 - margins).max(1.0);
-            let balance = event_wrap_style != 1;
+            let balance = placement.wrap_style != 1;
             let mut wrapped: Vec<Vec<TextSegment>> = Vec::with_capacity(logical_lines.len());
             for line in logical_lines {
                 let style = line.first().map_or(event_style, |s| style_of(&s.tags));
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs b/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
index f40663a..2dcd8b3 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/mod.rs
@@ -168,5 +168,31 @@ pub(crate) fn segment_line(
     Ok((segments, current_tags))
 }
 
+/// The text with a space for each `\n` outside its override blocks
+pub(crate) fn join_soft_breaks(text: &str) -> String {
+    let mut joined = String::with_capacity(text.len());
+    let mut depth = 0usize;
+    let mut chars = text.chars();
+    while let Some(ch) = chars.next() {
+        match ch {
+            '{' => depth += 1,
+            '}' => depth = depth.saturating_sub(1),
+            '\\' if depth == 0 => {
+                let next = chars.next();
+                if next == Some('n') {
+                    joined.push(' ');
+                } else {
+                    joined.push(ch);
+                    joined.extend(next);
+                }
+                continue;
+            }
+            _ => {}
+        }
+        joined.push(ch);
+    }
+    joined
+}
+
 // Re-export helper functions from tag_processor
 pub use super::tag_processor::{parse_alpha, parse_color, parse_move_args, parse_pos_args};
-- 
2.43.0


From e60943ed7b0317a591cf45af269e08905eb3ed23 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 80/83] fix: a word wider than the room does not widen the
 other lines when wrapping

---
 crates/ass-renderer/src/pipeline/build/wrap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/pipeline/build/wrap.rs b/crates/ass-renderer/src/pipeline/build/wrap.rs
index e36c12b..598f05f 100644
--- a/crates/ass-renderer/src/pipeline/build/wrap.rs
+++ b/crates/ass-renderer/src/pipeline/build/wrap.rs
@@ -152,7 +152,8 @@ impl super::SoftwarePipeline {
             let target = base.len();
             let max_word = (0..words.len())
                 .map(|i| line_ink(word_adv[i], word_glyphs[i], i, i))
-                .fold(0.0_f32, f32::max);
+                .fold(0.0_f32, f32::max)
+                .min(max_width);
             let (mut lo, mut hi) = (max_word, max_width);
             for _ in 0..24 {
                 let mid = (lo + hi) / 2.0;
-- 
2.43.0


From cfdb9955a1395ed1a3a928a005c24223d2920504 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 81/83] fix: embedded files are added, listed and removed as
 the parser reads them

---
 .../commands/fonts_graphics_commands/add.rs   | 100 +--------
 .../commands/fonts_graphics_commands/clear.rs |  60 +-----
 .../commands/fonts_graphics_commands/list.rs  |  56 +----
 .../commands/fonts_graphics_commands/mod.rs   |   1 +
 .../fonts_graphics_commands/remove.rs         |  84 +-------
 .../fonts_graphics_commands/section.rs        | 202 ++++++++++++++++++
 crates/ass-editor/core/document/mod.rs        |   2 +-
 .../ass-editor/core/document/style_lines.rs   |   2 +-
 8 files changed, 223 insertions(+), 284 deletions(-)
 create mode 100644 crates/ass-editor/commands/fonts_graphics_commands/section.rs

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/add.rs b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
index 4b623d4..ab7468f 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/add.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
@@ -1,15 +1,11 @@
 //! Commands for adding embedded fonts and graphics to ASS documents
 
-use super::uuencode_data;
+use super::{section::MediaSection, uuencode_data};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to add an embedded font to the ASS document
 ///
@@ -44,50 +40,7 @@ impl AddFontCommand {
 
 impl EditorCommand for AddFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-
-        let insert_pos = if let Some(section_start) = fonts_section {
-            // Find the end of the Fonts section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Fonts section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert(Position::new(insert_pos), "[Fonts]\n")?;
-            insert_pos + "[Fonts]\n".len()
-        };
-
-        // Build font entry
-        let filename = &self.filename;
-        let mut font_entry = format!("fontname: {filename}\n");
-        for line in &self.data_lines {
-            font_entry.push_str(line);
-            font_entry.push('\n');
-        }
-
-        // Insert font data
-        document.insert(Position::new(insert_pos), &font_entry)?;
-
-        Ok(CommandResult::success_with_change(
-            Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + font_entry.len()),
-            ),
-            Position::new(insert_pos + font_entry.len()),
-        ))
+        MediaSection::Fonts.add(document, &self.filename, &self.data_lines)
     }
 
     fn description(&self) -> &str {
@@ -134,50 +87,7 @@ impl AddGraphicCommand {
 
 impl EditorCommand for AddGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-
-        let insert_pos = if let Some(section_start) = graphics_section {
-            // Find the end of the Graphics section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Graphics section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert(Position::new(insert_pos), "[Graphics]\n")?;
-            insert_pos + "[Graphics]\n".len()
-        };
-
-        // Build graphic entry
-        let filename = &self.filename;
-        let mut graphic_entry = format!("filename: {filename}\n");
-        for line in &self.data_lines {
-            graphic_entry.push_str(line);
-            graphic_entry.push('\n');
-        }
-
-        // Insert graphic data
-        document.insert(Position::new(insert_pos), &graphic_entry)?;
-
-        Ok(CommandResult::success_with_change(
-            Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + graphic_entry.len()),
-            ),
-            Position::new(insert_pos + graphic_entry.len()),
-        ))
+        MediaSection::Graphics.add(document, &self.filename, &self.data_lines)
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
index 85a3ed5..063a088 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
@@ -1,10 +1,8 @@
 //! Commands for clearing embedded fonts and graphics sections in ASS documents
 
+use super::section::MediaSection;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
-
-#[cfg(not(feature = "std"))]
-use alloc::string::ToString;
+use crate::core::{EditorDocument, Result};
 
 /// Command to clear all embedded fonts from the ASS document
 ///
@@ -27,32 +25,7 @@ impl Default for ClearFontsCommand {
 
 impl EditorCommand for ClearFontsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        if let Some(fonts_section) = content.find("[Fonts]") {
-            let header_end = content[fonts_section..]
-                .find('\n')
-                .map(|pos| fonts_section + pos + 1)
-                .unwrap_or(fonts_section + "[Fonts]".len());
-
-            let section_end = content[fonts_section..]
-                .find("\n[")
-                .map(|pos| fonts_section + pos)
-                .unwrap_or(content.len());
-
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
-
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
-                ));
-            }
-        }
-
-        Ok(CommandResult::success())
+        MediaSection::Fonts.clear(document)
     }
 
     fn description(&self) -> &str {
@@ -85,32 +58,7 @@ impl Default for ClearGraphicsCommand {
 
 impl EditorCommand for ClearGraphicsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        if let Some(graphics_section) = content.find("[Graphics]") {
-            let header_end = content[graphics_section..]
-                .find('\n')
-                .map(|pos| graphics_section + pos + 1)
-                .unwrap_or(graphics_section + "[Graphics]".len());
-
-            let section_end = content[graphics_section..]
-                .find("\n[")
-                .map(|pos| graphics_section + pos)
-                .unwrap_or(content.len());
-
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
-
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
-                ));
-            }
-        }
-
-        Ok(CommandResult::success())
+        MediaSection::Graphics.clear(document)
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/list.rs b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
index b86b9cd..ae7391b 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/list.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
@@ -1,12 +1,10 @@
 //! Commands for listing embedded fonts and graphics in ASS documents
 
+use super::section::MediaSection;
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to list all embedded fonts in the ASS document
 ///
@@ -22,30 +20,7 @@ impl ListFontsCommand {
 
     /// Execute and return list of font filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
-        let content = document.text();
-
-        // Find [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-        if fonts_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = fonts_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut fonts = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("fontname: ") {
-                fonts.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(fonts)
+        MediaSection::Fonts.list(document)
     }
 }
 
@@ -69,30 +44,7 @@ impl ListGraphicsCommand {
 
     /// Execute and return list of graphic filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
-        let content = document.text();
-
-        // Find [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-        if graphics_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = graphics_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut graphics = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("filename: ") {
-                graphics.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(graphics)
+        MediaSection::Graphics.list(document)
     }
 }
 
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/mod.rs b/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
index bcd7227..1cffe65 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/mod.rs
@@ -8,6 +8,7 @@ mod clear;
 mod encoding;
 mod list;
 mod remove;
+mod section;
 
 #[cfg(test)]
 mod tests;
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
index 6957e6b..cde6f67 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
@@ -1,13 +1,11 @@
 //! Commands for removing embedded fonts and graphics from ASS documents
 
+use super::section::MediaSection;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::string::String;
 
 /// Command to remove an embedded font from the ASS document
 ///
@@ -27,43 +25,7 @@ impl RemoveFontCommand {
 
 impl EditorCommand for RemoveFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        let fonts_section = content
-            .find("[Fonts]")
-            .ok_or_else(|| EditorError::command_failed("No [Fonts] section found"))?;
-
-        // Find the end of the Fonts section
-        let section_end = content[fonts_section..]
-            .find("\n[")
-            .map(|pos| fonts_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the font entry
-        let filename = &self.filename;
-        let search_pattern = format!("fontname: {filename}");
-        let section_content = &content[fonts_section..section_end];
-
-        if let Some(font_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = fonts_section + font_pos;
-
-            // Find the end of this font's data (next fontname: or section end)
-            let font_end = content[absolute_pos..]
-                .find("\nfontname:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(font_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
-        }
+        MediaSection::Fonts.remove(document, &self.filename)
     }
 
     fn description(&self) -> &str {
@@ -93,43 +55,7 @@ impl RemoveGraphicCommand {
 
 impl EditorCommand for RemoveGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        let graphics_section = content
-            .find("[Graphics]")
-            .ok_or_else(|| EditorError::command_failed("No [Graphics] section found"))?;
-
-        // Find the end of the Graphics section
-        let section_end = content[graphics_section..]
-            .find("\n[")
-            .map(|pos| graphics_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the graphic entry
-        let filename = &self.filename;
-        let search_pattern = format!("filename: {filename}");
-        let section_content = &content[graphics_section..section_end];
-
-        if let Some(graphic_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = graphics_section + graphic_pos;
-
-            // Find the end of this graphic's data (next filename: or section end)
-            let graphic_end = content[absolute_pos..]
-                .find("\nfilename:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(graphic_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
-        }
+        MediaSection::Graphics.remove(document, &self.filename)
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/section.rs b/crates/ass-editor/commands/fonts_graphics_commands/section.rs
new file mode 100644
index 0000000..1bfe7b9
--- /dev/null
+++ b/crates/ass-editor/commands/fonts_graphics_commands/section.rs
@@ -0,0 +1,202 @@
+//! The `[Fonts]` and `[Graphics]` sections of a document, as the parser reads them
+
+use crate::commands::CommandResult;
+use crate::core::document::{header_name, section_header};
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use ass_core::parser::ast::Section;
+use ass_core::Script;
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// A kind of section that embeds files
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(super) enum MediaSection {
+    Fonts,
+    Graphics,
+}
+
+/// An embedded file: its name, and the bytes of its lines
+struct MediaEntry {
+    name: String,
+    range: core::ops::Range<usize>,
+}
+
+impl MediaSection {
+    const fn name(self) -> &'static str {
+        match self {
+            Self::Fonts => "Fonts",
+            Self::Graphics => "Graphics",
+        }
+    }
+
+    const fn key(self) -> &'static str {
+        match self {
+            Self::Fonts => "fontname",
+            Self::Graphics => "filename",
+        }
+    }
+
+    /// Name, data lines and place of every file of this kind; `None` without a section
+    fn files<'a>(
+        self,
+        script: &Script<'a>,
+    ) -> Option<Vec<(&'a str, Vec<&'a str>, (usize, usize))>> {
+        let mut files = None;
+        for section in script.sections() {
+            let here: Vec<_> = match (self, section) {
+                (Self::Fonts, Section::Fonts(fonts)) => fonts
+                    .iter()
+                    .map(|f| (f.filename, f.data_lines.clone(), (f.span.start, f.span.end)))
+                    .collect(),
+                (Self::Graphics, Section::Graphics(graphics)) => graphics
+                    .iter()
+                    .map(|g| (g.filename, g.data_lines.clone(), (g.span.start, g.span.end)))
+                    .collect(),
+                _ => continue,
+            };
+            files.get_or_insert_with(Vec::new).extend(here);
+        }
+        files
+    }
+
+    fn entries(self, document: &EditorDocument) -> Result<Option<Vec<MediaEntry>>> {
+        document.parse_script_with(|script| {
+            let entries = self.files(script)?.into_iter();
+            let entry = |(name, _, (start, end)): (&str, _, (usize, usize))| MediaEntry {
+                name: name.to_string(),
+                range: start..end,
+            };
+            Some(entries.map(entry).collect())
+        })
+    }
+
+    /// Names of the embedded files
+    pub(super) fn list(self, document: &EditorDocument) -> Result<Vec<String>> {
+        let entries = self.entries(document)?.unwrap_or_default();
+        Ok(entries.into_iter().map(|entry| entry.name).collect())
+    }
+
+    /// The bytes after each header of this kind, up to the last line that is not blank
+    fn bodies(self, content: &str) -> Vec<core::ops::Range<usize>> {
+        let mut bodies: Vec<core::ops::Range<usize>> = Vec::new();
+        let (mut at, mut inside) = (0, false);
+        while let Some(start) = section_header(&content[at..], &[self.name()]) {
+            at += start;
+            for line in content[at..].split_inclusive('\n') {
+                let header = header_name(line).is_some();
+                if header && inside {
+                    break;
+                }
+                at += line.len();
+                if header {
+                    bodies.push(at..at);
+                    inside = true;
+                } else if let Some(body) = bodies.last_mut().filter(|_| !line.trim().is_empty()) {
+                    body.end = at;
+                }
+            }
+            inside = false;
+        }
+        bodies
+    }
+
+    /// Append a file to the section, which is added if there is none
+    pub(super) fn add(
+        self,
+        document: &mut EditorDocument,
+        filename: &str,
+        data_lines: &[String],
+    ) -> Result<CommandResult> {
+        let (name, key) = (self.name(), self.key());
+        let mut entry = format!("{key}: {filename}\n");
+        for line in data_lines {
+            entry.push_str(line);
+            entry.push('\n');
+        }
+        // The file has to be read back as it is given
+        let section = format!("[{name}]\n{entry}");
+        let script = Script::parse(&section)?;
+        let files = self.files(&script).unwrap_or_default();
+        if script.sections().len() != 1
+            || files.len() != 1
+            || files[0].0 != filename.trim()
+            || files[0].1 != data_lines
+        {
+            return Err(EditorError::command_failed(
+                "The name or data of the file cannot be embedded",
+            ));
+        }
+
+        let content = document.text();
+        let (at, text) = match self.bodies(&content).first() {
+            Some(body) => (body.end, entry),
+            None => (content.len(), section),
+        };
+        let open_line = at > 0 && !content[..at].ends_with('\n');
+        let text = if open_line { format!("\n{text}") } else { text };
+        document.insert(Position::new(at), &text)?;
+
+        let end = Position::new(at + text.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(at), end),
+            end,
+        ))
+    }
+
+    /// Remove the first file of this name
+    pub(super) fn remove(
+        self,
+        document: &mut EditorDocument,
+        filename: &str,
+    ) -> Result<CommandResult> {
+        let name = self.name();
+        let entries = self
+            .entries(document)?
+            .ok_or_else(|| EditorError::command_failed(format!("No [{name}] section found")))?;
+        let named = |entry: &MediaEntry| entry.name == filename.trim();
+        match entries.into_iter().find(named) {
+            Some(entry) => Self::replace(document, entry.range, ""),
+            None => Ok(CommandResult::success()),
+        }
+    }
+
+    /// Remove all files, and keep the section
+    pub(super) fn clear(self, document: &mut EditorDocument) -> Result<CommandResult> {
+        let content = document.text();
+        let mut bodies = self.bodies(&content);
+        bodies.retain(|body| !body.is_empty());
+        let (Some(first), Some(last)) = (bodies.first(), bodies.last()) else {
+            return Ok(CommandResult::success());
+        };
+        // One edit for all sections: what lies between them stays
+        let between = bodies
+            .windows(2)
+            .map(|pair| &content[pair[0].end..pair[1].start])
+            .collect::<String>();
+        Self::replace(document, first.start..last.end, &between)
+    }
+
+    fn replace(
+        document: &mut EditorDocument,
+        range: core::ops::Range<usize>,
+        text: &str,
+    ) -> Result<CommandResult> {
+        let start = Position::new(range.start);
+        let end = Position::new(range.start + text.len());
+        let range = Range::new(start, Position::new(range.end));
+        if text.is_empty() {
+            document.delete(range)?;
+        } else {
+            document.replace(range, text)?;
+        }
+        Ok(CommandResult::success_with_change(
+            Range::new(start, end),
+            end,
+        ))
+    }
+}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index 99dd30b..dd6c1b3 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -49,7 +49,7 @@ mod plugin_tests;
 
 pub(crate) use event_lines::EventLine;
 pub use position_api::DocumentPosition;
-pub(crate) use style_lines::{new_entry_place, STYLE_SECTIONS};
+pub(crate) use style_lines::{header_name, new_entry_place, section_header, STYLE_SECTIONS};
 pub use types::EditorDocument;
 
 #[cfg(feature = "std")]
diff --git a/crates/ass-editor/core/document/style_lines.rs b/crates/ass-editor/core/document/style_lines.rs
index a26c0d1..e025796 100644
--- a/crates/ass-editor/core/document/style_lines.rs
+++ b/crates/ass-editor/core/document/style_lines.rs
@@ -99,7 +99,7 @@ impl EntryPlace {
 }
 
 /// Name in a section header line
-fn header_name(line: &str) -> Option<&str> {
+pub(crate) fn header_name(line: &str) -> Option<&str> {
     let header = line.trim().strip_prefix('[')?;
     Some(header.split_once(']').map_or("", |(name, _)| name.trim()))
 }
-- 
2.43.0


From 844d89c3ba1b8f560d9329cd4b8a8c45b5cb4353 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 82/83] fix: lines end before their whole break, columns stay
 in their line, and places count characters

---
 crates/ass-editor/core/fluent/document_ext.rs |  5 +-
 crates/ass-editor/core/fluent/position.rs     | 59 ++++++++---------
 crates/ass-editor/core/fluent/selection.rs    | 66 ++++++++++++-------
 crates/ass-editor/core/position/builder.rs    | 61 ++++++++---------
 crates/ass-editor/core/position/mod.rs        |  2 +
 5 files changed, 100 insertions(+), 93 deletions(-)

diff --git a/crates/ass-editor/core/fluent/document_ext.rs b/crates/ass-editor/core/fluent/document_ext.rs
index 9f956c6..8b8dc07 100644
--- a/crates/ass-editor/core/fluent/document_ext.rs
+++ b/crates/ass-editor/core/fluent/document_ext.rs
@@ -24,12 +24,11 @@ impl EditorDocument {
     /// Start a fluent operation at a line
     #[cfg(feature = "rope")]
     pub fn at_line(&mut self, line: usize) -> Result<AtPosition<'_>> {
-        let line_idx = line.saturating_sub(1);
-        if line_idx >= self.rope().len_lines() {
+        if line == 0 || line > self.rope().len_lines() {
             return Err(EditorError::InvalidPosition { line, column: 1 });
         }
 
-        let byte_pos = self.rope().line_to_byte(line_idx);
+        let byte_pos = self.rope().line_to_byte(line - 1);
         Ok(AtPosition::new(self, Position::new(byte_pos)))
     }
 
diff --git a/crates/ass-editor/core/fluent/position.rs b/crates/ass-editor/core/fluent/position.rs
index 99749fd..d5b8c79 100644
--- a/crates/ass-editor/core/fluent/position.rs
+++ b/crates/ass-editor/core/fluent/position.rs
@@ -1,5 +1,7 @@
 //! Fluent API builder for document operations at a specific position.
 
+#[cfg(feature = "rope")]
+use crate::core::position::line_end;
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "rope"))]
@@ -34,16 +36,32 @@ impl<'a> AtPosition<'a> {
 
     /// Delete a number of characters forward from position
     pub fn delete(self, count: usize) -> Result<&'a mut EditorDocument> {
-        let end = self.position.advance(count);
-        let range = Range::new(self.position, end);
+        let end = Position::new(self.document.len());
+        let following = self.document.text_range(Range::new(self.position, end))?;
+        let mut ends = following
+            .char_indices()
+            .map(|(at, _)| at)
+            .chain([following.len()]);
+        // Without as many characters, the range ends past the document and is rejected
+        let bytes = ends.nth(count).unwrap_or(following.len() + 1);
+        let range = Range::new(self.position, self.position.advance(bytes));
         self.document.delete(range)?;
         Ok(self.document)
     }
 
     /// Delete characters backward from position (backspace)
     pub fn backspace(self, count: usize) -> Result<&'a mut EditorDocument> {
-        let start = self.position.retreat(count);
-        let range = Range::new(start, self.position);
+        let preceding = self
+            .document
+            .text_range(Range::new(Position::start(), self.position))?;
+        let start = match count {
+            0 => preceding.len(),
+            _ => preceding
+                .char_indices()
+                .nth_back(count - 1)
+                .map_or(0, |(at, _)| at),
+        };
+        let range = Range::new(Position::new(start), self.position);
         self.document.delete(range)?;
         Ok(self.document)
     }
@@ -52,14 +70,11 @@ impl<'a> AtPosition<'a> {
     pub fn replace_to_line_end(self, text: &str) -> Result<&'a mut EditorDocument> {
         #[cfg(feature = "rope")]
         {
-            let rope = self.document.rope();
-            let line_idx = rope.byte_to_line(self.position.offset);
-            let line_end_byte = if line_idx + 1 < rope.len_lines() {
-                rope.line_to_byte(line_idx + 1).saturating_sub(1)
-            } else {
-                rope.len_bytes()
-            };
-            let range = Range::new(self.position, Position::new(line_end_byte));
+            let (line, _) = self.document.position_to_line_col(self.position)?;
+            let end = line_end(self.document.rope(), line - 1);
+            // Inside of a line break there is nothing up to the end of the line
+            let end = end.max(self.position.offset);
+            let range = Range::new(self.position, Position::new(end));
             self.document.replace(range, text)?;
             Ok(self.document)
         }
@@ -81,24 +96,6 @@ impl<'a> AtPosition<'a> {
     /// Convert position to line/column
     #[cfg(feature = "rope")]
     pub fn to_line_column(&self) -> Result<(usize, usize)> {
-        let rope = self.document.rope();
-        let line_idx = rope.byte_to_line(self.position.offset);
-        let line_start = rope.line_to_byte(line_idx);
-        let col_offset = self.position.offset - line_start;
-
-        // Convert byte offset to character offset
-        let line = rope.line(line_idx);
-        let mut char_col = 0;
-        let mut byte_count = 0;
-
-        for ch in line.chars() {
-            if byte_count >= col_offset {
-                break;
-            }
-            byte_count += ch.len_utf8();
-            char_col += 1;
-        }
-
-        Ok((line_idx + 1, char_col + 1)) // Convert to 1-indexed
+        self.document.position_to_line_col(self.position)
     }
 }
diff --git a/crates/ass-editor/core/fluent/selection.rs b/crates/ass-editor/core/fluent/selection.rs
index 45b82bd..cb89d74 100644
--- a/crates/ass-editor/core/fluent/selection.rs
+++ b/crates/ass-editor/core/fluent/selection.rs
@@ -1,12 +1,14 @@
 //! Fluent API builder for operations on a selected range.
 
+#[cfg(feature = "rope")]
+use crate::commands::CommandResult;
 use crate::core::{EditorDocument, Range, Result};
 
 #[cfg(feature = "rope")]
 use crate::core::Position;
 
 #[cfg(not(feature = "std"))]
-use alloc::string::{String, ToString};
+use alloc::string::String;
 
 #[cfg(all(not(feature = "std"), feature = "rope"))]
 use alloc::vec::Vec;
@@ -38,14 +40,11 @@ impl<'a> SelectRange<'a> {
     /// Wrap the selection with ASS tags
     pub fn wrap_with_tag(self, open_tag: &str, close_tag: &str) -> Result<&'a mut EditorDocument> {
         // Get the selected text
-        let selected = self
-            .document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset);
-        let mut wrapped =
-            String::with_capacity(open_tag.len() + selected.len_bytes() + close_tag.len());
+        let selected = self.document.text_range(self.range)?;
+
+        let mut wrapped = String::with_capacity(open_tag.len() + selected.len() + close_tag.len());
         wrapped.push_str(open_tag);
-        wrapped.push_str(&selected.to_string());
+        wrapped.push_str(&selected);
         wrapped.push_str(close_tag);
 
         self.document.replace(self.range, &wrapped)?;
@@ -55,6 +54,8 @@ impl<'a> SelectRange<'a> {
     /// Indent the selected lines
     #[cfg(feature = "rope")]
     pub fn indent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
+        self.document.text_range(self.range)?; // rejects an invalid range
+
         // Get line information before mutating
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
@@ -68,11 +69,17 @@ impl<'a> SelectRange<'a> {
         }
 
         // Apply indentation
-        for line_start in line_positions {
-            let pos = Position::new(line_start);
-            let range = Range::empty(pos);
-            self.document.replace(range, &indent)?;
-        }
+        let changed = self.range;
+        self.document.execute_as_unit("Indent lines", |document| {
+            for line_start in line_positions {
+                let pos = Position::new(line_start);
+                document.replace(Range::empty(pos), &indent)?;
+            }
+            Ok(match spaces {
+                0 => CommandResult::success(),
+                _ => CommandResult::success_with_change(changed, changed.end),
+            })
+        })?;
 
         Ok(self.document)
     }
@@ -80,6 +87,8 @@ impl<'a> SelectRange<'a> {
     /// Unindent the selected lines
     #[cfg(feature = "rope")]
     pub fn unindent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
+        self.document.text_range(self.range)?; // rejects an invalid range
+
         // Get line information before mutating
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
@@ -106,23 +115,30 @@ impl<'a> SelectRange<'a> {
         }
 
         // Apply unindent operations
-        for (line_start, space_count) in unindent_ops {
-            let range = Range::new(
-                Position::new(line_start),
-                Position::new(line_start + space_count),
-            );
-            self.document.delete(range)?;
-        }
+        let selected = self.range;
+        let mut changed = false;
+        self.document
+            .execute_as_unit("Unindent lines", |document| {
+                for (line_start, space_count) in unindent_ops {
+                    let range = Range::new(
+                        Position::new(line_start),
+                        Position::new(line_start + space_count),
+                    );
+                    document.delete(range)?;
+                    changed = true;
+                }
+                Ok(match changed {
+                    true => CommandResult::success_with_change(selected, selected.start),
+                    false => CommandResult::success(),
+                })
+            })?;
 
         Ok(self.document)
     }
 
-    /// Get the selected text
+    /// Get the selected text (empty if the range is not valid)
     pub fn text(&self) -> String {
-        self.document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset)
-            .to_string()
+        self.document.text_range(self.range).unwrap_or_default()
     }
 
     /// Get the range
diff --git a/crates/ass-editor/core/position/builder.rs b/crates/ass-editor/core/position/builder.rs
index 562a30a..cc1cd92 100644
--- a/crates/ass-editor/core/position/builder.rs
+++ b/crates/ass-editor/core/position/builder.rs
@@ -30,6 +30,21 @@ pub struct PositionBuilder {
     offset: Option<usize>,
 }
 
+/// Byte offset of the end of a line (0-indexed), before its line break
+#[cfg(feature = "rope")]
+pub(crate) fn line_end(rope: &ropey::Rope, line_idx: usize) -> usize {
+    let line = rope.line(line_idx);
+    let mut chars = line.len_chars();
+    // Only the last line has no line break
+    if line_idx + 1 < rope.len_lines() {
+        chars -= 1;
+        if chars > 0 && line.char(chars) == '\n' && line.char(chars - 1) == '\r' {
+            chars -= 1;
+        }
+    }
+    rope.line_to_byte(line_idx) + line.char_to_byte(chars)
+}
+
 impl PositionBuilder {
     /// Create a new position builder
     #[must_use]
@@ -103,48 +118,26 @@ impl PositionBuilder {
             }
             Ok(Position::new(offset))
         } else if let Some(line) = self.line {
-            // Convert to 0-indexed
-            let line_idx = line.saturating_sub(1);
-
-            if line_idx >= rope.len_lines() {
+            if line == 0 || line > rope.len_lines() {
                 return Err(EditorError::InvalidPosition { line, column: 1 });
             }
-
-            let line_start = rope.line_to_byte(line_idx);
+            let line_idx = line - 1;
 
             if let Some(column) = self.column {
                 LineColumn::new(line, column)?;
-                let col_idx = column.saturating_sub(1);
-                let line = rope.line(line_idx);
-
-                // Find the byte position of the column
-                let mut byte_pos = 0;
-                let mut char_pos = 0;
-
-                for ch in line.chars() {
-                    if char_pos == col_idx {
-                        break;
-                    }
-                    byte_pos += ch.len_utf8();
-                    char_pos += 1;
+                let line_start = rope.line_to_byte(line_idx);
+                let text = rope.line(line_idx);
+                let last_line = line == rope.len_lines();
+
+                // The place past the last character of a line is the start of the next line
+                let col_idx = column - 1;
+                if col_idx > text.len_chars() || (col_idx == text.len_chars() && !last_line) {
+                    return Err(EditorError::InvalidPosition { line, column });
                 }
-
-                if char_pos < col_idx {
-                    return Err(EditorError::InvalidPosition {
-                        line: self.line.unwrap_or(0),
-                        column,
-                    });
-                }
-
-                Ok(Position::new(line_start + byte_pos))
+                Ok(Position::new(line_start + text.char_to_byte(col_idx)))
             } else {
                 // No column specified - go to end of line
-                let line_end = if line_idx + 1 < rope.len_lines() {
-                    rope.line_to_byte(line_idx + 1).saturating_sub(1)
-                } else {
-                    rope.len_bytes()
-                };
-                Ok(Position::new(line_end))
+                Ok(Position::new(line_end(rope, line_idx)))
             }
         } else {
             // Default to start if nothing specified
diff --git a/crates/ass-editor/core/position/mod.rs b/crates/ass-editor/core/position/mod.rs
index 9244b09..c32e2fe 100644
--- a/crates/ass-editor/core/position/mod.rs
+++ b/crates/ass-editor/core/position/mod.rs
@@ -12,6 +12,8 @@ mod selection;
 #[cfg(test)]
 mod tests;
 
+#[cfg(feature = "rope")]
+pub(crate) use builder::line_end;
 pub use builder::PositionBuilder;
 pub use points::{LineColumn, Position};
 pub use range::Range;
-- 
2.43.0


From 605d6913ea02b06c0a8d26372887cf2199f1000b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 83/83] fix: editing an event with a builder keeps the values
 it does not change

---
 crates/ass-editor/core/builders/event.rs      | 25 ++++-
 .../ass-editor/core/builders/event_build.rs   | 55 +++++------
 .../ass-editor/core/document/builder_edit.rs  | 91 +++++++------------
 3 files changed, 84 insertions(+), 87 deletions(-)

diff --git a/crates/ass-editor/core/builders/event.rs b/crates/ass-editor/core/builders/event.rs
index a1dad4f..15bde06 100644
--- a/crates/ass-editor/core/builders/event.rs
+++ b/crates/ass-editor/core/builders/event.rs
@@ -36,7 +36,7 @@ use alloc::{borrow::Cow, string::ToString};
 /// ```
 #[derive(Debug, Default)]
 pub struct EventBuilder<'a> {
-    pub(super) event_type: Option<EventType>,
+    pub(crate) event_type: Option<EventType>,
     pub(super) start: Option<Cow<'a, str>>,
     pub(super) end: Option<Cow<'a, str>>,
     pub(super) style: Option<Cow<'a, str>>,
@@ -73,6 +73,29 @@ impl<'a> EventBuilder<'a> {
         }
     }
 
+    /// Create a builder holding the values of an existing event as they are,
+    /// where `value` gives the value of a field the event has
+    pub(crate) fn of_event(
+        event_type: EventType,
+        value: impl Fn(&str) -> Option<Cow<'a, str>>,
+    ) -> Self {
+        Self {
+            event_type: Some(event_type),
+            start: value("Start"),
+            end: value("End"),
+            style: value("Style"),
+            name: value("Name").or_else(|| value("Actor")),
+            text: value("Text"),
+            layer: value("Layer"),
+            margin_l: value("MarginL"),
+            margin_r: value("MarginR"),
+            margin_v: value("MarginV"),
+            margin_t: value("MarginT"),
+            margin_b: value("MarginB"),
+            effect: value("Effect"),
+        }
+    }
+
     /// Set start time (e.g., "0:00:05.00")
     pub fn start_time<S: Into<Cow<'a, str>>>(mut self, time: S) -> Self {
         self.start = Some(time.into());
diff --git a/crates/ass-editor/core/builders/event_build.rs b/crates/ass-editor/core/builders/event_build.rs
index 26efb94..811b70f 100644
--- a/crates/ass-editor/core/builders/event_build.rs
+++ b/crates/ass-editor/core/builders/event_build.rs
@@ -80,33 +80,11 @@ impl EventBuilder<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Layer" => self.layer.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "Start" => self
-                    .start
-                    .as_ref()
-                    .map(|c| c.as_ref())
-                    .unwrap_or("0:00:00.00"),
-                "End" => self
-                    .end
-                    .as_ref()
-                    .map(|c| c.as_ref())
-                    .unwrap_or("0:00:05.00"),
-                "Style" => self.style.as_ref().map(|c| c.as_ref()).unwrap_or("Default"),
-                "Name" | "Actor" => self.name.as_ref().map(|c| c.as_ref()).unwrap_or(""),
-                "MarginL" => self.margin_l.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginR" => self.margin_r.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginV" => self.margin_v.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginT" => self.margin_t.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "MarginB" => self.margin_b.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
-                "Effect" => self.effect.as_ref().map(|c| c.as_ref()).unwrap_or(""),
-                "Text" => self.text.as_ref().map(|c| c.as_ref()).unwrap_or(""),
-                _ => {
-                    return Err(EditorError::FormatLineError {
-                        message: format!("Unknown event field: {field}"),
-                    })
-                }
-            };
+            let value = self
+                .value(field)
+                .ok_or_else(|| EditorError::FormatLineError {
+                    message: format!("Unknown event field: {field}"),
+                })?;
             field_values.push(value.to_string());
         }
 
@@ -114,4 +92,27 @@ impl EventBuilder<'_> {
         let line = format!("{event_type_str}: {}", field_values.join(","));
         Ok(line)
     }
+
+    /// The value the event has in a field: the given one, or its default
+    pub(crate) fn value(&self, field: &str) -> Option<&str> {
+        let fields = [
+            ("Layer", &self.layer, "0"),
+            ("Start", &self.start, "0:00:00.00"),
+            ("End", &self.end, "0:00:05.00"),
+            ("Style", &self.style, "Default"),
+            ("Name", &self.name, ""),
+            ("Actor", &self.name, ""),
+            ("MarginL", &self.margin_l, "0"),
+            ("MarginR", &self.margin_r, "0"),
+            ("MarginV", &self.margin_v, "0"),
+            ("MarginT", &self.margin_t, "0"),
+            ("MarginB", &self.margin_b, "0"),
+            ("Effect", &self.effect, ""),
+            ("Text", &self.text, ""),
+        ];
+        fields
+            .into_iter()
+            .find(|(name, _, _)| name.eq_ignore_ascii_case(field))
+            .map(|(_, given, default)| given.as_deref().unwrap_or(default))
+    }
 }
diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index 6a72642..785ab2d 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -7,11 +7,13 @@
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
-use ass_core::parser::ast::{EventType, Section};
+
+#[cfg(feature = "std")]
+use std::borrow::Cow;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
+    borrow::Cow,
     string::{String, ToString},
     vec::Vec,
 };
@@ -64,69 +66,40 @@ impl EditorDocument {
                 length: events.len(),
             });
         };
-        let format_fields: Vec<&str> = line.format.iter().map(String::as_str).collect();
-        let mut new_line = None;
-        let mut event_count = 0;
-
-        // Build the new line from the event
-        self.parse_script_with(|script| -> Result<()> {
-            for section in script.sections() {
-                if let Section::Events(events) = section {
-                    for event in events {
-                        if event_count == index {
-                            // Create a builder pre-populated with current values
-                            let mut builder = match event.event_type {
-                                EventType::Dialogue => EventBuilder::dialogue(),
-                                EventType::Comment => EventBuilder::comment(),
-                                _ => EventBuilder::new(),
-                            };
-
-                            // Pre-populate builder with current event values
-                            builder = builder
-                                .layer(event.layer.parse::<u32>().unwrap_or(0))
-                                .start_time(event.start)
-                                .end_time(event.end)
-                                .style(event.style)
-                                .speaker(event.name)
-                                .margin_left(event.margin_l.parse::<u32>().unwrap_or(0))
-                                .margin_right(event.margin_r.parse::<u32>().unwrap_or(0))
-                                .margin_vertical(event.margin_v.parse::<u32>().unwrap_or(0))
-                                .effect(event.effect)
-                                .text(event.text);
 
-                            if let Some(margin_t) = event.margin_t {
-                                builder = builder.margin_top(margin_t.parse::<u32>().unwrap_or(0));
-                            }
-                            if let Some(margin_b) = event.margin_b {
-                                builder =
-                                    builder.margin_bottom(margin_b.parse::<u32>().unwrap_or(0));
-                            }
-
-                            // Apply user modifications
-                            let modified_builder = builder_fn(builder);
+        // The builder starts from the values of the event and may change them
+        let builder = || {
+            EventBuilder::of_event(line.event_type, |field| {
+                let value = line.value(field).ok()?;
+                Some(Cow::Owned(value.to_string()))
+            })
+        };
+        let (current, modified) = (builder(), builder_fn(builder()));
 
-                            // Build the new event line
-                            let built = modified_builder.build_with_format(&format_fields)?;
-                            new_line = Some(match event.event_type {
-                                EventType::Dialogue | EventType::Comment => built,
-                                // The builder only knows the two types above
-                                other => built.replacen("Dialogue", other.as_str(), 1),
-                            });
-                            return Ok(());
-                        }
-                        event_count += 1;
-                    }
-                }
+        // Replace the type and the fields that changed; all else stays
+        let mut changes: Vec<(core::ops::Range<usize>, String)> = Vec::new();
+        for name in &line.format {
+            let (old, new) = (current.value(name), modified.value(name));
+            if let (true, Some(value)) = (old != new, new) {
+                let range = line.field(name)?;
+                changes.retain(|(changed, _)| *changed != range);
+                changes.push((range, value.to_string()));
             }
-            Ok(())
-        })??;
+        }
+        let mut changed = line.clone();
+        changed.text = line.with(changes);
+        let new_line = match modified.event_type {
+            Some(event_type) => changed.with_type(event_type),
+            None => changed.text,
+        };
 
         // Replace the event in the document
-        let new_line = new_line.unwrap_or_else(|| line.text.clone());
-        let end = line.range.start + line.text.trim_end().len();
-        let range = Range::new(Position::new(line.range.start), Position::new(end));
+        let range = Range::new(
+            Position::new(line.range.start),
+            Position::new(line.range.end),
+        );
         self.replace(range, &new_line)?;
 
-        Ok(new_line)
+        Ok(new_line.trim().to_string())
     }
 }
-- 
2.43.0

