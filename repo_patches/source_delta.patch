From 3349fba39986d4b69c1bf1544fd35d835b191745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 01/21] fix: do not skip an item when extending a common run
 forwards

The forward extension started one item after the end of the run, so an
item that differs between the inputs was taken into the run and its
change was lost.
---
 pw_diff_lib/src/changes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 0111e4a..3d83fa0 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -190,15 +190,15 @@ impl<'a, T: PartialEq + Clone, I: ContentItemIndices<T>> ChangesGenerator<'a, T,
                     .min(best_lcs.after_start()),
             );
 
-            if best_lcs.before_end() + 1 < before_range.end()
-                && best_lcs.after_end() + 1 < after_range.end()
+            if best_lcs.before_end() < before_range.end()
+                && best_lcs.after_end() < after_range.end()
             {
                 let count = self
                     .before
-                    .subsequence(Range(best_lcs.before_end() + 1, before_range.end()))
+                    .subsequence(Range(best_lcs.before_end(), before_range.end()))
                     .zip(
                         self.after
-                            .subsequence(Range(best_lcs.after_end() + 1, after_range.end())),
+                            .subsequence(Range(best_lcs.after_end(), after_range.end())),
                     )
                     .take_while(|(a, b)| a == b)
                     .count();
-- 
2.43.0


From 5f1deee068422c753f11e806bcd6dc30ea8180cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 02/21] fix: a clump ends where its last change ends

ChangeClump::before_end reported the end of the first change.
---
 pw_diff_lib/src/changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 3d83fa0..2e0e0f7 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -385,7 +385,7 @@ impl<'a, T: PartialEq + Clone> ChangeBasics for ChangeClump<'a, T> {
     }
 
     fn before_end(&self, reverse: bool) -> usize {
-        if let Some(change) = self.changes.first() {
+        if let Some(change) = self.changes.last() {
             change.before_end(reverse)
         } else {
             0
-- 
2.43.0


From 25c9c57b11f4e13fa2d0a9bbe9acd69afb1c4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 03/21] fix: write reduced clumps by positions within the clump

before_write_into used the clump's position in the file to index its
own lines, so a clump applied with reductions wrote the wrong lines or
panicked.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 8da951c..77f9dcc 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -77,7 +77,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> io::Result<()> {
         if reductions.is_some() {
-            let range = self.before_range(reductions, reverse);
+            let range = self.my_before_range(reductions, reverse);
             for line in self.before_lines(Some(range), reverse) {
                 into.write_all(line.as_bytes())?;
             }
-- 
2.43.0


From f10832c698aa8d27c662be14f222aac1e59e9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 04/21] fix: no underflow when searching in a file shorter than
 the clump

The limit of the search was computed in unsigned arithmetic, which
panics (or wraps) when the file, or the room before the next clump, is
shorter than the lines the clump changes.
---
 pw_diff_lib/src/apply_text.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 77f9dcc..2af78dd 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -153,11 +153,12 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         offset: isize,
         reverse: bool,
     ) -> Option<(isize, WillApply)> {
+        let my_length = self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize;
         let not_after = if let Some(next_clump) = next_clump {
-            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) as usize
-                - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse)
+                - my_length
         } else {
-            pd.data().len() - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            pd.data().len() as isize - my_length
         };
         let mut backward_done = false;
         let mut forward_done = false;
@@ -176,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after as isize {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From 40a05df8d706d0dc3e9fc2228ba200fc5a53d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 05/21] fix: do not apply a clump to lines that are already
 dealt with

A clump could match lines that an earlier clump had replaced or that
had been written already (partly applied patches, overlapping clumps),
which duplicated or lost lines or panicked.
---
 pw_diff_lib/src/apply_text.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 2af78dd..36e3202 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -131,6 +131,25 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         }
     }
 
+    /// As `will_apply()` but limited to the part of the data that has not been consumed yet
+    fn will_apply_unconsumed(
+        &self,
+        pd: &ConsumableSeq<String>,
+        offset: isize,
+        reverse: bool,
+    ) -> Option<WillApply> {
+        let will_apply = self.will_apply(pd.data(), offset, reverse)?;
+        let reductions = match will_apply {
+            WillApply::Cleanly => None,
+            WillApply::WithReductions(reductions) => Some(reductions),
+        };
+        if self.before_adjusted_start(offset, reductions, reverse) < pd.consumed() as isize {
+            None
+        } else {
+            Some(will_apply)
+        }
+    }
+
     fn apply_into<W: io::Write>(
         &self,
         into: &mut W,
@@ -170,7 +189,9 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
                 {
                     backward_done = true;
                 } else {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) =
+                        self.will_apply_unconsumed(pd, adjusted_offset, reverse)
+                    {
                         return Some((-i, will_apply));
                     }
                 }
@@ -178,7 +199,9 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             if !forward_done {
                 let adjusted_offset = offset + i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) =
+                        self.will_apply_unconsumed(pd, adjusted_offset, reverse)
+                    {
                         return Some((i, will_apply));
                     }
                 } else {
@@ -269,7 +292,7 @@ where
         let mut offset: isize = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if let Some(will_apply) = clump.will_apply(patchable, offset, reverse) {
+            if let Some(will_apply) = clump.will_apply_unconsumed(&pd, offset, reverse) {
                 match will_apply {
                     WillApply::Cleanly => {
                         clump.apply_into(into, &mut pd, offset, None, reverse)?;
-- 
2.43.0


From 93545ae4f6c772f71958359de542233ad384f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 06/21] fix: include the end of the file in the search for a
 displaced clump

The last possible position was never tried for a clump without leading
context.
---
 pw_diff_lib/src/apply_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 36e3202..a171637 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -198,7 +198,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) <= not_after {
                     if let Some(will_apply) =
                         self.will_apply_unconsumed(pd, adjusted_offset, reverse)
                     {
-- 
2.43.0


From 0dc6df7b55656f4bc8f0220a0ca3d3e4a569a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 07/21] fix: an empty run of items is present at the end of a
 sequence

has_subsequence_at never accepted the end as a position, so a binary
patch without context could not append and could not fill an empty
file.
---
 pw_diff_lib/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/sequence.rs b/pw_diff_lib/src/sequence.rs
index ce05040..00ea809 100644
--- a/pw_diff_lib/src/sequence.rs
+++ b/pw_diff_lib/src/sequence.rs
@@ -29,7 +29,7 @@ impl<T: PartialEq + Clone> Seq<T> {
     }
 
     pub fn has_subsequence_at(&self, subsequence: &[T], at: usize) -> bool {
-        if at < self.len() && self.len() - at >= subsequence.len() {
+        if at <= self.len() && self.len() - at >= subsequence.len() {
             subsequence
                 .iter()
                 .zip(self.0[at..].iter())
-- 
2.43.0


From 7c42d75421f26c859e8e8baada6a2edd2ca4bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 08/21] fix: do not apply a binary clump to bytes that are
 already dealt with

A clump whose old bytes are found inside a region that an earlier clump
covers moved the cursor past the end, which panicked or lost bytes.
---
 pw_diff_lib/src/apply_bytes.rs | 4 +++-
 pw_diff_lib/src/byte_diff.rs   | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index dc37988..0ce4746 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -8,6 +8,8 @@ use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
     fn will_apply(&self, se: &Seq<u8>, reverse: bool) -> bool;
+    /// As `will_apply()` but limited to the part of the data that has not been consumed yet
+    fn will_apply_unconsumed(&self, pd: &ConsumableSeq<u8>, reverse: bool) -> bool;
     fn is_already_applied(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn apply_into<W: io::Write>(
         &self,
@@ -42,7 +44,7 @@ where
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if clump.will_apply(patchable, reverse) {
+            if clump.will_apply_unconsumed(&pd, reverse) {
                 clump.apply_into(&mut pd, into, reverse)?;
                 log::info!("Clump #{clump_num} applies cleanly.");
             } else if clump.is_already_applied(patchable, reverse) {
diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index 45bef4e..1666900 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -56,6 +56,10 @@ impl<'a> ApplyClumpClean for ByteChangeClump {
         data.has_subsequence_at(&before.items, before.start)
     }
 
+    fn will_apply_unconsumed(&self, pd: &ConsumableSeq<u8>, reverse: bool) -> bool {
+        self.before(reverse).start >= pd.consumed() && self.will_apply(pd.data(), reverse)
+    }
+
     fn is_already_applied(&self, data: &Seq<u8>, reverse: bool) -> bool {
         let after = self.after(reverse);
         data.has_subsequence_at(&after.items, after.start)
-- 
2.43.0


From aa0b81018ad8a45358f4fa52dcab0c421d7275c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 09/21] fix: positions in unified diff headers are counted from
 1

---
 pw_cub_diff_lib/src/unified_diff.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b7af18..0266d37 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -117,6 +117,15 @@ pub fn starts_and_lengths(
     }
 }
 
+// The header gives the number of the first line, or of the line before if there are no lines.
+fn start_index(start_and_length: &StartAndLength) -> usize {
+    if start_and_length.length > 0 {
+        start_and_length.start.saturating_sub(1)
+    } else {
+        start_and_length.start
+    }
+}
+
 pub struct UnifiedDiffClump {
     pub starts_and_lengths: StartsAndLengths,
     pub before_lines: Box<[String]>,
@@ -202,9 +211,9 @@ impl UnifiedDiffClump {
 impl ChangeBasics for UnifiedDiffClump {
     fn before_start(&self, reverse: bool) -> usize {
         if reverse {
-            self.starts_and_lengths.after.start
+            start_index(&self.starts_and_lengths.after)
         } else {
-            self.starts_and_lengths.before.start
+            start_index(&self.starts_and_lengths.before)
         }
     }
 
-- 
2.43.0


From 10b3031e81a6cf52af5dfcae7e50ae42ba6e4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 10/21] fix: parse the lines of a unified diff clump, not their
 markers

Marker characters were kept, lines without newline were only recognised at the end of a
clump and, for context lines, on one side, other trailing white space was lost with the
newline, more lines than the header states were accepted, and a marker line after an
empty clump or more than 255 lines of context crashed.
---
 pw_cub_diff_lib/src/unified_diff.rs | 93 ++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 35 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0266d37..837244b 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -126,6 +126,14 @@ fn start_index(start_and_length: &StartAndLength) -> usize {
     }
 }
 
+fn remove_newline(line: Option<&mut String>) {
+    if let Some(line) = line {
+        if line.ends_with('\n') {
+            line.pop();
+        }
+    }
+}
+
 pub struct UnifiedDiffClump {
     pub starts_and_lengths: StartsAndLengths,
     pub before_lines: Box<[String]>,
@@ -151,53 +159,68 @@ impl UnifiedDiffClump {
         let mut before_lines = vec![];
         let mut after_lines = vec![];
         let mut index = 0usize;
-        let mut last_line_type = "X";
-        while before_lines.len() < starts_and_lengths.before.length
-            || after_lines.len() < starts_and_lengths.after.length
-        {
-            let line = *iter.next().check_end_of_input()?;
-            if line.starts_with('-') {
-                before_lines.push(line.as_str().to_string());
+        // whether the last line is in the before and in the after lines, if it may yet be marked as
+        // having no newline
+        let mut last_line: Option<(bool, bool)> = None;
+        loop {
+            let before_is_complete = before_lines.len() == starts_and_lengths.before.length;
+            let after_is_complete = after_lines.len() == starts_and_lengths.after.length;
+            let is_complete = before_is_complete && after_is_complete;
+            let line = match iter.next() {
+                Some(line) if line.starts_with('\\') && (!is_complete || last_line.is_some()) => {
+                    match last_line.take() {
+                        Some((in_before, in_after)) => {
+                            if in_before {
+                                remove_newline(before_lines.last_mut());
+                            }
+                            if in_after {
+                                remove_newline(after_lines.last_mut());
+                            }
+                        }
+                        None => {
+                            return Err(DiffParseError::SyntaxError(start_index + index + 1));
+                        }
+                    }
+                    index += 1;
+                    continue;
+                }
+                _ if is_complete => break,
+                line => *line.check_end_of_input()?,
+            };
+            if let Some(text) = line.strip_prefix('-') {
+                if before_is_complete {
+                    return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
+                }
+                before_lines.push(text.to_string());
                 end_context_length = 0;
                 at_the_front = false;
-                last_line_type = "-";
-            } else if line.starts_with('+') {
-                after_lines.push(line.as_str().to_string());
+                last_line = Some((true, false));
+            } else if let Some(text) = line.strip_prefix('+') {
+                if after_is_complete {
+                    return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
+                }
+                after_lines.push(text.to_string());
                 end_context_length = 0;
                 at_the_front = false;
-                last_line_type = "+";
-            } else if line.starts_with(' ') {
-                before_lines.push(line.as_str().to_string());
-                after_lines.push(line.as_str().to_string());
+                last_line = Some((false, true));
+            } else if let Some(text) = line.strip_prefix(' ') {
+                if before_is_complete || after_is_complete {
+                    return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
+                }
+                before_lines.push(text.to_string());
+                after_lines.push(text.to_string());
                 if at_the_front {
-                    start_context_length += 1
+                    start_context_length = start_context_length.saturating_add(1)
                 } else {
-                    end_context_length += 1
+                    end_context_length = end_context_length.saturating_add(1)
                 }
-                last_line_type = "-";
+                last_line = Some((true, true));
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
             index += 1;
         }
-        let mut lines_consumed = index + 1;
-        if let Some(line) = iter.next() {
-            if line.starts_with("\\") {
-                lines_consumed += 1;
-                if last_line_type == "-" {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string())
-                } else if last_line_type == "+" {
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                } else {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string());
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                }
-            }
-        }
+        let lines_consumed = index + 1;
         Ok(Some(Self {
             lines_consumed,
             before_lines: before_lines.into_boxed_slice(),
-- 
2.43.0


From 1a30cd00ea3780a341855283baaebc9a908cf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 11/21] fix: render well formed unified diff clumps

Positions are counted from 1, and every line without a newline is followed by its own
marker line.
---
 pw_cub_diff_lib/src/unified_diff.rs | 48 ++++++++++++++++-------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 837244b..1b24582 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -280,6 +280,23 @@ pub struct UnifiedClumpText {
     pub lines: Vec<String>,
 }
 
+// The number of the first line, or of the line before if there are no lines.
+fn one_based(start: usize, end: usize) -> StartAndLength {
+    StartAndLength {
+        start: if end > start { start + 1 } else { start },
+        length: end - start,
+    }
+}
+
+fn push_line(lines: &mut Vec<String>, marker: char, line: &str) {
+    if line.ends_with('\n') {
+        lines.push(format!("{marker}{line}"));
+    } else {
+        lines.push(format!("{marker}{line}\n"));
+        lines.push("\\ No newline at end of file\n".to_string());
+    }
+}
+
 pub struct UnifiedClumpIter<'a> {
     pub before: &'a Seq<String>,
     pub after: &'a Seq<String>,
@@ -294,14 +311,8 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
 
         let starts = change_clump.starts();
         let ends = change_clump.ends();
-        let before_start_and_end = StartAndLength {
-            start: starts.0,
-            length: ends.0 - starts.0,
-        };
-        let after_start_and_end = StartAndLength {
-            start: starts.1,
-            length: ends.1 - starts.1,
-        };
+        let before_start_and_end = one_based(starts.0, ends.0);
+        let after_start_and_end = one_based(starts.1, ends.1);
         let starts_and_lengths = StartsAndLengths {
             before: before_start_and_end,
             after: after_start_and_end,
@@ -314,45 +325,38 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
             match change {
                 NoChange(common_subsequence) => {
                     for line in self.before.subsequence(common_subsequence.before_range()) {
-                        lines.push(format!(" {line}"));
+                        push_line(&mut lines, ' ', line);
                     }
                 }
                 Delete(before_range, _) => {
                     for line in self.before.subsequence(*before_range) {
-                        lines.push(format!("-{line}"));
+                        push_line(&mut lines, '-', line);
                     }
                 }
                 Insert(_, after_range) => {
                     for line in self.after.subsequence(*after_range) {
-                        lines.push(format!("+{line}"));
+                        push_line(&mut lines, '+', line);
                     }
                 }
                 Replace(before_range, after_range) => {
                     if before_range.len() < after_range.len() {
                         for line in self.before.subsequence(*before_range) {
-                            lines.push(format!("-{line}"));
+                            push_line(&mut lines, '-', line);
                         }
                         for line in self.after.subsequence(*after_range) {
-                            lines.push(format!("+{line}"));
+                            push_line(&mut lines, '+', line);
                         }
                     } else {
                         for line in self.after.subsequence(*after_range) {
-                            lines.push(format!("+{line}"));
+                            push_line(&mut lines, '+', line);
                         }
                         for line in self.before.subsequence(*before_range) {
-                            lines.push(format!("-{line}"));
+                            push_line(&mut lines, '-', line);
                         }
                     }
                 }
             }
         }
-        if !lines
-            .last()
-            .expect("impl Iterator for UnifiedClumpIter")
-            .ends_with("\n")
-        {
-            lines.push("\n\\\n".to_string());
-        }
 
         Some(UnifiedClumpText { header, lines })
     }
-- 
2.43.0


From b095955735959a95bb2e7bdc105c401a982a71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 12/21] fix: a file that cannot be examined is not a missing
 file

---
 pw_diff_lib/src/diff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index ce0a9d9..e4ef0a5 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -21,8 +21,8 @@ pub enum Diff {
 
 impl Diff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
-        if before_file_path.exists() {
-            if after_file_path.exists() {
+        if before_file_path.try_exists()? {
+            if after_file_path.try_exists()? {
                 match TextChangeDiff::new(before_file_path, after_file_path, context) {
                     Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
                     Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
@@ -37,7 +37,7 @@ impl Diff {
                     Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
                 }
             }
-        } else if after_file_path.exists() {
+        } else if after_file_path.try_exists()? {
             match PathAndLines::new(after_file_path) {
                 Ok(mut path_and_lines) => {
                     path_and_lines.change_path(&before_file_path);
-- 
2.43.0


From 916c7021b072b7d8b6ceb798adf32f19b2bb4ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 13/21] fix: report a failure to write the end of a diff

---
 pw_diff/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pw_diff/src/main.rs b/pw_diff/src/main.rs
index 0c3e810..494bfc3 100644
--- a/pw_diff/src/main.rs
+++ b/pw_diff/src/main.rs
@@ -1,6 +1,6 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
-use std::io;
+use std::io::{self, Write};
 use std::path::PathBuf;
 
 use clap::Parser;
@@ -51,4 +51,8 @@ fn main() {
             std::process::exit(5);
         }
     }
+    if let Err(err) = io::stdout().flush() {
+        log::error!("Error writing diff: {err}");
+        std::process::exit(5);
+    }
 }
-- 
2.43.0


From 50b0b6908301027adeb9f8594b56d69f2e283807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 14/21] fix: exit with an error when a file cannot be created

---
 pw_patch/src/main.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 0e62b12..d8ca043 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -112,11 +112,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -128,11 +130,13 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
@@ -208,11 +212,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -224,11 +230,13 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
-- 
2.43.0


From 3d8c00a39c7cc2251e7140e38787403415bbde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 15/21] fix: do not report success when a clump could not be
 applied

---
 pw_diff_lib/src/apply_bytes.rs | 10 ++++++++--
 pw_patch/src/main.rs           |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index 0ce4746..c181064 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -4,6 +4,7 @@ use std::io;
 
 use log;
 
+use crate::apply_text::Statistics;
 use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
@@ -38,7 +39,8 @@ where
         patchable: &'a Seq<u8>,
         into: &mut W,
         reverse: bool,
-    ) -> io::Result<()> {
+    ) -> io::Result<Statistics> {
+        let mut stats = Statistics::default();
         let mut pd = ConsumableSeq::<u8>::new(patchable);
         let mut iter = self.clumps();
         let mut clump_num = 0;
@@ -46,15 +48,19 @@ where
             clump_num += 1; // for human consumption
             if clump.will_apply_unconsumed(&pd, reverse) {
                 clump.apply_into(&mut pd, into, reverse)?;
+                stats.clean += 1;
                 log::info!("Clump #{clump_num} applies cleanly.");
             } else if clump.is_already_applied(patchable, reverse) {
                 clump.already_applied_into(&mut pd, into, reverse)?;
+                stats.already_applied += 1;
                 log::warn!("Clump #{clump_num} already applied");
             } else {
+                stats.failed += 1;
                 log::error!("Clump #{clump_num} could NOT be applied!");
             }
         }
-        pd.write_remainder(into)
+        pd.write_remainder(into)?;
+        Ok(stats)
     }
 
     fn already_applied(&self, patchable: &Seq<u8>, reverse: bool) -> bool {
diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index d8ca043..42034b0 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -84,6 +84,10 @@ fn main() {
                                     std::process::exit(1);
                                 }
                             };
+                            if stats.failed > 0 {
+                                log::error!("{} clumps could NOT be applied!", stats.failed);
+                                std::process::exit(1);
+                            }
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
@@ -184,6 +188,10 @@ fn main() {
                                     std::process::exit(1);
                                 }
                             };
+                            if stats.failed > 0 {
+                                log::error!("{} clumps could NOT be applied!", stats.failed);
+                                std::process::exit(1);
+                            }
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
-- 
2.43.0


From 3757153b032307c26ecd1e71b5de9fd392c48891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 16/21] fix: remove the temporary file when patching fails

---
 pw_patch/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 42034b0..f8327d1 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -72,6 +72,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file); // exit() runs no destructors
                             std::process::exit(1);
                         }
                     };
@@ -81,6 +82,7 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file); // exit() runs no destructors
                                     std::process::exit(1);
                                 }
                             };
@@ -91,6 +93,7 @@ fn main() {
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file); // exit() runs no destructors
                             std::process::exit(1);
                         }
                     }
@@ -176,6 +179,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file); // exit() runs no destructors
                             std::process::exit(1);
                         }
                     };
@@ -185,6 +189,7 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file); // exit() runs no destructors
                                     std::process::exit(1);
                                 }
                             };
@@ -195,6 +200,7 @@ fn main() {
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file); // exit() runs no destructors
                             std::process::exit(1);
                         }
                     }
-- 
2.43.0


From e9064bb7176cc226fc74b604651c0520de82b9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 17/21] fix: keep the permissions of a patched file

---
 pw_patch/src/main.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index f8327d1..fbd2bd8 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -58,6 +58,13 @@ fn main() {
                     std::process::exit(1);
                 }
             };
+            let permissions = match patchable_file.metadata() {
+                Ok(metadata) => metadata.permissions(),
+                Err(err) => {
+                    log::error!("Error examining {patchable_path:?}: {err}");
+                    std::process::exit(1);
+                }
+            };
             let patchable_lines = match Seq::<String>::read(patchable_file) {
                 Ok(lines) => lines,
                 Err(err) => {
@@ -78,6 +85,11 @@ fn main() {
                     };
                     match diff.apply_into(&patchable_lines, &mut writer, args.reverse) {
                         Ok(stats) => {
+                            if let Err(err) = writer.set_permissions(permissions) {
+                                log::error!("Error setting permissions: {err}");
+                                drop(temp_file); // exit() runs no destructors
+                                std::process::exit(1);
+                            }
                             match std::fs::rename(temp_file.path(), patchable_path) {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
@@ -165,6 +177,13 @@ fn main() {
                     std::process::exit(1);
                 }
             };
+            let permissions = match patchable_file.metadata() {
+                Ok(metadata) => metadata.permissions(),
+                Err(err) => {
+                    log::error!("Error examining {patchable_path:?}: {err}");
+                    std::process::exit(1);
+                }
+            };
             let patchable_bytes = match Seq::<u8>::read(patchable_file) {
                 Ok(lines) => lines,
                 Err(err) => {
@@ -185,6 +204,11 @@ fn main() {
                     };
                     match diff.apply_into(&patchable_bytes, &mut writer, args.reverse) {
                         Ok(stats) => {
+                            if let Err(err) = writer.set_permissions(permissions) {
+                                log::error!("Error setting permissions: {err}");
+                                drop(temp_file); // exit() runs no destructors
+                                std::process::exit(1);
+                            }
                             match std::fs::rename(temp_file.path(), patchable_path) {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
-- 
2.43.0


From cd2d2b5e213279e2821caa9a06234ddaa4d6755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 18/21] fix: write the patched file in the directory of the
 original

---
 pw_patch/src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index fbd2bd8..8ce4e94 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -2,7 +2,7 @@
 
 use std::fs;
 use std::fs::File;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 use clap::Parser;
 use log;
@@ -23,6 +23,14 @@ struct Cli {
     patch_path: PathBuf,
 }
 
+/// The directory in which a file must be created if it is to be renamed to `path`
+fn directory_of(path: &Path) -> &Path {
+    match path.parent() {
+        Some(directory) if !directory.as_os_str().is_empty() => directory,
+        _ => Path::new("."),
+    }
+}
+
 fn main() {
     let args = Cli::parse();
 
@@ -73,7 +81,7 @@ fn main() {
                 }
             };
 
-            match temp_file::TempFile::in_dir(".") {
+            match temp_file::TempFile::in_dir(directory_of(patchable_path)) {
                 Ok(temp_file) => {
                     let mut writer = match File::create(temp_file.path()) {
                         Ok(file) => file,
@@ -192,7 +200,7 @@ fn main() {
                 }
             };
 
-            match temp_file::TempFile::in_dir(".") {
+            match temp_file::TempFile::in_dir(directory_of(patchable_path)) {
                 Ok(temp_file) => {
                     let mut writer = match File::create(temp_file.path()) {
                         Ok(file) => file,
-- 
2.43.0


From 293a9fa8defb2ec07d9f40a7f7339be56349b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 19/21] fix: a path that leads through a file is a missing file

---
 pw_diff_lib/src/diff.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index e4ef0a5..3a1e5f4 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -19,10 +19,18 @@ pub enum Diff {
     ByteRemove(PathAndBytes),
 }
 
+/// Does a file exist? That it cannot be examined is not an answer.
+fn exists(path: &Path) -> io::Result<bool> {
+    match path.try_exists() {
+        Err(err) if err.kind() == ErrorKind::NotADirectory => Ok(false),
+        result => result,
+    }
+}
+
 impl Diff {
     pub fn new(before_file_path: &Path, after_file_path: &Path, context: u8) -> io::Result<Self> {
-        if before_file_path.try_exists()? {
-            if after_file_path.try_exists()? {
+        if exists(before_file_path)? {
+            if exists(after_file_path)? {
                 match TextChangeDiff::new(before_file_path, after_file_path, context) {
                     Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
                     Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
@@ -37,7 +45,7 @@ impl Diff {
                     Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
                 }
             }
-        } else if after_file_path.try_exists()? {
+        } else if exists(after_file_path)? {
             match PathAndLines::new(after_file_path) {
                 Ok(mut path_and_lines) => {
                     path_and_lines.change_path(&before_file_path);
-- 
2.43.0


From c88234a0811b1232bcc431fd75726fbaddb97918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 20/21] fix: do not remove a file that took the temporary
 file's name after it was renamed

---
 pw_patch/src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 8ce4e94..e83eda8 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -99,7 +99,10 @@ fn main() {
                                 std::process::exit(1);
                             }
                             match std::fs::rename(temp_file.path(), patchable_path) {
-                                Ok(_) => log::info!("{stats:?}"),
+                                Ok(_) => {
+                                    temp_file.leak(); // its name is free for others now
+                                    log::info!("{stats:?}")
+                                }
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
                                     drop(temp_file); // exit() runs no destructors
@@ -218,7 +221,10 @@ fn main() {
                                 std::process::exit(1);
                             }
                             match std::fs::rename(temp_file.path(), patchable_path) {
-                                Ok(_) => log::info!("{stats:?}"),
+                                Ok(_) => {
+                                    temp_file.leak(); // its name is free for others now
+                                    log::info!("{stats:?}")
+                                }
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
                                     drop(temp_file); // exit() runs no destructors
-- 
2.43.0


From bb437d39b4c0e997568198f82928df0588004cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:10 +0000
Subject: [PATCH 21/21] fix: do not search for a clump where there is no data

---
 pw_diff_lib/src/apply_text.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index a171637..44b14b1 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -179,9 +179,14 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         } else {
             pd.data().len() as isize - my_length
         };
+        // there is nothing to find before or beyond the data, however far away that is
+        let end_of_data = pd.data().len() as isize;
+        let not_after = not_after.min(end_of_data);
+        let start = self.before_adjusted_start(offset, None, reverse);
+        let nearest = (start - end_of_data).max(-start - self.context_lengths().0 as isize);
         let mut backward_done = false;
-        let mut forward_done = false;
-        for i in 1isize.. {
+        let mut forward_done = start >= end_of_data;
+        for i in nearest.max(1).. {
             if !backward_done {
                 let adjusted_offset = offset - i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse)
-- 
2.43.0

