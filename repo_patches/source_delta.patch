From 848d1d43f72e5c223ccc2d0ffdaa45e911af5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:26 +0000
Subject: [PATCH 1/5] fix: accept comments between RUN/CMD/ENTRYPOINT and their
 arguments

A comment following a line continuation directly after the keyword is
yielded as the first inner token, so parsing failed with an internal
'unexpected token comment' error.
---
 src/instructions/cmd.rs        | 4 +++-
 src/instructions/entrypoint.rs | 4 +++-
 src/instructions/run.rs        | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/instructions/cmd.rs b/src/instructions/cmd.rs
index 523a71c..59b0e42 100644
--- a/src/instructions/cmd.rs
+++ b/src/instructions/cmd.rs
@@ -23,7 +23,9 @@ pub struct CmdInstruction {
 impl CmdInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<CmdInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::cmd_exec => Ok(CmdInstruction {
diff --git a/src/instructions/entrypoint.rs b/src/instructions/entrypoint.rs
index 9d68fce..8d3f22d 100644
--- a/src/instructions/entrypoint.rs
+++ b/src/instructions/entrypoint.rs
@@ -23,7 +23,9 @@ pub struct EntrypointInstruction {
 impl EntrypointInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<EntrypointInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::entrypoint_exec => Ok(EntrypointInstruction {
diff --git a/src/instructions/run.rs b/src/instructions/run.rs
index 36a8991..3267514 100644
--- a/src/instructions/run.rs
+++ b/src/instructions/run.rs
@@ -23,7 +23,9 @@ pub struct RunInstruction {
 impl RunInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<RunInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .unwrap();
 
     match field.as_rule() {
       Rule::run_exec => Ok(RunInstruction {
-- 
2.43.0


From 089f8cefc7cdf738616c91e83694e18ae977ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 2/5] fix: require every character of an image digest to be
 hexadecimal

The digest pattern was unanchored, so a single hex digit anywhere in a
64 byte string was accepted.
---
 src/instructions/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/from.rs b/src/instructions/from.rs
index 8118bc5..8ae14af 100644
--- a/src/instructions/from.rs
+++ b/src/instructions/from.rs
@@ -73,7 +73,7 @@ impl FromInstruction {
   pub(crate) fn from_record(record: Pair, index: usize) -> Result<FromInstruction> {
     lazy_static! {
       static ref HEX: Regex =
-          Regex::new(r"[0-9a-fA-F]+").unwrap();
+          Regex::new(r"^[0-9a-fA-F]+$").unwrap();
     }
 
     let span = Span::from_pair(&record);
-- 
2.43.0


From 2c038df0b3bbaa51b7d71438c3cfbb24bc285447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 3/5] fix: find global args after other instructions preceding
 the first FROM

get_global_arg() stopped at the first instruction that was not an ARG,
so it could miss arguments that are part of global_args.
---
 src/dockerfile_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.rs b/src/dockerfile_parser.rs
index 6387e39..06b42aa 100644
--- a/src/dockerfile_parser.rs
+++ b/src/dockerfile_parser.rs
@@ -408,7 +408,8 @@ impl Dockerfile {
             continue
           }
         },
-        _ => return None
+        Instruction::From(_) => return None,
+        _ => continue
       }
     }
 
-- 
2.43.0


From a7b28ba6cc239be5e17165c0c04a0424b05eb6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:25 +0000
Subject: [PATCH 4/5] fix: do not recurse per continued line or escape when
 parsing (stack overflow on long input)

---
 src/dockerfile_parser.pest | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 39da77e..337ccce 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -37,12 +37,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = _{ ws* ~ NEWLINE }
 
 double_quoted_string  = @{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = @{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
@@ -69,12 +69,14 @@ any_content = @{
 }
 any_breakable = ${
   (
-    // can be any comment string (no line continuation required)
-    comment_line ~ any_breakable?
+    // any comment strings (no line continuation required), then some piece of
+    // content, requiring a continuation EXCEPT on the final line
+    comment_line* ~ any_content ~
+    (line_continuation ~ comment_line* ~ any_content)* ~
+    (line_continuation ~ comment_line+)?
   ) | (
-    // ... OR some piece of content, requiring a continuation EXCEPT on the
-    // final line
-    any_content ~ (line_continuation ~ any_breakable)?
+    // ... OR only comments
+    comment_line+
   )
 }
 
-- 
2.43.0


From 9c1e2d85046378a12a01a6d1d140448a40f7e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:04 +0000
Subject: [PATCH 5/5] fix: compare splice positions in original coordinates
 (replacing deleted text again went wrong)

---
 src/splicer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/splicer.rs b/src/splicer.rs
index 90182bb..9f39db0 100644
--- a/src/splicer.rs
+++ b/src/splicer.rs
@@ -7,6 +7,8 @@ use crate::parser::Pair;
 use crate::dockerfile_parser::Dockerfile;
 
 /// An offset used to adjust proceeding Spans after content has been spliced
+///
+/// The position is relative to the original document, like all spans.
 #[derive(Debug)]
 struct SpliceOffset {
   position: usize,
@@ -39,10 +41,10 @@ impl Span {
     let mut end = self.end as isize;
 
     for splice in offsets {
-      if splice.position < start as usize {
+      if splice.position < self.start {
         start += splice.offset;
         end += splice.offset;
-      } else if splice.position < end as usize {
+      } else if splice.position < self.end {
         end += splice.offset;
       }
     }
@@ -161,6 +163,7 @@ impl Splicer {
   /// Span offsets are recalculated at call-time to account for previous calls
   /// to `splice(...)` that may have shifted one or both of the span bounds.
   pub fn splice(&mut self, span: &Span, replacement: &str) {
+    let position = span.start;
     let span = span.adjust_offsets(&self.splice_offsets);
 
     // determine the splice offset (only used on subsequent splices)
@@ -168,7 +171,7 @@ impl Splicer {
     let new_len = replacement.len();
     let offset = new_len as isize - prev_len as isize;
     self.splice_offsets.push(
-      SpliceOffset { position: span.start, offset }
+      SpliceOffset { position, offset }
     );
 
     // split and rebuild the content with the replacement instead
-- 
2.43.0

