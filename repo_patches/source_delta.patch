From 60731e9258d7ba066e9aaf37e8da353085635ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 01/17] fix: compute the offset of a group from the start of
 the pattern

The offset was computed as the length of the remaining input minus the
length of the pattern, which underflows for every group that does not
start at the beginning of the pattern: a panic in debug builds, and a
bogus index in the "Missing close parenthesis" error in release builds.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e76e898..e048b2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,7 +98,7 @@ impl<'p> Context<'p> {
         self.group_index += 1;
         mem::swap(&mut self.current_seq, &mut seq);
         self.sequences
-            .push(ExprState::new(seq, ts.len() - self.ptr.len(), self.mode));
+            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
     }
 
     fn pop_sequence(&mut self) -> Result<(), CompileError> {
-- 
2.43.0


From 69f4eeebd7162329ce8483d0939310bed959bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 02/17] fix: reject a non-ASCII character with an error instead
 of a panic

compile() takes any &str and promises an error for an expression it
cannot handle, but a non-ASCII character failed an assertion.
---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e048b2d..088f29f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -138,7 +138,15 @@ impl<'p> Context<'p> {
             self.p = p;
         } else if let Ok((p, c)) = take_any(ts) {
             // TODO: Support UTF-8 literals
-            assert!(c.is_ascii());
+            if !c.is_ascii() {
+                return Err(CompileError::new(
+                    ErrorKind::LocatedParse,
+                    format!(
+                        "Unsupported non-ASCII character at index {}",
+                        self.ptr.len() - self.p.len()
+                    ),
+                ));
+            }
             if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
                 e.reason
                     .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
-- 
2.43.0


From 2ea3119671ff6b40e2f0138bb12b9b8a5c1c8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 03/17] fix: report the location of an unmatched close
 parenthesis

The error has the LocatedParse kind, which stands for an error with a
specific location, but its message did not contain one.
---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 088f29f..18134b6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -131,7 +131,11 @@ impl<'p> Context<'p> {
             self.enter_capturing_group(ts);
             self.p = p;
         } else if let Ok((p, _)) = char::<&str, ()>(')')(ts) {
-            self.exit_group()?;
+            if let Err(mut e) = self.exit_group() {
+                e.reason
+                    .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
+                return Err(e);
+            }
             self.p = p;
         } else if let Ok((p, _)) = char::<&str, ()>('|')(ts) {
             self.current_seq.add_alternation();
-- 
2.43.0


From 164b1c59d6951fb0049d7e3c906c113cb77b80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 04/17] fix: do not panic on conflicting SINGLEMATCH flags in
 debug builds

The error for expressions that share a match ID but disagree about
SINGLEMATCH already carries the index of the expression, so the
assertion in set_expression_index() failed instead of the error being
returned to the caller.
---
 src/util/compile_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index 58c840b..fa18681 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -43,7 +43,7 @@ impl CompileError {
     }
 
     pub(crate) fn set_expression_index(&mut self, index: u32) {
-        debug_assert!(self.index.is_none());
+        debug_assert!(self.index.map_or(true, |i| i == index));
         self.index = Some(index);
     }
 }
-- 
2.43.0


From 62e587843087110f487bd4dfde7a19e44745c708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 05/17] fix: reject expressions, flags, and ids of different
 lengths

The expressions beyond the shortest of the three slices were dropped
silently, so compile_multi() returned a database without them, and
succeeded even if one of them was invalid.
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 98f5b0b..f906983 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,13 @@ fn compile_multi_int(
         ));
     }
 
+    if flags.len() != expressions.len() || ids.len() != expressions.len() {
+        return Err(CompileError::new(
+            ErrorKind::Other,
+            "Invalid parameter: expressions, flags, and ids differ in length",
+        ));
+    }
+
     if expressions.len() > g.limit_pattern_count {
         return Err(CompileError::new(
             ErrorKind::Other,
-- 
2.43.0


From 4d749c791e24125ece6361b90d19ec651fc83497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 06/17] fix: set the right bit of a byte in fill_bitvector()

The bit within a byte is selected by the low three bits of the
character. The wrong mask mapped a character to bit 0 of its byte, or
overflowed the shift.
---
 src/util/charreach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/charreach.rs b/src/util/charreach.rs
index 481475f..ccbf61d 100644
--- a/src/util/charreach.rs
+++ b/src/util/charreach.rs
@@ -335,7 +335,7 @@ pub(crate) fn fill_bitvector(cr: &CharReach, bits: &mut [u8]) {
     }
     let mut next = cr.find_first();
     while let Some(pos) = next {
-        bits[(pos / 8) as usize] |= 1 << (pos & 8);
+        bits[(pos / 8) as usize] |= 1 << (pos & 7);
         next = cr.find_next(pos);
     }
 }
-- 
2.43.0


From def5a61b0908476ebb6849dc8d0fa3aa9a354d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 07/17] fix: compare case sensitivity in equality of Ue2Literal

Ord tells literals with different case sensitivity apart, so PartialEq
must do so as well.
---
 src/util/ue2string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index f13bf3e..bdba568 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -72,7 +72,7 @@ impl<'a> IntoIterator for &'a Ue2Literal {
 impl PartialEq for Ue2Literal {
     #[must_use]
     fn eq(&self, other: &Self) -> bool {
-        self.s == other.s
+        self.s == other.s && self.nocase == other.nocase
     }
 }
 
-- 
2.43.0


From a0dbbd55a50d97ba40162a4c87898ef11b897d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 08/17] fix: include the last range in the description of a
 character class

The last range was written only if it ended with 0xff, so [ax] was
described as "a".
---
 src/util/dump_charclass.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index e0fa5f4..a0d81a0 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -175,10 +175,8 @@ fn describe_class_int<W: Write>(
             }
             c_last = c;
         }
-        if c_last == 0xff {
-            describe_range(f, c_start, c_last, out_type)?;
-            i += 1;
-        }
+        describe_range(f, c_start, c_last, out_type)?;
+        i += 1;
     }
     Ok(i)
 }
-- 
2.43.0


From d75b743a048d0e207b0928ead03c4ea2e8082841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 09/17] fix: pad a hexadecimal escape of a character with zero,
 not a space

---
 src/util/dump_charclass.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index a0d81a0..03082e2 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -42,7 +42,7 @@ fn describe_char<W: Write>(f: &mut W, c: u8, out_type: CcOutput) -> Result<(), E
         f.write_str(backslash)?;
         f.write_char('r')
     } else {
-        f.write_str(&format!("{}x{:2x}", backslash, c))
+        f.write_str(&format!("{}x{:02x}", backslash, c))
     }
 }
 
-- 
2.43.0


From 58a1924f156f2aab6e564a52a4dbc23b5f22d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 10/17] fix: keep the high bits in the alignment helpers

The mask was complemented as an u8 before being widened, so aligning an
integer wider than eight bits cleared everything above bit 7, e.g.
round_up_n(300_usize, 64) was 64. round_up_cache_line() did not
complement its mask at all.
---
 src/util/ue2common.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/util/ue2common.rs b/src/util/ue2common.rs
index f57473e..ac2a5c3 100644
--- a/src/util/ue2common.rs
+++ b/src/util/ue2common.rs
@@ -1,4 +1,4 @@
-use std::ops::{Add, BitAnd};
+use std::ops::{Add, BitAnd, Not};
 
 pub type S64a = i64;
 
@@ -12,11 +12,9 @@ pub type ReportId = u32;
 #[inline]
 pub fn round_up_16<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
-    <T as Add>::Output: Into<T>,
-    <T as BitAnd>::Output: Into<T>,
+    T: Add<Output = T> + BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    ((a + 0xf_u8.into()).into() & (!0xf_u8).into()).into()
+    (a + T::from(0xf)) & !T::from(0xf)
 }
 
 /// Aligns to the previous 16-byte boundary.
@@ -24,21 +22,18 @@ where
 #[inline]
 pub fn round_down_16<T>(a: T) -> T
 where
-    T: BitAnd + From<u8>,
-    <T as BitAnd>::Output: Into<T>,
+    T: BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    (a & (!0xf_u8).into()).into()
+    a & !T::from(0xf)
 }
 
 /// Aligns to the next n-byte boundary.
 #[inline]
 pub fn round_up_n<T>(a: T, n: u8) -> T
 where
-    T: Add + BitAnd + From<u8>,
-    <T as Add>::Output: Into<T>,
-    <T as BitAnd>::Output: Into<T>,
+    T: Add<Output = T> + BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    ((a + (n - 1).into()).into() & (!(n - 1)).into()).into()
+    (a + T::from(n - 1)) & !T::from(n - 1)
 }
 
 /// Aligns to the previous n-byte boundary.
@@ -46,10 +41,9 @@ where
 #[inline]
 pub fn round_down_n<T>(a: T, n: u8) -> T
 where
-    T: BitAnd + From<u8>,
-    <T as BitAnd>::Output: Into<T>,
+    T: BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    (a & (!(n - 1)).into()).into()
+    a & !T::from(n - 1)
 }
 
 /// Aligns to a cache line.
@@ -57,9 +51,7 @@ where
 #[inline]
 pub fn round_up_cache_line<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
-    <T as Add>::Output: Into<T>,
-    <T as BitAnd>::Output: Into<T>,
+    T: Add<Output = T> + BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    ((a + 0x3f_u8.into()).into() & (!0x3f_u8).into()).into()
+    (a + T::from(0x3f)) & !T::from(0x3f)
 }
-- 
2.43.0


From 4fec74839a57f42233757d62af9d0f5301305ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 11/17] fix: keep caret-flavored epsilons when connecting from
 start

Connecting from start is meant to remove the epsilons that are not
caret flavored, but the condition was the wrong way round: it kept the
ones without flags and removed the caret-flavored ones.
---
 src/parser/build_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index ed4297f..a71a308 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -87,7 +87,9 @@ fn filter_edges(bs: &GlushkovBuildState, from: PositionInfo, tolist: &mut Vec<Po
     } else if from.pos == bs.start_state {
         // If we're connecting from start, we should remove any epsilons that
         // aren't caret flavored.
-        tolist.retain(|e| e.pos != GlushkovBuildState::pos_epsilon() || e.flags.is_empty());
+        tolist.retain(|e| {
+            e.pos != GlushkovBuildState::pos_epsilon() || e.flags.contains(PosFlags::NOFLOAT)
+        });
         tolist.retain(|e| !e.flags.contains(PosFlags::MUST_FLOAT | PosFlags::NOFLOAT));
     }
 
-- 
2.43.0


From 2c6207dbba5dc6ddfa4153a3b654cbcc0c4c042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 12/17] Add access to internals for the verification harness
 behind cfg(rescan_verif)

---
 src/compiler.rs                    |  10 +
 src/compiler/expression_info.rs    |   8 +
 src/lib.rs                         |   5 +
 src/nfagraph/ng.rs                 |  23 +
 src/nfagraph/ng_builder.rs         |   7 +
 src/nfagraph/ng_holder.rs          |  46 ++
 src/parser.rs                      |   4 +-
 src/parser/build_state.rs          |  18 +
 src/parser/component_sequence.rs   |   2 +-
 src/parser/shortcut_literal.rs     |  10 +
 src/parser/verif.rs                | 126 +++++
 src/rose.rs                        |   2 +
 src/rose/rose_build_bytecode.rs    |  24 +
 src/rose/rose_internal.rs          |  11 +
 src/smallwrite/smallwrite_build.rs |  41 ++
 src/util.rs                        |  15 +-
 src/util/report_manager.rs         |  11 +
 src/util/ue2string.rs              |  13 +
 src/verif.rs                       | 762 +++++++++++++++++++++++++++++
 19 files changed, 1134 insertions(+), 4 deletions(-)
 create mode 100644 src/parser/verif.rs
 create mode 100644 src/verif.rs

diff --git a/src/compiler.rs b/src/compiler.rs
index ed34d55..c620d2d 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -122,3 +122,13 @@ pub(crate) fn build_graph(pe: &mut ParsedExpression) -> BuiltExpression {
 
     builder.get_graph()
 }
+
+#[cfg(rescan_verif)]
+pub(crate) fn verif_parsed(
+    index: usize,
+    expression: &str,
+    flags: Flags,
+    id: ReportId,
+) -> Result<ParsedExpression, CompileError> {
+    ParsedExpression::new(index, expression, flags, id)
+}
diff --git a/src/compiler/expression_info.rs b/src/compiler/expression_info.rs
index 32fc987..698a820 100644
--- a/src/compiler/expression_info.rs
+++ b/src/compiler/expression_info.rs
@@ -34,3 +34,11 @@ pub(crate) struct ExpressionInfo {
     /// Quiet on match.
     pub(crate) quiet: bool,
 }
+
+#[cfg(rescan_verif)]
+impl ExpressionInfo {
+    /// (`allow_vacuous`, `utf8`, `prefilter`)
+    pub(crate) fn verif_flags(&self) -> (bool, bool, bool) {
+        (self.allow_vacuous, self.utf8, self.prefilter)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index f906983..c5773e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unknown_lints, unexpected_cfgs)] // `cfg(rescan_verif)`
+
 mod compiler;
 mod database;
 mod grey;
@@ -9,6 +11,9 @@ mod scratch;
 mod smallwrite;
 mod som;
 mod util;
+#[cfg(rescan_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 use bitflags::bitflags;
 use compiler::{add_expression, build};
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 2bc9778..67ab594 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -129,3 +129,26 @@ impl<'a> Ng<'a> {
         Ok(true)
     }
 }
+
+#[cfg(rescan_verif)]
+impl<'a> Ng<'a> {
+    pub(crate) fn verif_min_width(&self) -> Depth {
+        self.min_width
+    }
+
+    pub(crate) fn verif_reports(&self) -> &ReportManager<'a> {
+        &self.rm
+    }
+
+    pub(crate) fn verif_reports_mut(&mut self) -> &mut ReportManager<'a> {
+        &mut self.rm
+    }
+
+    pub(crate) fn verif_small_write(&self) -> &SmallWriteBuild<'a> {
+        &self.smwr
+    }
+
+    pub(crate) fn verif_small_write_mut(&mut self) -> &mut SmallWriteBuild<'a> {
+        &mut self.smwr
+    }
+}
diff --git a/src/nfagraph/ng_builder.rs b/src/nfagraph/ng_builder.rs
index 09ed15b..2885459 100644
--- a/src/nfagraph/ng_builder.rs
+++ b/src/nfagraph/ng_builder.rs
@@ -65,3 +65,10 @@ impl NfaBuilder {
 pub(crate) fn make_nfa_builder(expr: &ParsedExpression) -> NfaBuilder {
     NfaBuilder::new(expr)
 }
+
+#[cfg(rescan_verif)]
+impl NfaBuilder {
+    pub(crate) fn verif_graph_mut(&mut self) -> &mut NgHolder {
+        &mut self.graph
+    }
+}
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 40dabe5..d90b6c4 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -117,3 +117,49 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
     let v = NfaGraphVertexProps::default();
     g.add_node(v)
 }
+
+#[cfg(rescan_verif)]
+impl NgHolder {
+    /// [`start`, `start_ds`, `accept`, `accept_eod`]
+    pub(crate) fn verif_specials(&self) -> [NfaVertex; 4] {
+        [self.start, self.start_ds, self.accept, self.accept_eod]
+    }
+
+    pub(crate) fn verif_vertices(&self) -> Vec<(NfaVertex, CharReach, Vec<ReportId>, u32)> {
+        self.inner
+            .node_indices()
+            .map(|v| {
+                let p = &self.inner[v];
+                (
+                    v,
+                    p.char_reach,
+                    p.reports.iter().copied().collect(),
+                    p.assert_flags.bits(),
+                )
+            })
+            .collect()
+    }
+
+    pub(crate) fn verif_edges(&self) -> Vec<(NfaVertex, NfaVertex)> {
+        self.inner
+            .edge_indices()
+            .filter_map(|e| self.inner.edge_endpoints(e))
+            .collect()
+    }
+
+    pub(crate) fn verif_add_vertex(&mut self) -> NfaVertex {
+        self.add_vertex()
+    }
+
+    pub(crate) fn verif_add_edge(&mut self, from: NfaVertex, to: NfaVertex) {
+        self.inner.add_edge(from, to, NfaGraphEdgeProps::default());
+    }
+
+    pub(crate) fn verif_add_report(&mut self, v: NfaVertex, report: ReportId) {
+        self.inner[v].reports.insert(report);
+    }
+
+    pub(crate) fn verif_set_assert_flags(&mut self, v: NfaVertex, flags: u32) {
+        self.inner[v].assert_flags = PosFlags::from_bits_truncate(flags);
+    }
+}
diff --git a/src/parser.rs b/src/parser.rs
index 18134b6..b76107f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -6,13 +6,15 @@ mod component_class;
 mod component_sequence;
 mod const_component_visitor;
 mod control_verbs;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif))]
 mod dump;
 mod parser_util;
 mod position;
 mod position_info;
 mod prefilter;
 mod shortcut_literal;
+#[cfg(rescan_verif)]
+pub(crate) mod verif;
 
 pub(crate) use build_state::make_glushkov_build_state;
 pub(crate) use component::Component;
diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index a71a308..6f5433f 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -113,3 +113,21 @@ fn filter_edges(bs: &GlushkovBuildState, from: PositionInfo, tolist: &mut Vec<Po
 pub(crate) fn make_glushkov_build_state(b: &mut NfaBuilder) -> GlushkovBuildState {
     GlushkovBuildState::new(b)
 }
+
+#[cfg(rescan_verif)]
+impl<'a> GlushkovBuildState<'a> {
+    pub(crate) fn verif_epsilon() -> Position {
+        Self::pos_epsilon()
+    }
+
+    /// All recorded connections as (from, to, flags of to).
+    pub(crate) fn verif_successors(&self) -> Vec<(usize, usize, u32)> {
+        let mut all = Vec::new();
+        for (from, tolist) in &self.successors {
+            for to in tolist {
+                all.push((from.index(), to.pos.index(), to.flags.bits()));
+            }
+        }
+        all
+    }
+}
diff --git a/src/parser/component_sequence.rs b/src/parser/component_sequence.rs
index 26517a5..d1f89fb 100644
--- a/src/parser/component_sequence.rs
+++ b/src/parser/component_sequence.rs
@@ -45,7 +45,7 @@ impl ComponentSequence {
         }
     }
 
-    #[cfg(test)]
+    #[cfg(any(test, rescan_verif))]
     pub(super) fn children(&self) -> &Vec<Component> {
         &self.children
     }
diff --git a/src/parser/shortcut_literal.rs b/src/parser/shortcut_literal.rs
index ed7bb9d..01332a1 100644
--- a/src/parser/shortcut_literal.rs
+++ b/src/parser/shortcut_literal.rs
@@ -84,3 +84,13 @@ pub(crate) fn shortcut_literal(
         )
     }
 }
+
+/// The literal that the given parse tree stands for, if it is one.
+#[cfg(rescan_verif)]
+pub(crate) fn verif_literal(component: &super::Component) -> Option<Ue2Literal> {
+    let mut vis = ConstructLiteralVisitor::default();
+    match walk_component(&mut vis, component) {
+        Ok(()) => Some(vis.lit),
+        Err(_) => None,
+    }
+}
diff --git a/src/parser/verif.rs b/src/parser/verif.rs
new file mode 100644
index 0000000..9529485
--- /dev/null
+++ b/src/parser/verif.rs
@@ -0,0 +1,126 @@
+//! Access to parse trees for the verification harness.
+
+use super::ascii_component_class::AsciiComponentClass;
+use super::shortcut_literal::verif_literal;
+use super::{
+    make_glushkov_build_state, parse, walk_component, Component, ComponentAlternation,
+    ComponentSequence, ConstComponentVisitor, ParseMode, PosFlags, Position, PositionInfo,
+};
+use crate::nfagraph::NfaBuilder;
+use crate::util::{CharReach, Ue2Literal};
+use crate::{CompileError, Flags};
+
+/// A parse tree.
+pub(crate) enum Tree {
+    Class(CharReach),
+    Alternation(Vec<Tree>),
+    Sequence(Option<u32>, Vec<Tree>),
+}
+
+#[derive(Default)]
+struct TreeVisitor {
+    stack: Vec<Vec<Tree>>,
+}
+
+impl TreeVisitor {
+    fn emit(&mut self, t: Tree) {
+        self.stack.last_mut().expect("root").push(t);
+    }
+}
+
+impl ConstComponentVisitor for TreeVisitor {
+    type Error = ();
+
+    fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
+        self.emit(Tree::Class(c.cr));
+        Ok(())
+    }
+
+    fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), ()> {
+        self.stack.push(Vec::new());
+        Ok(())
+    }
+
+    fn pre_component_sequence(&mut self, _c: &ComponentSequence) -> Result<(), ()> {
+        self.stack.push(Vec::new());
+        Ok(())
+    }
+
+    fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {}
+    fn during_component_alternation(&self, _c: &ComponentAlternation) {}
+    fn during_component_sequence(&self, _c: &ComponentSequence) {}
+
+    fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {}
+
+    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
+        let children = self.stack.pop().expect("pushed in pre");
+        self.emit(Tree::Alternation(children));
+    }
+
+    fn post_component_sequence(&mut self, c: &ComponentSequence) {
+        let children = self.stack.pop().expect("pushed in pre");
+        self.emit(Tree::Sequence(c.capture_index, children));
+    }
+}
+
+pub(crate) fn tree(component: &Component) -> Tree {
+    let mut vis = TreeVisitor {
+        stack: vec![Vec::new()],
+    };
+    let _ = walk_component(&mut vis, component);
+    vis.stack
+        .pop()
+        .and_then(|mut v| v.pop())
+        .expect("exactly one root")
+}
+
+pub(crate) fn literal(component: &Component) -> Option<Ue2Literal> {
+    verif_literal(component)
+}
+
+pub(crate) fn dump(component: &Component) -> String {
+    let mut out = String::new();
+    super::dump::dump_tree(&mut out, component).expect("writing to a string");
+    out
+}
+
+/// Parses an expression, and returns the mode after that.
+pub(crate) fn parse_with_mode(
+    expression: &str,
+    flags: Flags,
+) -> Result<(Component, ParseMode), CompileError> {
+    let mut mode = ParseMode::new(flags);
+    let component = parse(expression, &mut mode)?;
+    Ok((component, mode))
+}
+
+/// Connects regions in a fresh build state, and returns what it recorded.
+///
+/// Positions are given as a vertex and flags; `None` as the vertex stands for
+/// epsilon.
+#[allow(clippy::type_complexity)]
+pub(crate) fn connect(
+    builder: &mut NfaBuilder,
+    regions: &[(Vec<(Option<Position>, u32)>, Vec<(Option<Position>, u32)>)],
+) -> Vec<(usize, usize, u32)> {
+    let info = |list: &[(Option<Position>, u32)]| -> Vec<PositionInfo> {
+        list.iter()
+            .map(|&(pos, flags)| {
+                let mut p: PositionInfo = pos
+                    .unwrap_or_else(super::GlushkovBuildState::verif_epsilon)
+                    .into();
+                p.flags = PosFlags::from_bits_truncate(flags);
+                p
+            })
+            .collect()
+    };
+    let mut bs = make_glushkov_build_state(builder);
+    for (lasts, firsts) in regions {
+        bs.connect_regions(&info(lasts), &info(firsts));
+    }
+    bs.verif_successors()
+}
+
+pub(crate) fn epsilon_index() -> usize {
+    super::GlushkovBuildState::verif_epsilon().index()
+}
diff --git a/src/rose.rs b/src/rose.rs
index 2c639b9..ca06c23 100644
--- a/src/rose.rs
+++ b/src/rose.rs
@@ -6,6 +6,8 @@ mod rose_internal;
 
 pub(crate) use block::rose_block_exec;
 pub(crate) use rose_build::RoseBuild;
+#[cfg(rescan_verif)]
+pub(crate) use rose_build_bytecode::verif_pick_runtime_impl;
 use rose_build_bytecode::DerivedBoundaryReports;
 use rose_build_resources::RoseResources;
 pub(crate) use rose_internal::{RoseEngine, RoseRuntimeImpl};
diff --git a/src/rose/rose_build_bytecode.rs b/src/rose/rose_build_bytecode.rs
index f7c256b..c910a28 100644
--- a/src/rose/rose_build_bytecode.rs
+++ b/src/rose/rose_build_bytecode.rs
@@ -60,3 +60,27 @@ pub(super) fn pick_runtime_impl(build: &RoseBuild, resources: &RoseResources) ->
 }
 
 pub(super) struct DerivedBoundaryReports {}
+
+/// Picks a runtime implementation for the resources given as bits, in the
+/// order of the fields of `RoseResources`.
+#[cfg(rescan_verif)]
+pub(crate) fn verif_pick_runtime_impl(cc: &CompileContext, bits: u32) -> RoseRuntimeImpl {
+    let bit = |n: u32| bits >> n & 1 != 0;
+    let build = RoseBuild { cc, has_som: false };
+    let resources = RoseResources {
+        has_outfixes: bit(0),
+        has_suffixes: bit(1),
+        has_leftfixes: bit(2),
+        has_literals: bit(3),
+        has_states: bit(4),
+        checks_groups: bit(5),
+        has_lit_delay: bit(6),
+        has_lit_check: bit(7),
+        has_anchored: bit(8),
+        has_anchored_multiple: bit(9),
+        has_anchored_large: bit(10),
+        has_floating: bit(11),
+        has_eod: bit(12),
+    };
+    pick_runtime_impl(&build, &resources)
+}
diff --git a/src/rose/rose_internal.rs b/src/rose/rose_internal.rs
index 057005c..2897bae 100644
--- a/src/rose/rose_internal.rs
+++ b/src/rose/rose_internal.rs
@@ -14,3 +14,14 @@ pub(crate) struct RoseEngine {
     #[allow(dead_code)]
     pub(super) mode: Mode,
 }
+
+#[cfg(rescan_verif)]
+impl RoseEngine {
+    pub(crate) fn verif_new(runtime_impl: RoseRuntimeImpl, mode: Mode) -> Self {
+        Self { runtime_impl, mode }
+    }
+
+    pub(crate) fn verif_mode(&self) -> &Mode {
+        &self.mode
+    }
+}
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index 0d5e401..c16612c 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -176,3 +176,44 @@ fn add_to_trie(literal: &Ue2Literal, report: ReportId, trie: &mut LitTrie) -> bo
 
     trie.inner.node_count() <= MAX_TRIE_VERTICES
 }
+
+#[cfg(rescan_verif)]
+impl<'a> SmallWriteBuild<'a> {
+    pub(crate) fn verif_poisoned(&self) -> bool {
+        self.poisoned
+    }
+
+    pub(crate) fn verif_num_literals(&self) -> usize {
+        self.num_literals
+    }
+
+    /// The literals in one of the tries: its number of vertices, whether it is
+    /// empty, all its reports, and its vertices as (path from root, reports).
+    #[allow(clippy::type_complexity)]
+    pub(crate) fn verif_trie(
+        &self,
+        nocase: bool,
+    ) -> (usize, bool, Vec<ReportId>, Vec<(Vec<u8>, Vec<ReportId>)>) {
+        let trie = if nocase {
+            &self.lit_trie_nocase
+        } else {
+            &self.lit_trie
+        };
+        let mut out = Vec::new();
+        let mut todo = vec![(trie.root, Vec::new())];
+        while let Some((u, path)) = todo.pop() {
+            for v in trie.inner.neighbors_directed(u, Direction::Outgoing) {
+                let mut p = path.clone();
+                p.push(trie.inner[v].c);
+                todo.push((v, p));
+            }
+            out.push((path, trie.inner[u].reports.iter().copied().collect()));
+        }
+        (
+            trie.inner.node_count(),
+            trie.is_empty(),
+            trie.all_reports().into_iter().collect(),
+            out,
+        )
+    }
+}
diff --git a/src/util.rs b/src/util.rs
index 23f5a3e..c1302b2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -5,7 +5,7 @@ mod compare;
 mod compile_context;
 pub(crate) mod compile_error;
 pub(crate) mod depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif))]
 mod dump_charclass;
 mod report;
 mod report_manager;
@@ -17,9 +17,20 @@ pub(crate) use boundary_reports::BoundaryReports;
 pub(crate) use charreach::{make_caseless, CharReach};
 pub(crate) use compile_context::CompileContext;
 pub(crate) use depth::Depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif))]
 pub(crate) use dump_charclass::{describe_class, CcOutput};
 pub(crate) use report::{make_e_callback, make_som_relative_callback, Report};
 pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
 pub(crate) use ue2common::{ReportId, S64a};
 pub(crate) use ue2string::{mixed_sensitivity, Ue2Literal};
+
+#[cfg(rescan_verif)]
+pub(crate) mod verif {
+    pub(crate) use super::bitfield::BitField256;
+    pub(crate) use super::charreach::{fill_bitvector, make_and_cmp_mask};
+    pub use super::compare::{myislower, myisupper, mytolower, mytoupper, ourisalpha};
+    pub use super::ue2common::{
+        round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n,
+    };
+    pub use super::ue2string::{mixed_sensitivity, Ue2Literal, Ue2LiteralElem};
+}
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index ffad6df..bcc683f 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -145,3 +145,14 @@ impl<'a> ReportManager<'a> {
         *self.to_exhaustible_key_map.entry(a.into()).or_insert(size)
     }
 }
+
+#[cfg(rescan_verif)]
+impl<'a> ReportManager<'a> {
+    pub(crate) fn verif_num_reports(&self) -> usize {
+        self.num_reports()
+    }
+
+    pub(crate) fn verif_global_exhaust(&self) -> bool {
+        self.global_exhaust
+    }
+}
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index bdba568..2bc9aba 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -130,3 +130,16 @@ mod test {
         assert!(!(empty1 != empty2));
     }
 }
+
+#[cfg(rescan_verif)]
+impl Ue2LiteralElem {
+    #[must_use]
+    pub fn verif_new(c: u8, nocase: bool) -> Self {
+        Self { c, nocase }
+    }
+
+    #[must_use]
+    pub fn verif_nocase(&self) -> bool {
+        self.nocase
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..df928ce
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,762 @@
+//! Access to internals for the verification harness; not part of the API.
+//!
+//! Compiled with `--cfg rescan_verif` only.
+
+#![allow(missing_docs, clippy::pedantic)]
+
+use crate::compiler::{add_expression, build_graph, verif_parsed};
+use crate::database::get_bytecode;
+use crate::nfagraph::{make_nfa_builder, Ng, NgHolder};
+use crate::parser::verif as pv;
+use crate::rose::{verif_pick_runtime_impl, RoseEngine, RoseRuntimeImpl};
+use crate::scratch::CoreInfo;
+use crate::util::{
+    describe_class, make_caseless, verif as uv, CcOutput, CharReach, CompileContext, Depth,
+    ExternalReportInfo, Report, ReportManager,
+};
+use crate::{CompileError, Database, Flags, Grey, Mode, Scratch, SomType};
+use std::convert::TryFrom;
+use std::pin::Pin;
+
+pub use crate::util::verif::{
+    mixed_sensitivity, myislower, myisupper, mytolower, mytoupper, ourisalpha, round_down_16,
+    round_down_n, round_up_16, round_up_cache_line, round_up_n, Ue2Literal, Ue2LiteralElem,
+};
+
+/// Grey box settings.
+#[derive(Clone, Debug)]
+pub struct Limits {
+    pub allow_literal: bool,
+    pub flood_as_puffette: bool,
+    pub shortcut_literals: bool,
+    pub allow_small_write: bool,
+    pub small_write_largest_buffer: usize,
+    pub small_write_max_patterns: usize,
+    pub small_write_max_literals: usize,
+    pub limit_pattern_count: usize,
+    pub limit_pattern_length: usize,
+    pub limit_report_count: usize,
+}
+
+impl Default for Limits {
+    fn default() -> Self {
+        let g = Grey::default();
+        Self {
+            allow_literal: g.allow_literal,
+            flood_as_puffette: g.flood_as_puffette,
+            shortcut_literals: g.shortcut_literals,
+            allow_small_write: g.allow_small_write,
+            small_write_largest_buffer: g.small_write_largest_buffer,
+            small_write_max_patterns: g.small_write_max_patterns,
+            small_write_max_literals: g.small_write_max_literals,
+            limit_pattern_count: g.limit_pattern_count,
+            limit_pattern_length: g.limit_pattern_length,
+            limit_report_count: g.limit_report_count,
+        }
+    }
+}
+
+impl Limits {
+    fn grey(&self) -> Grey {
+        let mut g = Grey::default();
+        g.allow_literal = self.allow_literal;
+        g.flood_as_puffette = self.flood_as_puffette;
+        g.shortcut_literals = self.shortcut_literals;
+        g.allow_small_write = self.allow_small_write;
+        g.small_write_largest_buffer = self.small_write_largest_buffer;
+        g.small_write_max_patterns = self.small_write_max_patterns;
+        g.small_write_max_literals = self.small_write_max_literals;
+        g.limit_pattern_count = self.limit_pattern_count;
+        g.limit_pattern_length = self.limit_pattern_length;
+        g.limit_report_count = self.limit_report_count;
+        g
+    }
+}
+
+pub fn compile_multi_with(
+    expressions: &[&str],
+    flags: &[Flags],
+    ids: &[u32],
+    mode: &Mode,
+    limits: &Limits,
+) -> Result<Database, CompileError> {
+    crate::compile_multi_int(expressions, flags, ids, mode, &limits.grey())
+}
+
+// Modes, databases, and scanning.
+
+/// (is_streaming, is_vectored, som_precision)
+pub fn mode_info(mode: &Mode) -> (bool, bool, usize) {
+    (
+        mode.is_streaming(),
+        mode.is_vectored(),
+        mode.som_precision(),
+    )
+}
+
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub enum Runtime {
+    FullRose,
+    PureLiteral,
+    SingleOutfix,
+}
+
+fn runtime(r: &RoseRuntimeImpl) -> Runtime {
+    match r {
+        RoseRuntimeImpl::FullRose => Runtime::FullRose,
+        RoseRuntimeImpl::PureLiteral => Runtime::PureLiteral,
+        RoseRuntimeImpl::SingleOutfix => Runtime::SingleOutfix,
+    }
+}
+
+pub fn database_mode(db: &Database) -> &Mode {
+    get_bytecode(db).verif_mode()
+}
+
+pub fn database_runtime(db: &Database) -> Runtime {
+    runtime(&get_bytecode(db).runtime_impl)
+}
+
+/// Replaces the runtime implementation of a database.
+pub fn database_set_runtime(db: Database, r: Runtime) -> Database {
+    let mode = match get_bytecode(&db).verif_mode() {
+        Mode::Block => Mode::Block,
+        Mode::Stream(_) => Mode::Stream(None),
+        Mode::Vectored => Mode::Vectored,
+    };
+    let r = match r {
+        Runtime::FullRose => RoseRuntimeImpl::FullRose,
+        Runtime::PureLiteral => RoseRuntimeImpl::PureLiteral,
+        Runtime::SingleOutfix => RoseRuntimeImpl::SingleOutfix,
+    };
+    Database::new(RoseEngine::verif_new(r, mode))
+}
+
+/// Names of the bits taken by `pick_runtime`.
+pub const RESOURCES: [&str; 13] = [
+    "outfixes",
+    "suffixes",
+    "leftfixes",
+    "literals",
+    "states",
+    "checks_groups",
+    "lit_delay",
+    "lit_check",
+    "anchored",
+    "anchored_multiple",
+    "anchored_large",
+    "floating",
+    "eod",
+];
+
+pub fn pick_runtime(streaming: bool, vectored: bool, resources: u32) -> Runtime {
+    let cc = CompileContext::new(streaming, vectored, &Grey::default());
+    runtime(&verif_pick_runtime_impl(&cc, resources))
+}
+
+pub fn scratch(state: *mut u8) -> Scratch {
+    Scratch {
+        core_info: CoreInfo { state },
+    }
+}
+
+// Parsing.
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub enum Tree {
+    Class(Class),
+    Alternation(Vec<Tree>),
+    Sequence(Option<u32>, Vec<Tree>),
+}
+
+impl From<pv::Tree> for Tree {
+    fn from(t: pv::Tree) -> Self {
+        match t {
+            pv::Tree::Class(cr) => Tree::Class(Class(cr)),
+            pv::Tree::Alternation(c) => Tree::Alternation(c.into_iter().map(Into::into).collect()),
+            pv::Tree::Sequence(i, c) => Tree::Sequence(i, c.into_iter().map(Into::into).collect()),
+        }
+    }
+}
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct ModeFlags {
+    pub caseless: bool,
+    pub dotall: bool,
+    pub ignore_space: bool,
+    pub multiline: bool,
+    pub ucp: bool,
+    pub utf8: bool,
+}
+
+pub struct Parsed {
+    pub tree: Tree,
+    pub mode: ModeFlags,
+    pub literal: Option<Ue2Literal>,
+    pub dump: String,
+}
+
+/// Runs the parser alone.
+pub fn parse(expression: &str, flags: Flags) -> Result<Parsed, CompileError> {
+    let (component, m) = pv::parse_with_mode(expression, flags)?;
+    Ok(Parsed {
+        tree: pv::tree(&component).into(),
+        mode: ModeFlags {
+            caseless: m.caseless,
+            dotall: m.dotall,
+            ignore_space: m.ignore_space,
+            multiline: m.multiline,
+            ucp: m.ucp,
+            utf8: m.utf8,
+        },
+        literal: pv::literal(&component),
+        dump: pv::dump(&component),
+    })
+}
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct Info {
+    pub index: usize,
+    pub report: u32,
+    pub allow_vacuous: bool,
+    pub highlander: bool,
+    pub utf8: bool,
+    pub prefilter: bool,
+    pub som: bool,
+    pub quiet: bool,
+}
+
+fn info(e: &crate::compiler::ExpressionInfo) -> Info {
+    let (allow_vacuous, utf8, prefilter) = e.verif_flags();
+    Info {
+        index: e.index,
+        report: e.report,
+        allow_vacuous,
+        highlander: e.highlander,
+        utf8,
+        prefilter,
+        som: e.som != SomType::None,
+        quiet: e.quiet,
+    }
+}
+
+/// Parses an expression along with its flags.
+pub fn expression(
+    index: usize,
+    expression: &str,
+    flags: Flags,
+    id: u32,
+) -> Result<(Info, Tree), CompileError> {
+    let pe = verif_parsed(index, expression, flags, id)?;
+    Ok((info(&pe.expr), pv::tree(&pe.component).into()))
+}
+
+// Graphs.
+
+pub struct Vertex {
+    pub reach: Class,
+    pub reports: Vec<u32>,
+    pub assert_flags: u32,
+}
+
+pub struct GraphView {
+    /// Indices of start, start-dotstar, accept, and accept-eod.
+    pub specials: [usize; 4],
+    pub vertices: Vec<Vertex>,
+    pub edges: Vec<(usize, usize)>,
+    pub vacuous: bool,
+    pub all_reports: Vec<u32>,
+}
+
+fn view(g: &NgHolder) -> GraphView {
+    let s = g.verif_specials();
+    GraphView {
+        specials: [s[0].index(), s[1].index(), s[2].index(), s[3].index()],
+        vertices: g
+            .verif_vertices()
+            .into_iter()
+            .map(|(_, cr, reports, assert_flags)| Vertex {
+                reach: Class(cr),
+                reports,
+                assert_flags,
+            })
+            .collect(),
+        edges: g
+            .verif_edges()
+            .into_iter()
+            .map(|(u, v)| (u.index(), v.index()))
+            .collect(),
+        vacuous: g.is_vacuous(),
+        all_reports: g.all_reports().into_iter().collect(),
+    }
+}
+
+/// Builds the graph of an expression, without the literal shortcut.
+pub fn graph(
+    index: usize,
+    expression: &str,
+    flags: Flags,
+    id: u32,
+) -> Result<(Info, GraphView), CompileError> {
+    let mut pe = verif_parsed(index, expression, flags, id)?;
+    let built = build_graph(&mut pe);
+    Ok((info(&built.expr), view(&built.g)))
+}
+
+/// A description of a graph to be built: vertices are numbered from 0, the
+/// first four being start, start-dotstar, accept, and accept-eod.
+#[derive(Clone, Debug, Default)]
+pub struct GraphSpec {
+    pub extra_vertices: usize,
+    pub edges: Vec<(usize, usize)>,
+    pub reports: Vec<(usize, u32)>,
+}
+
+fn holder(spec: &GraphSpec) -> NgHolder {
+    let mut g = NgHolder::new();
+    let mut v = g.verif_specials().to_vec();
+    for _ in 0..spec.extra_vertices {
+        v.push(g.verif_add_vertex());
+    }
+    for &(a, b) in &spec.edges {
+        g.verif_add_edge(v[a], v[b]);
+    }
+    for &(a, r) in &spec.reports {
+        g.verif_add_report(v[a], r);
+    }
+    g
+}
+
+pub fn graph_from(spec: &GraphSpec) -> GraphView {
+    view(&holder(spec))
+}
+
+/// A position in a region: a vertex (the first four being the special ones) or
+/// `None` for epsilon, and position flags.
+pub type Pos = (Option<usize>, u32);
+
+pub const POS_NOFLOAT: u32 = crate::parser::PosFlags::NOFLOAT.bits();
+pub const POS_MUST_FLOAT: u32 = crate::parser::PosFlags::MUST_FLOAT.bits();
+pub const POS_MULTILINE_START: u32 = crate::parser::PosFlags::MULTILINE_START.bits();
+
+/// What connecting regions has recorded.
+pub struct Connections {
+    /// (from, to, flags of to)
+    pub successors: Vec<(usize, usize, u32)>,
+    pub num_vertices: usize,
+    pub specials: [usize; 4],
+    pub epsilon: usize,
+}
+
+/// Connects regions in a fresh build state with the given number of extra
+/// vertices, whose assertion flags are `assert_flags`.
+pub fn connect_regions(assert_flags: &[u32], regions: &[(Vec<Pos>, Vec<Pos>)]) -> Connections {
+    let pe = verif_parsed(0, "", Flags::empty(), 0).expect("valid");
+    let mut b = make_nfa_builder(&pe);
+    let mut v = b.verif_graph_mut().verif_specials().to_vec();
+    for &f in assert_flags {
+        let p = b.make_position();
+        b.verif_graph_mut().verif_set_assert_flags(p, f);
+        v.push(p);
+    }
+    let region = |list: &[Pos]| {
+        list.iter()
+            .map(|&(p, f)| (p.map(|p| v[p]), f))
+            .collect::<Vec<_>>()
+    };
+    let regions: Vec<_> = regions
+        .iter()
+        .map(|(a, b)| (region(a), region(b)))
+        .collect();
+    let successors = pv::connect(&mut b, &regions);
+    let s = b.verif_graph_mut().verif_specials();
+    Connections {
+        successors,
+        num_vertices: b.num_vertices(),
+        specials: [s[0].index(), s[1].index(), s[2].index(), s[3].index()],
+        epsilon: pv::epsilon_index(),
+    }
+}
+
+// The builder of the whole pattern set.
+
+pub struct TrieView {
+    pub num_vertices: usize,
+    pub is_empty: bool,
+    pub all_reports: Vec<u32>,
+    /// (path from root, reports)
+    pub vertices: Vec<(Vec<u8>, Vec<u32>)>,
+}
+
+/// Builder for a set of patterns.
+pub struct Builder {
+    ng: Option<Pin<Box<Ng<'static>>>>,
+    cc: *mut CompileContext,
+}
+
+impl Builder {
+    pub fn new(num_patterns: usize, mode: &Mode, limits: &Limits) -> Self {
+        let cc = Box::into_raw(Box::new(CompileContext::new(
+            mode.is_streaming(),
+            mode.is_vectored(),
+            &limits.grey(),
+        )));
+        let ng = Ng::new(unsafe { &*cc }, num_patterns, mode.som_precision());
+        Self { ng: Some(ng), cc }
+    }
+
+    fn get(&self) -> &Ng<'static> {
+        self.ng.as_ref().expect("present")
+    }
+
+    fn get_mut(&mut self) -> &mut Ng<'static> {
+        unsafe { Pin::get_unchecked_mut(self.ng.as_mut().expect("present").as_mut()) }
+    }
+
+    pub fn add_expression(
+        &mut self,
+        index: usize,
+        expression: &str,
+        flags: Flags,
+        id: u32,
+    ) -> Result<(), CompileError> {
+        add_expression(
+            self.ng.as_mut().expect("present"),
+            index,
+            expression,
+            flags,
+            id,
+        )
+    }
+
+    /// Tries the literal shortcut alone.
+    pub fn shortcut_literal(
+        &mut self,
+        index: usize,
+        expression: &str,
+        flags: Flags,
+        id: u32,
+    ) -> Result<bool, CompileError> {
+        let pe = verif_parsed(index, expression, flags, id)?;
+        crate::parser::shortcut_literal(self.ng.as_mut().expect("present"), &pe)
+    }
+
+    pub fn add_literal(
+        &mut self,
+        literal: &Ue2Literal,
+        index: u32,
+        id: u32,
+        highlander: bool,
+        som: bool,
+        quiet: bool,
+    ) -> Result<bool, CompileError> {
+        let som = if som { SomType::Left } else { SomType::None };
+        self.get_mut()
+            .add_literal(literal, index, id, highlander, som, quiet)
+    }
+
+    /// `None` stands for infinity.
+    pub fn min_width(&self) -> Option<usize> {
+        let d = self.get().verif_min_width();
+        if d == Depth::infinity() {
+            return None;
+        }
+        // `Depth` has no accessor; search for its value.
+        let (mut lo, mut hi) = (0_usize, (1_usize << 31) - 2);
+        while lo < hi {
+            let mid = lo + (hi - lo) / 2;
+            match Depth::try_from(mid) {
+                Ok(m) if m < d => lo = mid + 1,
+                _ => hi = mid,
+            }
+        }
+        Some(lo)
+    }
+
+    pub fn has_som(&self) -> bool {
+        self.get().rose.has_som
+    }
+
+    pub fn num_reports(&self) -> usize {
+        self.get().verif_reports().verif_num_reports()
+    }
+
+    pub fn global_exhaust(&self) -> bool {
+        self.get().verif_reports().verif_global_exhaust()
+    }
+
+    /// Registers a report with the given minimum match length.
+    pub fn add_report(&mut self, min_length: u64) -> Result<u32, CompileError> {
+        self.get_mut()
+            .verif_reports_mut()
+            .get_internal_id(&Report { min_length })
+    }
+
+    pub fn small_write_add_literal(&mut self, literal: &Ue2Literal, report: u32) {
+        self.get_mut()
+            .verif_small_write_mut()
+            .add_literal(literal, report);
+    }
+
+    pub fn small_write_add_graph(&mut self, spec: &GraphSpec, som: bool) {
+        let pe = verif_parsed(0, "", Flags::empty(), 0).expect("valid");
+        let mut expr = pe.expr;
+        if som {
+            expr.som = SomType::Left;
+        }
+        self.get_mut()
+            .verif_small_write_mut()
+            .add_expression(&holder(spec), &expr);
+    }
+
+    pub fn small_write_poisoned(&self) -> bool {
+        self.get().verif_small_write().verif_poisoned()
+    }
+
+    pub fn small_write_num_literals(&self) -> usize {
+        self.get().verif_small_write().verif_num_literals()
+    }
+
+    pub fn small_write_trie(&self, nocase: bool) -> TrieView {
+        let (num_vertices, is_empty, all_reports, vertices) =
+            self.get().verif_small_write().verif_trie(nocase);
+        TrieView {
+            num_vertices,
+            is_empty,
+            all_reports,
+            vertices,
+        }
+    }
+
+    pub fn build(&self) -> Database {
+        crate::compiler::build(self.get())
+    }
+}
+
+impl Drop for Builder {
+    fn drop(&mut self) {
+        self.ng = None;
+        drop(unsafe { Box::from_raw(self.cc) });
+    }
+}
+
+/// Report manager.
+pub struct Reports {
+    rm: Option<ReportManager<'static>>,
+    grey: *mut Grey,
+}
+
+impl Reports {
+    pub fn new(limits: &Limits) -> Self {
+        let grey = Box::into_raw(Box::new(limits.grey()));
+        let rm = ReportManager::new(unsafe { &*grey });
+        Self { rm: Some(rm), grey }
+    }
+
+    fn get(&self) -> &ReportManager<'static> {
+        self.rm.as_ref().expect("present")
+    }
+
+    fn get_mut(&mut self) -> &mut ReportManager<'static> {
+        self.rm.as_mut().expect("present")
+    }
+
+    /// Fetches the internal ID of the report with the given minimum length.
+    pub fn internal_id(&mut self, min_length: u64) -> Result<u32, CompileError> {
+        self.get_mut().get_internal_id(&Report { min_length })
+    }
+
+    /// Returns the minimum length of the report with the given internal ID.
+    pub fn report(&self, id: u32) -> u64 {
+        self.get().get_report(id).min_length
+    }
+
+    pub fn num_reports(&self) -> usize {
+        self.get().verif_num_reports()
+    }
+
+    pub fn register(
+        &mut self,
+        id: u32,
+        highlander: bool,
+        pattern_index: u32,
+    ) -> Result<(), CompileError> {
+        self.get_mut()
+            .register_ext_report(id, ExternalReportInfo::new(highlander, pattern_index))
+    }
+
+    pub fn exhaustible_key(&mut self, a: u32) -> u32 {
+        self.get_mut().get_exhaustible_key(a)
+    }
+
+    pub fn global_exhaust(&self) -> bool {
+        self.get().verif_global_exhaust()
+    }
+}
+
+impl Drop for Reports {
+    fn drop(&mut self) {
+        self.rm = None;
+        drop(unsafe { Box::from_raw(self.grey) });
+    }
+}
+
+// Utilities.
+
+/// A depth.
+#[derive(Clone, Copy, Debug, Eq, Ord, PartialEq, PartialOrd)]
+pub struct DepthValue(Depth);
+
+impl DepthValue {
+    pub fn infinity() -> Self {
+        Self(Depth::infinity())
+    }
+
+    pub fn from_u32(v: u32) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+
+    pub fn from_usize(v: usize) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+}
+
+macro_rules! set_wrapper {
+    ($name:ident, $inner:ty) => {
+        #[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
+        pub struct $name($inner);
+
+        impl $name {
+            pub fn reset_all(&mut self) {
+                self.0.reset_all();
+            }
+            pub fn set_all(&mut self) {
+                self.0.set_all();
+            }
+            pub fn reset(&mut self, n: u8) {
+                self.0.reset(n);
+            }
+            pub fn set(&mut self, n: u8) {
+                self.0.set(n);
+            }
+            pub fn test(&self, n: u8) -> bool {
+                self.0.test(n)
+            }
+            pub fn flip_all(&mut self) {
+                self.0.flip_all();
+            }
+            pub fn flip(&mut self, n: u8) {
+                self.0.flip(n);
+            }
+            pub fn set_range(&mut self, from: u8, to: u8) {
+                self.0.set_range(from, to);
+            }
+            pub fn count(&self) -> u32 {
+                self.0.count()
+            }
+            pub fn none(&self) -> bool {
+                self.0.none()
+            }
+            pub fn any(&self) -> bool {
+                self.0.any()
+            }
+            pub fn all(&self) -> bool {
+                self.0.all()
+            }
+            pub fn find_first(&self) -> Option<u8> {
+                self.0.find_first()
+            }
+            pub fn find_last(&self) -> Option<u8> {
+                self.0.find_last()
+            }
+            pub fn find_next(&self, last: u8) -> Option<u8> {
+                self.0.find_next(last)
+            }
+            pub fn find_nth(&self, n: u8) -> Option<u8> {
+                self.0.find_nth(n)
+            }
+            pub fn and(self, rhs: Self) -> Self {
+                Self(self.0 & rhs.0)
+            }
+            pub fn or(self, rhs: Self) -> Self {
+                Self(self.0 | rhs.0)
+            }
+            pub fn xor(self, rhs: Self) -> Self {
+                Self(self.0 ^ rhs.0)
+            }
+            pub fn not(self) -> Self {
+                Self(!self.0)
+            }
+            pub fn and_assign(&mut self, rhs: Self) {
+                self.0 &= rhs.0;
+            }
+            pub fn or_assign(&mut self, rhs: Self) {
+                self.0 |= rhs.0;
+            }
+            pub fn xor_assign(&mut self, rhs: Self) {
+                self.0 ^= rhs.0;
+            }
+        }
+    };
+}
+
+set_wrapper!(Bits, uv::BitField256);
+set_wrapper!(Class, CharReach);
+
+impl Class {
+    pub fn from_char(c: u8) -> Self {
+        Self(CharReach::from_char(c))
+    }
+    pub fn from_range(from: u8, to: u8) -> Self {
+        Self(CharReach::from_range(from, to))
+    }
+    pub fn from_bytes(bytes: &[u8]) -> Self {
+        Self(CharReach::from_bytes(bytes))
+    }
+    pub fn dot() -> Self {
+        Self(CharReach::dot())
+    }
+    pub fn set_bytes(&mut self, bytes: &[u8]) {
+        self.0.set_bytes(bytes);
+    }
+    pub fn is_alphabetic(&self) -> bool {
+        self.0.is_alphabetic()
+    }
+    pub fn is_caseless_char(&self) -> bool {
+        self.0.is_caseless_char()
+    }
+    pub fn is_bit5_insensitive(&self) -> bool {
+        self.0.is_bit5_insensitive()
+    }
+    pub fn is_subset_of(&self, rhs: &Self) -> bool {
+        self.0.is_subset_of(&rhs.0)
+    }
+    pub fn overlaps(&self, rhs: &Self) -> bool {
+        self.0.overlaps(&rhs.0)
+    }
+    pub fn is_ascii(&self) -> bool {
+        self.0.is_ascii()
+    }
+    pub fn is_utf8_start(&self) -> bool {
+        self.0.is_utf8_start()
+    }
+    pub fn display(&self) -> String {
+        self.0.to_string()
+    }
+    pub fn make_caseless(&mut self) {
+        make_caseless(&mut self.0);
+    }
+    pub fn fill_bitvector(&self, bits: &mut [u8]) {
+        uv::fill_bitvector(&self.0, bits);
+    }
+    pub fn and_cmp_mask(&self) -> (u8, u8) {
+        uv::make_and_cmp_mask(&self.0)
+    }
+    /// Describes the class as text, or as a DOT label.
+    pub fn describe(&self, max_length: usize, dot: bool) -> String {
+        let mut out = String::new();
+        let out_type = if dot { CcOutput::Dot } else { CcOutput::Text };
+        describe_class(&mut out, &self.0, max_length, out_type).expect("writing to a string");
+        out
+    }
+}
-- 
2.43.0


From dac7b78507de256897d33ffd1411127254d56422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 13/17] fix: do not note start of match for a literal whose
 report was refused

---
 src/nfagraph/ng.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 67ab594..6c8835f 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -100,7 +100,7 @@ impl<'a> Ng<'a> {
                 None
             };
             let r = make_e_callback(external_report, 0, ekey, quiet);
-            self.rm.get_internal_id(&r)
+            self.rm.get_internal_id(&r)?
         } else {
             debug_assert!(!highlander); // not allowed, checked earlier.
             let r = make_som_relative_callback(
@@ -108,10 +108,10 @@ impl<'a> Ng<'a> {
                 0,
                 literal.len().try_into().expect("literal too long"),
             );
-            let id = self.rm.get_internal_id(&r);
+            let id = self.rm.get_internal_id(&r)?;
             self.rose.has_som = true;
             id
-        }?;
+        };
 
         self.rose.add(false, false, literal, &hashset! {id});
 
-- 
2.43.0


From 2e577eebff830403cc838f7b373db329ceb1acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:02 +0000
Subject: [PATCH 14/17] fix: describe short ranges up to 0xff without overflow

---
 src/util/dump_charclass.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index 03082e2..c20ee3e 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -56,13 +56,8 @@ fn describe_range<W: Write>(f: &mut W, c1: u8, c2: u8, out_type: CcOutput) -> Re
         describe_char(f, c1, out_type)
     } else if c2 - c1 < 4 {
         // Render as individual chars.
-        let mut c1 = c1;
-        loop {
-            describe_char(f, c1, out_type)?;
-            c1 += 1;
-            if c1 > c2 {
-                break;
-            }
+        for c in c1..=c2 {
+            describe_char(f, c, out_type)?;
         }
         Ok(())
     } else {
-- 
2.43.0


From c9ffdea4d97f63d9b97f6fc22ce1e01d6adb8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:44 +0000
Subject: [PATCH 15/17] Divide the access for the verification harness into
 areas

---
 src/compiler.rs                    |   2 +-
 src/compiler/expression_info.rs    |   2 +-
 src/nfagraph/ng.rs                 |   2 +-
 src/nfagraph/ng_builder.rs         |   2 +-
 src/nfagraph/ng_holder.rs          |   5 +-
 src/parser.rs                      |   2 +-
 src/parser/build_state.rs          |   2 +-
 src/parser/component_sequence.rs   |   2 +-
 src/parser/shortcut_literal.rs     |   2 +-
 src/parser/verif.rs                |  91 +---
 src/parser/verif/tree.rs           |  72 +++
 src/rose.rs                        |   2 +-
 src/rose/rose_build_bytecode.rs    |   2 +-
 src/rose/rose_internal.rs          |   2 +-
 src/smallwrite/smallwrite_build.rs |   2 +-
 src/util.rs                        |   9 +-
 src/util/report_manager.rs         |   2 +-
 src/util/ue2string.rs              |   2 +-
 src/verif.rs                       | 818 +++--------------------------
 src/verif/builder.rs               | 170 ++++++
 src/verif/connect.rs               |  53 ++
 src/verif/depth.rs                 |  22 +
 src/verif/graph.rs                 |  85 +++
 src/verif/info.rs                  |  53 ++
 src/verif/literal.rs               |  12 +
 src/verif/modes.rs                 |  28 +
 src/verif/reports.rs               |  66 +++
 src/verif/runtime.rs               |  82 +++
 src/verif/sets.rs                  | 149 ++++++
 src/verif/settings.rs              |  63 +++
 src/verif/tree.rs                  |  19 +
 31 files changed, 979 insertions(+), 846 deletions(-)
 create mode 100644 src/parser/verif/tree.rs
 create mode 100644 src/verif/builder.rs
 create mode 100644 src/verif/connect.rs
 create mode 100644 src/verif/depth.rs
 create mode 100644 src/verif/graph.rs
 create mode 100644 src/verif/info.rs
 create mode 100644 src/verif/literal.rs
 create mode 100644 src/verif/modes.rs
 create mode 100644 src/verif/reports.rs
 create mode 100644 src/verif/runtime.rs
 create mode 100644 src/verif/sets.rs
 create mode 100644 src/verif/settings.rs
 create mode 100644 src/verif/tree.rs

diff --git a/src/compiler.rs b/src/compiler.rs
index c620d2d..06f130d 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -123,7 +123,7 @@ pub(crate) fn build_graph(pe: &mut ParsedExpression) -> BuiltExpression {
     builder.get_graph()
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "info")]
 pub(crate) fn verif_parsed(
     index: usize,
     expression: &str,
diff --git a/src/compiler/expression_info.rs b/src/compiler/expression_info.rs
index 698a820..b71aee0 100644
--- a/src/compiler/expression_info.rs
+++ b/src/compiler/expression_info.rs
@@ -35,7 +35,7 @@ pub(crate) struct ExpressionInfo {
     pub(crate) quiet: bool,
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "info")]
 impl ExpressionInfo {
     /// (`allow_vacuous`, `utf8`, `prefilter`)
     pub(crate) fn verif_flags(&self) -> (bool, bool, bool) {
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 6c8835f..a01cda1 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -130,7 +130,7 @@ impl<'a> Ng<'a> {
     }
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "builder")]
 impl<'a> Ng<'a> {
     pub(crate) fn verif_min_width(&self) -> Depth {
         self.min_width
diff --git a/src/nfagraph/ng_builder.rs b/src/nfagraph/ng_builder.rs
index 2885459..0ee56ab 100644
--- a/src/nfagraph/ng_builder.rs
+++ b/src/nfagraph/ng_builder.rs
@@ -66,7 +66,7 @@ pub(crate) fn make_nfa_builder(expr: &ParsedExpression) -> NfaBuilder {
     NfaBuilder::new(expr)
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "connect")]
 impl NfaBuilder {
     pub(crate) fn verif_graph_mut(&mut self) -> &mut NgHolder {
         &mut self.graph
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index d90b6c4..cde20f3 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -118,7 +118,7 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
     g.add_node(v)
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "graph")]
 impl NgHolder {
     /// [`start`, `start_ds`, `accept`, `accept_eod`]
     pub(crate) fn verif_specials(&self) -> [NfaVertex; 4] {
@@ -158,7 +158,10 @@ impl NgHolder {
     pub(crate) fn verif_add_report(&mut self, v: NfaVertex, report: ReportId) {
         self.inner[v].reports.insert(report);
     }
+}
 
+#[cfg(rescan_verif = "connect")]
+impl NgHolder {
     pub(crate) fn verif_set_assert_flags(&mut self, v: NfaVertex, flags: u32) {
         self.inner[v].assert_flags = PosFlags::from_bits_truncate(flags);
     }
diff --git a/src/parser.rs b/src/parser.rs
index b76107f..f246c01 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -6,7 +6,7 @@ mod component_class;
 mod component_sequence;
 mod const_component_visitor;
 mod control_verbs;
-#[cfg(any(test, rescan_verif))]
+#[cfg(any(test, rescan_verif = "dump"))]
 mod dump;
 mod parser_util;
 mod position;
diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index 6f5433f..9d96f4f 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -114,7 +114,7 @@ pub(crate) fn make_glushkov_build_state(b: &mut NfaBuilder) -> GlushkovBuildStat
     GlushkovBuildState::new(b)
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "connect")]
 impl<'a> GlushkovBuildState<'a> {
     pub(crate) fn verif_epsilon() -> Position {
         Self::pos_epsilon()
diff --git a/src/parser/component_sequence.rs b/src/parser/component_sequence.rs
index d1f89fb..6f8d334 100644
--- a/src/parser/component_sequence.rs
+++ b/src/parser/component_sequence.rs
@@ -45,7 +45,7 @@ impl ComponentSequence {
         }
     }
 
-    #[cfg(any(test, rescan_verif))]
+    #[cfg(any(test, rescan_verif = "dump"))]
     pub(super) fn children(&self) -> &Vec<Component> {
         &self.children
     }
diff --git a/src/parser/shortcut_literal.rs b/src/parser/shortcut_literal.rs
index 01332a1..8b29644 100644
--- a/src/parser/shortcut_literal.rs
+++ b/src/parser/shortcut_literal.rs
@@ -86,7 +86,7 @@ pub(crate) fn shortcut_literal(
 }
 
 /// The literal that the given parse tree stands for, if it is one.
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "literal")]
 pub(crate) fn verif_literal(component: &super::Component) -> Option<Ue2Literal> {
     let mut vis = ConstructLiteralVisitor::default();
     match walk_component(&mut vis, component) {
diff --git a/src/parser/verif.rs b/src/parser/verif.rs
index 9529485..a13c8c0 100644
--- a/src/parser/verif.rs
+++ b/src/parser/verif.rs
@@ -1,83 +1,22 @@
-//! Access to parse trees for the verification harness.
+//! Access to the parser for the verification harness.
 
-use super::ascii_component_class::AsciiComponentClass;
-use super::shortcut_literal::verif_literal;
-use super::{
-    make_glushkov_build_state, parse, walk_component, Component, ComponentAlternation,
-    ComponentSequence, ConstComponentVisitor, ParseMode, PosFlags, Position, PositionInfo,
-};
+#[cfg(rescan_verif = "connect")]
+use super::{make_glushkov_build_state, PosFlags, Position, PositionInfo};
+use super::{parse, Component, ParseMode};
+#[cfg(rescan_verif = "connect")]
 use crate::nfagraph::NfaBuilder;
-use crate::util::{CharReach, Ue2Literal};
 use crate::{CompileError, Flags};
 
-/// A parse tree.
-pub(crate) enum Tree {
-    Class(CharReach),
-    Alternation(Vec<Tree>),
-    Sequence(Option<u32>, Vec<Tree>),
-}
-
-#[derive(Default)]
-struct TreeVisitor {
-    stack: Vec<Vec<Tree>>,
-}
-
-impl TreeVisitor {
-    fn emit(&mut self, t: Tree) {
-        self.stack.last_mut().expect("root").push(t);
-    }
-}
-
-impl ConstComponentVisitor for TreeVisitor {
-    type Error = ();
-
-    fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
-        self.emit(Tree::Class(c.cr));
-        Ok(())
-    }
-
-    fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), ()> {
-        self.stack.push(Vec::new());
-        Ok(())
-    }
-
-    fn pre_component_sequence(&mut self, _c: &ComponentSequence) -> Result<(), ()> {
-        self.stack.push(Vec::new());
-        Ok(())
-    }
-
-    fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {}
-    fn during_component_alternation(&self, _c: &ComponentAlternation) {}
-    fn during_component_sequence(&self, _c: &ComponentSequence) {}
-
-    fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {}
-
-    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
-        let children = self.stack.pop().expect("pushed in pre");
-        self.emit(Tree::Alternation(children));
-    }
-
-    fn post_component_sequence(&mut self, c: &ComponentSequence) {
-        let children = self.stack.pop().expect("pushed in pre");
-        self.emit(Tree::Sequence(c.capture_index, children));
-    }
-}
-
-pub(crate) fn tree(component: &Component) -> Tree {
-    let mut vis = TreeVisitor {
-        stack: vec![Vec::new()],
-    };
-    let _ = walk_component(&mut vis, component);
-    vis.stack
-        .pop()
-        .and_then(|mut v| v.pop())
-        .expect("exactly one root")
-}
-
-pub(crate) fn literal(component: &Component) -> Option<Ue2Literal> {
-    verif_literal(component)
-}
+#[cfg(rescan_verif = "literal")]
+pub(crate) use super::shortcut_literal::verif_literal as literal;
+#[cfg(rescan_verif = "tree")]
+mod tree;
+#[cfg(rescan_verif = "tree")]
+pub(crate) use tree::tree;
+#[cfg(rescan_verif = "tree")]
+pub use tree::Tree;
 
+#[cfg(rescan_verif = "dump")]
 pub(crate) fn dump(component: &Component) -> String {
     let mut out = String::new();
     super::dump::dump_tree(&mut out, component).expect("writing to a string");
@@ -98,6 +37,7 @@ pub(crate) fn parse_with_mode(
 ///
 /// Positions are given as a vertex and flags; `None` as the vertex stands for
 /// epsilon.
+#[cfg(rescan_verif = "connect")]
 #[allow(clippy::type_complexity)]
 pub(crate) fn connect(
     builder: &mut NfaBuilder,
@@ -121,6 +61,7 @@ pub(crate) fn connect(
     bs.verif_successors()
 }
 
+#[cfg(rescan_verif = "connect")]
 pub(crate) fn epsilon_index() -> usize {
     super::GlushkovBuildState::verif_epsilon().index()
 }
diff --git a/src/parser/verif/tree.rs b/src/parser/verif/tree.rs
new file mode 100644
index 0000000..595ed5e
--- /dev/null
+++ b/src/parser/verif/tree.rs
@@ -0,0 +1,72 @@
+//! Parse trees.
+
+use super::super::ascii_component_class::AsciiComponentClass;
+use super::super::{
+    walk_component, Component, ComponentAlternation, ComponentSequence, ConstComponentVisitor,
+};
+
+/// A parse tree.
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub enum Tree {
+    /// In ascending order.
+    Class(Vec<u8>),
+    Alternation(Vec<Tree>),
+    Sequence(Option<u32>, Vec<Tree>),
+}
+
+#[derive(Default)]
+struct TreeVisitor {
+    stack: Vec<Vec<Tree>>,
+}
+
+impl TreeVisitor {
+    fn emit(&mut self, t: Tree) {
+        self.stack.last_mut().expect("root").push(t);
+    }
+}
+
+impl ConstComponentVisitor for TreeVisitor {
+    type Error = ();
+
+    fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
+        self.emit(Tree::Class((0..=255).filter(|&b| c.cr.test(b)).collect()));
+        Ok(())
+    }
+
+    fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), ()> {
+        self.stack.push(Vec::new());
+        Ok(())
+    }
+
+    fn pre_component_sequence(&mut self, _c: &ComponentSequence) -> Result<(), ()> {
+        self.stack.push(Vec::new());
+        Ok(())
+    }
+
+    fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {}
+    fn during_component_alternation(&self, _c: &ComponentAlternation) {}
+    fn during_component_sequence(&self, _c: &ComponentSequence) {}
+
+    fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {}
+
+    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
+        let children = self.stack.pop().expect("pushed in pre");
+        self.emit(Tree::Alternation(children));
+    }
+
+    fn post_component_sequence(&mut self, c: &ComponentSequence) {
+        let children = self.stack.pop().expect("pushed in pre");
+        self.emit(Tree::Sequence(c.capture_index, children));
+    }
+}
+
+pub(crate) fn tree(component: &Component) -> Tree {
+    let mut vis = TreeVisitor {
+        stack: vec![Vec::new()],
+    };
+    let _ = walk_component(&mut vis, component);
+    vis.stack
+        .pop()
+        .and_then(|mut v| v.pop())
+        .expect("exactly one root")
+}
diff --git a/src/rose.rs b/src/rose.rs
index ca06c23..c524d9e 100644
--- a/src/rose.rs
+++ b/src/rose.rs
@@ -6,7 +6,7 @@ mod rose_internal;
 
 pub(crate) use block::rose_block_exec;
 pub(crate) use rose_build::RoseBuild;
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "runtime")]
 pub(crate) use rose_build_bytecode::verif_pick_runtime_impl;
 use rose_build_bytecode::DerivedBoundaryReports;
 use rose_build_resources::RoseResources;
diff --git a/src/rose/rose_build_bytecode.rs b/src/rose/rose_build_bytecode.rs
index c910a28..d8a6581 100644
--- a/src/rose/rose_build_bytecode.rs
+++ b/src/rose/rose_build_bytecode.rs
@@ -63,7 +63,7 @@ pub(super) struct DerivedBoundaryReports {}
 
 /// Picks a runtime implementation for the resources given as bits, in the
 /// order of the fields of `RoseResources`.
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "runtime")]
 pub(crate) fn verif_pick_runtime_impl(cc: &CompileContext, bits: u32) -> RoseRuntimeImpl {
     let bit = |n: u32| bits >> n & 1 != 0;
     let build = RoseBuild { cc, has_som: false };
diff --git a/src/rose/rose_internal.rs b/src/rose/rose_internal.rs
index 2897bae..7bef4eb 100644
--- a/src/rose/rose_internal.rs
+++ b/src/rose/rose_internal.rs
@@ -15,7 +15,7 @@ pub(crate) struct RoseEngine {
     pub(super) mode: Mode,
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "runtime")]
 impl RoseEngine {
     pub(crate) fn verif_new(runtime_impl: RoseRuntimeImpl, mode: Mode) -> Self {
         Self { runtime_impl, mode }
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index c16612c..d15d28d 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -177,7 +177,7 @@ fn add_to_trie(literal: &Ue2Literal, report: ReportId, trie: &mut LitTrie) -> bo
     trie.inner.node_count() <= MAX_TRIE_VERTICES
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "builder")]
 impl<'a> SmallWriteBuild<'a> {
     pub(crate) fn verif_poisoned(&self) -> bool {
         self.poisoned
diff --git a/src/util.rs b/src/util.rs
index c1302b2..4d4ae77 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -5,7 +5,7 @@ mod compare;
 mod compile_context;
 pub(crate) mod compile_error;
 pub(crate) mod depth;
-#[cfg(any(test, rescan_verif))]
+#[cfg(any(test, rescan_verif = "describe"))]
 mod dump_charclass;
 mod report;
 mod report_manager;
@@ -17,7 +17,7 @@ pub(crate) use boundary_reports::BoundaryReports;
 pub(crate) use charreach::{make_caseless, CharReach};
 pub(crate) use compile_context::CompileContext;
 pub(crate) use depth::Depth;
-#[cfg(any(test, rescan_verif))]
+#[cfg(any(test, rescan_verif = "describe"))]
 pub(crate) use dump_charclass::{describe_class, CcOutput};
 pub(crate) use report::{make_e_callback, make_som_relative_callback, Report};
 pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
@@ -26,11 +26,16 @@ pub(crate) use ue2string::{mixed_sensitivity, Ue2Literal};
 
 #[cfg(rescan_verif)]
 pub(crate) mod verif {
+    #[cfg(rescan_verif = "sets")]
     pub(crate) use super::bitfield::BitField256;
+    #[cfg(rescan_verif = "sets")]
     pub(crate) use super::charreach::{fill_bitvector, make_and_cmp_mask};
+    #[cfg(rescan_verif = "string")]
     pub use super::compare::{myislower, myisupper, mytolower, mytoupper, ourisalpha};
+    #[cfg(rescan_verif = "arithmetic")]
     pub use super::ue2common::{
         round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n,
     };
+    #[cfg(rescan_verif = "string")]
     pub use super::ue2string::{mixed_sensitivity, Ue2Literal, Ue2LiteralElem};
 }
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index bcc683f..4c1dd51 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -146,7 +146,7 @@ impl<'a> ReportManager<'a> {
     }
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "reports")]
 impl<'a> ReportManager<'a> {
     pub(crate) fn verif_num_reports(&self) -> usize {
         self.num_reports()
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index 2bc9aba..eb53bba 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -131,7 +131,7 @@ mod test {
     }
 }
 
-#[cfg(rescan_verif)]
+#[cfg(rescan_verif = "string")]
 impl Ue2LiteralElem {
     #[must_use]
     pub fn verif_new(c: u8, nocase: bool) -> Self {
diff --git a/src/verif.rs b/src/verif.rs
index df928ce..4421398 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,762 +1,72 @@
 //! Access to internals for the verification harness; not part of the API.
 //!
-//! Compiled with `--cfg rescan_verif` only.
+//! Compiled with `--cfg rescan_verif` only. Divided into areas, each enabled with
+//! `--cfg rescan_verif="AREA"`; some need others:
+//!
+//! - `builder`: `graph`, `info`, `settings`
+//! - `connect`: `graph`, `info`
+//! - `describe`: `sets`
+//! - `dump`: `tree`
+//! - `graph`: `info`
+//! - `reports`: `settings`
 
 #![allow(missing_docs, clippy::pedantic)]
 
-use crate::compiler::{add_expression, build_graph, verif_parsed};
-use crate::database::get_bytecode;
-use crate::nfagraph::{make_nfa_builder, Ng, NgHolder};
-use crate::parser::verif as pv;
-use crate::rose::{verif_pick_runtime_impl, RoseEngine, RoseRuntimeImpl};
-use crate::scratch::CoreInfo;
-use crate::util::{
-    describe_class, make_caseless, verif as uv, CcOutput, CharReach, CompileContext, Depth,
-    ExternalReportInfo, Report, ReportManager,
+#[cfg(rescan_verif = "settings")]
+mod settings;
+#[cfg(rescan_verif = "runtime")]
+mod runtime;
+#[cfg(rescan_verif = "tree")]
+mod tree;
+#[cfg(rescan_verif = "literal")]
+mod literal;
+#[cfg(rescan_verif = "modes")]
+mod modes;
+#[cfg(rescan_verif = "info")]
+mod info;
+#[cfg(rescan_verif = "graph")]
+mod graph;
+#[cfg(rescan_verif = "connect")]
+mod connect;
+#[cfg(rescan_verif = "builder")]
+mod builder;
+#[cfg(rescan_verif = "reports")]
+mod reports;
+#[cfg(rescan_verif = "depth")]
+mod depth;
+#[cfg(rescan_verif = "sets")]
+mod sets;
+
+#[cfg(rescan_verif = "settings")]
+pub use settings::*;
+#[cfg(rescan_verif = "runtime")]
+pub use runtime::*;
+#[cfg(rescan_verif = "tree")]
+pub use tree::*;
+#[cfg(rescan_verif = "literal")]
+pub use literal::*;
+#[cfg(rescan_verif = "modes")]
+pub use modes::*;
+#[cfg(rescan_verif = "info")]
+pub use info::*;
+#[cfg(rescan_verif = "graph")]
+pub use graph::*;
+#[cfg(rescan_verif = "connect")]
+pub use connect::*;
+#[cfg(rescan_verif = "builder")]
+pub use builder::*;
+#[cfg(rescan_verif = "reports")]
+pub use reports::*;
+#[cfg(rescan_verif = "depth")]
+pub use depth::*;
+#[cfg(rescan_verif = "sets")]
+pub use sets::*;
+#[cfg(rescan_verif = "arithmetic")]
+pub use crate::util::verif::{
+    round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n,
 };
-use crate::{CompileError, Database, Flags, Grey, Mode, Scratch, SomType};
-use std::convert::TryFrom;
-use std::pin::Pin;
-
+#[cfg(rescan_verif = "string")]
 pub use crate::util::verif::{
-    mixed_sensitivity, myislower, myisupper, mytolower, mytoupper, ourisalpha, round_down_16,
-    round_down_n, round_up_16, round_up_cache_line, round_up_n, Ue2Literal, Ue2LiteralElem,
+    mixed_sensitivity, myislower, myisupper, mytolower, mytoupper, ourisalpha, Ue2Literal,
+    Ue2LiteralElem,
 };
-
-/// Grey box settings.
-#[derive(Clone, Debug)]
-pub struct Limits {
-    pub allow_literal: bool,
-    pub flood_as_puffette: bool,
-    pub shortcut_literals: bool,
-    pub allow_small_write: bool,
-    pub small_write_largest_buffer: usize,
-    pub small_write_max_patterns: usize,
-    pub small_write_max_literals: usize,
-    pub limit_pattern_count: usize,
-    pub limit_pattern_length: usize,
-    pub limit_report_count: usize,
-}
-
-impl Default for Limits {
-    fn default() -> Self {
-        let g = Grey::default();
-        Self {
-            allow_literal: g.allow_literal,
-            flood_as_puffette: g.flood_as_puffette,
-            shortcut_literals: g.shortcut_literals,
-            allow_small_write: g.allow_small_write,
-            small_write_largest_buffer: g.small_write_largest_buffer,
-            small_write_max_patterns: g.small_write_max_patterns,
-            small_write_max_literals: g.small_write_max_literals,
-            limit_pattern_count: g.limit_pattern_count,
-            limit_pattern_length: g.limit_pattern_length,
-            limit_report_count: g.limit_report_count,
-        }
-    }
-}
-
-impl Limits {
-    fn grey(&self) -> Grey {
-        let mut g = Grey::default();
-        g.allow_literal = self.allow_literal;
-        g.flood_as_puffette = self.flood_as_puffette;
-        g.shortcut_literals = self.shortcut_literals;
-        g.allow_small_write = self.allow_small_write;
-        g.small_write_largest_buffer = self.small_write_largest_buffer;
-        g.small_write_max_patterns = self.small_write_max_patterns;
-        g.small_write_max_literals = self.small_write_max_literals;
-        g.limit_pattern_count = self.limit_pattern_count;
-        g.limit_pattern_length = self.limit_pattern_length;
-        g.limit_report_count = self.limit_report_count;
-        g
-    }
-}
-
-pub fn compile_multi_with(
-    expressions: &[&str],
-    flags: &[Flags],
-    ids: &[u32],
-    mode: &Mode,
-    limits: &Limits,
-) -> Result<Database, CompileError> {
-    crate::compile_multi_int(expressions, flags, ids, mode, &limits.grey())
-}
-
-// Modes, databases, and scanning.
-
-/// (is_streaming, is_vectored, som_precision)
-pub fn mode_info(mode: &Mode) -> (bool, bool, usize) {
-    (
-        mode.is_streaming(),
-        mode.is_vectored(),
-        mode.som_precision(),
-    )
-}
-
-#[derive(Clone, Copy, Debug, Eq, PartialEq)]
-pub enum Runtime {
-    FullRose,
-    PureLiteral,
-    SingleOutfix,
-}
-
-fn runtime(r: &RoseRuntimeImpl) -> Runtime {
-    match r {
-        RoseRuntimeImpl::FullRose => Runtime::FullRose,
-        RoseRuntimeImpl::PureLiteral => Runtime::PureLiteral,
-        RoseRuntimeImpl::SingleOutfix => Runtime::SingleOutfix,
-    }
-}
-
-pub fn database_mode(db: &Database) -> &Mode {
-    get_bytecode(db).verif_mode()
-}
-
-pub fn database_runtime(db: &Database) -> Runtime {
-    runtime(&get_bytecode(db).runtime_impl)
-}
-
-/// Replaces the runtime implementation of a database.
-pub fn database_set_runtime(db: Database, r: Runtime) -> Database {
-    let mode = match get_bytecode(&db).verif_mode() {
-        Mode::Block => Mode::Block,
-        Mode::Stream(_) => Mode::Stream(None),
-        Mode::Vectored => Mode::Vectored,
-    };
-    let r = match r {
-        Runtime::FullRose => RoseRuntimeImpl::FullRose,
-        Runtime::PureLiteral => RoseRuntimeImpl::PureLiteral,
-        Runtime::SingleOutfix => RoseRuntimeImpl::SingleOutfix,
-    };
-    Database::new(RoseEngine::verif_new(r, mode))
-}
-
-/// Names of the bits taken by `pick_runtime`.
-pub const RESOURCES: [&str; 13] = [
-    "outfixes",
-    "suffixes",
-    "leftfixes",
-    "literals",
-    "states",
-    "checks_groups",
-    "lit_delay",
-    "lit_check",
-    "anchored",
-    "anchored_multiple",
-    "anchored_large",
-    "floating",
-    "eod",
-];
-
-pub fn pick_runtime(streaming: bool, vectored: bool, resources: u32) -> Runtime {
-    let cc = CompileContext::new(streaming, vectored, &Grey::default());
-    runtime(&verif_pick_runtime_impl(&cc, resources))
-}
-
-pub fn scratch(state: *mut u8) -> Scratch {
-    Scratch {
-        core_info: CoreInfo { state },
-    }
-}
-
-// Parsing.
-
-#[derive(Clone, Debug, Eq, PartialEq)]
-pub enum Tree {
-    Class(Class),
-    Alternation(Vec<Tree>),
-    Sequence(Option<u32>, Vec<Tree>),
-}
-
-impl From<pv::Tree> for Tree {
-    fn from(t: pv::Tree) -> Self {
-        match t {
-            pv::Tree::Class(cr) => Tree::Class(Class(cr)),
-            pv::Tree::Alternation(c) => Tree::Alternation(c.into_iter().map(Into::into).collect()),
-            pv::Tree::Sequence(i, c) => Tree::Sequence(i, c.into_iter().map(Into::into).collect()),
-        }
-    }
-}
-
-#[derive(Clone, Debug, Eq, PartialEq)]
-pub struct ModeFlags {
-    pub caseless: bool,
-    pub dotall: bool,
-    pub ignore_space: bool,
-    pub multiline: bool,
-    pub ucp: bool,
-    pub utf8: bool,
-}
-
-pub struct Parsed {
-    pub tree: Tree,
-    pub mode: ModeFlags,
-    pub literal: Option<Ue2Literal>,
-    pub dump: String,
-}
-
-/// Runs the parser alone.
-pub fn parse(expression: &str, flags: Flags) -> Result<Parsed, CompileError> {
-    let (component, m) = pv::parse_with_mode(expression, flags)?;
-    Ok(Parsed {
-        tree: pv::tree(&component).into(),
-        mode: ModeFlags {
-            caseless: m.caseless,
-            dotall: m.dotall,
-            ignore_space: m.ignore_space,
-            multiline: m.multiline,
-            ucp: m.ucp,
-            utf8: m.utf8,
-        },
-        literal: pv::literal(&component),
-        dump: pv::dump(&component),
-    })
-}
-
-#[derive(Clone, Debug, Eq, PartialEq)]
-pub struct Info {
-    pub index: usize,
-    pub report: u32,
-    pub allow_vacuous: bool,
-    pub highlander: bool,
-    pub utf8: bool,
-    pub prefilter: bool,
-    pub som: bool,
-    pub quiet: bool,
-}
-
-fn info(e: &crate::compiler::ExpressionInfo) -> Info {
-    let (allow_vacuous, utf8, prefilter) = e.verif_flags();
-    Info {
-        index: e.index,
-        report: e.report,
-        allow_vacuous,
-        highlander: e.highlander,
-        utf8,
-        prefilter,
-        som: e.som != SomType::None,
-        quiet: e.quiet,
-    }
-}
-
-/// Parses an expression along with its flags.
-pub fn expression(
-    index: usize,
-    expression: &str,
-    flags: Flags,
-    id: u32,
-) -> Result<(Info, Tree), CompileError> {
-    let pe = verif_parsed(index, expression, flags, id)?;
-    Ok((info(&pe.expr), pv::tree(&pe.component).into()))
-}
-
-// Graphs.
-
-pub struct Vertex {
-    pub reach: Class,
-    pub reports: Vec<u32>,
-    pub assert_flags: u32,
-}
-
-pub struct GraphView {
-    /// Indices of start, start-dotstar, accept, and accept-eod.
-    pub specials: [usize; 4],
-    pub vertices: Vec<Vertex>,
-    pub edges: Vec<(usize, usize)>,
-    pub vacuous: bool,
-    pub all_reports: Vec<u32>,
-}
-
-fn view(g: &NgHolder) -> GraphView {
-    let s = g.verif_specials();
-    GraphView {
-        specials: [s[0].index(), s[1].index(), s[2].index(), s[3].index()],
-        vertices: g
-            .verif_vertices()
-            .into_iter()
-            .map(|(_, cr, reports, assert_flags)| Vertex {
-                reach: Class(cr),
-                reports,
-                assert_flags,
-            })
-            .collect(),
-        edges: g
-            .verif_edges()
-            .into_iter()
-            .map(|(u, v)| (u.index(), v.index()))
-            .collect(),
-        vacuous: g.is_vacuous(),
-        all_reports: g.all_reports().into_iter().collect(),
-    }
-}
-
-/// Builds the graph of an expression, without the literal shortcut.
-pub fn graph(
-    index: usize,
-    expression: &str,
-    flags: Flags,
-    id: u32,
-) -> Result<(Info, GraphView), CompileError> {
-    let mut pe = verif_parsed(index, expression, flags, id)?;
-    let built = build_graph(&mut pe);
-    Ok((info(&built.expr), view(&built.g)))
-}
-
-/// A description of a graph to be built: vertices are numbered from 0, the
-/// first four being start, start-dotstar, accept, and accept-eod.
-#[derive(Clone, Debug, Default)]
-pub struct GraphSpec {
-    pub extra_vertices: usize,
-    pub edges: Vec<(usize, usize)>,
-    pub reports: Vec<(usize, u32)>,
-}
-
-fn holder(spec: &GraphSpec) -> NgHolder {
-    let mut g = NgHolder::new();
-    let mut v = g.verif_specials().to_vec();
-    for _ in 0..spec.extra_vertices {
-        v.push(g.verif_add_vertex());
-    }
-    for &(a, b) in &spec.edges {
-        g.verif_add_edge(v[a], v[b]);
-    }
-    for &(a, r) in &spec.reports {
-        g.verif_add_report(v[a], r);
-    }
-    g
-}
-
-pub fn graph_from(spec: &GraphSpec) -> GraphView {
-    view(&holder(spec))
-}
-
-/// A position in a region: a vertex (the first four being the special ones) or
-/// `None` for epsilon, and position flags.
-pub type Pos = (Option<usize>, u32);
-
-pub const POS_NOFLOAT: u32 = crate::parser::PosFlags::NOFLOAT.bits();
-pub const POS_MUST_FLOAT: u32 = crate::parser::PosFlags::MUST_FLOAT.bits();
-pub const POS_MULTILINE_START: u32 = crate::parser::PosFlags::MULTILINE_START.bits();
-
-/// What connecting regions has recorded.
-pub struct Connections {
-    /// (from, to, flags of to)
-    pub successors: Vec<(usize, usize, u32)>,
-    pub num_vertices: usize,
-    pub specials: [usize; 4],
-    pub epsilon: usize,
-}
-
-/// Connects regions in a fresh build state with the given number of extra
-/// vertices, whose assertion flags are `assert_flags`.
-pub fn connect_regions(assert_flags: &[u32], regions: &[(Vec<Pos>, Vec<Pos>)]) -> Connections {
-    let pe = verif_parsed(0, "", Flags::empty(), 0).expect("valid");
-    let mut b = make_nfa_builder(&pe);
-    let mut v = b.verif_graph_mut().verif_specials().to_vec();
-    for &f in assert_flags {
-        let p = b.make_position();
-        b.verif_graph_mut().verif_set_assert_flags(p, f);
-        v.push(p);
-    }
-    let region = |list: &[Pos]| {
-        list.iter()
-            .map(|&(p, f)| (p.map(|p| v[p]), f))
-            .collect::<Vec<_>>()
-    };
-    let regions: Vec<_> = regions
-        .iter()
-        .map(|(a, b)| (region(a), region(b)))
-        .collect();
-    let successors = pv::connect(&mut b, &regions);
-    let s = b.verif_graph_mut().verif_specials();
-    Connections {
-        successors,
-        num_vertices: b.num_vertices(),
-        specials: [s[0].index(), s[1].index(), s[2].index(), s[3].index()],
-        epsilon: pv::epsilon_index(),
-    }
-}
-
-// The builder of the whole pattern set.
-
-pub struct TrieView {
-    pub num_vertices: usize,
-    pub is_empty: bool,
-    pub all_reports: Vec<u32>,
-    /// (path from root, reports)
-    pub vertices: Vec<(Vec<u8>, Vec<u32>)>,
-}
-
-/// Builder for a set of patterns.
-pub struct Builder {
-    ng: Option<Pin<Box<Ng<'static>>>>,
-    cc: *mut CompileContext,
-}
-
-impl Builder {
-    pub fn new(num_patterns: usize, mode: &Mode, limits: &Limits) -> Self {
-        let cc = Box::into_raw(Box::new(CompileContext::new(
-            mode.is_streaming(),
-            mode.is_vectored(),
-            &limits.grey(),
-        )));
-        let ng = Ng::new(unsafe { &*cc }, num_patterns, mode.som_precision());
-        Self { ng: Some(ng), cc }
-    }
-
-    fn get(&self) -> &Ng<'static> {
-        self.ng.as_ref().expect("present")
-    }
-
-    fn get_mut(&mut self) -> &mut Ng<'static> {
-        unsafe { Pin::get_unchecked_mut(self.ng.as_mut().expect("present").as_mut()) }
-    }
-
-    pub fn add_expression(
-        &mut self,
-        index: usize,
-        expression: &str,
-        flags: Flags,
-        id: u32,
-    ) -> Result<(), CompileError> {
-        add_expression(
-            self.ng.as_mut().expect("present"),
-            index,
-            expression,
-            flags,
-            id,
-        )
-    }
-
-    /// Tries the literal shortcut alone.
-    pub fn shortcut_literal(
-        &mut self,
-        index: usize,
-        expression: &str,
-        flags: Flags,
-        id: u32,
-    ) -> Result<bool, CompileError> {
-        let pe = verif_parsed(index, expression, flags, id)?;
-        crate::parser::shortcut_literal(self.ng.as_mut().expect("present"), &pe)
-    }
-
-    pub fn add_literal(
-        &mut self,
-        literal: &Ue2Literal,
-        index: u32,
-        id: u32,
-        highlander: bool,
-        som: bool,
-        quiet: bool,
-    ) -> Result<bool, CompileError> {
-        let som = if som { SomType::Left } else { SomType::None };
-        self.get_mut()
-            .add_literal(literal, index, id, highlander, som, quiet)
-    }
-
-    /// `None` stands for infinity.
-    pub fn min_width(&self) -> Option<usize> {
-        let d = self.get().verif_min_width();
-        if d == Depth::infinity() {
-            return None;
-        }
-        // `Depth` has no accessor; search for its value.
-        let (mut lo, mut hi) = (0_usize, (1_usize << 31) - 2);
-        while lo < hi {
-            let mid = lo + (hi - lo) / 2;
-            match Depth::try_from(mid) {
-                Ok(m) if m < d => lo = mid + 1,
-                _ => hi = mid,
-            }
-        }
-        Some(lo)
-    }
-
-    pub fn has_som(&self) -> bool {
-        self.get().rose.has_som
-    }
-
-    pub fn num_reports(&self) -> usize {
-        self.get().verif_reports().verif_num_reports()
-    }
-
-    pub fn global_exhaust(&self) -> bool {
-        self.get().verif_reports().verif_global_exhaust()
-    }
-
-    /// Registers a report with the given minimum match length.
-    pub fn add_report(&mut self, min_length: u64) -> Result<u32, CompileError> {
-        self.get_mut()
-            .verif_reports_mut()
-            .get_internal_id(&Report { min_length })
-    }
-
-    pub fn small_write_add_literal(&mut self, literal: &Ue2Literal, report: u32) {
-        self.get_mut()
-            .verif_small_write_mut()
-            .add_literal(literal, report);
-    }
-
-    pub fn small_write_add_graph(&mut self, spec: &GraphSpec, som: bool) {
-        let pe = verif_parsed(0, "", Flags::empty(), 0).expect("valid");
-        let mut expr = pe.expr;
-        if som {
-            expr.som = SomType::Left;
-        }
-        self.get_mut()
-            .verif_small_write_mut()
-            .add_expression(&holder(spec), &expr);
-    }
-
-    pub fn small_write_poisoned(&self) -> bool {
-        self.get().verif_small_write().verif_poisoned()
-    }
-
-    pub fn small_write_num_literals(&self) -> usize {
-        self.get().verif_small_write().verif_num_literals()
-    }
-
-    pub fn small_write_trie(&self, nocase: bool) -> TrieView {
-        let (num_vertices, is_empty, all_reports, vertices) =
-            self.get().verif_small_write().verif_trie(nocase);
-        TrieView {
-            num_vertices,
-            is_empty,
-            all_reports,
-            vertices,
-        }
-    }
-
-    pub fn build(&self) -> Database {
-        crate::compiler::build(self.get())
-    }
-}
-
-impl Drop for Builder {
-    fn drop(&mut self) {
-        self.ng = None;
-        drop(unsafe { Box::from_raw(self.cc) });
-    }
-}
-
-/// Report manager.
-pub struct Reports {
-    rm: Option<ReportManager<'static>>,
-    grey: *mut Grey,
-}
-
-impl Reports {
-    pub fn new(limits: &Limits) -> Self {
-        let grey = Box::into_raw(Box::new(limits.grey()));
-        let rm = ReportManager::new(unsafe { &*grey });
-        Self { rm: Some(rm), grey }
-    }
-
-    fn get(&self) -> &ReportManager<'static> {
-        self.rm.as_ref().expect("present")
-    }
-
-    fn get_mut(&mut self) -> &mut ReportManager<'static> {
-        self.rm.as_mut().expect("present")
-    }
-
-    /// Fetches the internal ID of the report with the given minimum length.
-    pub fn internal_id(&mut self, min_length: u64) -> Result<u32, CompileError> {
-        self.get_mut().get_internal_id(&Report { min_length })
-    }
-
-    /// Returns the minimum length of the report with the given internal ID.
-    pub fn report(&self, id: u32) -> u64 {
-        self.get().get_report(id).min_length
-    }
-
-    pub fn num_reports(&self) -> usize {
-        self.get().verif_num_reports()
-    }
-
-    pub fn register(
-        &mut self,
-        id: u32,
-        highlander: bool,
-        pattern_index: u32,
-    ) -> Result<(), CompileError> {
-        self.get_mut()
-            .register_ext_report(id, ExternalReportInfo::new(highlander, pattern_index))
-    }
-
-    pub fn exhaustible_key(&mut self, a: u32) -> u32 {
-        self.get_mut().get_exhaustible_key(a)
-    }
-
-    pub fn global_exhaust(&self) -> bool {
-        self.get().verif_global_exhaust()
-    }
-}
-
-impl Drop for Reports {
-    fn drop(&mut self) {
-        self.rm = None;
-        drop(unsafe { Box::from_raw(self.grey) });
-    }
-}
-
-// Utilities.
-
-/// A depth.
-#[derive(Clone, Copy, Debug, Eq, Ord, PartialEq, PartialOrd)]
-pub struct DepthValue(Depth);
-
-impl DepthValue {
-    pub fn infinity() -> Self {
-        Self(Depth::infinity())
-    }
-
-    pub fn from_u32(v: u32) -> Option<Self> {
-        Depth::try_from(v).ok().map(Self)
-    }
-
-    pub fn from_usize(v: usize) -> Option<Self> {
-        Depth::try_from(v).ok().map(Self)
-    }
-}
-
-macro_rules! set_wrapper {
-    ($name:ident, $inner:ty) => {
-        #[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
-        pub struct $name($inner);
-
-        impl $name {
-            pub fn reset_all(&mut self) {
-                self.0.reset_all();
-            }
-            pub fn set_all(&mut self) {
-                self.0.set_all();
-            }
-            pub fn reset(&mut self, n: u8) {
-                self.0.reset(n);
-            }
-            pub fn set(&mut self, n: u8) {
-                self.0.set(n);
-            }
-            pub fn test(&self, n: u8) -> bool {
-                self.0.test(n)
-            }
-            pub fn flip_all(&mut self) {
-                self.0.flip_all();
-            }
-            pub fn flip(&mut self, n: u8) {
-                self.0.flip(n);
-            }
-            pub fn set_range(&mut self, from: u8, to: u8) {
-                self.0.set_range(from, to);
-            }
-            pub fn count(&self) -> u32 {
-                self.0.count()
-            }
-            pub fn none(&self) -> bool {
-                self.0.none()
-            }
-            pub fn any(&self) -> bool {
-                self.0.any()
-            }
-            pub fn all(&self) -> bool {
-                self.0.all()
-            }
-            pub fn find_first(&self) -> Option<u8> {
-                self.0.find_first()
-            }
-            pub fn find_last(&self) -> Option<u8> {
-                self.0.find_last()
-            }
-            pub fn find_next(&self, last: u8) -> Option<u8> {
-                self.0.find_next(last)
-            }
-            pub fn find_nth(&self, n: u8) -> Option<u8> {
-                self.0.find_nth(n)
-            }
-            pub fn and(self, rhs: Self) -> Self {
-                Self(self.0 & rhs.0)
-            }
-            pub fn or(self, rhs: Self) -> Self {
-                Self(self.0 | rhs.0)
-            }
-            pub fn xor(self, rhs: Self) -> Self {
-                Self(self.0 ^ rhs.0)
-            }
-            pub fn not(self) -> Self {
-                Self(!self.0)
-            }
-            pub fn and_assign(&mut self, rhs: Self) {
-                self.0 &= rhs.0;
-            }
-            pub fn or_assign(&mut self, rhs: Self) {
-                self.0 |= rhs.0;
-            }
-            pub fn xor_assign(&mut self, rhs: Self) {
-                self.0 ^= rhs.0;
-            }
-        }
-    };
-}
-
-set_wrapper!(Bits, uv::BitField256);
-set_wrapper!(Class, CharReach);
-
-impl Class {
-    pub fn from_char(c: u8) -> Self {
-        Self(CharReach::from_char(c))
-    }
-    pub fn from_range(from: u8, to: u8) -> Self {
-        Self(CharReach::from_range(from, to))
-    }
-    pub fn from_bytes(bytes: &[u8]) -> Self {
-        Self(CharReach::from_bytes(bytes))
-    }
-    pub fn dot() -> Self {
-        Self(CharReach::dot())
-    }
-    pub fn set_bytes(&mut self, bytes: &[u8]) {
-        self.0.set_bytes(bytes);
-    }
-    pub fn is_alphabetic(&self) -> bool {
-        self.0.is_alphabetic()
-    }
-    pub fn is_caseless_char(&self) -> bool {
-        self.0.is_caseless_char()
-    }
-    pub fn is_bit5_insensitive(&self) -> bool {
-        self.0.is_bit5_insensitive()
-    }
-    pub fn is_subset_of(&self, rhs: &Self) -> bool {
-        self.0.is_subset_of(&rhs.0)
-    }
-    pub fn overlaps(&self, rhs: &Self) -> bool {
-        self.0.overlaps(&rhs.0)
-    }
-    pub fn is_ascii(&self) -> bool {
-        self.0.is_ascii()
-    }
-    pub fn is_utf8_start(&self) -> bool {
-        self.0.is_utf8_start()
-    }
-    pub fn display(&self) -> String {
-        self.0.to_string()
-    }
-    pub fn make_caseless(&mut self) {
-        make_caseless(&mut self.0);
-    }
-    pub fn fill_bitvector(&self, bits: &mut [u8]) {
-        uv::fill_bitvector(&self.0, bits);
-    }
-    pub fn and_cmp_mask(&self) -> (u8, u8) {
-        uv::make_and_cmp_mask(&self.0)
-    }
-    /// Describes the class as text, or as a DOT label.
-    pub fn describe(&self, max_length: usize, dot: bool) -> String {
-        let mut out = String::new();
-        let out_type = if dot { CcOutput::Dot } else { CcOutput::Text };
-        describe_class(&mut out, &self.0, max_length, out_type).expect("writing to a string");
-        out
-    }
-}
diff --git a/src/verif/builder.rs b/src/verif/builder.rs
new file mode 100644
index 0000000..a5d5e54
--- /dev/null
+++ b/src/verif/builder.rs
@@ -0,0 +1,170 @@
+//! The builder of the whole pattern set.
+
+use super::graph::{holder, GraphSpec};
+use super::settings::Limits;
+use crate::compiler::{add_expression, verif_parsed};
+use crate::nfagraph::Ng;
+use crate::util::{CompileContext, Depth, Report, Ue2Literal};
+use crate::{CompileError, Database, Flags, Mode, SomType};
+use std::convert::TryFrom;
+use std::pin::Pin;
+
+pub struct TrieView {
+    pub num_vertices: usize,
+    pub is_empty: bool,
+    pub all_reports: Vec<u32>,
+    /// (path from root, reports)
+    pub vertices: Vec<(Vec<u8>, Vec<u32>)>,
+}
+
+/// Builder for a set of patterns.
+pub struct Builder {
+    ng: Option<Pin<Box<Ng<'static>>>>,
+    cc: *mut CompileContext,
+}
+
+impl Builder {
+    pub fn new(num_patterns: usize, mode: &Mode, limits: &Limits) -> Self {
+        let cc = Box::into_raw(Box::new(CompileContext::new(
+            mode.is_streaming(),
+            mode.is_vectored(),
+            &limits.grey(),
+        )));
+        let ng = Ng::new(unsafe { &*cc }, num_patterns, mode.som_precision());
+        Self { ng: Some(ng), cc }
+    }
+
+    fn get(&self) -> &Ng<'static> {
+        self.ng.as_ref().expect("present")
+    }
+
+    fn get_mut(&mut self) -> &mut Ng<'static> {
+        unsafe { Pin::get_unchecked_mut(self.ng.as_mut().expect("present").as_mut()) }
+    }
+
+    pub fn add_expression(
+        &mut self,
+        index: usize,
+        expression: &str,
+        flags: Flags,
+        id: u32,
+    ) -> Result<(), CompileError> {
+        add_expression(
+            self.ng.as_mut().expect("present"),
+            index,
+            expression,
+            flags,
+            id,
+        )
+    }
+
+    /// Tries the literal shortcut alone.
+    pub fn shortcut_literal(
+        &mut self,
+        index: usize,
+        expression: &str,
+        flags: Flags,
+        id: u32,
+    ) -> Result<bool, CompileError> {
+        let pe = verif_parsed(index, expression, flags, id)?;
+        crate::parser::shortcut_literal(self.ng.as_mut().expect("present"), &pe)
+    }
+
+    pub fn add_literal(
+        &mut self,
+        literal: &Ue2Literal,
+        index: u32,
+        id: u32,
+        highlander: bool,
+        som: bool,
+        quiet: bool,
+    ) -> Result<bool, CompileError> {
+        let som = if som { SomType::Left } else { SomType::None };
+        self.get_mut()
+            .add_literal(literal, index, id, highlander, som, quiet)
+    }
+
+    /// `None` stands for infinity.
+    pub fn min_width(&self) -> Option<usize> {
+        let d = self.get().verif_min_width();
+        if d == Depth::infinity() {
+            return None;
+        }
+        // `Depth` has no accessor; search for its value.
+        let (mut lo, mut hi) = (0_usize, (1_usize << 31) - 2);
+        while lo < hi {
+            let mid = lo + (hi - lo) / 2;
+            match Depth::try_from(mid) {
+                Ok(m) if m < d => lo = mid + 1,
+                _ => hi = mid,
+            }
+        }
+        Some(lo)
+    }
+
+    pub fn has_som(&self) -> bool {
+        self.get().rose.has_som
+    }
+
+    pub fn num_reports(&self) -> usize {
+        self.get().verif_reports().verif_num_reports()
+    }
+
+    pub fn global_exhaust(&self) -> bool {
+        self.get().verif_reports().verif_global_exhaust()
+    }
+
+    /// Registers a report with the given minimum match length.
+    pub fn add_report(&mut self, min_length: u64) -> Result<u32, CompileError> {
+        self.get_mut()
+            .verif_reports_mut()
+            .get_internal_id(&Report { min_length })
+    }
+
+    pub fn small_write_add_literal(&mut self, literal: &Ue2Literal, report: u32) {
+        self.get_mut()
+            .verif_small_write_mut()
+            .add_literal(literal, report);
+    }
+
+    pub fn small_write_add_graph(&mut self, spec: &GraphSpec, som: bool) {
+        let pe = verif_parsed(0, "", Flags::empty(), 0).expect("valid");
+        let mut expr = pe.expr;
+        if som {
+            expr.som = SomType::Left;
+        }
+        self.get_mut()
+            .verif_small_write_mut()
+            .add_expression(&holder(spec), &expr);
+    }
+
+    pub fn small_write_poisoned(&self) -> bool {
+        self.get().verif_small_write().verif_poisoned()
+    }
+
+    pub fn small_write_num_literals(&self) -> usize {
+        self.get().verif_small_write().verif_num_literals()
+    }
+
+    pub fn small_write_trie(&self, nocase: bool) -> TrieView {
+        let (num_vertices, is_empty, all_reports, vertices) =
+            self.get().verif_small_write().verif_trie(nocase);
+        TrieView {
+            num_vertices,
+            is_empty,
+            all_reports,
+            vertices,
+        }
+    }
+
+    pub fn build(&self) -> Database {
+        crate::compiler::build(self.get())
+    }
+}
+
+impl Drop for Builder {
+    fn drop(&mut self) {
+        self.ng = None;
+        drop(unsafe { Box::from_raw(self.cc) });
+    }
+}
diff --git a/src/verif/connect.rs b/src/verif/connect.rs
new file mode 100644
index 0000000..47d4b07
--- /dev/null
+++ b/src/verif/connect.rs
@@ -0,0 +1,53 @@
+//! Connecting positions.
+
+use crate::compiler::verif_parsed;
+use crate::nfagraph::make_nfa_builder;
+use crate::parser::verif as pv;
+use crate::Flags;
+
+/// A position in a region: a vertex (the first four being the special ones) or
+/// `None` for epsilon, and position flags.
+pub type Pos = (Option<usize>, u32);
+
+pub const POS_NOFLOAT: u32 = crate::parser::PosFlags::NOFLOAT.bits();
+pub const POS_MUST_FLOAT: u32 = crate::parser::PosFlags::MUST_FLOAT.bits();
+pub const POS_MULTILINE_START: u32 = crate::parser::PosFlags::MULTILINE_START.bits();
+
+/// What connecting regions has recorded.
+pub struct Connections {
+    /// (from, to, flags of to)
+    pub successors: Vec<(usize, usize, u32)>,
+    pub num_vertices: usize,
+    pub specials: [usize; 4],
+    pub epsilon: usize,
+}
+
+/// Connects regions in a fresh build state with the given number of extra
+/// vertices, whose assertion flags are `assert_flags`.
+pub fn connect_regions(assert_flags: &[u32], regions: &[(Vec<Pos>, Vec<Pos>)]) -> Connections {
+    let pe = verif_parsed(0, "", Flags::empty(), 0).expect("valid");
+    let mut b = make_nfa_builder(&pe);
+    let mut v = b.verif_graph_mut().verif_specials().to_vec();
+    for &f in assert_flags {
+        let p = b.make_position();
+        b.verif_graph_mut().verif_set_assert_flags(p, f);
+        v.push(p);
+    }
+    let region = |list: &[Pos]| {
+        list.iter()
+            .map(|&(p, f)| (p.map(|p| v[p]), f))
+            .collect::<Vec<_>>()
+    };
+    let regions: Vec<_> = regions
+        .iter()
+        .map(|(a, b)| (region(a), region(b)))
+        .collect();
+    let successors = pv::connect(&mut b, &regions);
+    let s = b.verif_graph_mut().verif_specials();
+    Connections {
+        successors,
+        num_vertices: b.num_vertices(),
+        specials: [s[0].index(), s[1].index(), s[2].index(), s[3].index()],
+        epsilon: pv::epsilon_index(),
+    }
+}
diff --git a/src/verif/depth.rs b/src/verif/depth.rs
new file mode 100644
index 0000000..eaf5bb7
--- /dev/null
+++ b/src/verif/depth.rs
@@ -0,0 +1,22 @@
+//! Depths.
+
+use crate::util::Depth;
+use std::convert::TryFrom;
+
+/// A depth.
+#[derive(Clone, Copy, Debug, Eq, Ord, PartialEq, PartialOrd)]
+pub struct DepthValue(Depth);
+
+impl DepthValue {
+    pub fn infinity() -> Self {
+        Self(Depth::infinity())
+    }
+
+    pub fn from_u32(v: u32) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+
+    pub fn from_usize(v: usize) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+}
diff --git a/src/verif/graph.rs b/src/verif/graph.rs
new file mode 100644
index 0000000..9c632ee
--- /dev/null
+++ b/src/verif/graph.rs
@@ -0,0 +1,85 @@
+//! Graphs.
+
+use super::info::{info, Info};
+use crate::compiler::{build_graph, verif_parsed};
+use crate::nfagraph::NgHolder;
+use crate::{CompileError, Flags};
+
+pub struct Vertex {
+    /// In ascending order.
+    pub reach: Vec<u8>,
+    pub reports: Vec<u32>,
+    pub assert_flags: u32,
+}
+
+pub struct GraphView {
+    /// Indices of start, start-dotstar, accept, and accept-eod.
+    pub specials: [usize; 4],
+    pub vertices: Vec<Vertex>,
+    pub edges: Vec<(usize, usize)>,
+    pub vacuous: bool,
+    pub all_reports: Vec<u32>,
+}
+
+fn view(g: &NgHolder) -> GraphView {
+    let s = g.verif_specials();
+    GraphView {
+        specials: [s[0].index(), s[1].index(), s[2].index(), s[3].index()],
+        vertices: g
+            .verif_vertices()
+            .into_iter()
+            .map(|(_, cr, reports, assert_flags)| Vertex {
+                reach: (0..=255).filter(|&b| cr.test(b)).collect(),
+                reports,
+                assert_flags,
+            })
+            .collect(),
+        edges: g
+            .verif_edges()
+            .into_iter()
+            .map(|(u, v)| (u.index(), v.index()))
+            .collect(),
+        vacuous: g.is_vacuous(),
+        all_reports: g.all_reports().into_iter().collect(),
+    }
+}
+
+/// Builds the graph of an expression, without the literal shortcut.
+pub fn graph(
+    index: usize,
+    expression: &str,
+    flags: Flags,
+    id: u32,
+) -> Result<(Info, GraphView), CompileError> {
+    let mut pe = verif_parsed(index, expression, flags, id)?;
+    let built = build_graph(&mut pe);
+    Ok((info(&built.expr), view(&built.g)))
+}
+
+/// A description of a graph to be built: vertices are numbered from 0, the
+/// first four being start, start-dotstar, accept, and accept-eod.
+#[derive(Clone, Debug, Default)]
+pub struct GraphSpec {
+    pub extra_vertices: usize,
+    pub edges: Vec<(usize, usize)>,
+    pub reports: Vec<(usize, u32)>,
+}
+
+pub(super) fn holder(spec: &GraphSpec) -> NgHolder {
+    let mut g = NgHolder::new();
+    let mut v = g.verif_specials().to_vec();
+    for _ in 0..spec.extra_vertices {
+        v.push(g.verif_add_vertex());
+    }
+    for &(a, b) in &spec.edges {
+        g.verif_add_edge(v[a], v[b]);
+    }
+    for &(a, r) in &spec.reports {
+        g.verif_add_report(v[a], r);
+    }
+    g
+}
+
+pub fn graph_from(spec: &GraphSpec) -> GraphView {
+    view(&holder(spec))
+}
diff --git a/src/verif/info.rs b/src/verif/info.rs
new file mode 100644
index 0000000..88637d1
--- /dev/null
+++ b/src/verif/info.rs
@@ -0,0 +1,53 @@
+//! Expressions along with their flags.
+
+use crate::compiler::verif_parsed;
+use crate::{CompileError, Flags, SomType};
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct Info {
+    pub index: usize,
+    pub report: u32,
+    pub allow_vacuous: bool,
+    pub highlander: bool,
+    pub utf8: bool,
+    pub prefilter: bool,
+    pub som: bool,
+    pub quiet: bool,
+}
+
+pub(super) fn info(e: &crate::compiler::ExpressionInfo) -> Info {
+    let (allow_vacuous, utf8, prefilter) = e.verif_flags();
+    Info {
+        index: e.index,
+        report: e.report,
+        allow_vacuous,
+        highlander: e.highlander,
+        utf8,
+        prefilter,
+        som: e.som != SomType::None,
+        quiet: e.quiet,
+    }
+}
+
+/// Parses an expression along with its flags.
+pub fn expression(
+    index: usize,
+    expression: &str,
+    flags: Flags,
+    id: u32,
+) -> Result<Info, CompileError> {
+    Ok(info(&verif_parsed(index, expression, flags, id)?.expr))
+}
+
+/// The parse tree of an expression that is to become a graph.
+#[cfg(rescan_verif = "tree")]
+pub fn expression_tree(
+    index: usize,
+    expression: &str,
+    flags: Flags,
+    id: u32,
+) -> Result<super::Tree, CompileError> {
+    let pe = verif_parsed(index, expression, flags, id)?;
+    Ok(crate::parser::verif::tree(&pe.component))
+}
+
diff --git a/src/verif/literal.rs b/src/verif/literal.rs
new file mode 100644
index 0000000..19900e5
--- /dev/null
+++ b/src/verif/literal.rs
@@ -0,0 +1,12 @@
+//! Literals.
+
+use crate::parser::verif as pv;
+use crate::util::Ue2Literal;
+use crate::{CompileError, Flags};
+
+/// The literal that an expression stands for, if it is one.
+pub fn literal(expression: &str, flags: Flags) -> Result<Option<Ue2Literal>, CompileError> {
+    let (component, _) = pv::parse_with_mode(expression, flags)?;
+    Ok(pv::literal(&component))
+}
+
diff --git a/src/verif/modes.rs b/src/verif/modes.rs
new file mode 100644
index 0000000..854c276
--- /dev/null
+++ b/src/verif/modes.rs
@@ -0,0 +1,28 @@
+//! Modes of parsing.
+
+use crate::parser::verif as pv;
+use crate::{CompileError, Flags};
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct ModeFlags {
+    pub caseless: bool,
+    pub dotall: bool,
+    pub ignore_space: bool,
+    pub multiline: bool,
+    pub ucp: bool,
+    pub utf8: bool,
+}
+
+/// The mode after parsing an expression.
+pub fn parse_mode(expression: &str, flags: Flags) -> Result<ModeFlags, CompileError> {
+    let (_, m) = pv::parse_with_mode(expression, flags)?;
+    Ok(ModeFlags {
+        caseless: m.caseless,
+        dotall: m.dotall,
+        ignore_space: m.ignore_space,
+        multiline: m.multiline,
+        ucp: m.ucp,
+        utf8: m.utf8,
+    })
+}
+
diff --git a/src/verif/reports.rs b/src/verif/reports.rs
new file mode 100644
index 0000000..a7a6834
--- /dev/null
+++ b/src/verif/reports.rs
@@ -0,0 +1,66 @@
+//! Report manager.
+
+use super::settings::Limits;
+use crate::util::{ExternalReportInfo, Report, ReportManager};
+use crate::{CompileError, Grey};
+
+/// Report manager.
+pub struct Reports {
+    rm: Option<ReportManager<'static>>,
+    grey: *mut Grey,
+}
+
+impl Reports {
+    pub fn new(limits: &Limits) -> Self {
+        let grey = Box::into_raw(Box::new(limits.grey()));
+        let rm = ReportManager::new(unsafe { &*grey });
+        Self { rm: Some(rm), grey }
+    }
+
+    fn get(&self) -> &ReportManager<'static> {
+        self.rm.as_ref().expect("present")
+    }
+
+    fn get_mut(&mut self) -> &mut ReportManager<'static> {
+        self.rm.as_mut().expect("present")
+    }
+
+    /// Fetches the internal ID of the report with the given minimum length.
+    pub fn internal_id(&mut self, min_length: u64) -> Result<u32, CompileError> {
+        self.get_mut().get_internal_id(&Report { min_length })
+    }
+
+    /// Returns the minimum length of the report with the given internal ID.
+    pub fn report(&self, id: u32) -> u64 {
+        self.get().get_report(id).min_length
+    }
+
+    pub fn num_reports(&self) -> usize {
+        self.get().verif_num_reports()
+    }
+
+    pub fn register(
+        &mut self,
+        id: u32,
+        highlander: bool,
+        pattern_index: u32,
+    ) -> Result<(), CompileError> {
+        self.get_mut()
+            .register_ext_report(id, ExternalReportInfo::new(highlander, pattern_index))
+    }
+
+    pub fn exhaustible_key(&mut self, a: u32) -> u32 {
+        self.get_mut().get_exhaustible_key(a)
+    }
+
+    pub fn global_exhaust(&self) -> bool {
+        self.get().verif_global_exhaust()
+    }
+}
+
+impl Drop for Reports {
+    fn drop(&mut self) {
+        self.rm = None;
+        drop(unsafe { Box::from_raw(self.grey) });
+    }
+}
diff --git a/src/verif/runtime.rs b/src/verif/runtime.rs
new file mode 100644
index 0000000..77f38a3
--- /dev/null
+++ b/src/verif/runtime.rs
@@ -0,0 +1,82 @@
+//! Modes, databases, and scanning.
+
+use crate::database::get_bytecode;
+use crate::rose::{verif_pick_runtime_impl, RoseEngine, RoseRuntimeImpl};
+use crate::scratch::CoreInfo;
+use crate::util::CompileContext;
+use crate::{Database, Grey, Mode, Scratch};
+
+/// (is_streaming, is_vectored, som_precision)
+pub fn mode_info(mode: &Mode) -> (bool, bool, usize) {
+    (
+        mode.is_streaming(),
+        mode.is_vectored(),
+        mode.som_precision(),
+    )
+}
+
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub enum Runtime {
+    FullRose,
+    PureLiteral,
+    SingleOutfix,
+}
+
+fn runtime(r: &RoseRuntimeImpl) -> Runtime {
+    match r {
+        RoseRuntimeImpl::FullRose => Runtime::FullRose,
+        RoseRuntimeImpl::PureLiteral => Runtime::PureLiteral,
+        RoseRuntimeImpl::SingleOutfix => Runtime::SingleOutfix,
+    }
+}
+
+pub fn database_mode(db: &Database) -> &Mode {
+    get_bytecode(db).verif_mode()
+}
+
+pub fn database_runtime(db: &Database) -> Runtime {
+    runtime(&get_bytecode(db).runtime_impl)
+}
+
+/// Replaces the runtime implementation of a database.
+pub fn database_set_runtime(db: Database, r: Runtime) -> Database {
+    let mode = match get_bytecode(&db).verif_mode() {
+        Mode::Block => Mode::Block,
+        Mode::Stream(_) => Mode::Stream(None),
+        Mode::Vectored => Mode::Vectored,
+    };
+    let r = match r {
+        Runtime::FullRose => RoseRuntimeImpl::FullRose,
+        Runtime::PureLiteral => RoseRuntimeImpl::PureLiteral,
+        Runtime::SingleOutfix => RoseRuntimeImpl::SingleOutfix,
+    };
+    Database::new(RoseEngine::verif_new(r, mode))
+}
+
+/// Names of the bits taken by `pick_runtime`.
+pub const RESOURCES: [&str; 13] = [
+    "outfixes",
+    "suffixes",
+    "leftfixes",
+    "literals",
+    "states",
+    "checks_groups",
+    "lit_delay",
+    "lit_check",
+    "anchored",
+    "anchored_multiple",
+    "anchored_large",
+    "floating",
+    "eod",
+];
+
+pub fn pick_runtime(streaming: bool, vectored: bool, resources: u32) -> Runtime {
+    let cc = CompileContext::new(streaming, vectored, &Grey::default());
+    runtime(&verif_pick_runtime_impl(&cc, resources))
+}
+
+pub fn scratch(state: *mut u8) -> Scratch {
+    Scratch {
+        core_info: CoreInfo { state },
+    }
+}
diff --git a/src/verif/sets.rs b/src/verif/sets.rs
new file mode 100644
index 0000000..d859ca3
--- /dev/null
+++ b/src/verif/sets.rs
@@ -0,0 +1,149 @@
+//! Sets of bytes.
+
+#[cfg(rescan_verif = "describe")]
+use crate::util::{describe_class, CcOutput};
+use crate::util::{make_caseless, verif as uv, CharReach};
+
+macro_rules! set_wrapper {
+    ($name:ident, $inner:ty) => {
+        #[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
+        pub struct $name($inner);
+
+        impl $name {
+            pub fn reset_all(&mut self) {
+                self.0.reset_all();
+            }
+            pub fn set_all(&mut self) {
+                self.0.set_all();
+            }
+            pub fn reset(&mut self, n: u8) {
+                self.0.reset(n);
+            }
+            pub fn set(&mut self, n: u8) {
+                self.0.set(n);
+            }
+            pub fn test(&self, n: u8) -> bool {
+                self.0.test(n)
+            }
+            pub fn flip_all(&mut self) {
+                self.0.flip_all();
+            }
+            pub fn flip(&mut self, n: u8) {
+                self.0.flip(n);
+            }
+            pub fn set_range(&mut self, from: u8, to: u8) {
+                self.0.set_range(from, to);
+            }
+            pub fn count(&self) -> u32 {
+                self.0.count()
+            }
+            pub fn none(&self) -> bool {
+                self.0.none()
+            }
+            pub fn any(&self) -> bool {
+                self.0.any()
+            }
+            pub fn all(&self) -> bool {
+                self.0.all()
+            }
+            pub fn find_first(&self) -> Option<u8> {
+                self.0.find_first()
+            }
+            pub fn find_last(&self) -> Option<u8> {
+                self.0.find_last()
+            }
+            pub fn find_next(&self, last: u8) -> Option<u8> {
+                self.0.find_next(last)
+            }
+            pub fn find_nth(&self, n: u8) -> Option<u8> {
+                self.0.find_nth(n)
+            }
+            pub fn and(self, rhs: Self) -> Self {
+                Self(self.0 & rhs.0)
+            }
+            pub fn or(self, rhs: Self) -> Self {
+                Self(self.0 | rhs.0)
+            }
+            pub fn xor(self, rhs: Self) -> Self {
+                Self(self.0 ^ rhs.0)
+            }
+            pub fn not(self) -> Self {
+                Self(!self.0)
+            }
+            pub fn and_assign(&mut self, rhs: Self) {
+                self.0 &= rhs.0;
+            }
+            pub fn or_assign(&mut self, rhs: Self) {
+                self.0 |= rhs.0;
+            }
+            pub fn xor_assign(&mut self, rhs: Self) {
+                self.0 ^= rhs.0;
+            }
+        }
+    };
+}
+
+set_wrapper!(Bits, uv::BitField256);
+set_wrapper!(Class, CharReach);
+
+impl Class {
+    pub fn from_char(c: u8) -> Self {
+        Self(CharReach::from_char(c))
+    }
+    pub fn from_range(from: u8, to: u8) -> Self {
+        Self(CharReach::from_range(from, to))
+    }
+    pub fn from_bytes(bytes: &[u8]) -> Self {
+        Self(CharReach::from_bytes(bytes))
+    }
+    pub fn dot() -> Self {
+        Self(CharReach::dot())
+    }
+    pub fn set_bytes(&mut self, bytes: &[u8]) {
+        self.0.set_bytes(bytes);
+    }
+    pub fn is_alphabetic(&self) -> bool {
+        self.0.is_alphabetic()
+    }
+    pub fn is_caseless_char(&self) -> bool {
+        self.0.is_caseless_char()
+    }
+    pub fn is_bit5_insensitive(&self) -> bool {
+        self.0.is_bit5_insensitive()
+    }
+    pub fn is_subset_of(&self, rhs: &Self) -> bool {
+        self.0.is_subset_of(&rhs.0)
+    }
+    pub fn overlaps(&self, rhs: &Self) -> bool {
+        self.0.overlaps(&rhs.0)
+    }
+    pub fn is_ascii(&self) -> bool {
+        self.0.is_ascii()
+    }
+    pub fn is_utf8_start(&self) -> bool {
+        self.0.is_utf8_start()
+    }
+    pub fn display(&self) -> String {
+        self.0.to_string()
+    }
+    pub fn make_caseless(&mut self) {
+        make_caseless(&mut self.0);
+    }
+    pub fn fill_bitvector(&self, bits: &mut [u8]) {
+        uv::fill_bitvector(&self.0, bits);
+    }
+    pub fn and_cmp_mask(&self) -> (u8, u8) {
+        uv::make_and_cmp_mask(&self.0)
+    }
+}
+
+#[cfg(rescan_verif = "describe")]
+impl Class {
+    /// Describes the class as text, or as a DOT label.
+    pub fn describe(&self, max_length: usize, dot: bool) -> String {
+        let mut out = String::new();
+        let out_type = if dot { CcOutput::Dot } else { CcOutput::Text };
+        describe_class(&mut out, &self.0, max_length, out_type).expect("writing to a string");
+        out
+    }
+}
diff --git a/src/verif/settings.rs b/src/verif/settings.rs
new file mode 100644
index 0000000..dfb722a
--- /dev/null
+++ b/src/verif/settings.rs
@@ -0,0 +1,63 @@
+//! Settings.
+
+use crate::{CompileError, Database, Flags, Grey, Mode};
+
+/// Grey box settings.
+#[derive(Clone, Debug)]
+pub struct Limits {
+    pub allow_literal: bool,
+    pub flood_as_puffette: bool,
+    pub shortcut_literals: bool,
+    pub allow_small_write: bool,
+    pub small_write_largest_buffer: usize,
+    pub small_write_max_patterns: usize,
+    pub small_write_max_literals: usize,
+    pub limit_pattern_count: usize,
+    pub limit_pattern_length: usize,
+    pub limit_report_count: usize,
+}
+
+impl Default for Limits {
+    fn default() -> Self {
+        let g = Grey::default();
+        Self {
+            allow_literal: g.allow_literal,
+            flood_as_puffette: g.flood_as_puffette,
+            shortcut_literals: g.shortcut_literals,
+            allow_small_write: g.allow_small_write,
+            small_write_largest_buffer: g.small_write_largest_buffer,
+            small_write_max_patterns: g.small_write_max_patterns,
+            small_write_max_literals: g.small_write_max_literals,
+            limit_pattern_count: g.limit_pattern_count,
+            limit_pattern_length: g.limit_pattern_length,
+            limit_report_count: g.limit_report_count,
+        }
+    }
+}
+
+impl Limits {
+    pub(super) fn grey(&self) -> Grey {
+        let mut g = Grey::default();
+        g.allow_literal = self.allow_literal;
+        g.flood_as_puffette = self.flood_as_puffette;
+        g.shortcut_literals = self.shortcut_literals;
+        g.allow_small_write = self.allow_small_write;
+        g.small_write_largest_buffer = self.small_write_largest_buffer;
+        g.small_write_max_patterns = self.small_write_max_patterns;
+        g.small_write_max_literals = self.small_write_max_literals;
+        g.limit_pattern_count = self.limit_pattern_count;
+        g.limit_pattern_length = self.limit_pattern_length;
+        g.limit_report_count = self.limit_report_count;
+        g
+    }
+}
+
+pub fn compile_multi_with(
+    expressions: &[&str],
+    flags: &[Flags],
+    ids: &[u32],
+    mode: &Mode,
+    limits: &Limits,
+) -> Result<Database, CompileError> {
+    crate::compile_multi_int(expressions, flags, ids, mode, &limits.grey())
+}
diff --git a/src/verif/tree.rs b/src/verif/tree.rs
new file mode 100644
index 0000000..1f6a03d
--- /dev/null
+++ b/src/verif/tree.rs
@@ -0,0 +1,19 @@
+//! Parse trees.
+
+pub use crate::parser::verif::Tree;
+use crate::parser::verif as pv;
+use crate::{CompileError, Flags};
+
+/// Parses an expression.
+pub fn parse(expression: &str, flags: Flags) -> Result<Tree, CompileError> {
+    let (component, _) = pv::parse_with_mode(expression, flags)?;
+    Ok(pv::tree(&component))
+}
+
+/// Prints the parse tree of an expression.
+#[cfg(rescan_verif = "dump")]
+pub fn dump(expression: &str, flags: Flags) -> Result<String, CompileError> {
+    let (component, _) = pv::parse_with_mode(expression, flags)?;
+    Ok(pv::dump(&component))
+}
+
-- 
2.43.0


From befcca9bebec5a7384bc9ba543f59b43ba401949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:11 +0000
Subject: [PATCH 16/17] Compare through the wrappers by the partial order
 (hook)

---
 src/verif/depth.rs | 10 +++++++++-
 src/verif/sets.rs  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/verif/depth.rs b/src/verif/depth.rs
index eaf5bb7..14cde46 100644
--- a/src/verif/depth.rs
+++ b/src/verif/depth.rs
@@ -1,12 +1,20 @@
 //! Depths.
 
 use crate::util::Depth;
+use std::cmp::Ordering;
 use std::convert::TryFrom;
 
 /// A depth.
-#[derive(Clone, Copy, Debug, Eq, Ord, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, Eq, Ord, PartialEq)]
 pub struct DepthValue(Depth);
 
+// Not derived, which would ask for the total order.
+impl PartialOrd for DepthValue {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.0.partial_cmp(&other.0)
+    }
+}
+
 impl DepthValue {
     pub fn infinity() -> Self {
         Self(Depth::infinity())
diff --git a/src/verif/sets.rs b/src/verif/sets.rs
index d859ca3..b4b5dde 100644
--- a/src/verif/sets.rs
+++ b/src/verif/sets.rs
@@ -3,12 +3,20 @@
 #[cfg(rescan_verif = "describe")]
 use crate::util::{describe_class, CcOutput};
 use crate::util::{make_caseless, verif as uv, CharReach};
+use std::cmp::Ordering;
 
 macro_rules! set_wrapper {
     ($name:ident, $inner:ty) => {
-        #[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
+        #[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq)]
         pub struct $name($inner);
 
+        // Not derived, which would ask for the total order.
+        impl PartialOrd for $name {
+            fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+                self.0.partial_cmp(&other.0)
+            }
+        }
+
         impl $name {
             pub fn reset_all(&mut self) {
                 self.0.reset_all();
-- 
2.43.0


From 6d97772e1214dcaabb37b1bdc1eca0b7f68648c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:26 +0000
Subject: [PATCH 17/17] fix: say correctly whether the earlier expression
 specified SINGLEMATCH

---
 src/util/report_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index 4c1dd51..ab146b9 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -109,7 +109,7 @@ impl<'a> ReportManager<'a> {
                         "did not sepcify "
                     },
                     eri.first_pattern_index,
-                    if eri.highlander {
+                    if ext.highlander {
                         " not."
                     } else {
                         "."
-- 
2.43.0

