From f4033513889110de1787f8b5901d9ae08833850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 01/21] fix: compute the start offset of a group from the start
 of the pattern

The subtraction was reversed, so any group that does not start the pattern
panicked (debug) or reported a bogus offset (release).
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e76e898..e048b2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,7 +98,7 @@ impl<'p> Context<'p> {
         self.group_index += 1;
         mem::swap(&mut self.current_seq, &mut seq);
         self.sequences
-            .push(ExprState::new(seq, ts.len() - self.ptr.len(), self.mode));
+            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
     }
 
     fn pop_sequence(&mut self) -> Result<(), CompileError> {
-- 
2.43.0


From d7b2ab1313f031cd482d7837db8a454301b99741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 02/21] fix: reject non-ASCII characters with an error instead
 of panicking

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e048b2d..e6844cc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -138,7 +138,15 @@ impl<'p> Context<'p> {
             self.p = p;
         } else if let Ok((p, c)) = take_any(ts) {
             // TODO: Support UTF-8 literals
-            assert!(c.is_ascii());
+            if !c.is_ascii() {
+                return Err(CompileError::new(
+                    ErrorKind::LocatedParse,
+                    format!(
+                        "Unsupported non-ASCII character at index {}",
+                        self.ptr.len() - ts.len()
+                    ),
+                ));
+            }
             if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
                 e.reason
                     .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
-- 
2.43.0


From abdac26fd42464c3d7e17046c7be3abc47399850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 03/21] fix: locate an unmatched closing parenthesis

ErrorKind::LocatedParse promises the specific location.
---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e6844cc..d6e198b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -131,7 +131,11 @@ impl<'p> Context<'p> {
             self.enter_capturing_group(ts);
             self.p = p;
         } else if let Ok((p, _)) = char::<&str, ()>(')')(ts) {
-            self.exit_group()?;
+            if let Err(mut e) = self.exit_group() {
+                e.reason
+                    .push_str(&format!(" at index {}", self.ptr.len() - ts.len()));
+                return Err(e);
+            }
             self.p = p;
         } else if let Ok((p, _)) = char::<&str, ()>('|')(ts) {
             self.current_seq.add_alternation();
-- 
2.43.0


From 640a2dd32fca6f7264dabd10fe89af31b0934451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 04/21] fix: do not panic when an error already carries its
 expression index

A SINGLEMATCH conflict is reported with its index by the report manager.
---
 src/util/compile_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index 58c840b..fa18681 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -43,7 +43,7 @@ impl CompileError {
     }
 
     pub(crate) fn set_expression_index(&mut self, index: u32) {
-        debug_assert!(self.index.is_none());
+        debug_assert!(self.index.map_or(true, |i| i == index));
         self.index = Some(index);
     }
 }
-- 
2.43.0


From e8d56df23d93f17dedfab97ba9b5183be32e4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 05/21] fix: reject expressions without flags or an id instead
 of ignoring them

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 98f5b0b..5b9c6c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,13 @@ fn compile_multi_int(
         ));
     }
 
+    if flags.len() != expressions.len() || ids.len() != expressions.len() {
+        return Err(CompileError::new(
+            ErrorKind::Other,
+            "Invalid parameter: the numbers of expressions, flags and ids differ",
+        ));
+    }
+
     if expressions.len() > g.limit_pattern_count {
         return Err(CompileError::new(
             ErrorKind::Other,
-- 
2.43.0


From 3cf7d84539a6178c9fd216b5942c132028fc4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 06/21] fix: say which expression specified SINGLEMATCH in the
 conflict message

---
 src/util/report_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index ffad6df..a574c2d 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -109,7 +109,7 @@ impl<'a> ReportManager<'a> {
                         "did not sepcify "
                     },
                     eri.first_pattern_index,
-                    if eri.highlander {
+                    if ext.highlander {
                         " not."
                     } else {
                         "."
-- 
2.43.0


From 63f9a690f21f0c61506d3fc1ac6ed8d2b53e700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 07/21] fix: use the bit position within the byte in
 fill_bitvector

---
 src/util/charreach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/charreach.rs b/src/util/charreach.rs
index 481475f..ccbf61d 100644
--- a/src/util/charreach.rs
+++ b/src/util/charreach.rs
@@ -335,7 +335,7 @@ pub(crate) fn fill_bitvector(cr: &CharReach, bits: &mut [u8]) {
     }
     let mut next = cr.find_first();
     while let Some(pos) = next {
-        bits[(pos / 8) as usize] |= 1 << (pos & 8);
+        bits[(pos / 8) as usize] |= 1 << (pos & 7);
         next = cr.find_next(pos);
     }
 }
-- 
2.43.0


From ec996ed90632589d9c84efc883972c9a2023266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 08/21] fix: compare case sensitivity in literal equality, as
 the ordering does

---
 src/util/ue2string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index f13bf3e..bdba568 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -72,7 +72,7 @@ impl<'a> IntoIterator for &'a Ue2Literal {
 impl PartialEq for Ue2Literal {
     #[must_use]
     fn eq(&self, other: &Self) -> bool {
-        self.s == other.s
+        self.s == other.s && self.nocase == other.nocase
     }
 }
 
-- 
2.43.0


From bb0fc218d151d53ab488991c60e17c438c3db68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 09/21] fix: align values wider than a byte

The masks were complemented as bytes and then widened, so aligning any value
above 255 dropped its upper bytes.
---
 src/util/ue2common.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/util/ue2common.rs b/src/util/ue2common.rs
index f57473e..4b73f14 100644
--- a/src/util/ue2common.rs
+++ b/src/util/ue2common.rs
@@ -1,4 +1,4 @@
-use std::ops::{Add, BitAnd};
+use std::ops::{Add, BitAnd, Not};
 
 pub type S64a = i64;
 
@@ -12,11 +12,11 @@ pub type ReportId = u32;
 #[inline]
 pub fn round_up_16<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not<Output = T> + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    ((a + 0xf_u8.into()).into() & (!0xf_u8).into()).into()
+    ((a + 0xf_u8.into()).into() & !T::from(0xf_u8)).into()
 }
 
 /// Aligns to the previous 16-byte boundary.
@@ -24,21 +24,21 @@ where
 #[inline]
 pub fn round_down_16<T>(a: T) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not<Output = T> + From<u8>,
     <T as BitAnd>::Output: Into<T>,
 {
-    (a & (!0xf_u8).into()).into()
+    (a & !T::from(0xf_u8)).into()
 }
 
 /// Aligns to the next n-byte boundary.
 #[inline]
 pub fn round_up_n<T>(a: T, n: u8) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not<Output = T> + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    ((a + (n - 1).into()).into() & (!(n - 1)).into()).into()
+    ((a + (n - 1).into()).into() & !T::from(n - 1)).into()
 }
 
 /// Aligns to the previous n-byte boundary.
@@ -46,10 +46,10 @@ where
 #[inline]
 pub fn round_down_n<T>(a: T, n: u8) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not<Output = T> + From<u8>,
     <T as BitAnd>::Output: Into<T>,
 {
-    (a & (!(n - 1)).into()).into()
+    (a & !T::from(n - 1)).into()
 }
 
 /// Aligns to a cache line.
@@ -57,9 +57,9 @@ where
 #[inline]
 pub fn round_up_cache_line<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not<Output = T> + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
 {
-    ((a + 0x3f_u8.into()).into() & (!0x3f_u8).into()).into()
+    ((a + 0x3f_u8.into()).into() & !T::from(0x3f_u8)).into()
 }
-- 
2.43.0


From 2d1926583f39f23dfe4c3af967c474697aaf72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 10/21] fix: keep the attributes of a report

All reports compared equal, so every pattern ended up with the same internal
report and their matches could not be told apart.
---
 src/util/report.rs | 60 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/util/report.rs b/src/util/report.rs
index 66c2386..a86b863 100644
--- a/src/util/report.rs
+++ b/src/util/report.rs
@@ -1,22 +1,60 @@
+#[derive(Clone, Hash, PartialEq, Eq)]
+enum ReportType {
+    /// Standard external match report.
+    ExternalCallback,
+    /// External match report with a start of match relative to the end of match.
+    ExternalCallbackSomRel,
+}
+
 #[derive(Clone, Hash, PartialEq, Eq)]
 pub(crate) struct Report {
+    /// Type of this report.
+    ty: ReportType,
+
+    /// Quiet on match.
+    quiet: bool,
+
     /// Minimum match length (start of match to current offset).
     pub(crate) min_length: u64,
+
+    /// Exhaustion key, if any.
+    ekey: Option<u32>,
+
+    /// Offset to add to the end of match when reporting it.
+    offset_adjust: i32,
+
+    /// Report ID specified by the user.
+    onmatch: u32,
+
+    /// Distance from the end of match back to the start of match.
+    som_distance: u64,
 }
 
 pub(crate) fn make_e_callback(
-    _report: u32,
-    _offset_adjust: i32,
-    _ekey: Option<u32>,
-    _quiet: bool,
+    report: u32,
+    offset_adjust: i32,
+    ekey: Option<u32>,
+    quiet: bool,
 ) -> Report {
-    Report { min_length: 0 }
+    Report {
+        ty: ReportType::ExternalCallback,
+        quiet,
+        min_length: 0,
+        ekey,
+        offset_adjust,
+        onmatch: report,
+        som_distance: 0,
+    }
 }
 
-pub(crate) fn make_som_relative_callback(
-    _report: u32,
-    _offset_adjust: i32,
-    _distance: u64,
-) -> Report {
-    Report { min_length: 0 }
+pub(crate) fn make_som_relative_callback(report: u32, offset_adjust: i32, distance: u64) -> Report {
+    Report {
+        ty: ReportType::ExternalCallbackSomRel,
+        quiet: false,
+        min_length: 0,
+        ekey: None,
+        offset_adjust,
+        onmatch: report,
+        som_distance: distance,
+    }
 }
-- 
2.43.0


From 362b0a85c53129306312f4d9b2300879f489ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:18 +0000
Subject: [PATCH 11/21] fix: register the match id of patterns that go through
 the graph

Only literals were checked for SINGLEMATCH conflicts, and only they cleared
global exhaustion.
---
 src/compiler.rs    |  6 ++----
 src/nfagraph/ng.rs | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index ed34d55..4127323 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,10 +92,8 @@ pub(crate) fn add_expression(
         let inner: Pin<&mut Ng> = ng.as_mut();
         inner
             .get_unchecked_mut()
-            .add_graph(&build_expr.expr, &build_expr.g);
-    };
-
-    Ok(())
+            .add_graph(&build_expr.expr, &build_expr.g)
+    }
 }
 
 fn generate_rose_engine(ng: &Ng) -> RoseEngine {
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 2bc9778..68343ec 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -58,10 +58,22 @@ impl<'a> Ng<'a> {
         boxed
     }
 
-    pub(crate) fn add_graph(&mut self, expr: &ExpressionInfo, _g: &NgHolder) {
+    pub(crate) fn add_graph(
+        &mut self,
+        expr: &ExpressionInfo,
+        _g: &NgHolder,
+    ) -> Result<(), CompileError> {
+        // Register external report and validate highlander constraints.
+        self.rm.register_ext_report(
+            expr.report,
+            ExternalReportInfo::new(expr.highlander, expr.index.try_into().unwrap()),
+        )?;
+
         if expr.som != SomType::None {
             self.rose.has_som = true;
         }
+
+        Ok(())
     }
 
     pub(crate) fn add_literal(
-- 
2.43.0


From 343082e472ec41363027add00bce566837c07d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 12/21] Verification hooks behind cfg(rescan_vp)

---
 src/compiler.rs                       |   2 +
 src/compiler/vp.rs                    |  58 ++++++++
 src/lib.rs                            |  10 ++
 src/nfagraph.rs                       |   7 +
 src/nfagraph/ng.rs                    |   3 +
 src/nfagraph/ng/vp.rs                 |  66 +++++++++
 src/nfagraph/ng_holder.rs             |   3 +
 src/nfagraph/ng_holder/vp.rs          |  88 ++++++++++++
 src/parser.rs                         |   2 +
 src/parser/shortcut_literal.rs        |   3 +
 src/parser/shortcut_literal/vp.rs     |  14 ++
 src/parser/vp.rs                      |  91 ++++++++++++
 src/rose.rs                           |   2 +
 src/rose/vp.rs                        |  54 +++++++
 src/smallwrite.rs                     |   2 +
 src/smallwrite/smallwrite_build.rs    |   3 +
 src/smallwrite/smallwrite_build/vp.rs |  92 ++++++++++++
 src/util.rs                           |   7 +
 src/util/compile_error.rs             |   3 +
 src/util/compile_error/vp.rs          |   7 +
 src/util/depth.rs                     |   3 +
 src/util/depth/vp.rs                  |  12 ++
 src/util/report_manager.rs            |   3 +
 src/util/report_manager/vp.rs         |  89 ++++++++++++
 src/util/ue2string.rs                 |   3 +
 src/util/ue2string/vp.rs              |  50 +++++++
 src/util/vp.rs                        | 194 ++++++++++++++++++++++++++
 src/vp.rs                             | 151 ++++++++++++++++++++
 28 files changed, 1022 insertions(+)
 create mode 100644 src/compiler/vp.rs
 create mode 100644 src/nfagraph/ng/vp.rs
 create mode 100644 src/nfagraph/ng_holder/vp.rs
 create mode 100644 src/parser/shortcut_literal/vp.rs
 create mode 100644 src/parser/vp.rs
 create mode 100644 src/rose/vp.rs
 create mode 100644 src/smallwrite/smallwrite_build/vp.rs
 create mode 100644 src/util/compile_error/vp.rs
 create mode 100644 src/util/depth/vp.rs
 create mode 100644 src/util/report_manager/vp.rs
 create mode 100644 src/util/ue2string/vp.rs
 create mode 100644 src/util/vp.rs
 create mode 100644 src/vp.rs

diff --git a/src/compiler.rs b/src/compiler.rs
index 4127323..4e3db43 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -1,4 +1,6 @@
 mod expression_info;
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
 
 pub(crate) use expression_info::ExpressionInfo;
 
diff --git a/src/compiler/vp.rs b/src/compiler/vp.rs
new file mode 100644
index 0000000..ec73618
--- /dev/null
+++ b/src/compiler/vp.rs
@@ -0,0 +1,58 @@
+//! Verification hooks: single expressions.
+
+use super::{build_graph, ParsedExpression};
+use crate::nfagraph::vp::{snapshot, GraphSnapshot};
+use crate::parser::vp::{literal, mode_flags, visits, Visit};
+use crate::parser::{parse, ParseMode};
+use crate::util::ReportId;
+use crate::{CompileError, Flags, SomType};
+
+/// Projection of a parsed expression.
+#[derive(Clone, Debug)]
+pub struct Parsed {
+    pub index: usize,
+    pub report: ReportId,
+    pub allow_vacuous: bool,
+    pub highlander: bool,
+    pub utf8: bool,
+    pub prefilter: bool,
+    pub som: bool,
+    pub quiet: bool,
+    /// Traversal of the parse tree.
+    pub visits: Vec<Visit>,
+    /// Characters and case insensitivity, if this is a literal.
+    pub literal: Option<Vec<(u8, bool)>>,
+    pub graph: GraphSnapshot,
+    /// Mode flags as a parse of the pattern leaves them: caseless, dotall,
+    /// ignore space, multiline, ucp, utf8.
+    pub mode: [bool; 6],
+}
+
+/// Parses an expression and builds its graph.
+pub fn parse_expression(
+    index: usize,
+    expression: &str,
+    flags: Flags,
+    id: ReportId,
+) -> Result<Parsed, CompileError> {
+    let mut pe = ParsedExpression::new(index, expression, flags, id)?;
+    let mut mode = ParseMode::new(flags);
+    parse(expression, &mut mode)?;
+    let visits = visits(&pe.component);
+    let literal = literal(&pe.component);
+    let built = build_graph(&mut pe);
+    Ok(Parsed {
+        index: pe.expr.index,
+        report: pe.expr.report,
+        allow_vacuous: pe.expr.allow_vacuous,
+        highlander: pe.expr.highlander,
+        utf8: pe.expr.utf8,
+        prefilter: pe.expr.prefilter,
+        som: pe.expr.som != SomType::None,
+        quiet: pe.expr.quiet,
+        visits,
+        literal,
+        graph: snapshot(&built.g),
+        mode: mode_flags(&mode),
+    })
+}
diff --git a/src/lib.rs b/src/lib.rs
index 5b9c6c9..fa27f6d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // rescan_vp: verification hooks
+
 mod compiler;
 mod database;
 mod grey;
@@ -9,6 +11,8 @@ mod scratch;
 mod smallwrite;
 mod som;
 mod util;
+#[cfg(rescan_vp)]
+pub mod vp;
 
 use bitflags::bitflags;
 use compiler::{add_expression, build};
@@ -133,8 +137,14 @@ fn compile_multi_int(
             e.set_expression_index(i.try_into().unwrap());
             return Err(e);
         }
+
+        #[cfg(rescan_vp)]
+        vp::note(&ng, false);
     }
 
+    #[cfg(rescan_vp)]
+    vp::note(&ng, true);
+
     Ok(build(&ng))
 }
 
diff --git a/src/nfagraph.rs b/src/nfagraph.rs
index f8b94b7..d2827f5 100644
--- a/src/nfagraph.rs
+++ b/src/nfagraph.rs
@@ -1,6 +1,13 @@
 mod ng;
 mod ng_builder;
 mod ng_holder;
+#[cfg(rescan_vp)]
+pub(crate) mod vp {
+    pub(crate) use super::ng::vp::snapshot as session;
+    pub use super::ng::vp::{Snapshot, Store};
+    pub(crate) use super::ng_holder::vp::snapshot;
+    pub use super::ng_holder::vp::{Graph, GraphSnapshot};
+}
 
 pub(crate) use ng::Ng;
 pub(crate) use ng_builder::{make_nfa_builder, NfaBuilder};
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 68343ec..5c5cba5 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -14,6 +14,9 @@ use std::marker::PhantomPinned;
 use std::pin::Pin;
 use std::ptr::NonNull;
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 pub(crate) struct Ng<'a> {
     /// The length of the shortest corpus which can match a pattern contained in
     /// the `Ng` (excluding the boundary reports used by vacuous patterns, which
diff --git a/src/nfagraph/ng/vp.rs b/src/nfagraph/ng/vp.rs
new file mode 100644
index 0000000..00b2e68
--- /dev/null
+++ b/src/nfagraph/ng/vp.rs
@@ -0,0 +1,66 @@
+//! Verification hooks: the graph store of a compile session.
+
+use super::Ng;
+use crate::smallwrite::vp::{snapshot as smallwrite_snapshot, SmallWriteSnapshot};
+use crate::util::report_manager_vp::{snapshot as reports_snapshot, ReportsSnapshot};
+use crate::util::vp::Lit;
+use crate::util::{depth_vp, CompileContext};
+use crate::{CompileError, SomType};
+use std::pin::Pin;
+
+/// Projection of a compile session.
+#[derive(Clone, Debug, Default, Eq, PartialEq)]
+pub struct Snapshot {
+    /// `None` for infinity.
+    pub min_width: Option<u32>,
+    pub reports: ReportsSnapshot,
+    pub small_write: SmallWriteSnapshot,
+    pub has_som: bool,
+    pub streaming: bool,
+    pub vectored: bool,
+}
+
+pub(crate) fn snapshot(ng: &Ng) -> Snapshot {
+    Snapshot {
+        min_width: depth_vp::value(ng.min_width),
+        reports: reports_snapshot(&ng.rm),
+        small_write: smallwrite_snapshot(&ng.smwr),
+        has_som: ng.rose.has_som,
+        streaming: ng.cc.streaming,
+        vectored: ng.cc.vectored,
+    }
+}
+
+/// A graph store driven directly.
+pub struct Store {
+    inner: Pin<Box<Ng<'static>>>,
+}
+
+impl Store {
+    pub fn new(num_patterns: usize, limits: &crate::vp::Limits) -> Self {
+        let cc = Box::leak(Box::new(CompileContext::new(false, false, &limits.grey())));
+        Self {
+            inner: Ng::new(cc, num_patterns, 0),
+        }
+    }
+    pub fn add_literal(
+        &mut self,
+        lit: &Lit,
+        index: u32,
+        report: u32,
+        highlander: bool,
+        som: bool,
+        quiet: bool,
+    ) -> Result<bool, CompileError> {
+        let som = if som { SomType::Left } else { SomType::None };
+        unsafe {
+            self.inner
+                .as_mut()
+                .get_unchecked_mut()
+                .add_literal(&lit.0, index, report, highlander, som, quiet)
+        }
+    }
+    pub fn snapshot(&self) -> Snapshot {
+        snapshot(&self.inner)
+    }
+}
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 40dabe5..f50e3cd 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -5,6 +5,9 @@ use petgraph::{Direction, Graph};
 use std::collections::HashSet;
 use std::ops::{Index, IndexMut};
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 #[derive(Default)]
 pub(crate) struct NfaGraphVertexProps {
     /// Set of characters on which this vertex is reachable.
diff --git a/src/nfagraph/ng_holder/vp.rs b/src/nfagraph/ng_holder/vp.rs
new file mode 100644
index 0000000..d1648d0
--- /dev/null
+++ b/src/nfagraph/ng_holder/vp.rs
@@ -0,0 +1,88 @@
+//! Verification hooks: graphs.
+
+use super::{NfaGraphEdgeProps, NgHolder};
+use crate::nfagraph::NfaVertex;
+use crate::util::vp::Class;
+use petgraph::visit::EdgeRef;
+
+/// Projection of a graph. Vertices are given by index.
+#[derive(Clone, Debug, Default)]
+pub struct GraphSnapshot {
+    /// start, floating start, accept, end-of-data accept
+    pub special: [usize; 4],
+    pub reach: Vec<Class2>,
+    pub reports: Vec<Vec<u32>>,
+    pub edges: Vec<(usize, usize)>,
+    pub num_vertices: usize,
+    pub is_vacuous: bool,
+    pub all_reports: Vec<u32>,
+}
+
+/// Class of a vertex.
+pub type Class2 = Class;
+
+pub(crate) fn snapshot(g: &NgHolder) -> GraphSnapshot {
+    let mut edges: Vec<_> = g
+        .inner
+        .edge_references()
+        .map(|e| (e.source().index(), e.target().index()))
+        .collect();
+    edges.sort_unstable();
+    let mut all_reports: Vec<u32> = g.all_reports().into_iter().collect();
+    all_reports.sort_unstable();
+    GraphSnapshot {
+        special: [
+            g.start.index(),
+            g.start_ds.index(),
+            g.accept.index(),
+            g.accept_eod.index(),
+        ],
+        reach: g
+            .inner
+            .node_indices()
+            .map(|v| Class(g[v].char_reach))
+            .collect(),
+        reports: g
+            .inner
+            .node_indices()
+            .map(|v| {
+                let mut r: Vec<u32> = g[v].reports.iter().copied().collect();
+                r.sort_unstable();
+                r
+            })
+            .collect(),
+        edges,
+        num_vertices: g.num_vertices(),
+        is_vacuous: g.is_vacuous(),
+        all_reports,
+    }
+}
+
+/// A graph driven directly.
+pub struct Graph {
+    inner: NgHolder,
+}
+
+impl Graph {
+    pub fn new() -> Self {
+        Self {
+            inner: NgHolder::new(),
+        }
+    }
+    pub fn add_vertex(&mut self) -> usize {
+        self.inner.add_vertex().index()
+    }
+    pub fn add_edge(&mut self, from: usize, to: usize) {
+        self.inner.inner.update_edge(
+            NfaVertex::new(from),
+            NfaVertex::new(to),
+            NfaGraphEdgeProps::default(),
+        );
+    }
+    pub fn add_report(&mut self, v: usize, report: u32) {
+        self.inner[NfaVertex::new(v)].reports.insert(report);
+    }
+    pub fn snapshot(&self) -> GraphSnapshot {
+        snapshot(&self.inner)
+    }
+}
diff --git a/src/parser.rs b/src/parser.rs
index d6e198b..5550d37 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -13,6 +13,8 @@ mod position;
 mod position_info;
 mod prefilter;
 mod shortcut_literal;
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
 
 pub(crate) use build_state::make_glushkov_build_state;
 pub(crate) use component::Component;
diff --git a/src/parser/shortcut_literal.rs b/src/parser/shortcut_literal.rs
index ed7bb9d..571d864 100644
--- a/src/parser/shortcut_literal.rs
+++ b/src/parser/shortcut_literal.rs
@@ -8,6 +8,9 @@ use crate::CompileError;
 use std::convert::TryInto;
 use std::pin::Pin;
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 pub(crate) struct NotLiteral {}
 
 #[derive(Default)]
diff --git a/src/parser/shortcut_literal/vp.rs b/src/parser/shortcut_literal/vp.rs
new file mode 100644
index 0000000..345a526
--- /dev/null
+++ b/src/parser/shortcut_literal/vp.rs
@@ -0,0 +1,14 @@
+//! Verification hooks: the literal of a pattern.
+
+use super::ConstructLiteralVisitor;
+use crate::parser::{walk_component, Component};
+use crate::util::lit_items;
+
+/// Returns the literal a parsed pattern consists of, if it is one.
+pub(crate) fn literal(c: &Component) -> Option<Vec<(u8, bool)>> {
+    let mut vis = ConstructLiteralVisitor::default();
+    match walk_component(&mut vis, c) {
+        Ok(()) => Some(lit_items(&vis.lit)),
+        Err(_) => None,
+    }
+}
diff --git a/src/parser/vp.rs b/src/parser/vp.rs
new file mode 100644
index 0000000..7e5cf8d
--- /dev/null
+++ b/src/parser/vp.rs
@@ -0,0 +1,91 @@
+//! Verification hooks: parse trees.
+
+use super::ascii_component_class::AsciiComponentClass;
+use super::{ComponentAlternation, ComponentSequence, ConstComponentVisitor};
+use crate::parser::{walk_component, Component, ParseMode};
+use crate::util::vp::Class;
+use std::cell::RefCell;
+
+pub(crate) use super::shortcut_literal::vp::literal;
+
+/// One step of a traversal of a parse tree.
+#[derive(Clone, Debug)]
+pub enum Visit {
+    EnterSequence(Option<u32>, bool),
+    BetweenSequence,
+    LeaveSequence,
+    EnterAlternation,
+    BetweenAlternation,
+    LeaveAlternation,
+    EnterClass(Class),
+    DuringClass,
+    LeaveClass,
+}
+
+#[derive(Default)]
+struct Recorder {
+    out: RefCell<Vec<Visit>>,
+}
+
+impl Recorder {
+    fn push(&self, v: Visit) {
+        self.out.borrow_mut().push(v);
+    }
+}
+
+impl ConstComponentVisitor for Recorder {
+    type Error = ();
+
+    fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
+        self.push(Visit::EnterClass(Class(c.cr)));
+        Ok(())
+    }
+    fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), ()> {
+        self.push(Visit::EnterAlternation);
+        Ok(())
+    }
+    fn pre_component_sequence(&mut self, c: &ComponentSequence) -> Result<(), ()> {
+        self.push(Visit::EnterSequence(
+            c.capture_index,
+            c.capture_name.is_some(),
+        ));
+        Ok(())
+    }
+    fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {
+        self.push(Visit::DuringClass);
+    }
+    fn during_component_alternation(&self, _c: &ComponentAlternation) {
+        self.push(Visit::BetweenAlternation);
+    }
+    fn during_component_sequence(&self, _c: &ComponentSequence) {
+        self.push(Visit::BetweenSequence);
+    }
+    fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {
+        self.push(Visit::LeaveClass);
+    }
+    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
+        self.push(Visit::LeaveAlternation);
+    }
+    fn post_component_sequence(&mut self, _c: &ComponentSequence) {
+        self.push(Visit::LeaveSequence);
+    }
+}
+
+/// Records a traversal of a parse tree.
+pub(crate) fn visits(c: &Component) -> Vec<Visit> {
+    let mut r = Recorder::default();
+    walk_component(&mut r, c).expect("the recorder does not fail");
+    r.out.into_inner()
+}
+
+/// Mode flags, in the order caseless, dotall, ignore space, multiline, ucp, utf8.
+pub(crate) fn mode_flags(m: &ParseMode) -> [bool; 6] {
+    [
+        m.caseless,
+        m.dotall,
+        m.ignore_space,
+        m.multiline,
+        m.ucp,
+        m.utf8,
+    ]
+}
diff --git a/src/rose.rs b/src/rose.rs
index 2c639b9..7b11cfe 100644
--- a/src/rose.rs
+++ b/src/rose.rs
@@ -3,6 +3,8 @@ mod rose_build;
 mod rose_build_bytecode;
 mod rose_build_resources;
 mod rose_internal;
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
 
 pub(crate) use block::rose_block_exec;
 pub(crate) use rose_build::RoseBuild;
diff --git a/src/rose/vp.rs b/src/rose/vp.rs
new file mode 100644
index 0000000..001f651
--- /dev/null
+++ b/src/rose/vp.rs
@@ -0,0 +1,54 @@
+//! Verification hooks: engines.
+
+use super::rose_build_bytecode::pick_runtime_impl;
+use super::{RoseBuild, RoseEngine, RoseResources, RoseRuntimeImpl};
+use crate::util::CompileContext;
+use crate::{Grey, Mode};
+
+fn name(r: &RoseRuntimeImpl) -> &'static str {
+    match r {
+        RoseRuntimeImpl::FullRose => "full",
+        RoseRuntimeImpl::PureLiteral => "literal",
+        RoseRuntimeImpl::SingleOutfix => "outfix",
+    }
+}
+
+/// Returns the runtime implementation and the mode of an engine.
+pub(crate) fn engine(r: &RoseEngine) -> (&'static str, &'static str) {
+    let mode = match r.mode {
+        Mode::Block => "block",
+        Mode::Stream(_) => "stream",
+        Mode::Vectored => "vectored",
+    };
+    (name(&r.runtime_impl), mode)
+}
+
+/// Builds an engine with the given resources in use and returns its runtime
+/// implementation.
+pub fn pick(in_use: &[&str], streaming: bool) -> &'static str {
+    let cc = CompileContext::new(streaming, false, &Grey::default());
+    let build = RoseBuild {
+        cc: &cc,
+        has_som: false,
+    };
+    let mut r = RoseResources::default();
+    for u in in_use {
+        match *u {
+            "outfixes" => r.has_outfixes = true,
+            "suffixes" => r.has_suffixes = true,
+            "leftfixes" => r.has_leftfixes = true,
+            "literals" => r.has_literals = true,
+            "states" => r.has_states = true,
+            "groups" => r.checks_groups = true,
+            "lit_delay" => r.has_lit_delay = true,
+            "lit_check" => r.has_lit_check = true,
+            "anchored" => r.has_anchored = true,
+            "anchored_multiple" => r.has_anchored_multiple = true,
+            "anchored_large" => r.has_anchored_large = true,
+            "floating" => r.has_floating = true,
+            "eod" => r.has_eod = true,
+            _ => unreachable!(),
+        }
+    }
+    name(&pick_runtime_impl(&build, &r))
+}
diff --git a/src/smallwrite.rs b/src/smallwrite.rs
index 76fad48..859ec50 100644
--- a/src/smallwrite.rs
+++ b/src/smallwrite.rs
@@ -1,3 +1,5 @@
 mod smallwrite_build;
 
+#[cfg(rescan_vp)]
+pub(crate) use smallwrite_build::vp;
 pub(crate) use smallwrite_build::SmallWriteBuild;
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index 0d5e401..0a75598 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -9,6 +9,9 @@ use petgraph::{Direction, Graph};
 use std::collections::HashSet;
 use std::ptr::NonNull;
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 const MAX_TRIE_VERTICES: usize = 8_000;
 
 struct LitTrieVertexProps {
diff --git a/src/smallwrite/smallwrite_build/vp.rs b/src/smallwrite/smallwrite_build/vp.rs
new file mode 100644
index 0000000..c0f0346
--- /dev/null
+++ b/src/smallwrite/smallwrite_build/vp.rs
@@ -0,0 +1,92 @@
+//! Verification hooks: the small-write literal tables.
+
+use super::{LitTrie, SmallWriteBuild};
+use crate::util::vp::Lit;
+use crate::util::CompileContext;
+use petgraph::Direction;
+
+/// Projection of a literal table.
+#[derive(Clone, Debug, Default, Eq, PartialEq)]
+pub struct TrieSnapshot {
+    /// Number of vertices, the root included.
+    pub nodes: usize,
+    /// Spelling and reports of every vertex reached from the root other than
+    /// the root itself, sorted.
+    pub paths: Vec<(Vec<u8>, Vec<u32>)>,
+    /// Reports on the root.
+    pub root_reports: Vec<u32>,
+    pub is_empty: bool,
+    pub all_reports: Vec<u32>,
+}
+
+/// Projection of the small-write builder.
+#[derive(Clone, Debug, Default, Eq, PartialEq)]
+pub struct SmallWriteSnapshot {
+    pub poisoned: bool,
+    pub num_literals: usize,
+    pub cased: TrieSnapshot,
+    pub nocase: TrieSnapshot,
+}
+
+fn trie(t: &LitTrie) -> TrieSnapshot {
+    let mut paths = Vec::new();
+    let mut root_reports = Vec::new();
+    let mut stack = vec![(t.root, Vec::new())];
+    while let Some((v, path)) = stack.pop() {
+        // A well-formed table has no path longer than its number of vertices.
+        if path.len() > t.inner.node_count() {
+            break;
+        }
+        let mut reports: Vec<u32> = t.inner[v].reports.iter().copied().collect();
+        reports.sort_unstable();
+        for n in t.inner.neighbors_directed(v, Direction::Outgoing) {
+            let mut p: Vec<u8> = path.clone();
+            p.push(t.inner[n].c);
+            stack.push((n, p));
+        }
+        if path.is_empty() {
+            root_reports = reports;
+        } else {
+            paths.push((path, reports));
+        }
+    }
+    paths.sort();
+    let mut all_reports: Vec<u32> = t.all_reports().into_iter().collect();
+    all_reports.sort_unstable();
+    TrieSnapshot {
+        nodes: t.inner.node_count(),
+        paths,
+        root_reports,
+        is_empty: t.is_empty(),
+        all_reports,
+    }
+}
+
+pub(crate) fn snapshot(s: &SmallWriteBuild) -> SmallWriteSnapshot {
+    SmallWriteSnapshot {
+        poisoned: s.poisoned,
+        num_literals: s.num_literals,
+        cased: trie(&s.lit_trie),
+        nocase: trie(&s.lit_trie_nocase),
+    }
+}
+
+/// A small-write builder driven directly.
+pub struct SmallWrite {
+    inner: SmallWriteBuild<'static>,
+}
+
+impl SmallWrite {
+    pub fn new(num_patterns: usize, limits: &crate::vp::Limits) -> Self {
+        let cc = Box::leak(Box::new(CompileContext::new(false, false, &limits.grey())));
+        Self {
+            inner: SmallWriteBuild::new(num_patterns, cc),
+        }
+    }
+    pub fn add_literal(&mut self, lit: &Lit, report: u32) {
+        self.inner.add_literal(&lit.0, report);
+    }
+    pub fn snapshot(&self) -> SmallWriteSnapshot {
+        snapshot(&self.inner)
+    }
+}
diff --git a/src/util.rs b/src/util.rs
index 23f5a3e..cae1ae1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -12,6 +12,8 @@ mod report_manager;
 mod ue2common;
 mod ue2string;
 mod unicode_def;
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
 
 pub(crate) use boundary_reports::BoundaryReports;
 pub(crate) use charreach::{make_caseless, CharReach};
@@ -23,3 +25,8 @@ pub(crate) use report::{make_e_callback, make_som_relative_callback, Report};
 pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
 pub(crate) use ue2common::{ReportId, S64a};
 pub(crate) use ue2string::{mixed_sensitivity, Ue2Literal};
+#[cfg(rescan_vp)]
+pub(crate) use {
+    depth::vp as depth_vp, report_manager::vp as report_manager_vp,
+    ue2string::vp::items as lit_items,
+};
diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index fa18681..84c57bd 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -1,5 +1,8 @@
 use std::fmt;
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 /// Error thrown by the compiler.
 #[derive(Debug)]
 pub struct CompileError {
diff --git a/src/util/compile_error/vp.rs b/src/util/compile_error/vp.rs
new file mode 100644
index 0000000..5c65ea9
--- /dev/null
+++ b/src/util/compile_error/vp.rs
@@ -0,0 +1,7 @@
+//! Verification hooks: errors.
+
+use super::CompileError;
+
+pub(crate) fn info(e: &CompileError) -> (String, String, Option<u32>) {
+    (format!("{:?}", e.kind), e.reason.clone(), e.index)
+}
diff --git a/src/util/depth.rs b/src/util/depth.rs
index f581eae..d5e73d9 100644
--- a/src/util/depth.rs
+++ b/src/util/depth.rs
@@ -1,6 +1,9 @@
 use std::cmp::Ordering;
 use std::convert::TryFrom;
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 const INFINITY: u32 = (1 << 31) - 1;
 #[allow(dead_code)]
 const UNREACHABLE: u32 = 1 << 31;
diff --git a/src/util/depth/vp.rs b/src/util/depth/vp.rs
new file mode 100644
index 0000000..72cb7af
--- /dev/null
+++ b/src/util/depth/vp.rs
@@ -0,0 +1,12 @@
+//! Verification hooks: the value of a depth.
+
+use super::Depth;
+
+/// Returns the count, or `None` for infinity.
+pub(crate) fn value(d: Depth) -> Option<u32> {
+    if d == Depth::infinity() {
+        None
+    } else {
+        Some(d.val)
+    }
+}
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index a574c2d..5184602 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -3,6 +3,9 @@ use crate::{CompileError, ErrorKind, Grey};
 use std::collections::{hash_map::Entry, BTreeMap, HashMap};
 use std::convert::TryInto;
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 #[derive(Clone, Copy)]
 pub(crate) struct ExternalReportInfo {
     pub(crate) highlander: bool,
diff --git a/src/util/report_manager/vp.rs b/src/util/report_manager/vp.rs
new file mode 100644
index 0000000..7302cfc
--- /dev/null
+++ b/src/util/report_manager/vp.rs
@@ -0,0 +1,89 @@
+//! Verification hooks: the report manager.
+
+use super::{ExternalReportInfo, ReportManager};
+use crate::util::{make_e_callback, make_som_relative_callback, Report, ReportId};
+use crate::{CompileError, Grey};
+
+/// Projection of a report manager.
+#[derive(Clone, Debug, Default, Eq, PartialEq)]
+pub struct ReportsSnapshot {
+    /// Number of internal reports.
+    pub num_reports: usize,
+    /// Whether every internal id leads to a report that is mapped back to it.
+    pub inverse: bool,
+    /// External id, highlander, first pattern index.
+    pub ext: Vec<(u32, bool, u32)>,
+    /// Exhaustible id, key.
+    pub ekeys: Vec<(i64, u32)>,
+    pub global_exhaust: bool,
+}
+
+pub(crate) fn snapshot(rm: &ReportManager) -> ReportsSnapshot {
+    let mut ext: Vec<_> = rm
+        .external_id_map
+        .iter()
+        .map(|(id, e)| (*id, e.highlander, e.first_pattern_index))
+        .collect();
+    ext.sort_unstable();
+    let num_reports = rm.num_reports();
+    let inverse = rm.report_id_to_internal_map.len() == num_reports
+        && rm
+            .report_id_to_internal_map
+            .iter()
+            .all(|(r, id)| rm.get_report(*id) == r);
+    ReportsSnapshot {
+        num_reports,
+        inverse,
+        ext,
+        ekeys: rm
+            .to_exhaustible_key_map
+            .iter()
+            .map(|(a, k)| (*a, *k))
+            .collect(),
+        global_exhaust: rm.global_exhaust,
+    }
+}
+
+/// A report manager driven directly.
+pub struct Reports {
+    rm: ReportManager<'static>,
+}
+
+/// Attributes of a report: start of match relative, external id, offset
+/// adjustment, exhaustion key, quiet, distance.
+pub type ReportAttrs = (bool, ReportId, i32, Option<u32>, bool, u64);
+
+fn make(a: ReportAttrs) -> Report {
+    if a.0 {
+        make_som_relative_callback(a.1, a.2, a.5)
+    } else {
+        make_e_callback(a.1, a.2, a.3, a.4)
+    }
+}
+
+impl Reports {
+    pub fn new(limit_report_count: usize) -> Self {
+        let mut grey = Grey::default();
+        grey.limit_report_count = limit_report_count;
+        Self {
+            rm: ReportManager::new(Box::leak(Box::new(grey))),
+        }
+    }
+    pub fn intern(&mut self, a: ReportAttrs) -> Result<u32, CompileError> {
+        self.rm.get_internal_id(&make(a))
+    }
+    /// Returns `true` if the internal report `id` is the one with these attributes.
+    pub fn resolves_to(&self, id: u32, a: ReportAttrs) -> bool {
+        *self.rm.get_report(id) == make(a)
+    }
+    pub fn register(&mut self, id: u32, highlander: bool, index: u32) -> Result<(), CompileError> {
+        self.rm
+            .register_ext_report(id, ExternalReportInfo::new(highlander, index))
+    }
+    pub fn ekey(&mut self, a: u32) -> u32 {
+        self.rm.get_exhaustible_key(a)
+    }
+    pub fn snapshot(&self) -> ReportsSnapshot {
+        snapshot(&self.rm)
+    }
+}
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index bdba568..f6d1905 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -2,6 +2,9 @@ use super::compare::{mytoupper, ourisalpha};
 use bit_vec::BitVec;
 use std::cmp::Ordering;
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 #[derive(Default, Eq)]
 pub struct Ue2Literal {
     s: Vec<u8>,
diff --git a/src/util/ue2string/vp.rs b/src/util/ue2string/vp.rs
new file mode 100644
index 0000000..6cf6002
--- /dev/null
+++ b/src/util/ue2string/vp.rs
@@ -0,0 +1,50 @@
+//! Verification hooks: literals.
+
+use super::{mixed_sensitivity, Ue2Literal};
+use std::cmp::Ordering;
+
+/// A literal.
+#[derive(Default)]
+pub struct Lit(pub(crate) Ue2Literal);
+
+impl Lit {
+    pub fn push(&mut self, c: u8, nocase: bool) {
+        self.0.push(c, nocase);
+    }
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    pub fn any_nocase(&self) -> bool {
+        self.0.any_nocase()
+    }
+    pub fn items(&self) -> Vec<(u8, bool)> {
+        items(&self.0)
+    }
+    pub fn items_by_into_iter(&self) -> Vec<(u8, bool)> {
+        (&self.0).into_iter().map(|e| (e.c, e.nocase)).collect()
+    }
+    pub fn mixed(&self) -> bool {
+        mixed_sensitivity(&self.0)
+    }
+    /// Mixed sensitivity of a part of the literal.
+    pub fn mixed_part(&self, from: usize, to: usize) -> bool {
+        mixed_sensitivity(self.0.iter().skip(from).take(to - from))
+    }
+    /// Returns `==`, `!=`, `cmp` and `partial_cmp`.
+    pub fn compare(&self, other: &Self) -> (bool, bool, Ordering, Option<Ordering>) {
+        (
+            self.0 == other.0,
+            self.0 != other.0,
+            self.0.cmp(&other.0),
+            self.0.partial_cmp(&other.0),
+        )
+    }
+}
+
+/// Returns the characters of a literal with their case insensitivity.
+pub(crate) fn items(lit: &Ue2Literal) -> Vec<(u8, bool)> {
+    lit.iter().map(|e| (e.c, e.nocase)).collect()
+}
diff --git a/src/util/vp.rs b/src/util/vp.rs
new file mode 100644
index 0000000..6a9d4fb
--- /dev/null
+++ b/src/util/vp.rs
@@ -0,0 +1,194 @@
+//! Verification hooks: byte classes, case folding, alignment and depths.
+
+use super::charreach::{fill_bitvector, make_and_cmp_mask, make_caseless, CharReach};
+use super::compare::{myislower, myisupper, mytolower, mytoupper, ourisalpha};
+use super::depth::Depth;
+use super::ue2common::{round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n};
+use std::cmp::Ordering;
+use std::convert::TryFrom;
+
+pub use super::report_manager::vp::Reports;
+pub use super::ue2string::vp::Lit;
+
+/// A byte class.
+#[derive(Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Ord)]
+pub struct Class(pub(crate) CharReach);
+
+impl Class {
+    pub fn empty() -> Self {
+        Self(CharReach::default())
+    }
+    pub fn from_char(c: u8) -> Self {
+        Self(CharReach::from_char(c))
+    }
+    pub fn from_range(from: u8, to: u8) -> Self {
+        Self(CharReach::from_range(from, to))
+    }
+    pub fn from_bytes(bytes: &[u8]) -> Self {
+        Self(CharReach::from_bytes(bytes))
+    }
+    pub fn dot() -> Self {
+        Self(CharReach::dot())
+    }
+    pub fn reset_all(&mut self) {
+        self.0.reset_all();
+    }
+    pub fn set_all(&mut self) {
+        self.0.set_all();
+    }
+    pub fn reset(&mut self, c: u8) {
+        self.0.reset(c);
+    }
+    pub fn set(&mut self, c: u8) {
+        self.0.set(c);
+    }
+    pub fn test(&self, c: u8) -> bool {
+        self.0.test(c)
+    }
+    pub fn flip_all(&mut self) {
+        self.0.flip_all();
+    }
+    pub fn flip(&mut self, c: u8) {
+        self.0.flip(c);
+    }
+    pub fn set_range(&mut self, from: u8, to: u8) {
+        self.0.set_range(from, to);
+    }
+    pub fn set_bytes(&mut self, bytes: &[u8]) {
+        self.0.set_bytes(bytes);
+    }
+    pub fn count(&self) -> u32 {
+        self.0.count()
+    }
+    pub fn none(&self) -> bool {
+        self.0.none()
+    }
+    pub fn any(&self) -> bool {
+        self.0.any()
+    }
+    pub fn all(&self) -> bool {
+        self.0.all()
+    }
+    pub fn find_first(&self) -> Option<u8> {
+        self.0.find_first()
+    }
+    pub fn find_last(&self) -> Option<u8> {
+        self.0.find_last()
+    }
+    pub fn find_next(&self, last: u8) -> Option<u8> {
+        self.0.find_next(last)
+    }
+    pub fn find_nth(&self, n: u8) -> Option<u8> {
+        self.0.find_nth(n)
+    }
+    pub fn is_alphabetic(&self) -> bool {
+        self.0.is_alphabetic()
+    }
+    pub fn is_caseless_char(&self) -> bool {
+        self.0.is_caseless_char()
+    }
+    pub fn is_bit5_insensitive(&self) -> bool {
+        self.0.is_bit5_insensitive()
+    }
+    pub fn is_subset_of(&self, rhs: &Self) -> bool {
+        self.0.is_subset_of(&rhs.0)
+    }
+    pub fn overlaps(&self, rhs: &Self) -> bool {
+        self.0.overlaps(&rhs.0)
+    }
+    pub fn is_ascii(&self) -> bool {
+        self.0.is_ascii()
+    }
+    pub fn is_utf8_start(&self) -> bool {
+        self.0.is_utf8_start()
+    }
+    pub fn text(&self) -> String {
+        self.0.to_string()
+    }
+    pub fn and(self, rhs: Self) -> Self {
+        Self(self.0 & rhs.0)
+    }
+    pub fn or(self, rhs: Self) -> Self {
+        Self(self.0 | rhs.0)
+    }
+    pub fn xor(self, rhs: Self) -> Self {
+        Self(self.0 ^ rhs.0)
+    }
+    pub fn not(self) -> Self {
+        Self(!self.0)
+    }
+    pub fn and_assign(&mut self, rhs: Self) {
+        self.0 &= rhs.0;
+    }
+    pub fn or_assign(&mut self, rhs: Self) {
+        self.0 |= rhs.0;
+    }
+    pub fn xor_assign(&mut self, rhs: Self) {
+        self.0 ^= rhs.0;
+    }
+    pub fn make_caseless(&mut self) {
+        make_caseless(&mut self.0);
+    }
+    pub fn fill_bitvector(&self, bits: &mut [u8]) {
+        fill_bitvector(&self.0, bits);
+    }
+    pub fn and_cmp_mask(&self) -> (u8, u8) {
+        make_and_cmp_mask(&self.0)
+    }
+}
+
+/// Returns (lower case, upper case, is upper, is lower, is alphabetic).
+pub fn case_of(c: u8) -> (u8, u8, bool, bool, bool) {
+    (
+        mytolower(c),
+        mytoupper(c),
+        myisupper(c),
+        myislower(c),
+        ourisalpha(c),
+    )
+}
+
+macro_rules! align {
+    ($name:ident, $t:ty) => {
+        /// Runs the alignment function `op` ("up16", "down16", "upn", "downn", "upcl").
+        pub fn $name(op: &str, a: $t, n: u8) -> $t {
+            match op {
+                "up16" => round_up_16(a),
+                "down16" => round_down_16(a),
+                "upn" => round_up_n(a, n),
+                "downn" => round_down_n(a, n),
+                "upcl" => round_up_cache_line(a),
+                _ => unreachable!(),
+            }
+        }
+    };
+}
+
+align!(align_u8, u8);
+align!(align_u16, u16);
+align!(align_u32, u32);
+align!(align_u64, u64);
+align!(align_usize, usize);
+
+/// A depth.
+#[derive(Clone, Copy, Eq, PartialEq, PartialOrd, Ord)]
+pub struct VpDepth(Depth);
+
+impl VpDepth {
+    pub fn infinity() -> Self {
+        Self(Depth::infinity())
+    }
+    pub fn from_u32(v: u32) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+    pub fn from_usize(v: usize) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+    pub fn compare(&self, other: &Self) -> (Ordering, Option<Ordering>, bool) {
+        (
+            self.0.cmp(&other.0),
+            self.0.partial_cmp(&other.0),
+            self.0 == other.0,
+        )
+    }
+}
diff --git a/src/vp.rs b/src/vp.rs
new file mode 100644
index 0000000..e4bc160
--- /dev/null
+++ b/src/vp.rs
@@ -0,0 +1,151 @@
+//! Verification hooks, only compiled with `--cfg rescan_vp`.
+//!
+//! They expose the state of the compiler in plain types and record a snapshot
+//! of a compile session after each of its expressions.
+
+use crate::database::get_bytecode;
+use crate::nfagraph::Ng;
+use crate::scratch::CoreInfo;
+use crate::util::ReportId;
+use crate::{compile_multi_int, CompileError, Database, Flags, Grey, Mode, Scratch};
+use std::cell::RefCell;
+
+pub use crate::compiler::vp::{parse_expression, Parsed};
+pub use crate::nfagraph::vp::{Graph, GraphSnapshot, Snapshot, Store};
+pub use crate::parser::vp::Visit;
+pub use crate::rose::vp::pick;
+pub use crate::smallwrite::vp::{SmallWrite, SmallWriteSnapshot, TrieSnapshot};
+pub use crate::util::report_manager_vp::{ReportAttrs, ReportsSnapshot};
+pub use crate::util::vp::*;
+
+/// Limits and switches of a compile.
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub struct Limits {
+    pub allow_literal: bool,
+    pub flood_as_puffette: bool,
+    pub shortcut_literals: bool,
+    pub allow_small_write: bool,
+    pub small_write_largest_buffer: usize,
+    pub small_write_max_patterns: usize,
+    pub small_write_max_literals: usize,
+    pub limit_pattern_count: usize,
+    pub limit_pattern_length: usize,
+    pub limit_report_count: usize,
+}
+
+impl Default for Limits {
+    fn default() -> Self {
+        let g = Grey::default();
+        Self {
+            allow_literal: g.allow_literal,
+            flood_as_puffette: g.flood_as_puffette,
+            shortcut_literals: g.shortcut_literals,
+            allow_small_write: g.allow_small_write,
+            small_write_largest_buffer: g.small_write_largest_buffer,
+            small_write_max_patterns: g.small_write_max_patterns,
+            small_write_max_literals: g.small_write_max_literals,
+            limit_pattern_count: g.limit_pattern_count,
+            limit_pattern_length: g.limit_pattern_length,
+            limit_report_count: g.limit_report_count,
+        }
+    }
+}
+
+impl Limits {
+    pub(crate) fn grey(&self) -> Grey {
+        let mut g = Grey::default();
+        g.allow_literal = self.allow_literal;
+        g.flood_as_puffette = self.flood_as_puffette;
+        g.shortcut_literals = self.shortcut_literals;
+        g.allow_small_write = self.allow_small_write;
+        g.small_write_largest_buffer = self.small_write_largest_buffer;
+        g.small_write_max_patterns = self.small_write_max_patterns;
+        g.small_write_max_literals = self.small_write_max_literals;
+        g.limit_pattern_count = self.limit_pattern_count;
+        g.limit_pattern_length = self.limit_pattern_length;
+        g.limit_report_count = self.limit_report_count;
+        g
+    }
+}
+
+#[derive(Default)]
+struct Sink {
+    on: bool,
+    last_only: bool,
+    steps: Vec<Snapshot>,
+}
+
+thread_local! {
+    static SINK: RefCell<Sink> = RefCell::new(Sink::default());
+}
+
+/// Records the state of a compile session (called by the compiler).
+pub(crate) fn note(ng: &Ng, last: bool) {
+    SINK.with(|s| {
+        let mut s = s.borrow_mut();
+        if s.on && (last || !s.last_only) {
+            let snapshot = crate::nfagraph::vp::session(ng);
+            s.steps.push(snapshot);
+        }
+    });
+}
+
+/// Runs `f` and returns its result with the snapshots recorded by the compiles
+/// it made on this thread: one after each expression added and one before the
+/// database is built (only the latter if `last_only`).
+pub fn record<R>(last_only: bool, f: impl FnOnce() -> R) -> (R, Vec<Snapshot>) {
+    SINK.with(|s| {
+        *s.borrow_mut() = Sink {
+            on: true,
+            last_only,
+            steps: Vec::new(),
+        }
+    });
+    let r = f();
+    let steps = SINK.with(|s| std::mem::take(&mut *s.borrow_mut()).steps);
+    (r, steps)
+}
+
+/// Takes the snapshots recorded so far (after a panic).
+pub fn take_steps() -> Vec<Snapshot> {
+    SINK.with(|s| std::mem::take(&mut *s.borrow_mut()).steps)
+}
+
+/// Compiles with the given limits.
+pub fn compile_with_limits(
+    expressions: &[&str],
+    flags: &[Flags],
+    ids: &[ReportId],
+    mode: &Mode,
+    limits: &Limits,
+) -> Result<Database, CompileError> {
+    compile_multi_int(expressions, flags, ids, mode, &limits.grey())
+}
+
+/// Returns (streaming, vectored, bytes of SOM precision) of a mode.
+pub fn mode_info(mode: &Mode) -> (bool, bool, usize) {
+    (
+        mode.is_streaming(),
+        mode.is_vectored(),
+        mode.som_precision(),
+    )
+}
+
+/// Returns the runtime implementation and the mode of a database.
+pub fn database_info(db: &Database) -> (&'static str, &'static str) {
+    crate::rose::vp::engine(get_bytecode(db))
+}
+
+/// Returns a scratch space.
+pub fn scratch() -> Scratch {
+    Scratch {
+        core_info: CoreInfo {
+            state: std::ptr::null_mut(),
+        },
+    }
+}
+
+/// Returns the category, the reason and the expression index of an error.
+pub fn error_info(e: &CompileError) -> (String, String, Option<u32>) {
+    crate::util::compile_error::vp::info(e)
+}
-- 
2.43.0


From 41d05730e850178e2c88b84cba78697566ab9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 13/21] fix: drop deeply nested parse trees without recursion

A pattern of 16000 bytes that nests groups with alternations overflowed a
2 MB stack in a debug build when its parse tree was dropped.
---
 src/parser/component_alternation.rs |  9 ++++++++-
 src/parser/component_sequence.rs    | 23 +++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/parser/component_alternation.rs b/src/parser/component_alternation.rs
index 3cc24e7..8eafe0b 100644
--- a/src/parser/component_alternation.rs
+++ b/src/parser/component_alternation.rs
@@ -1,5 +1,5 @@
 use super::component_sequence::walk_component_sequence;
-use super::{ComponentSequence, ConstComponentVisitor, GlushkovBuildState};
+use super::{Component, ComponentSequence, ConstComponentVisitor, GlushkovBuildState};
 
 #[derive(Debug, Default)]
 pub(crate) struct ComponentAlternation {
@@ -11,6 +11,13 @@ impl ComponentAlternation {
         self.children.push(component);
     }
 
+    /// Moves all children of the branches to `components`.
+    pub(super) fn take_components(&mut self, components: &mut Vec<Component>) {
+        for c in &mut self.children {
+            c.take_components(components);
+        }
+    }
+
     /// Informs the Glushkov build process of the positions used by this component.
     pub(super) fn note_positions(&mut self, bs: &mut GlushkovBuildState) {
         for c in &mut self.children {
diff --git a/src/parser/component_sequence.rs b/src/parser/component_sequence.rs
index 26517a5..b86a615 100644
--- a/src/parser/component_sequence.rs
+++ b/src/parser/component_sequence.rs
@@ -45,12 +45,35 @@ impl ComponentSequence {
         }
     }
 
+    /// Moves all children to `components`.
+    pub(super) fn take_components(&mut self, components: &mut Vec<Component>) {
+        components.append(&mut self.children);
+        components.extend(self.alternation.take().map(Component::Alternation));
+    }
+
     #[cfg(test)]
     pub(super) fn children(&self) -> &Vec<Component> {
         &self.children
     }
 }
 
+impl Drop for ComponentSequence {
+    /// Takes nested components apart one after another. Dropping them
+    /// recursively could exhaust the stack.
+    fn drop(&mut self) {
+        let mut pending = Vec::new();
+        self.take_components(&mut pending);
+
+        while let Some(component) = pending.pop() {
+            match component {
+                Component::Alternation(mut c) => c.take_components(&mut pending),
+                Component::Class(_) => {}
+                Component::Sequence(mut c) => c.take_components(&mut pending),
+            }
+        }
+    }
+}
+
 pub(in crate::parser) fn walk_component_sequence<V: ConstComponentVisitor>(
     v: &mut V,
     c: &ComponentSequence,
-- 
2.43.0


From 5c0d7e2e9c5f7c4bdec376ead4d3084e73bd292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:20 +0000
Subject: [PATCH 14/21] Verification hook: let a watcher wait between the
 expressions of a compile

---
 src/vp.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/vp.rs b/src/vp.rs
index e4bc160..4ac03ad 100644
--- a/src/vp.rs
+++ b/src/vp.rs
@@ -75,12 +75,27 @@ struct Sink {
     steps: Vec<Snapshot>,
 }
 
+/// Called with the state of a compile and whether it is the last one.
+pub type Watcher = Box<dyn FnMut(Snapshot, bool)>;
+
 thread_local! {
     static SINK: RefCell<Sink> = RefCell::new(Sink::default());
+    static WATCHER: RefCell<Option<Watcher>> = RefCell::new(None);
+}
+
+/// Has `f` called after each expression that a compile on this thread adds
+/// and before the database is built. It may wait for other threads.
+pub fn watch(f: Option<Watcher>) {
+    WATCHER.with(|w| *w.borrow_mut() = f);
 }
 
 /// Records the state of a compile session (called by the compiler).
 pub(crate) fn note(ng: &Ng, last: bool) {
+    let watcher = WATCHER.with(|w| w.borrow_mut().take());
+    if let Some(mut f) = watcher {
+        f(crate::nfagraph::vp::session(ng), last);
+        WATCHER.with(|w| *w.borrow_mut() = Some(f));
+    }
     SINK.with(|s| {
         let mut s = s.borrow_mut();
         if s.on && (last || !s.last_only) {
-- 
2.43.0


From b1ffa323955acc77408b4c6733b262990eecc2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:08 +0000
Subject: [PATCH 15/21] Verification hook: wiring of positions

---
 src/compiler/vp.rs            |   5 ++
 src/nfagraph.rs               |   1 +
 src/nfagraph/ng_builder.rs    |   3 +
 src/nfagraph/ng_builder/vp.rs |  16 ++++++
 src/parser/build_state.rs     |   3 +
 src/parser/build_state/vp.rs  | 100 ++++++++++++++++++++++++++++++++++
 src/parser/vp.rs              |   3 +
 src/vp.rs                     |   1 +
 8 files changed, 132 insertions(+)
 create mode 100644 src/nfagraph/ng_builder/vp.rs
 create mode 100644 src/parser/build_state/vp.rs

diff --git a/src/compiler/vp.rs b/src/compiler/vp.rs
index ec73618..eccebe9 100644
--- a/src/compiler/vp.rs
+++ b/src/compiler/vp.rs
@@ -28,6 +28,11 @@ pub struct Parsed {
     pub mode: [bool; 6],
 }
 
+/// Returns the expression that is nothing.
+pub(crate) fn empty_expression() -> ParsedExpression {
+    ParsedExpression::new(0, "", Flags::empty(), 0).expect("nothing to fail on")
+}
+
 /// Parses an expression and builds its graph.
 pub fn parse_expression(
     index: usize,
diff --git a/src/nfagraph.rs b/src/nfagraph.rs
index d2827f5..13ed727 100644
--- a/src/nfagraph.rs
+++ b/src/nfagraph.rs
@@ -5,6 +5,7 @@ mod ng_holder;
 pub(crate) mod vp {
     pub(crate) use super::ng::vp::snapshot as session;
     pub use super::ng::vp::{Snapshot, Store};
+    pub(crate) use super::ng_builder::vp::{assert_flags, empty as empty_builder};
     pub(crate) use super::ng_holder::vp::snapshot;
     pub use super::ng_holder::vp::{Graph, GraphSnapshot};
 }
diff --git a/src/nfagraph/ng_builder.rs b/src/nfagraph/ng_builder.rs
index 09ed15b..072398c 100644
--- a/src/nfagraph/ng_builder.rs
+++ b/src/nfagraph/ng_builder.rs
@@ -3,6 +3,9 @@ use crate::nfagraph::{NfaVertex, NgHolder};
 use crate::parser::{PosFlags, Position};
 use crate::util::CharReach;
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 pub(crate) struct NfaBuilder {
     graph: NgHolder,
     expr: ExpressionInfo,
diff --git a/src/nfagraph/ng_builder/vp.rs b/src/nfagraph/ng_builder/vp.rs
new file mode 100644
index 0000000..bc8ae59
--- /dev/null
+++ b/src/nfagraph/ng_builder/vp.rs
@@ -0,0 +1,16 @@
+//! Verification hooks: builders.
+
+use super::NfaBuilder;
+use crate::compiler::vp::empty_expression;
+use crate::nfagraph::NfaVertex;
+use crate::parser::PosFlags;
+
+/// Returns a builder of an empty graph.
+pub(crate) fn empty() -> NfaBuilder {
+    NfaBuilder::new(&empty_expression())
+}
+
+/// Sets the assertion flags of a vertex.
+pub(crate) fn assert_flags(b: &mut NfaBuilder, v: NfaVertex, flags: u32) {
+    b.graph[v].assert_flags = PosFlags::from_bits_truncate(flags);
+}
diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index ed4297f..8a95cb9 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -3,6 +3,9 @@ use std::collections::{HashMap, HashSet};
 use crate::nfagraph::{NfaBuilder, NfaVertex};
 use crate::parser::{PosFlags, Position, PositionInfo};
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 pub(crate) struct GlushkovBuildState<'a> {
     start_state: Position,
     start_dot_star_state: Position,
diff --git a/src/parser/build_state/vp.rs b/src/parser/build_state/vp.rs
new file mode 100644
index 0000000..0324fb5
--- /dev/null
+++ b/src/parser/build_state/vp.rs
@@ -0,0 +1,100 @@
+//! Verification hooks: wiring of positions.
+
+use super::GlushkovBuildState;
+use crate::nfagraph::vp::{assert_flags, empty_builder};
+use crate::nfagraph::NfaVertex;
+use crate::parser::{PosFlags, Position, PositionInfo};
+
+/// A position (`usize::MAX` is epsilon) and its flags.
+pub type RegionPosition = (usize, u32);
+
+/// Positions wired to each other and the number of vertices.
+#[derive(Clone, Debug, Default)]
+pub struct RegionsSnapshot {
+    /// From, to, flags of the latter; sorted.
+    pub successors: Vec<(usize, RegionPosition)>,
+    pub num_vertices: usize,
+}
+
+fn position(p: usize) -> Position {
+    if p == usize::MAX {
+        GlushkovBuildState::pos_epsilon()
+    } else {
+        NfaVertex::new(p)
+    }
+}
+
+fn info(p: &RegionPosition) -> PositionInfo {
+    PositionInfo {
+        pos: position(p.0),
+        flags: PosFlags::from_bits_truncate(p.1),
+    }
+}
+
+fn number(p: Position) -> usize {
+    if p == GlushkovBuildState::pos_epsilon() {
+        usize::MAX
+    } else {
+        p.index()
+    }
+}
+
+fn snapshot(bs: &GlushkovBuildState) -> RegionsSnapshot {
+    let mut successors: Vec<_> = bs
+        .successors
+        .iter()
+        .flat_map(|(from, tos)| {
+            tos.iter()
+                .map(move |to| (number(*from), (number(to.pos), to.flags.bits())))
+        })
+        .collect();
+    successors.sort_unstable();
+    RegionsSnapshot {
+        successors,
+        num_vertices: bs.builder.num_vertices(),
+    }
+}
+
+/// Returns the start, the floating start, accept, end-of-data accept and the
+/// flags for no floating start, floating start only and start of a line.
+pub fn region_constants() -> ([usize; 4], [u32; 3]) {
+    let b = empty_builder();
+    (
+        [
+            b.get_start().index(),
+            b.get_start_dot_star().index(),
+            b.get_accept().index(),
+            b.get_accept_eod().index(),
+        ],
+        [
+            PosFlags::NOFLOAT.bits(),
+            PosFlags::MUST_FLOAT.bits(),
+            PosFlags::MULTILINE_START.bits(),
+        ],
+    )
+}
+
+/// Makes as many further vertices, sets assertion flags of vertices, and
+/// connects lasts to firsts. Returns what is wired at first and after each.
+pub fn connect_regions(
+    vertices: usize,
+    asserts: &[RegionPosition],
+    regions: &[(Vec<RegionPosition>, Vec<RegionPosition>)],
+) -> Vec<RegionsSnapshot> {
+    let mut b = empty_builder();
+    for _ in 0..vertices {
+        b.make_position();
+    }
+    for (v, flags) in asserts {
+        assert_flags(&mut b, NfaVertex::new(*v), *flags);
+    }
+    let mut bs = GlushkovBuildState::new(&mut b);
+    let mut out = vec![snapshot(&bs)];
+    for (lasts, firsts) in regions {
+        let lasts: Vec<PositionInfo> = lasts.iter().map(info).collect();
+        let firsts: Vec<PositionInfo> = firsts.iter().map(info).collect();
+        bs.connect_regions(&lasts, &firsts);
+        out.push(snapshot(&bs));
+    }
+    out
+}
diff --git a/src/parser/vp.rs b/src/parser/vp.rs
index 7e5cf8d..dfeae05 100644
--- a/src/parser/vp.rs
+++ b/src/parser/vp.rs
@@ -6,6 +6,9 @@ use crate::parser::{walk_component, Component, ParseMode};
 use crate::util::vp::Class;
 use std::cell::RefCell;
 
+pub use super::build_state::vp::{
+    connect_regions, region_constants, RegionPosition, RegionsSnapshot,
+};
 pub(crate) use super::shortcut_literal::vp::literal;
 
 /// One step of a traversal of a parse tree.
diff --git a/src/vp.rs b/src/vp.rs
index 4ac03ad..8e41119 100644
--- a/src/vp.rs
+++ b/src/vp.rs
@@ -13,6 +13,7 @@ use std::cell::RefCell;
 pub use crate::compiler::vp::{parse_expression, Parsed};
 pub use crate::nfagraph::vp::{Graph, GraphSnapshot, Snapshot, Store};
 pub use crate::parser::vp::Visit;
+pub use crate::parser::vp::{connect_regions, region_constants, RegionPosition, RegionsSnapshot};
 pub use crate::rose::vp::pick;
 pub use crate::smallwrite::vp::{SmallWrite, SmallWriteSnapshot, TrieSnapshot};
 pub use crate::util::report_manager_vp::{ReportAttrs, ReportsSnapshot};
-- 
2.43.0


From 541edb2c868e578d0cd6342c341abcfd0b97fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:06 +0000
Subject: [PATCH 16/21] Verification hook: reports by number

---
 src/util.rs                   |  2 +-
 src/util/report.rs            |  3 +++
 src/util/report/vp.rs         | 22 ++++++++++++++++++++++
 src/util/report_manager/vp.rs |  6 ++++++
 4 files changed, 32 insertions(+), 1 deletion(-)
 create mode 100644 src/util/report/vp.rs

diff --git a/src/util.rs b/src/util.rs
index cae1ae1..b460945 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -27,6 +27,6 @@ pub(crate) use ue2common::{ReportId, S64a};
 pub(crate) use ue2string::{mixed_sensitivity, Ue2Literal};
 #[cfg(rescan_vp)]
 pub(crate) use {
-    depth::vp as depth_vp, report_manager::vp as report_manager_vp,
+    depth::vp as depth_vp, report::vp as report_vp, report_manager::vp as report_manager_vp,
     ue2string::vp::items as lit_items,
 };
diff --git a/src/util/report.rs b/src/util/report.rs
index a86b863..017cf2c 100644
--- a/src/util/report.rs
+++ b/src/util/report.rs
@@ -1,3 +1,6 @@
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 #[derive(Clone, Hash, PartialEq, Eq)]
 enum ReportType {
     /// Standard external match report.
diff --git a/src/util/report/vp.rs b/src/util/report/vp.rs
new file mode 100644
index 0000000..f91c4bb
--- /dev/null
+++ b/src/util/report/vp.rs
@@ -0,0 +1,22 @@
+//! Verification hooks: reports.
+
+use super::{Report, ReportType};
+
+/// Attributes of a report: start of match relative, external id, offset
+/// adjustment, exhaustion key, quiet, distance, minimum length.
+pub type ReportInfo = (bool, u32, i32, Option<u32>, bool, u64, u64);
+
+pub(crate) fn info(r: &Report) -> ReportInfo {
+    (
+        match r.ty {
+            ReportType::ExternalCallback => false,
+            ReportType::ExternalCallbackSomRel => true,
+        },
+        r.onmatch,
+        r.offset_adjust,
+        r.ekey,
+        r.quiet,
+        r.som_distance,
+        r.min_length,
+    )
+}
diff --git a/src/util/report_manager/vp.rs b/src/util/report_manager/vp.rs
index 7302cfc..6d56d8c 100644
--- a/src/util/report_manager/vp.rs
+++ b/src/util/report_manager/vp.rs
@@ -1,6 +1,7 @@
 //! Verification hooks: the report manager.
 
 use super::{ExternalReportInfo, ReportManager};
+use crate::util::report_vp::{info, ReportInfo};
 use crate::util::{make_e_callback, make_som_relative_callback, Report, ReportId};
 use crate::{CompileError, Grey};
 
@@ -16,6 +17,8 @@ pub struct ReportsSnapshot {
     /// Exhaustible id, key.
     pub ekeys: Vec<(i64, u32)>,
     pub global_exhaust: bool,
+    /// Internal reports, by number.
+    pub reports: Vec<ReportInfo>,
 }
 
 pub(crate) fn snapshot(rm: &ReportManager) -> ReportsSnapshot {
@@ -41,6 +44,9 @@ pub(crate) fn snapshot(rm: &ReportManager) -> ReportsSnapshot {
             .map(|(a, k)| (*a, *k))
             .collect(),
         global_exhaust: rm.global_exhaust,
+        reports: (0..num_reports)
+            .map(|n| info(rm.get_report(n as u32)))
+            .collect(),
     }
 }
 
-- 
2.43.0


From 1a3a40adb5858e51aa3265b4ad1fef553fbf8436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:45 +0000
Subject: [PATCH 17/21] fix: keep caret-flavored epsilons when connecting from
 start

The filter kept the epsilons without flags and dropped those with, the
opposite of what its comment says, so that an epsilon that must not float
was connected to neither start.
---
 src/parser/build_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index 8a95cb9..1bb686b 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -90,7 +90,9 @@ fn filter_edges(bs: &GlushkovBuildState, from: PositionInfo, tolist: &mut Vec<Po
     } else if from.pos == bs.start_state {
         // If we're connecting from start, we should remove any epsilons that
         // aren't caret flavored.
-        tolist.retain(|e| e.pos != GlushkovBuildState::pos_epsilon() || e.flags.is_empty());
+        tolist.retain(|e| {
+            e.pos != GlushkovBuildState::pos_epsilon() || e.flags.contains(PosFlags::NOFLOAT)
+        });
         tolist.retain(|e| !e.flags.contains(PosFlags::MUST_FLOAT | PosFlags::NOFLOAT));
     }
 
-- 
2.43.0


From 597d968db2dd7275b424004aae017bb6f9354932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:55 +0000
Subject: [PATCH 18/21] Verification hook: graphs handed to the store

---
 src/compiler/vp.rs            | 18 +++++++++++++-
 src/nfagraph/ng/vp.rs         | 45 ++++++++++++++++++++++++++++++++++-
 src/nfagraph/ng_holder/vp.rs  |  3 +++
 src/util/report_manager/vp.rs |  6 +++++
 4 files changed, 70 insertions(+), 2 deletions(-)

diff --git a/src/compiler/vp.rs b/src/compiler/vp.rs
index eccebe9..45b963c 100644
--- a/src/compiler/vp.rs
+++ b/src/compiler/vp.rs
@@ -1,6 +1,6 @@
 //! Verification hooks: single expressions.
 
-use super::{build_graph, ParsedExpression};
+use super::{build_graph, ExpressionInfo, ParsedExpression};
 use crate::nfagraph::vp::{snapshot, GraphSnapshot};
 use crate::parser::vp::{literal, mode_flags, visits, Visit};
 use crate::parser::{parse, ParseMode};
@@ -33,6 +33,22 @@ pub(crate) fn empty_expression() -> ParsedExpression {
     ParsedExpression::new(0, "", Flags::empty(), 0).expect("nothing to fail on")
 }
 
+/// Returns the properties of an expression that becomes a graph.
+pub(crate) fn graph_expression(
+    index: usize,
+    report: ReportId,
+    highlander: bool,
+    som: bool,
+) -> ExpressionInfo {
+    ExpressionInfo {
+        index,
+        report,
+        highlander,
+        som: if som { SomType::Left } else { SomType::None },
+        ..empty_expression().expr
+    }
+}
+
 /// Parses an expression and builds its graph.
 pub fn parse_expression(
     index: usize,
diff --git a/src/nfagraph/ng/vp.rs b/src/nfagraph/ng/vp.rs
index 00b2e68..12481f3 100644
--- a/src/nfagraph/ng/vp.rs
+++ b/src/nfagraph/ng/vp.rs
@@ -1,8 +1,12 @@
 //! Verification hooks: the graph store of a compile session.
 
 use super::Ng;
+use crate::compiler::vp::graph_expression;
+use crate::nfagraph::vp::Graph;
 use crate::smallwrite::vp::{snapshot as smallwrite_snapshot, SmallWriteSnapshot};
-use crate::util::report_manager_vp::{snapshot as reports_snapshot, ReportsSnapshot};
+use crate::util::report_manager_vp::{
+    make_with_min_length, snapshot as reports_snapshot, ReportAttrs, ReportsSnapshot,
+};
 use crate::util::vp::Lit;
 use crate::util::{depth_vp, CompileContext};
 use crate::{CompileError, SomType};
@@ -60,6 +64,45 @@ impl Store {
                 .add_literal(&lit.0, index, report, highlander, som, quiet)
         }
     }
+    /// Adds the graph of an expression.
+    pub fn add_graph(
+        &mut self,
+        graph: &Graph,
+        index: u32,
+        report: u32,
+        highlander: bool,
+        som: bool,
+    ) -> Result<(), CompileError> {
+        let expr = graph_expression(index as usize, report, highlander, som);
+        unsafe {
+            self.inner
+                .as_mut()
+                .get_unchecked_mut()
+                .add_graph(&expr, graph.holder())
+        }
+    }
+    /// Hands the graph of an expression to the small-write builder.
+    pub fn add_small_write_graph(&mut self, graph: &Graph, som: bool) {
+        let expr = graph_expression(0, 0, false, som);
+        unsafe {
+            self.inner
+                .as_mut()
+                .get_unchecked_mut()
+                .smwr
+                .add_expression(graph.holder(), &expr);
+        }
+    }
+    /// Interns a report with a least length.
+    pub fn intern(&mut self, a: ReportAttrs, min_length: u64) -> Result<u32, CompileError> {
+        let r = make_with_min_length(a, min_length);
+        unsafe {
+            self.inner
+                .as_mut()
+                .get_unchecked_mut()
+                .rm
+                .get_internal_id(&r)
+        }
+    }
     pub fn snapshot(&self) -> Snapshot {
         snapshot(&self.inner)
     }
diff --git a/src/nfagraph/ng_holder/vp.rs b/src/nfagraph/ng_holder/vp.rs
index d1648d0..c036e28 100644
--- a/src/nfagraph/ng_holder/vp.rs
+++ b/src/nfagraph/ng_holder/vp.rs
@@ -82,6 +82,9 @@ impl Graph {
     pub fn add_report(&mut self, v: usize, report: u32) {
         self.inner[NfaVertex::new(v)].reports.insert(report);
     }
+    pub(crate) fn holder(&self) -> &NgHolder {
+        &self.inner
+    }
     pub fn snapshot(&self) -> GraphSnapshot {
         snapshot(&self.inner)
     }
diff --git a/src/util/report_manager/vp.rs b/src/util/report_manager/vp.rs
index 6d56d8c..e0f86c2 100644
--- a/src/util/report_manager/vp.rs
+++ b/src/util/report_manager/vp.rs
@@ -67,6 +67,12 @@ fn make(a: ReportAttrs) -> Report {
     }
 }
 
+pub(crate) fn make_with_min_length(a: ReportAttrs, min_length: u64) -> Report {
+    let mut r = make(a);
+    r.min_length = min_length;
+    r
+}
+
 impl Reports {
     pub fn new(limit_report_count: usize) -> Self {
         let mut grey = Grey::default();
-- 
2.43.0


From e5a215276e389d7eba0fa2920d84f2d26ff8c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:13 +0000
Subject: [PATCH 19/21] Verification hook: literals handed to the engine,
 engines, parse trees and bit fields

---
 src/compiler/vp.rs               | 17 +++++++--
 src/nfagraph/ng.rs               |  3 ++
 src/nfagraph/ng/vp.rs            |  4 ++
 src/parser/component_class.rs    |  3 ++
 src/parser/component_class/vp.rs | 15 ++++++++
 src/parser/vp.rs                 | 33 ++++++++++++++++
 src/rose/rose_build.rs           |  3 ++
 src/rose/vp.rs                   | 64 +++++++++++++++++++++++++++++++-
 src/util/vp.rs                   | 22 +++++++++++
 src/vp.rs                        |  6 +--
 10 files changed, 162 insertions(+), 8 deletions(-)
 create mode 100644 src/parser/component_class/vp.rs

diff --git a/src/compiler/vp.rs b/src/compiler/vp.rs
index 45b963c..63aaf74 100644
--- a/src/compiler/vp.rs
+++ b/src/compiler/vp.rs
@@ -2,7 +2,7 @@
 
 use super::{build_graph, ExpressionInfo, ParsedExpression};
 use crate::nfagraph::vp::{snapshot, GraphSnapshot};
-use crate::parser::vp::{literal, mode_flags, visits, Visit};
+use crate::parser::vp::{grow, literal, mode_flags, visits, Tree, Visit};
 use crate::parser::{parse, ParseMode};
 use crate::util::ReportId;
 use crate::{CompileError, Flags, SomType};
@@ -59,10 +59,21 @@ pub fn parse_expression(
     let mut pe = ParsedExpression::new(index, expression, flags, id)?;
     let mut mode = ParseMode::new(flags);
     parse(expression, &mut mode)?;
+    Ok(projection(pe, mode))
+}
+
+/// Builds the graph of a parse tree.
+pub fn tree_expression(tree: &Tree) -> Result<Parsed, CompileError> {
+    let mut pe = empty_expression();
+    pe.component = grow(tree, &mut 0)?;
+    Ok(projection(pe, ParseMode::default()))
+}
+
+fn projection(mut pe: ParsedExpression, mode: ParseMode) -> Parsed {
     let visits = visits(&pe.component);
     let literal = literal(&pe.component);
     let built = build_graph(&mut pe);
-    Ok(Parsed {
+    Parsed {
         index: pe.expr.index,
         report: pe.expr.report,
         allow_vacuous: pe.expr.allow_vacuous,
@@ -75,5 +86,5 @@ pub fn parse_expression(
         literal,
         graph: snapshot(&built.g),
         mode: mode_flags(&mode),
-    })
+    }
 }
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 5c5cba5..0f85c83 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -53,6 +53,9 @@ impl<'a> Ng<'a> {
         };
         let mut boxed = Box::pin(res);
 
+        #[cfg(rescan_vp)]
+        crate::rose::vp::forget();
+
         let rm = NonNull::from(&boxed.rm);
         unsafe {
             let mut_ref: Pin<&mut Self> = Pin::as_mut(&mut boxed);
diff --git a/src/nfagraph/ng/vp.rs b/src/nfagraph/ng/vp.rs
index 12481f3..5d86506 100644
--- a/src/nfagraph/ng/vp.rs
+++ b/src/nfagraph/ng/vp.rs
@@ -3,6 +3,7 @@
 use super::Ng;
 use crate::compiler::vp::graph_expression;
 use crate::nfagraph::vp::Graph;
+use crate::rose::vp::{last_handed, Handed};
 use crate::smallwrite::vp::{snapshot as smallwrite_snapshot, SmallWriteSnapshot};
 use crate::util::report_manager_vp::{
     make_with_min_length, snapshot as reports_snapshot, ReportAttrs, ReportsSnapshot,
@@ -22,6 +23,8 @@ pub struct Snapshot {
     pub has_som: bool,
     pub streaming: bool,
     pub vectored: bool,
+    /// The number of literals handed to the engine, and the last one.
+    pub handed: (usize, Option<Handed>),
 }
 
 pub(crate) fn snapshot(ng: &Ng) -> Snapshot {
@@ -32,6 +35,7 @@ pub(crate) fn snapshot(ng: &Ng) -> Snapshot {
         has_som: ng.rose.has_som,
         streaming: ng.cc.streaming,
         vectored: ng.cc.vectored,
+        handed: last_handed(),
     }
 }
 
diff --git a/src/parser/component_class.rs b/src/parser/component_class.rs
index b560542..8481a72 100644
--- a/src/parser/component_class.rs
+++ b/src/parser/component_class.rs
@@ -2,6 +2,9 @@ use super::ascii_component_class::{walk_ascii_component_class, AsciiComponentCla
 use super::{ConstComponentVisitor, GlushkovBuildState, ParseMode};
 use crate::util::compile_error::{CompileError, ErrorKind};
 
+#[cfg(rescan_vp)]
+pub(crate) mod vp;
+
 pub(in crate::parser) fn get_component_class(mode: ParseMode) -> ComponentClass {
     ComponentClass::Ascii(AsciiComponentClass::new(mode))
 }
diff --git a/src/parser/component_class/vp.rs b/src/parser/component_class/vp.rs
new file mode 100644
index 0000000..f0285d8
--- /dev/null
+++ b/src/parser/component_class/vp.rs
@@ -0,0 +1,15 @@
+//! Verification hooks: classes of several characters.
+
+use super::{get_component_class, ComponentClass};
+use crate::parser::ParseMode;
+use crate::CompileError;
+
+/// Makes a class by adding characters one after the other.
+pub(crate) fn class_of(chars: &[char], caseless: bool) -> Result<ComponentClass, CompileError> {
+    let mut cc = get_component_class(ParseMode {
+        caseless,
+        ..ParseMode::default()
+    });
+    chars.iter().try_for_each(|c| cc.add(*c))?;
+    Ok(cc)
+}
diff --git a/src/parser/vp.rs b/src/parser/vp.rs
index dfeae05..490cdb3 100644
--- a/src/parser/vp.rs
+++ b/src/parser/vp.rs
@@ -1,9 +1,11 @@
 //! Verification hooks: parse trees.
 
 use super::ascii_component_class::AsciiComponentClass;
+use super::component_class::vp::class_of;
 use super::{ComponentAlternation, ComponentSequence, ConstComponentVisitor};
 use crate::parser::{walk_component, Component, ParseMode};
 use crate::util::vp::Class;
+use crate::CompileError;
 use std::cell::RefCell;
 
 pub use super::build_state::vp::{
@@ -74,6 +76,37 @@ impl ConstComponentVisitor for Recorder {
     }
 }
 
+/// A parse tree, also one that no pattern makes.
+#[derive(Clone, Debug)]
+pub enum Tree {
+    /// Characters added to a class, and whether caselessly.
+    Class(Vec<char>, bool),
+    /// The branches of a capturing group.
+    Group(Vec<Vec<Tree>>),
+}
+
+/// Makes a parse tree.
+pub(crate) fn grow(t: &Tree, next_capture: &mut u32) -> Result<Component, CompileError> {
+    match t {
+        Tree::Class(chars, caseless) => Ok(class_of(chars, *caseless)?.into()),
+        Tree::Group(branches) => {
+            let mut seq = ComponentSequence::default();
+            seq.capture_index = Some(*next_capture);
+            *next_capture += 1;
+            for (i, branch) in branches.iter().enumerate() {
+                if i > 0 {
+                    seq.add_alternation();
+                }
+                for item in branch {
+                    seq.add_component(grow(item, next_capture)?);
+                }
+            }
+            seq.finalize();
+            Ok(seq.into())
+        }
+    }
+}
+
 /// Records a traversal of a parse tree.
 pub(crate) fn visits(c: &Component) -> Vec<Visit> {
     let mut r = Recorder::default();
diff --git a/src/rose/rose_build.rs b/src/rose/rose_build.rs
index 88855ca..d940418 100644
--- a/src/rose/rose_build.rs
+++ b/src/rose/rose_build.rs
@@ -18,6 +18,9 @@ impl<'a> RoseBuild<'a> {
         _lit: &Ue2Literal,
         _reports: &HashSet<ReportId>,
     ) {
+        #[cfg(rescan_vp)]
+        super::vp::handed(_anchored, _eod, _lit, _reports);
+
         if self.cc.grey.flood_as_puffette {
             return;
         }
diff --git a/src/rose/vp.rs b/src/rose/vp.rs
index 001f651..9b95594 100644
--- a/src/rose/vp.rs
+++ b/src/rose/vp.rs
@@ -2,8 +2,68 @@
 
 use super::rose_build_bytecode::pick_runtime_impl;
 use super::{RoseBuild, RoseEngine, RoseResources, RoseRuntimeImpl};
-use crate::util::CompileContext;
-use crate::{Grey, Mode};
+use crate::util::{lit_items, CompileContext, ReportId, Ue2Literal};
+use crate::{Database, Grey, Mode};
+use std::cell::RefCell;
+use std::collections::HashSet;
+
+/// A literal handed to the engine.
+#[derive(Clone, Debug, Default, Eq, PartialEq)]
+pub struct Handed {
+    pub anchored: bool,
+    pub eod: bool,
+    pub lit: Vec<(u8, bool)>,
+    pub reports: Vec<ReportId>,
+}
+
+thread_local! {
+    /// The number of literals handed over by the compile under way on this
+    /// thread, and the last one.
+    static HANDED: RefCell<(usize, Option<Handed>)> = RefCell::new((0, None));
+}
+
+/// A compile begins.
+pub(crate) fn forget() {
+    HANDED.with(|h| *h.borrow_mut() = (0, None));
+}
+
+/// A literal is handed to the engine.
+pub(crate) fn handed(anchored: bool, eod: bool, lit: &Ue2Literal, reports: &HashSet<ReportId>) {
+    let mut reports: Vec<ReportId> = reports.iter().copied().collect();
+    reports.sort_unstable();
+    HANDED.with(|h| {
+        let mut h = h.borrow_mut();
+        h.0 += 1;
+        h.1 = Some(Handed {
+            anchored,
+            eod,
+            lit: lit_items(lit),
+            reports,
+        });
+    });
+}
+
+/// The number of literals handed over, and the last one.
+pub(crate) fn last_handed() -> (usize, Option<Handed>) {
+    HANDED.with(|h| h.borrow().clone())
+}
+
+/// Makes a database that runs the engine named, in the mode given.
+pub fn database(runtime_impl: &str, mode: &Mode) -> Database {
+    Database::new(RoseEngine {
+        runtime_impl: match runtime_impl {
+            "full" => RoseRuntimeImpl::FullRose,
+            "literal" => RoseRuntimeImpl::PureLiteral,
+            "outfix" => RoseRuntimeImpl::SingleOutfix,
+            _ => unreachable!(),
+        },
+        mode: match mode {
+            Mode::Block => Mode::Block,
+            Mode::Stream(_) => Mode::Stream(None),
+            Mode::Vectored => Mode::Vectored,
+        },
+    })
+}
 
 fn name(r: &RoseRuntimeImpl) -> &'static str {
     match r {
diff --git a/src/util/vp.rs b/src/util/vp.rs
index 6a9d4fb..a9425e4 100644
--- a/src/util/vp.rs
+++ b/src/util/vp.rs
@@ -1,5 +1,6 @@
 //! Verification hooks: byte classes, case folding, alignment and depths.
 
+use super::bitfield::BitField256;
 use super::charreach::{fill_bitvector, make_and_cmp_mask, make_caseless, CharReach};
 use super::compare::{myislower, myisupper, mytolower, mytoupper, ourisalpha};
 use super::depth::Depth;
@@ -137,6 +138,27 @@ impl Class {
     }
 }
 
+/// Combines two bit fields with the members of the given classes and returns
+/// the class with the members of the result.
+pub fn combine_fields(op: &str, a: &Class, b: &Class) -> Class {
+    let field = |c: &Class| {
+        let mut f = BitField256::default();
+        (0..=255).filter(|i| c.test(*i)).for_each(|i| f.set(i));
+        f
+    };
+    let (a, b) = (field(a), field(b));
+    let f = match op {
+        "and" => a & b,
+        "or" => a | b,
+        "xor" => a ^ b,
+        "not" => !a,
+        _ => unreachable!(),
+    };
+    let mut c = Class::empty();
+    (0..=255).filter(|i| f.test(*i)).for_each(|i| c.set(i));
+    c
+}
+
 /// Returns (lower case, upper case, is upper, is lower, is alphabetic).
 pub fn case_of(c: u8) -> (u8, u8, bool, bool, bool) {
     (
diff --git a/src/vp.rs b/src/vp.rs
index 8e41119..495849d 100644
--- a/src/vp.rs
+++ b/src/vp.rs
@@ -10,11 +10,11 @@ use crate::util::ReportId;
 use crate::{compile_multi_int, CompileError, Database, Flags, Grey, Mode, Scratch};
 use std::cell::RefCell;
 
-pub use crate::compiler::vp::{parse_expression, Parsed};
+pub use crate::compiler::vp::{parse_expression, tree_expression, Parsed};
 pub use crate::nfagraph::vp::{Graph, GraphSnapshot, Snapshot, Store};
-pub use crate::parser::vp::Visit;
 pub use crate::parser::vp::{connect_regions, region_constants, RegionPosition, RegionsSnapshot};
-pub use crate::rose::vp::pick;
+pub use crate::parser::vp::{Tree, Visit};
+pub use crate::rose::vp::{database, pick, Handed};
 pub use crate::smallwrite::vp::{SmallWrite, SmallWriteSnapshot, TrieSnapshot};
 pub use crate::util::report_manager_vp::{ReportAttrs, ReportsSnapshot};
 pub use crate::util::vp::*;
-- 
2.43.0


From 482eaca796254fc0fd482e61582fb3ad305f5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:40 +0000
Subject: [PATCH 20/21] Verification hook: exhaustion keys in order

---
 src/util/report_manager/vp.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/util/report_manager/vp.rs b/src/util/report_manager/vp.rs
index e0f86c2..fb06f1a 100644
--- a/src/util/report_manager/vp.rs
+++ b/src/util/report_manager/vp.rs
@@ -28,6 +28,12 @@ pub(crate) fn snapshot(rm: &ReportManager) -> ReportsSnapshot {
         .map(|(id, e)| (*id, e.highlander, e.first_pattern_index))
         .collect();
     ext.sort_unstable();
+    let mut ekeys: Vec<_> = rm
+        .to_exhaustible_key_map
+        .iter()
+        .map(|(a, k)| (*a, *k))
+        .collect();
+    ekeys.sort_unstable();
     let num_reports = rm.num_reports();
     let inverse = rm.report_id_to_internal_map.len() == num_reports
         && rm
@@ -38,11 +44,7 @@ pub(crate) fn snapshot(rm: &ReportManager) -> ReportsSnapshot {
         num_reports,
         inverse,
         ext,
-        ekeys: rm
-            .to_exhaustible_key_map
-            .iter()
-            .map(|(a, k)| (*a, *k))
-            .collect(),
+        ekeys,
         global_exhaust: rm.global_exhaust,
         reports: (0..num_reports)
             .map(|n| info(rm.get_report(n as u32)))
-- 
2.43.0


From 435e9f1cbf49134a162220ec324272064f5397fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:17 +0000
Subject: [PATCH 21/21] Verification hooks: do not depend on the widths of
 private integers

---
 src/compiler/vp.rs                    | 10 +++---
 src/nfagraph/ng/vp.rs                 | 15 ++++++---
 src/nfagraph/ng_builder/vp.rs         |  2 +-
 src/nfagraph/ng_holder/vp.rs          | 11 ++++---
 src/parser/build_state/vp.rs          | 12 +++----
 src/parser/vp.rs                      |  4 +--
 src/rose/vp.rs                        | 10 ++++--
 src/smallwrite/smallwrite_build/vp.rs | 12 +++----
 src/util/depth/vp.rs                  |  2 +-
 src/util/report/vp.rs                 | 10 +++---
 src/util/report_manager/vp.rs         | 47 +++++++++++++++++++--------
 src/util/vp.rs                        |  2 +-
 src/vp.rs                             | 24 +++++++-------
 13 files changed, 96 insertions(+), 65 deletions(-)

diff --git a/src/compiler/vp.rs b/src/compiler/vp.rs
index 63aaf74..bd474da 100644
--- a/src/compiler/vp.rs
+++ b/src/compiler/vp.rs
@@ -41,8 +41,8 @@ pub(crate) fn graph_expression(
     som: bool,
 ) -> ExpressionInfo {
     ExpressionInfo {
-        index,
-        report,
+        index: index as _,
+        report: report as _,
         highlander,
         som: if som { SomType::Left } else { SomType::None },
         ..empty_expression().expr
@@ -56,7 +56,7 @@ pub fn parse_expression(
     flags: Flags,
     id: ReportId,
 ) -> Result<Parsed, CompileError> {
-    let mut pe = ParsedExpression::new(index, expression, flags, id)?;
+    let mut pe = ParsedExpression::new(index as _, expression, flags, id as _)?;
     let mut mode = ParseMode::new(flags);
     parse(expression, &mut mode)?;
     Ok(projection(pe, mode))
@@ -74,8 +74,8 @@ fn projection(mut pe: ParsedExpression, mode: ParseMode) -> Parsed {
     let literal = literal(&pe.component);
     let built = build_graph(&mut pe);
     Parsed {
-        index: pe.expr.index,
-        report: pe.expr.report,
+        index: pe.expr.index as usize,
+        report: pe.expr.report as ReportId,
         allow_vacuous: pe.expr.allow_vacuous,
         highlander: pe.expr.highlander,
         utf8: pe.expr.utf8,
diff --git a/src/nfagraph/ng/vp.rs b/src/nfagraph/ng/vp.rs
index 5d86506..a249a69 100644
--- a/src/nfagraph/ng/vp.rs
+++ b/src/nfagraph/ng/vp.rs
@@ -48,7 +48,7 @@ impl Store {
     pub fn new(num_patterns: usize, limits: &crate::vp::Limits) -> Self {
         let cc = Box::leak(Box::new(CompileContext::new(false, false, &limits.grey())));
         Self {
-            inner: Ng::new(cc, num_patterns, 0),
+            inner: Ng::new(cc, num_patterns as _, 0),
         }
     }
     pub fn add_literal(
@@ -62,10 +62,14 @@ impl Store {
     ) -> Result<bool, CompileError> {
         let som = if som { SomType::Left } else { SomType::None };
         unsafe {
-            self.inner
-                .as_mut()
-                .get_unchecked_mut()
-                .add_literal(&lit.0, index, report, highlander, som, quiet)
+            self.inner.as_mut().get_unchecked_mut().add_literal(
+                &lit.0,
+                index as _,
+                report as _,
+                highlander,
+                som,
+                quiet,
+            )
         }
     }
     /// Adds the graph of an expression.
@@ -105,6 +109,7 @@ impl Store {
                 .get_unchecked_mut()
                 .rm
                 .get_internal_id(&r)
+                .map(|id| id as u32)
         }
     }
     pub fn snapshot(&self) -> Snapshot {
diff --git a/src/nfagraph/ng_builder/vp.rs b/src/nfagraph/ng_builder/vp.rs
index bc8ae59..84faea6 100644
--- a/src/nfagraph/ng_builder/vp.rs
+++ b/src/nfagraph/ng_builder/vp.rs
@@ -12,5 +12,5 @@ pub(crate) fn empty() -> NfaBuilder {
 
 /// Sets the assertion flags of a vertex.
 pub(crate) fn assert_flags(b: &mut NfaBuilder, v: NfaVertex, flags: u32) {
-    b.graph[v].assert_flags = PosFlags::from_bits_truncate(flags);
+    b.graph[v].assert_flags = PosFlags::from_bits_truncate(flags as _);
 }
diff --git a/src/nfagraph/ng_holder/vp.rs b/src/nfagraph/ng_holder/vp.rs
index c036e28..b92d5ca 100644
--- a/src/nfagraph/ng_holder/vp.rs
+++ b/src/nfagraph/ng_holder/vp.rs
@@ -3,6 +3,7 @@
 use super::{NfaGraphEdgeProps, NgHolder};
 use crate::nfagraph::NfaVertex;
 use crate::util::vp::Class;
+use crate::util::ReportId;
 use petgraph::visit::EdgeRef;
 
 /// Projection of a graph. Vertices are given by index.
@@ -28,7 +29,7 @@ pub(crate) fn snapshot(g: &NgHolder) -> GraphSnapshot {
         .map(|e| (e.source().index(), e.target().index()))
         .collect();
     edges.sort_unstable();
-    let mut all_reports: Vec<u32> = g.all_reports().into_iter().collect();
+    let mut all_reports: Vec<u32> = g.all_reports().into_iter().map(|r| r as u32).collect();
     all_reports.sort_unstable();
     GraphSnapshot {
         special: [
@@ -46,13 +47,13 @@ pub(crate) fn snapshot(g: &NgHolder) -> GraphSnapshot {
             .inner
             .node_indices()
             .map(|v| {
-                let mut r: Vec<u32> = g[v].reports.iter().copied().collect();
+                let mut r: Vec<u32> = g[v].reports.iter().map(|r| *r as u32).collect();
                 r.sort_unstable();
                 r
             })
             .collect(),
         edges,
-        num_vertices: g.num_vertices(),
+        num_vertices: g.num_vertices() as usize,
         is_vacuous: g.is_vacuous(),
         all_reports,
     }
@@ -80,7 +81,9 @@ impl Graph {
         );
     }
     pub fn add_report(&mut self, v: usize, report: u32) {
-        self.inner[NfaVertex::new(v)].reports.insert(report);
+        self.inner[NfaVertex::new(v)]
+            .reports
+            .extend(Some(report as ReportId));
     }
     pub(crate) fn holder(&self) -> &NgHolder {
         &self.inner
diff --git a/src/parser/build_state/vp.rs b/src/parser/build_state/vp.rs
index 0324fb5..b044fb8 100644
--- a/src/parser/build_state/vp.rs
+++ b/src/parser/build_state/vp.rs
@@ -27,7 +27,7 @@ fn position(p: usize) -> Position {
 fn info(p: &RegionPosition) -> PositionInfo {
     PositionInfo {
         pos: position(p.0),
-        flags: PosFlags::from_bits_truncate(p.1),
+        flags: PosFlags::from_bits_truncate(p.1 as _),
     }
 }
 
@@ -45,13 +45,13 @@ fn snapshot(bs: &GlushkovBuildState) -> RegionsSnapshot {
         .iter()
         .flat_map(|(from, tos)| {
             tos.iter()
-                .map(move |to| (number(*from), (number(to.pos), to.flags.bits())))
+                .map(move |to| (number(*from), (number(to.pos), to.flags.bits() as u32)))
         })
         .collect();
     successors.sort_unstable();
     RegionsSnapshot {
         successors,
-        num_vertices: bs.builder.num_vertices(),
+        num_vertices: bs.builder.num_vertices() as usize,
     }
 }
 
@@ -67,9 +67,9 @@ pub fn region_constants() -> ([usize; 4], [u32; 3]) {
             b.get_accept_eod().index(),
         ],
         [
-            PosFlags::NOFLOAT.bits(),
-            PosFlags::MUST_FLOAT.bits(),
-            PosFlags::MULTILINE_START.bits(),
+            PosFlags::NOFLOAT.bits() as u32,
+            PosFlags::MUST_FLOAT.bits() as u32,
+            PosFlags::MULTILINE_START.bits() as u32,
         ],
     )
 }
diff --git a/src/parser/vp.rs b/src/parser/vp.rs
index 490cdb3..b40684f 100644
--- a/src/parser/vp.rs
+++ b/src/parser/vp.rs
@@ -51,7 +51,7 @@ impl ConstComponentVisitor for Recorder {
     }
     fn pre_component_sequence(&mut self, c: &ComponentSequence) -> Result<(), ()> {
         self.push(Visit::EnterSequence(
-            c.capture_index,
+            c.capture_index.map(|i| i as u32),
             c.capture_name.is_some(),
         ));
         Ok(())
@@ -91,7 +91,7 @@ pub(crate) fn grow(t: &Tree, next_capture: &mut u32) -> Result<Component, Compil
         Tree::Class(chars, caseless) => Ok(class_of(chars, *caseless)?.into()),
         Tree::Group(branches) => {
             let mut seq = ComponentSequence::default();
-            seq.capture_index = Some(*next_capture);
+            seq.capture_index = Some(*next_capture as _);
             *next_capture += 1;
             for (i, branch) in branches.iter().enumerate() {
                 if i > 0 {
diff --git a/src/rose/vp.rs b/src/rose/vp.rs
index 9b95594..daacc92 100644
--- a/src/rose/vp.rs
+++ b/src/rose/vp.rs
@@ -5,7 +5,6 @@ use super::{RoseBuild, RoseEngine, RoseResources, RoseRuntimeImpl};
 use crate::util::{lit_items, CompileContext, ReportId, Ue2Literal};
 use crate::{Database, Grey, Mode};
 use std::cell::RefCell;
-use std::collections::HashSet;
 
 /// A literal handed to the engine.
 #[derive(Clone, Debug, Default, Eq, PartialEq)]
@@ -28,8 +27,13 @@ pub(crate) fn forget() {
 }
 
 /// A literal is handed to the engine.
-pub(crate) fn handed(anchored: bool, eod: bool, lit: &Ue2Literal, reports: &HashSet<ReportId>) {
-    let mut reports: Vec<ReportId> = reports.iter().copied().collect();
+pub(crate) fn handed<'r>(
+    anchored: bool,
+    eod: bool,
+    lit: &Ue2Literal,
+    reports: impl IntoIterator<Item = &'r ReportId>,
+) {
+    let mut reports: Vec<ReportId> = reports.into_iter().copied().collect();
     reports.sort_unstable();
     HANDED.with(|h| {
         let mut h = h.borrow_mut();
diff --git a/src/smallwrite/smallwrite_build/vp.rs b/src/smallwrite/smallwrite_build/vp.rs
index c0f0346..9a349d8 100644
--- a/src/smallwrite/smallwrite_build/vp.rs
+++ b/src/smallwrite/smallwrite_build/vp.rs
@@ -37,11 +37,11 @@ fn trie(t: &LitTrie) -> TrieSnapshot {
         if path.len() > t.inner.node_count() {
             break;
         }
-        let mut reports: Vec<u32> = t.inner[v].reports.iter().copied().collect();
+        let mut reports: Vec<u32> = t.inner[v].reports.iter().map(|r| *r as u32).collect();
         reports.sort_unstable();
         for n in t.inner.neighbors_directed(v, Direction::Outgoing) {
             let mut p: Vec<u8> = path.clone();
-            p.push(t.inner[n].c);
+            p.push(t.inner[n].c as u8);
             stack.push((n, p));
         }
         if path.is_empty() {
@@ -51,7 +51,7 @@ fn trie(t: &LitTrie) -> TrieSnapshot {
         }
     }
     paths.sort();
-    let mut all_reports: Vec<u32> = t.all_reports().into_iter().collect();
+    let mut all_reports: Vec<u32> = t.all_reports().into_iter().map(|r| r as u32).collect();
     all_reports.sort_unstable();
     TrieSnapshot {
         nodes: t.inner.node_count(),
@@ -65,7 +65,7 @@ fn trie(t: &LitTrie) -> TrieSnapshot {
 pub(crate) fn snapshot(s: &SmallWriteBuild) -> SmallWriteSnapshot {
     SmallWriteSnapshot {
         poisoned: s.poisoned,
-        num_literals: s.num_literals,
+        num_literals: s.num_literals as usize,
         cased: trie(&s.lit_trie),
         nocase: trie(&s.lit_trie_nocase),
     }
@@ -80,11 +80,11 @@ impl SmallWrite {
     pub fn new(num_patterns: usize, limits: &crate::vp::Limits) -> Self {
         let cc = Box::leak(Box::new(CompileContext::new(false, false, &limits.grey())));
         Self {
-            inner: SmallWriteBuild::new(num_patterns, cc),
+            inner: SmallWriteBuild::new(num_patterns as _, cc),
         }
     }
     pub fn add_literal(&mut self, lit: &Lit, report: u32) {
-        self.inner.add_literal(&lit.0, report);
+        self.inner.add_literal(&lit.0, report as _);
     }
     pub fn snapshot(&self) -> SmallWriteSnapshot {
         snapshot(&self.inner)
diff --git a/src/util/depth/vp.rs b/src/util/depth/vp.rs
index 72cb7af..7ad4e22 100644
--- a/src/util/depth/vp.rs
+++ b/src/util/depth/vp.rs
@@ -7,6 +7,6 @@ pub(crate) fn value(d: Depth) -> Option<u32> {
     if d == Depth::infinity() {
         None
     } else {
-        Some(d.val)
+        Some(d.val as u32)
     }
 }
diff --git a/src/util/report/vp.rs b/src/util/report/vp.rs
index f91c4bb..10ceaa9 100644
--- a/src/util/report/vp.rs
+++ b/src/util/report/vp.rs
@@ -12,11 +12,11 @@ pub(crate) fn info(r: &Report) -> ReportInfo {
             ReportType::ExternalCallback => false,
             ReportType::ExternalCallbackSomRel => true,
         },
-        r.onmatch,
-        r.offset_adjust,
-        r.ekey,
+        r.onmatch as u32,
+        r.offset_adjust as i32,
+        r.ekey.map(|k| k as u32),
         r.quiet,
-        r.som_distance,
-        r.min_length,
+        r.som_distance as u64,
+        r.min_length as u64,
     )
 }
diff --git a/src/util/report_manager/vp.rs b/src/util/report_manager/vp.rs
index fb06f1a..f7b74c6 100644
--- a/src/util/report_manager/vp.rs
+++ b/src/util/report_manager/vp.rs
@@ -21,25 +21,44 @@ pub struct ReportsSnapshot {
     pub reports: Vec<ReportInfo>,
 }
 
+/// Whether a report is kept under this key, as far as the key's type tells.
+trait OfReport {
+    fn is_of(&self, r: &Report) -> bool;
+}
+
+impl OfReport for Report {
+    fn is_of(&self, r: &Report) -> bool {
+        self == r
+    }
+}
+
+trait OfAny {
+    fn is_of(&self, _r: &Report) -> bool {
+        true
+    }
+}
+
+impl<T> OfAny for &T {}
+
 pub(crate) fn snapshot(rm: &ReportManager) -> ReportsSnapshot {
     let mut ext: Vec<_> = rm
         .external_id_map
         .iter()
-        .map(|(id, e)| (*id, e.highlander, e.first_pattern_index))
+        .map(|(id, e)| (*id as u32, e.highlander, e.first_pattern_index as u32))
         .collect();
     ext.sort_unstable();
     let mut ekeys: Vec<_> = rm
         .to_exhaustible_key_map
         .iter()
-        .map(|(a, k)| (*a, *k))
+        .map(|(a, k)| (*a as i64, *k as u32))
         .collect();
     ekeys.sort_unstable();
-    let num_reports = rm.num_reports();
-    let inverse = rm.report_id_to_internal_map.len() == num_reports
+    let num_reports = rm.num_reports() as usize;
+    let inverse = rm.report_id_to_internal_map.len() as usize == num_reports
         && rm
             .report_id_to_internal_map
             .iter()
-            .all(|(r, id)| rm.get_report(*id) == r);
+            .all(|(r, id)| r.is_of(rm.get_report(*id as _)));
     ReportsSnapshot {
         num_reports,
         inverse,
@@ -47,7 +66,7 @@ pub(crate) fn snapshot(rm: &ReportManager) -> ReportsSnapshot {
         ekeys,
         global_exhaust: rm.global_exhaust,
         reports: (0..num_reports)
-            .map(|n| info(rm.get_report(n as u32)))
+            .map(|n| info(rm.get_report(n as _)))
             .collect(),
     }
 }
@@ -63,39 +82,39 @@ pub type ReportAttrs = (bool, ReportId, i32, Option<u32>, bool, u64);
 
 fn make(a: ReportAttrs) -> Report {
     if a.0 {
-        make_som_relative_callback(a.1, a.2, a.5)
+        make_som_relative_callback(a.1 as _, a.2 as _, a.5 as _)
     } else {
-        make_e_callback(a.1, a.2, a.3, a.4)
+        make_e_callback(a.1 as _, a.2 as _, a.3.map(|k| k as _), a.4)
     }
 }
 
 pub(crate) fn make_with_min_length(a: ReportAttrs, min_length: u64) -> Report {
     let mut r = make(a);
-    r.min_length = min_length;
+    r.min_length = min_length as _;
     r
 }
 
 impl Reports {
     pub fn new(limit_report_count: usize) -> Self {
         let mut grey = Grey::default();
-        grey.limit_report_count = limit_report_count;
+        grey.limit_report_count = limit_report_count as _;
         Self {
             rm: ReportManager::new(Box::leak(Box::new(grey))),
         }
     }
     pub fn intern(&mut self, a: ReportAttrs) -> Result<u32, CompileError> {
-        self.rm.get_internal_id(&make(a))
+        self.rm.get_internal_id(&make(a)).map(|id| id as u32)
     }
     /// Returns `true` if the internal report `id` is the one with these attributes.
     pub fn resolves_to(&self, id: u32, a: ReportAttrs) -> bool {
-        *self.rm.get_report(id) == make(a)
+        *self.rm.get_report(id as _) == make(a)
     }
     pub fn register(&mut self, id: u32, highlander: bool, index: u32) -> Result<(), CompileError> {
         self.rm
-            .register_ext_report(id, ExternalReportInfo::new(highlander, index))
+            .register_ext_report(id as _, ExternalReportInfo::new(highlander, index as _))
     }
     pub fn ekey(&mut self, a: u32) -> u32 {
-        self.rm.get_exhaustible_key(a)
+        self.rm.get_exhaustible_key(a as _) as u32
     }
     pub fn snapshot(&self) -> ReportsSnapshot {
         snapshot(&self.rm)
diff --git a/src/util/vp.rs b/src/util/vp.rs
index a9425e4..47a547f 100644
--- a/src/util/vp.rs
+++ b/src/util/vp.rs
@@ -59,7 +59,7 @@ impl Class {
         self.0.set_bytes(bytes);
     }
     pub fn count(&self) -> u32 {
-        self.0.count()
+        self.0.count() as u32
     }
     pub fn none(&self) -> bool {
         self.0.none()
diff --git a/src/vp.rs b/src/vp.rs
index 495849d..7dd44c6 100644
--- a/src/vp.rs
+++ b/src/vp.rs
@@ -42,12 +42,12 @@ impl Default for Limits {
             flood_as_puffette: g.flood_as_puffette,
             shortcut_literals: g.shortcut_literals,
             allow_small_write: g.allow_small_write,
-            small_write_largest_buffer: g.small_write_largest_buffer,
-            small_write_max_patterns: g.small_write_max_patterns,
-            small_write_max_literals: g.small_write_max_literals,
-            limit_pattern_count: g.limit_pattern_count,
-            limit_pattern_length: g.limit_pattern_length,
-            limit_report_count: g.limit_report_count,
+            small_write_largest_buffer: g.small_write_largest_buffer as usize,
+            small_write_max_patterns: g.small_write_max_patterns as usize,
+            small_write_max_literals: g.small_write_max_literals as usize,
+            limit_pattern_count: g.limit_pattern_count as usize,
+            limit_pattern_length: g.limit_pattern_length as usize,
+            limit_report_count: g.limit_report_count as usize,
         }
     }
 }
@@ -59,12 +59,12 @@ impl Limits {
         g.flood_as_puffette = self.flood_as_puffette;
         g.shortcut_literals = self.shortcut_literals;
         g.allow_small_write = self.allow_small_write;
-        g.small_write_largest_buffer = self.small_write_largest_buffer;
-        g.small_write_max_patterns = self.small_write_max_patterns;
-        g.small_write_max_literals = self.small_write_max_literals;
-        g.limit_pattern_count = self.limit_pattern_count;
-        g.limit_pattern_length = self.limit_pattern_length;
-        g.limit_report_count = self.limit_report_count;
+        g.small_write_largest_buffer = self.small_write_largest_buffer as _;
+        g.small_write_max_patterns = self.small_write_max_patterns as _;
+        g.small_write_max_literals = self.small_write_max_literals as _;
+        g.limit_pattern_count = self.limit_pattern_count as _;
+        g.limit_pattern_length = self.limit_pattern_length as _;
+        g.limit_report_count = self.limit_report_count as _;
         g
     }
 }
-- 
2.43.0

