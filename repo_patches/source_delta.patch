From ddcc751906623b47d119d7ba21af7ab197e2b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 01/24] hook: cfg(parcom_verif) constructor for
 GenericSequenceBuilder

---
 crates/parcom-sequences/src/generic.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index f927fc8..3300328 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -32,3 +32,16 @@ impl<B: BufferStrategy, S: SequenceSource> SequenceBuilder<S> for GenericSequenc
         (buffer, loader)
     }
 }
+
+/// Verification hook, compiled only with `--cfg parcom_verif`.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(parcom_verif)]
+    impl<B: crate::BufferStrategy> super::GenericSequenceBuilder<B> {
+        pub fn verif_new(strategy: B) -> Self {
+            Self {
+                strategy: std::sync::Arc::new(strategy),
+            }
+        }
+    }
+}
-- 
2.43.0


From d70926fd45ca3485d22683fb0844f13f7b6fb59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 02/24] hook: cfg(parcom_verif) handles to a streaming
 sequence's signal and end flag

---
 .../src/default_runner/sequence.rs            | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/crates/parcom-runners/src/default_runner/sequence.rs b/crates/parcom-runners/src/default_runner/sequence.rs
index bff0df4..7f3ce5b 100644
--- a/crates/parcom-runners/src/default_runner/sequence.rs
+++ b/crates/parcom-runners/src/default_runner/sequence.rs
@@ -71,3 +71,27 @@ where
         DefaultSequenceAdvance::new(self, delta)
     }
 }
+
+/// Verification hook, compiled only with `--cfg parcom_verif`.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(parcom_verif)]
+    impl<S, B> super::DefaultSequence<S, B>
+    where
+        S: super::SequenceSource,
+        B: super::SequenceBuilder<S>,
+    {
+        /// The signal to send after an append or the end, and the flag to set at the end.
+        pub fn verif_handles(
+            &self,
+        ) -> (
+            std::sync::Arc<super::Notify>,
+            std::sync::Arc<std::sync::atomic::AtomicBool>,
+        ) {
+            (
+                std::sync::Arc::clone(&self.inner.append_signal),
+                std::sync::Arc::clone(&self.inner.done_flag),
+            )
+        }
+    }
+}
-- 
2.43.0


From 79614816cd172cd59e2cc23667f8417ad555944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 03/24] fix: a literal whose end falls inside a character of
 the input must not match, not panic

---
 crates/parcom-core/src/primitive/str.rs     |  4 ++++
 crates/parcom-core/src/sequence/segment.rs  |  9 +++++++++
 crates/parcom-parsers/src/primitive/atom.rs | 18 +++++++++---------
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index d326b55..1751ae1 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -139,4 +139,8 @@ impl SequenceSegment for str {
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self) {
         str::split_at(&self, mid.0)
     }
+
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        str::split_at_checked(self, mid.0)
+    }
 }
diff --git a/crates/parcom-core/src/sequence/segment.rs b/crates/parcom-core/src/sequence/segment.rs
index df41402..496c9a9 100644
--- a/crates/parcom-core/src/sequence/segment.rs
+++ b/crates/parcom-core/src/sequence/segment.rs
@@ -3,4 +3,13 @@ pub trait SequenceSegment {
 
     fn len(&self) -> Self::Length;
     fn split_at(&self, mid: Self::Length) -> (&Self, &Self);
+
+    /// Splits like [`split_at`](SequenceSegment::split_at), or returns `None` if the segment cannot be split at `mid`.
+    fn split_at_checked(&self, mid: Self::Length) -> Option<(&Self, &Self)> {
+        if mid <= self.len() {
+            Some(self.split_at(mid))
+        } else {
+            None
+        }
+    }
 }
diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index 020e87a..b0c5ac7 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -39,8 +39,9 @@ where
 
         while let Some(segment) = segments.next(remain.len()).await {
             if segment.len() >= remain.len() {
-                let s = segment.split_at(remain.len()).0;
-                let matched = s == remain;
+                let matched = segment
+                    .split_at_checked(remain.len())
+                    .map_or(false, |(s, _)| s == remain);
                 drop(segments);
                 return if matched {
                     done((), input.advance(remain.len()).await)
@@ -49,14 +50,13 @@ where
                 };
             }
 
-            let (p, r) = remain.split_at(segment.len());
-
-            if &*segment != p {
-                drop(segments);
-                return fail(Miss(()), input);
+            match remain.split_at_checked(segment.len()) {
+                Some((p, r)) if &*segment == p => remain = r,
+                _ => {
+                    drop(segments);
+                    return fail(Miss(()), input);
+                }
             }
-
-            remain = r;
         }
 
         drop(segments);
-- 
2.43.0


From 197217b0034d85bb766d2e354501d2986f4f0228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 04/24] fix: a literal spread over several segments is consumed
 as a whole, an empty one matches at the end

---
 crates/parcom-parsers/src/primitive/atom.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-parsers/src/primitive/atom.rs b/crates/parcom-parsers/src/primitive/atom.rs
index b0c5ac7..382f0cd 100644
--- a/crates/parcom-parsers/src/primitive/atom.rs
+++ b/crates/parcom-parsers/src/primitive/atom.rs
@@ -35,6 +35,11 @@ where
 {
     async fn parse(&self, mut input: S) -> ParserResult<S, Self> {
         let mut remain = self.pattern.pattern();
+
+        if remain.len() == Default::default() {
+            return done((), input);
+        }
+
         let mut segments = input.segments();
 
         while let Some(segment) = segments.next(remain.len()).await {
@@ -44,7 +49,7 @@ where
                     .map_or(false, |(s, _)| s == remain);
                 drop(segments);
                 return if matched {
-                    done((), input.advance(remain.len()).await)
+                    done((), input.advance(self.pattern.pattern().len()).await)
                 } else {
                     fail(Miss(()), input)
                 };
-- 
2.43.0


From 07cd956babef90ea819c1a1094fb951030c825c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 05/24] fix: line/column meters can be cloned, so that a string
 measured in lines can be rewound

---
 crates/parcom-metrics/src/end_of_line.rs | 8 ++++----
 crates/parcom-metrics/src/line_colmn.rs  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/parcom-metrics/src/end_of_line.rs b/crates/parcom-metrics/src/end_of_line.rs
index 960dd61..15002e0 100644
--- a/crates/parcom-metrics/src/end_of_line.rs
+++ b/crates/parcom-metrics/src/end_of_line.rs
@@ -9,7 +9,7 @@ pub trait EndOfLine: Default {
     fn next(&mut self, c: char) -> EndOfLineMatch;
 }
 
-#[derive(Debug, Default)]
+#[derive(Debug, Default, Clone)]
 pub struct LF;
 
 impl EndOfLine for LF {
@@ -21,7 +21,7 @@ impl EndOfLine for LF {
     }
 }
 
-#[derive(Debug, Default)]
+#[derive(Debug, Default, Clone)]
 pub struct CR;
 
 impl EndOfLine for CR {
@@ -33,14 +33,14 @@ impl EndOfLine for CR {
     }
 }
 
-#[derive(Debug, Default)]
+#[derive(Debug, Default, Clone)]
 enum CRLFState {
     #[default]
     Initial,
     CR,
 }
 
-#[derive(Debug, Default)]
+#[derive(Debug, Default, Clone)]
 pub struct CRLF {
     state: CRLFState,
 }
diff --git a/crates/parcom-metrics/src/line_colmn.rs b/crates/parcom-metrics/src/line_colmn.rs
index 3cb024f..bbea62b 100644
--- a/crates/parcom-metrics/src/line_colmn.rs
+++ b/crates/parcom-metrics/src/line_colmn.rs
@@ -56,7 +56,7 @@ impl<EOL: EndOfLine> Metrics<str> for LineColumn<EOL> {
     type Meter = LineColumnMeter<EOL>;
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct LineColumnMeter<EOL: EndOfLine> {
     location: LineColumn<EOL>,
     next_is_new_line: bool,
-- 
2.43.0


From 87bf87e3037925ac136c3efb5549542454452758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 06/24] fix: a CR LF preceded by another CR is a line
 terminator

---
 crates/parcom-metrics/src/end_of_line.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-metrics/src/end_of_line.rs b/crates/parcom-metrics/src/end_of_line.rs
index 15002e0..ff959ba 100644
--- a/crates/parcom-metrics/src/end_of_line.rs
+++ b/crates/parcom-metrics/src/end_of_line.rs
@@ -55,13 +55,17 @@ impl EndOfLine for CRLF {
                 }
                 _ => EndOfLineMatch::NotMatch,
             },
-            CRLFState::CR => {
-                self.state = CRLFState::Initial;
-                match c {
-                    '\n' => EndOfLineMatch::Match,
-                    _ => EndOfLineMatch::NotMatch,
+            CRLFState::CR => match c {
+                '\n' => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::Match
                 }
-            }
+                '\r' => EndOfLineMatch::PartialMatch,
+                _ => {
+                    self.state = CRLFState::Initial;
+                    EndOfLineMatch::NotMatch
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 542b7794e0073d44b107db7c3a8d7cc93e8b88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 07/24] fix: a left associative operator may have the largest
 precedence

---
 crates/parcom-parsers/src/combinator/bin_expr.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/parcom-parsers/src/combinator/bin_expr.rs b/crates/parcom-parsers/src/combinator/bin_expr.rs
index 5e5f015..53c95ec 100644
--- a/crates/parcom-parsers/src/combinator/bin_expr.rs
+++ b/crates/parcom-parsers/src/combinator/bin_expr.rs
@@ -130,8 +130,7 @@ where
                     rhs = term;
                     break;
                 };
-                let prec = next_precedence(&last_op);
-                if op.precedence() >= prec {
+                if binds_tighter(&op, &last_op) {
                     // ひとつ前の演算子より優先度が高い．
                     stack.push((lhs, last_op));
                     stack.push((rhs, op));
@@ -151,10 +150,10 @@ where
         done((rhs, reason), rest)
     }
 }
-fn next_precedence<T: Operator>(op: &T) -> usize {
-    match op.associativity() {
-        Associativity::Left => op.precedence() + 1,
-        Associativity::Right => op.precedence(),
+fn binds_tighter<T: Operator>(op: &T, last_op: &T) -> bool {
+    match last_op.associativity() {
+        Associativity::Left => op.precedence() > last_op.precedence(),
+        Associativity::Right => op.precedence() >= last_op.precedence(),
     }
 }
 
-- 
2.43.0


From 6d289cbec8a0536fd85ee461a8fe334f9fa544dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 08/24] fix: a slice of zero-sized items can be rewound

---
 crates/parcom-core/src/primitive/slice.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/parcom-core/src/primitive/slice.rs b/crates/parcom-core/src/primitive/slice.rs
index dac8954..a30bc71 100644
--- a/crates/parcom-core/src/primitive/slice.rs
+++ b/crates/parcom-core/src/primitive/slice.rs
@@ -31,10 +31,9 @@ impl<T> RewindSequence for &[T] {
     }
 
     fn rewind(self, anchor: Self::Anchor) -> Self::Rewind {
-        let ptr = anchor.me.as_ptr();
-        let len = anchor.me.len();
-        let offset = unsafe { self.as_ptr().offset_from(ptr) };
-        if !offset.is_negative() && (offset as usize) <= len {
+        let range = anchor.me.as_ptr_range();
+        let ptr = self.as_ptr();
+        if range.start <= ptr && ptr <= range.end && self.len() <= anchor.me.len() {
             std::future::ready(anchor.me)
         } else {
             panic!("the anchor is not an anchor of this stream.")
-- 
2.43.0


From 9ddc9433be21ce1fcd871aaa3834499f3d3bf35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 09/24] fix: a string advanced past its end can still be
 rewound

---
 crates/parcom-core/src/primitive/str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-core/src/primitive/str.rs b/crates/parcom-core/src/primitive/str.rs
index 1751ae1..07ef93f 100644
--- a/crates/parcom-core/src/primitive/str.rs
+++ b/crates/parcom-core/src/primitive/str.rs
@@ -19,7 +19,7 @@ impl<'a> Sequence for &'a str {
 
     fn advance(self, delta: BytesDelta) -> Self::Advance {
         let delta = delta.to_bytes();
-        let rest = self.get(delta..).unwrap_or("");
+        let rest = self.get(delta..).unwrap_or(&self[self.len()..]);
         std::future::ready(rest)
     }
 }
-- 
2.43.0


From dec952ab9338eca5574bf7cc766f18e2e8d3b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 10/24] fix: the small vector writes its inline elements
 through a mutable pointer

---
 crates/parcom-internals/src/shortvec.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 1a23c94..3c85021 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -64,6 +64,14 @@ impl<T, const N: usize> ShortVec<T, N> {
         }
     }
 
+    fn as_mut_ptr(&mut self) -> *mut T {
+        if self.is_heap() {
+            unsafe { self.data.heap.as_ptr() }
+        } else {
+            unsafe { self.data.stack.deref_mut().as_mut_ptr() as *mut T }
+        }
+    }
+
     pub fn as_slice(&self) -> &[T] {
         if self.is_heap() {
             unsafe { NonNull::slice_from_raw_parts(*self.data.heap, self.len).as_ref() }
@@ -87,7 +95,7 @@ impl<T, const N: usize> ShortVec<T, N> {
     pub fn push(&mut self, item: T) {
         let len = self.len;
         self.reserve(len + 1);
-        let ptr = self.as_ptr() as *mut T;
+        let ptr = self.as_mut_ptr();
         unsafe {
             ptr.add(len).write(item);
         }
@@ -99,7 +107,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             return None;
         }
 
-        let ptr = self.as_ptr() as *mut T;
+        let ptr = self.as_mut_ptr();
         self.len -= 1;
         let value = unsafe { ptr.add(self.len).read() };
         Some(value)
@@ -174,7 +182,7 @@ impl<T, const N: usize> ShortVec<T, N> {
 
 impl<T, const N: usize> Drop for ShortVec<T, N> {
     fn drop(&mut self) {
-        let ptr = self.as_ptr() as *mut T;
+        let ptr = self.as_mut_ptr();
         let slice = std::ptr::slice_from_raw_parts_mut(ptr, self.len);
         unsafe {
             std::ptr::drop_in_place(slice);
-- 
2.43.0


From 64581006d70a9a9a22d65f53f547c163abd27a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 11/24] fix: the small vector never allocates for zero-sized
 elements

---
 crates/parcom-internals/src/shortvec.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index 3c85021..ee37fc4 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -1,7 +1,7 @@
 use std::{
     alloc::{self, Layout},
     mem::{ManuallyDrop, MaybeUninit},
-    ops::{Deref, DerefMut},
+    ops::DerefMut,
     ptr::NonNull,
 };
 
@@ -11,7 +11,7 @@ pub struct ShortVec<T, const N: usize> {
     /// invariant: `cap >= N` & `cap <= isize::MAX`
     cap: usize,
     len: usize,
-    /// elements of vec. if `cap > N`, data is heap, otherwise data is stack
+    /// elements of vec. if `cap > N` and `T` is not zero-sized, data is heap, otherwise data is stack
     data: ShortVecData<T, N>,
 }
 
@@ -31,7 +31,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             "`cap` must not be greater than isize::MAX"
         );
 
-        if cap > N {
+        if cap > N && !Self::IS_ZST {
             let layout = Layout::array::<T>(cap).unwrap();
             let ptr = unsafe { alloc::alloc(layout) as *mut T };
             let ptr = match NonNull::new(ptr) {
@@ -49,7 +49,7 @@ impl<T, const N: usize> ShortVec<T, N> {
             };
 
             Self {
-                cap: N,
+                cap: usize::max(cap, N),
                 len: 0,
                 data,
             }
@@ -76,7 +76,7 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.is_heap() {
             unsafe { NonNull::slice_from_raw_parts(*self.data.heap, self.len).as_ref() }
         } else {
-            unsafe { std::mem::transmute(&self.data.stack.deref()[..self.len]) }
+            unsafe { std::slice::from_raw_parts(self.as_ptr_stack_unchecked(), self.len) }
         }
     }
 
@@ -84,7 +84,7 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.is_heap() {
             unsafe { NonNull::slice_from_raw_parts(*self.data.heap, self.len).as_mut() }
         } else {
-            unsafe { std::mem::transmute(&mut self.data.stack.deref_mut()[..self.len]) }
+            unsafe { std::slice::from_raw_parts_mut(self.as_mut_ptr(), self.len) }
         }
     }
 
@@ -130,6 +130,12 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.cap >= cap {
             return;
         }
+
+        if Self::IS_ZST {
+            self.cap = cap;
+            return;
+        }
+
         // `cap`の不変条件によって、`self.cap >= N`をかならず満たすため、ここではヒープアロケーションが必ず行われる。
         let layout = Layout::array::<T>(cap).unwrap();
         if self.is_heap() {
@@ -167,8 +173,10 @@ impl<T, const N: usize> ShortVec<T, N> {
 }
 
 impl<T, const N: usize> ShortVec<T, N> {
+    const IS_ZST: bool = std::mem::size_of::<T>() == 0;
+
     fn is_heap(&self) -> bool {
-        self.cap > N
+        self.cap > N && !Self::IS_ZST
     }
 
     unsafe fn as_ptr_stack_unchecked(&self) -> *const T {
-- 
2.43.0


From d5da52b9146dfbcd5b0e7839ac12cb3ab544a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 12/24] fix: a buffer writer's capacity does not shrink as it
 is written to

---
 crates/parcom-sequences/src/generic/control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 351fb59..d804f97 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -80,7 +80,7 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
     type Error = E;
 
     fn capacity(&self) -> usize {
-        self.buf.capacity() - self.buf.len()
+        self.buf.capacity() - self.offset
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 72e58a6cb81fa293118e38de44abe01fd6bfd2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 13/24] fix: cancelling a writer keeps what earlier writes left
 uncommitted

---
 crates/parcom-sequences/src/generic/control.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index d804f97..98c2526 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -116,6 +116,9 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
 
     fn cancel(self, err: Self::Error) -> Self::Result {
         self.buf.drain(self.offset..);
+        if !self.to_append.is_empty() {
+            *self.buf = self.to_append;
+        }
         Response::Cancel(err)
     }
 }
-- 
2.43.0


From 292ea98d32b505bba13f2677207a04e5e93fa892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 14/24] fix: a byte stream that ends in the middle of a
 character is reported as invalid

---
 crates/parcom-sequence-sources/src/utf8_validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/parcom-sequence-sources/src/utf8_validator.rs b/crates/parcom-sequence-sources/src/utf8_validator.rs
index 337c9bc..5d926db 100644
--- a/crates/parcom-sequence-sources/src/utf8_validator.rs
+++ b/crates/parcom-sequence-sources/src/utf8_validator.rs
@@ -142,6 +142,15 @@ where
     }
 
     fn finish(self) -> Self::Result {
+        if self.buffered > 0 {
+            // The stream ends in the middle of a character.
+            let res = self.control.cancel(Utf8ValidationError::InvalidSequence);
+            return Response {
+                inner: InnerResponse::Err { res },
+                _phantom: PhantomData,
+            };
+        }
+
         let res = self.control.finish();
         Response {
             inner: InnerResponse::Finish { res },
-- 
2.43.0


From ba4c944e86da247c8a23522037699944be9a226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 15/24] fix: a streaming advance keeps what is left to skip
 across appends

---
 .../parcom-runners/src/default_runner/sequence/advance.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index b2915aa..0e66a15 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -47,13 +47,13 @@ where
         };
         this.fut.set(OptionFuture::some(fut));
 
-        let remain = std::mem::replace(this.remain, Default::default());
-        let remain = sequence.buffer.advance(remain);
+        let remain = std::mem::take(this.remain);
+        *this.remain = sequence.buffer.advance(remain);
 
-        if &remain == this.remain || sequence.done_flag.load(Ordering::SeqCst) {
+        if *this.remain == Default::default() || sequence.done_flag.load(Ordering::SeqCst) {
             // `sequence`をtakeする前に`fut`がdropされることを保証する。
             this.fut.set(OptionFuture::none());
-            // `this.remain == Default::default()`であるため、`remain == Default::default()`つまり`remain`が0になっている。
+            // `remain`が0になっているか、シーケンスが終了している。
             // よってadvanceが完了している。
             let sequence = this.sequence.take().unwrap();
             return Poll::Ready(DefaultSequence { inner: sequence });
-- 
2.43.0


From de578cf2f4a4fd7de1766d05f732f2cb3f0926dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 16/24] fix: a streaming reader is not told the end before the
 last segment

---
 crates/parcom-runners/src/default_runner/sequence/segments.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/segments.rs b/crates/parcom-runners/src/default_runner/sequence/segments.rs
index 10374a8..009e3c0 100644
--- a/crates/parcom-runners/src/default_runner/sequence/segments.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/segments.rs
@@ -90,6 +90,8 @@ where
 
         let fut = this.host.append_signal.wait();
         // `this.host.iter.next()`が`None`を返したあと、`this.host.append_signal.wait()`を呼ぶ前に次のセグメントが追加されたか終了した場合のため、(1)・(2)のチェックをする。
+        // 最後のセグメントは終了の前に追加されるため、終了したかはセグメントを確認する前に読む。そうしなければ、最後のセグメントを見落とす場合がある。
+        let done = this.host.done_flag.load(Ordering::SeqCst);
 
         // (1): セグメントが末尾に追加されたか。
         if let Some(seg) = this.host.iter.next() {
@@ -97,7 +99,7 @@ where
         }
 
         // (2): シーケンスが終了したか。
-        if this.host.done_flag.load(Ordering::SeqCst) {
+        if done {
             return Poll::Ready(None);
         }
 
-- 
2.43.0


From 8d4a60d2c4f2fbe4d7d50b3da6cb294b69708bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:41 +0000
Subject: [PATCH 17/24] fix: a streaming advance passes the last segment before
 it ends

---
 crates/parcom-runners/src/default_runner/sequence/advance.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-runners/src/default_runner/sequence/advance.rs b/crates/parcom-runners/src/default_runner/sequence/advance.rs
index 0e66a15..49c271a 100644
--- a/crates/parcom-runners/src/default_runner/sequence/advance.rs
+++ b/crates/parcom-runners/src/default_runner/sequence/advance.rs
@@ -47,10 +47,13 @@ where
         };
         this.fut.set(OptionFuture::some(fut));
 
+        // 最後のセグメントは終了の前に追加されるため、終了したかは進める前に読む。そうしなければ、最後のセグメントを飛ばし損ねる場合がある。
+        let done = sequence.done_flag.load(Ordering::SeqCst);
+
         let remain = std::mem::take(this.remain);
         *this.remain = sequence.buffer.advance(remain);
 
-        if *this.remain == Default::default() || sequence.done_flag.load(Ordering::SeqCst) {
+        if *this.remain == Default::default() || done {
             // `sequence`をtakeする前に`fut`がdropされることを保証する。
             this.fut.set(OptionFuture::none());
             // `remain`が0になっているか、シーケンスが終了している。
-- 
2.43.0


From dc1589a64eb9f058ce8618ea52722aabd10e37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 18/24] fix: a long stream is released without recursion

---
 crates/parcom-sequences/src/generic.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/parcom-sequences/src/generic.rs b/crates/parcom-sequences/src/generic.rs
index 3300328..a8b1ea7 100644
--- a/crates/parcom-sequences/src/generic.rs
+++ b/crates/parcom-sequences/src/generic.rs
@@ -15,6 +15,20 @@ struct Node<T> {
     next: Arc<OnceLock<Node<T>>>,
 }
 
+impl<T> Drop for Node<T> {
+    fn drop(&mut self) {
+        // 再帰的にdropすると、セグメント数に比例したスタックを消費してしまうため、他から到達できないノードを順に取り外しながらdropする。
+        let mut next = take_next(&mut self.next);
+        while let Some(mut node) = next {
+            next = take_next(&mut node.next);
+        }
+    }
+}
+
+fn take_next<T>(next: &mut Arc<OnceLock<Node<T>>>) -> Option<Node<T>> {
+    Arc::get_mut(next)?.take()
+}
+
 pub struct GenericSequenceBuilder<B: BufferStrategy> {
     strategy: Arc<B>,
 }
-- 
2.43.0


From e95bf12fc7e0898359b9143724362570ccb6a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 19/24] fix: an abandoned writer keeps what was handed over and
 drops its half-written items

---
 .../parcom-sequences/src/generic/control.rs   | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 98c2526..4623dc0 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -99,26 +99,36 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
         self.buf.set_len(new_len + self.offset);
     }
 
-    fn advance(self) -> Self::Result {
-        if self.to_append.is_empty() {
-            Response::Appended {
-                cap: self.buf.capacity(),
-                len: self.buf.len(),
-            }
+    fn advance(mut self) -> Self::Result {
+        let len = self.buf.len();
+        let cap = self.buf.capacity();
+        // 書き込みを確定し、dropで取り消されないようにする。
+        self.offset = len;
+        let to_append = std::mem::take(&mut self.to_append);
+
+        if to_append.is_empty() {
+            Response::Appended { len, cap }
         } else {
             Response::Advance {
-                buf: self.to_append,
-                cap: self.buf.capacity(),
-                len: self.buf.len(),
+                buf: to_append,
+                len,
+                cap,
             }
         }
     }
 
     fn cancel(self, err: Self::Error) -> Self::Result {
-        self.buf.drain(self.offset..);
+        drop(self);
+        Response::Cancel(err)
+    }
+}
+
+impl<'a, T, E> Drop for Request<'a, T, E> {
+    // 確定していない書き込みを取り消し、要求前の状態に戻す。
+    fn drop(&mut self) {
+        self.buf.truncate(self.offset);
         if !self.to_append.is_empty() {
-            *self.buf = self.to_append;
+            *self.buf = std::mem::take(&mut self.to_append);
         }
-        Response::Cancel(err)
     }
 }
-- 
2.43.0


From 887a3d6dafd3784e2235d85363a4614996351e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 20/24] fix: do not drop items twice when a drop panics while
 shrinking a writer

---
 crates/parcom-sequence-core/src/buffer_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-sequence-core/src/buffer_writer.rs b/crates/parcom-sequence-core/src/buffer_writer.rs
index 26385f2..76b2c60 100644
--- a/crates/parcom-sequence-core/src/buffer_writer.rs
+++ b/crates/parcom-sequence-core/src/buffer_writer.rs
@@ -73,9 +73,10 @@ pub trait BufferWriter {
         let ptr = self.as_mut_ptr();
 
         unsafe {
+            // dropがpanicしても二重にdropされないよう、先に長さを更新する。
+            self.set_len(new_len);
             let slice = std::ptr::slice_from_raw_parts_mut(ptr.add(new_len), len - new_len);
             std::ptr::drop_in_place(slice);
-            self.set_len(new_len);
         }
     }
 }
-- 
2.43.0


From 2e1a9ba5d61f9d075dabf72968ac4dc78ccdcc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 21/24] fix: restore held-back items before dropping a
 cancelled write

---
 crates/parcom-sequences/src/generic/control.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/parcom-sequences/src/generic/control.rs b/crates/parcom-sequences/src/generic/control.rs
index 4623dc0..e53e033 100644
--- a/crates/parcom-sequences/src/generic/control.rs
+++ b/crates/parcom-sequences/src/generic/control.rs
@@ -126,9 +126,12 @@ impl<'a, T, E> BufferWriter for Request<'a, T, E> {
 impl<'a, T, E> Drop for Request<'a, T, E> {
     // 確定していない書き込みを取り消し、要求前の状態に戻す。
     fn drop(&mut self) {
-        self.buf.truncate(self.offset);
-        if !self.to_append.is_empty() {
-            *self.buf = std::mem::take(&mut self.to_append);
+        if self.to_append.is_empty() {
+            self.buf.truncate(self.offset);
+        } else {
+            // 書き込まれた要素のdropがpanicしても要求前の内容を失わないよう、先に戻してからdropする。
+            let written = std::mem::replace(self.buf, std::mem::take(&mut self.to_append));
+            drop(written);
         }
     }
 }
-- 
2.43.0


From 249a2d4edda3961bae88ce2784302272c77566a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:27 +0000
Subject: [PATCH 22/24] fix: do not let the growth of ShortVec exceed the
 maximum capacity when the request does not

---
 crates/parcom-internals/src/shortvec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index ee37fc4..ed43d4c 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -117,7 +117,8 @@ impl<T, const N: usize> ShortVec<T, N> {
         if self.cap >= cap {
             return;
         }
-        let cap = usize::max(self.cap * 2, cap);
+        let doubled = usize::min(self.cap.saturating_mul(2), isize::MAX as usize);
+        let cap = usize::max(doubled, cap);
         Self::reserve_exact(self, cap)
     }
 
-- 
2.43.0


From 2a2e3ea9cbfa9763202eb6738834670c564dd62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 23/24] fix: release the heap of a ShortVec when the drop of an
 element panics

---
 crates/parcom-internals/src/shortvec.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/parcom-internals/src/shortvec.rs b/crates/parcom-internals/src/shortvec.rs
index ed43d4c..47fe714 100644
--- a/crates/parcom-internals/src/shortvec.rs
+++ b/crates/parcom-internals/src/shortvec.rs
@@ -191,18 +191,23 @@ impl<T, const N: usize> ShortVec<T, N> {
 
 impl<T, const N: usize> Drop for ShortVec<T, N> {
     fn drop(&mut self) {
+        // releases the heap even if the drop of an element panics
+        struct Heap(*mut u8, Layout);
+        impl Drop for Heap {
+            fn drop(&mut self) {
+                unsafe { alloc::dealloc(self.0, self.1) }
+            }
+        }
+
         let ptr = self.as_mut_ptr();
+        let _heap = self
+            .is_heap()
+            .then(|| Heap(ptr as *mut u8, Layout::array::<T>(self.cap).unwrap()));
+
         let slice = std::ptr::slice_from_raw_parts_mut(ptr, self.len);
         unsafe {
             std::ptr::drop_in_place(slice);
         }
-
-        if self.is_heap() {
-            let layout = Layout::array::<T>(self.cap).unwrap();
-            unsafe {
-                alloc::dealloc(ptr as *mut u8, layout);
-            }
-        }
     }
 }
 
-- 
2.43.0


From 4691563216f02d70fa8c0f0cd5fce41896b12233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 24/24] fix: wake waiters without holding the notifier's lock,
 so that a waker may run its task at once

---
 crates/parcom-internals/src/future/notify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/parcom-internals/src/future/notify.rs b/crates/parcom-internals/src/future/notify.rs
index 9abb471..9198aa4 100644
--- a/crates/parcom-internals/src/future/notify.rs
+++ b/crates/parcom-internals/src/future/notify.rs
@@ -24,8 +24,9 @@ impl Notify {
 
     pub fn send(&self) {
         self.version.fetch_add(1, Ordering::SeqCst);
-        let mut wakers = self.wakers.lock().unwrap();
-        for waker in wakers.drain() {
+        // ロックしたまま起こすと、その場でタスクを実行するwakerが`wait`や`send`を使う場合にデッドロックする。
+        let wakers = std::mem::take(&mut *self.wakers.lock().unwrap());
+        for (_, waker) in wakers {
             waker.wake();
         }
     }
-- 
2.43.0

