From 73bd33169521009b92490cad059759fc898aaf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:48 +0000
Subject: [PATCH 1/7] fix: intersection of two LowerBoundedSets kept only
 self's bounded pieces

---
 src/implementations/intersection/lower_bounded_set.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/implementations/intersection/lower_bounded_set.rs b/src/implementations/intersection/lower_bounded_set.rs
index 4a4b4bc..b7454f9 100644
--- a/src/implementations/intersection/lower_bounded_set.rs
+++ b/src/implementations/intersection/lower_bounded_set.rs
@@ -51,11 +51,9 @@ where
 {
     type Output = LowerBoundedSet<T>;
     fn intersection(self, other: R) -> Self::Output {
-        let mut set = RangeIntersection::intersection(
-            self.clone(),
-            other.clone().to_inner().lower_bounded_range,
-        );
-        set.add_set(RangeIntersection::intersection(self.ranges, other));
+        let other = other.to_inner();
+        let mut set = RangeIntersection::intersection(self.clone(), other.lower_bounded_range);
+        set.add_set(RangeIntersection::intersection(self, other.ranges));
         set
     }
 }
-- 
2.43.0


From 48f899e9735d65289209e631a0caa75a945f1ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:27 +0000
Subject: [PATCH 2/7] fix: bounded iteration overflowed next to the ends of the
 element type

Iterating, reversing or skipping a BoundedRange stepped one past its last
(first) value, which panics in debug builds and wraps in release builds when
that value is the largest (smallest) of its type, e.g. `(0u8..3)` reversed.
---
 src/bounded_range.rs | 63 +++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index ea68456..29c7986 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -90,14 +90,18 @@ where
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
         let current = match self.start {
-            LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-            LowerBound(Bound::Included(t)) => t,
+            LowerBound(Bound::Excluded(t)) => Step::forward_checked(t, 1),
+            LowerBound(Bound::Included(t)) => Some(t),
         };
         let last = match self.end {
-            UpperBound(Bound::Excluded(t)) => Step::backward(t, 1),
-            UpperBound(Bound::Included(t)) => t,
+            UpperBound(Bound::Excluded(t)) => Step::backward_checked(t, 1),
+            UpperBound(Bound::Included(t)) => Some(t),
         };
-        BoundedRangeIter { current, last }
+        BoundedRangeIter {
+            remaining: current
+                .zip(last)
+                .filter(|(current, last)| current <= last),
+        }
     }
 }
 
@@ -165,8 +169,9 @@ impl<T: Copy + Ord> BoundedRange<T> {
 /// ```
 #[derive(Clone, Debug)]
 pub struct BoundedRangeIter<T> {
-    current: T,
-    last: T,
+    /// The first and last value still to be yielded, or `None` once exhausted. Never stepped past
+    /// `last`, which may be the largest (or smallest) value of `T`.
+    remaining: Option<(T, T)>,
 }
 
 impl<T> Iterator for BoundedRangeIter<T>
@@ -176,17 +181,19 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
-            None
+        let (current, last) = self.remaining?;
+        self.remaining = if current < last {
+            Some((Step::forward(current, 1), last))
         } else {
-            let t = self.current;
-            self.current = Step::forward(self.current, 1);
-            Some(t)
-        }
+            None
+        };
+        Some(current)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = Step::steps_between(&self.current, &self.last)
+        let size = self
+            .remaining
+            .and_then(|(current, last)| Step::steps_between(&current, &last))
             .map(|steps| steps + 1)
             .unwrap_or_default();
         (size, Some(size))
@@ -200,15 +207,14 @@ where
     where
         Self: Sized,
     {
-        if self.current > self.last {
-            None
-        } else {
-            Some(self.last)
-        }
+        self.remaining.map(|(_, last)| last)
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        let (current, last) = self.remaining.take()?;
+        self.remaining = Step::forward_checked(current, n)
+            .filter(|current| *current <= last)
+            .map(|current| (current, last));
         self.next()
     }
 
@@ -226,17 +232,20 @@ where
     T: Copy + Ord + Step,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
-            None
+        let (current, last) = self.remaining?;
+        self.remaining = if current < last {
+            Some((current, Step::backward(last, 1)))
         } else {
-            let t = self.last;
-            self.last = Step::backward(self.last, 1);
-            Some(t)
-        }
+            None
+        };
+        Some(last)
     }
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.last = Step::backward(self.last, n);
+        let (current, last) = self.remaining.take()?;
+        self.remaining = Step::backward_checked(last, n)
+            .filter(|last| current <= *last)
+            .map(|last| (current, last));
         self.next_back()
     }
 }
-- 
2.43.0


From 369aa3badff70e5e912df0d184f89b477f6cde5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:30 +0000
Subject: [PATCH 3/7] fix: iterator sizes were wrong when the count does not
 fit usize

---
 src/bounded_range.rs     | 14 ++++++++------
 src/bounded_set.rs       | 18 +++++++++++-------
 src/lower_bounded_set.rs |  2 +-
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 29c7986..260cbee 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -191,12 +191,14 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self
-            .remaining
-            .and_then(|(current, last)| Step::steps_between(&current, &last))
-            .map(|steps| steps + 1)
-            .unwrap_or_default();
-        (size, Some(size))
+        let size = match self.remaining {
+            Some((current, last)) => {
+                Step::steps_between(&current, &last).and_then(|steps| steps.checked_add(1))
+            }
+            None => Some(0),
+        };
+        // More values remain than `usize` can count if there is no size.
+        (size.unwrap_or(usize::MAX), size)
     }
 
     fn count(self) -> usize {
diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 21cd260..a97f875 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -124,7 +124,7 @@ where
         while self
             .range_iters
             .front()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_front();
@@ -133,8 +133,12 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.range_iters.iter().map(|i| i.len()).sum();
-        (size, Some(size))
+        let size = self
+            .range_iters
+            .iter()
+            .try_fold(0, |size: usize, i| size.checked_add(i.size_hint().1?));
+        // More values remain than `usize` can count if there is no size.
+        (size.unwrap_or(usize::MAX), size)
     }
 
     fn count(self) -> usize
@@ -151,7 +155,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -160,7 +164,7 @@ where
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.front().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.front().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.remove(0);
@@ -188,7 +192,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -197,7 +201,7 @@ where
     }
 
     fn nth_back(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.back_mut().map(|i| i.len()) {
+        while let Some(len) = self.range_iters.back_mut().and_then(|i| i.size_hint().1) {
             if len <= n {
                 n -= len;
                 self.range_iters.pop_back();
diff --git a/src/lower_bounded_set.rs b/src/lower_bounded_set.rs
index 0485aa5..f5ce7d0 100644
--- a/src/lower_bounded_set.rs
+++ b/src/lower_bounded_set.rs
@@ -127,7 +127,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        let bounded_size = self.set_iter.len();
+        let (bounded_size, _) = self.set_iter.size_hint();
         self.set_iter
             .nth(n)
             .or_else(|| self.range_iter.nth(n - bounded_size))
-- 
2.43.0


From fcfa2ba422cfd59d6f1ad01370b3f8ffa30c3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:37 +0000
Subject: [PATCH 4/7] fix: conversions to std ranges overflowed at the ends of
 the element type

---
 src/bounded_range.rs       | 22 ++++++++++++++++++----
 src/lower_bounded_range.rs |  4 +++-
 src/upper_bounded_range.rs |  8 ++++++--
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 260cbee..c621161 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -54,12 +54,18 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(t) => t,
+                // No value is greater than `t`, so the range is empty.
+                None => return t..t,
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
             Bound::Excluded(t) => t,
-            Bound::Included(t) => Step::forward(t, 1),
+            Bound::Included(t) => {
+                Step::forward_checked(t, 1).expect("no exclusive end for the range")
+            }
         };
         start..end
     }
@@ -71,11 +77,19 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(t) => t,
+                // No value is greater than `t`, so the range is empty.
+                None => return t..=Step::backward(t, 1),
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
-            Bound::Excluded(t) => Step::backward(t, 1),
+            Bound::Excluded(t) => match Step::backward_checked(t, 1) {
+                Some(t) => t,
+                // No value is less than `t`, so the range is empty.
+                None => return Step::forward(t, 1)..=t,
+            },
             Bound::Included(t) => t,
         };
         start..=end
diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index 1c7fb91..ff96d2c 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -36,7 +36,9 @@ where
 {
     fn from(r: LowerBoundedRange<T>) -> Self {
         match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1)..,
+            Bound::Excluded(t) => {
+                Step::forward_checked(t, 1).expect("no inclusive start for the range")..
+            }
             Bound::Included(t) => t..,
         }
     }
diff --git a/src/upper_bounded_range.rs b/src/upper_bounded_range.rs
index 33bbbf5..c5bdcec 100644
--- a/src/upper_bounded_range.rs
+++ b/src/upper_bounded_range.rs
@@ -44,7 +44,9 @@ where
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
             Bound::Excluded(t) => ..t,
-            Bound::Included(t) => ..Step::forward(t, 1),
+            Bound::Included(t) => {
+                ..Step::forward_checked(t, 1).expect("no exclusive end for the range")
+            }
         }
     }
 }
@@ -55,7 +57,9 @@ where
 {
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
-            Bound::Excluded(t) => ..=Step::backward(t, 1),
+            Bound::Excluded(t) => {
+                ..=Step::backward_checked(t, 1).expect("no inclusive end for the range")
+            }
             Bound::Included(t) => ..=t,
         }
     }
-- 
2.43.0


From 626a861cbb612244eaf17d63c429ed274f5cd154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:52 +0000
Subject: [PATCH 5/7] fix: fully iterated inclusive ranges were treated as
 still containing their values

---
 src/bounded_range.rs                              | 10 +++++++++-
 src/implementations/rangetools/range_inclusive.rs |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index c621161..ca83e93 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -1,7 +1,7 @@
 use crate::{Bound, LowerBound, Rangetools, Step, UpperBound};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
-use std::iter::FusedIterator;
+use std::{iter::FusedIterator, ops::RangeBounds};
 
 /// A range bounded both below and above (either inclusive or exclusive).
 ///
@@ -40,7 +40,15 @@ impl<T> From<std::ops::Range<T>> for BoundedRange<T> {
 
 impl<T> From<std::ops::RangeInclusive<T>> for BoundedRange<T> {
     fn from(r: std::ops::RangeInclusive<T>) -> Self {
+        let exhausted = matches!(r.end_bound(), std::ops::Bound::Excluded(_));
         let (start, end) = r.into_inner();
+        if exhausted {
+            // A fully iterated range is empty whatever its (still ordered) endpoints are.
+            return Self {
+                start: LowerBound::included(end),
+                end: UpperBound::excluded(start),
+            };
+        }
         Self {
             start: LowerBound::included(start),
             end: UpperBound::included(end),
diff --git a/src/implementations/rangetools/range_inclusive.rs b/src/implementations/rangetools/range_inclusive.rs
index c66249c..15b10f5 100644
--- a/src/implementations/rangetools/range_inclusive.rs
+++ b/src/implementations/rangetools/range_inclusive.rs
@@ -2,7 +2,7 @@ use crate::{BoundedRange, BoundedSet, Rangetools};
 
 impl<T: Copy + Ord> Rangetools for std::ops::RangeInclusive<T> {
     fn is_empty(&self) -> bool {
-        self.start() > self.end()
+        std::ops::RangeInclusive::is_empty(self)
     }
 
     type Inner = BoundedRange<T>;
-- 
2.43.0


From af52be35394a6a1fcce3ced00358db41bd69769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:34 +0000
Subject: [PATCH 6/7] fix: merging many pieces of a set recursed once per piece
 and overflowed the stack

---
 src/bounded_set.rs   | 20 +++++++++-----------
 src/unbounded_set.rs |  7 +++----
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index a97f875..8b5c14a 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -61,20 +61,18 @@ impl<T> BoundedSet<T> {
 }
 
 impl<T: Copy + Ord> BoundedSet<T> {
-    pub(crate) fn add_range(&mut self, r: BoundedRange<T>) {
+    pub(crate) fn add_range(&mut self, mut r: BoundedRange<T>) {
         if !r.is_empty() {
-            if let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
-                let new_range = r.combine(&self.ranges[index]);
+            while let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
+                r = r.combine(&self.ranges[index]);
                 self.ranges.remove(index);
-                self.add_range(new_range);
-            } else {
-                let index = self
-                    .ranges
-                    .iter()
-                    .position(|range| range.start > r.start)
-                    .unwrap_or(self.ranges.len());
-                self.ranges.insert(index, r);
             }
+            let index = self
+                .ranges
+                .iter()
+                .position(|range| range.start > r.start)
+                .unwrap_or(self.ranges.len());
+            self.ranges.insert(index, r);
         }
     }
     pub(crate) fn add_set(&mut self, other: Self) {
diff --git a/src/unbounded_set.rs b/src/unbounded_set.rs
index a47108a..2d655bd 100644
--- a/src/unbounded_set.rs
+++ b/src/unbounded_set.rs
@@ -47,7 +47,7 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
     }
 
     fn defragment(&mut self) {
-        if let Some(index) = self
+        while let Some(index) = self
             .ranges
             .ranges
             .iter()
@@ -55,8 +55,8 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
         {
             let range = self.ranges.ranges.remove(index).unwrap();
             self.upper_bounded_range.end = self.upper_bounded_range.end.max(range.end);
-            self.defragment();
-        } else if let Some(index) = self
+        }
+        while let Some(index) = self
             .ranges
             .ranges
             .iter()
@@ -64,7 +64,6 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
         {
             let range = self.ranges.ranges.remove(index).unwrap();
             self.lower_bounded_range.start = self.lower_bounded_range.start.min(range.start);
-            self.defragment();
         }
     }
 }
-- 
2.43.0


From fdf692ec7f03dfb0924b400754a4ecee809c5ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:58 +0000
Subject: [PATCH 7/7] fix: a range starting after usize::MAX was a valid index
 into usize::MAX zero-sized elements

---
 src/bounded_range.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index ca83e93..75a5194 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -64,8 +64,9 @@ where
         let start = match r.start.to_bound() {
             Bound::Excluded(t) => match Step::forward_checked(t, 1) {
                 Some(t) => t,
-                // No value is greater than `t`, so the range is empty.
-                None => return t..t,
+                // No value is greater than `t`, so the range is empty. Like the other inverted
+                // ranges, it is no valid index (`t..t` would be one if the length is `t`).
+                None => return t..Step::backward_checked(t, 1).unwrap_or(t),
             },
             Bound::Included(t) => t,
         };
-- 
2.43.0

