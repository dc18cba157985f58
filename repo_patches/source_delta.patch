From b7700b897fe2a2442058ded3e155c65f6d27c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:28 +0000
Subject: [PATCH 1/8] fix: keep bounded pieces when intersecting two
 LowerBoundedSets

self.lower_bounded_range was never intersected with other.ranges, so e.g.
(10..).to_set().intersection((12..15).union(20..)) lost 12..15 while the
flipped call kept it.
---
 src/implementations/intersection/lower_bounded_set.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/implementations/intersection/lower_bounded_set.rs b/src/implementations/intersection/lower_bounded_set.rs
index 4a4b4bc..b7454f9 100644
--- a/src/implementations/intersection/lower_bounded_set.rs
+++ b/src/implementations/intersection/lower_bounded_set.rs
@@ -51,11 +51,9 @@ where
 {
     type Output = LowerBoundedSet<T>;
     fn intersection(self, other: R) -> Self::Output {
-        let mut set = RangeIntersection::intersection(
-            self.clone(),
-            other.clone().to_inner().lower_bounded_range,
-        );
-        set.add_set(RangeIntersection::intersection(self.ranges, other));
+        let other = other.to_inner();
+        let mut set = RangeIntersection::intersection(self.clone(), other.lower_bounded_range);
+        set.add_set(RangeIntersection::intersection(self, other.ranges));
         set
     }
 }
-- 
2.43.0


From 60ed54af3cda3b56184f22512fb5466ca1f2872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:33 +0000
Subject: [PATCH 2/8] fix: iterate bounded ranges that touch the limits of T

Iterating (250u8..=255), (0u8..3).rev(), (0u8..0) or calling nth/nth_back past
the end overflowed: a panic in debug builds, values outside the range (or an
endless iteration) in release builds.
---
 src/bounded_range.rs | 56 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index ea68456..b23b97e 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -89,15 +89,28 @@ where
     type IntoIter = BoundedRangeIter<T>;
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
+        // Nothing lies beyond the greatest (or below the least) value of `T`, so a bound
+        // excluding it leaves nothing to iterate over.
+        let mut exhausted = false;
         let current = match self.start {
-            LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
+            LowerBound(Bound::Excluded(t)) => Step::forward_checked(t, 1).unwrap_or_else(|| {
+                exhausted = true;
+                t
+            }),
             LowerBound(Bound::Included(t)) => t,
         };
         let last = match self.end {
-            UpperBound(Bound::Excluded(t)) => Step::backward(t, 1),
+            UpperBound(Bound::Excluded(t)) => Step::backward_checked(t, 1).unwrap_or_else(|| {
+                exhausted = true;
+                t
+            }),
             UpperBound(Bound::Included(t)) => t,
         };
-        BoundedRangeIter { current, last }
+        BoundedRangeIter {
+            current,
+            last,
+            exhausted,
+        }
     }
 }
 
@@ -167,6 +180,14 @@ impl<T: Copy + Ord> BoundedRange<T> {
 pub struct BoundedRangeIter<T> {
     current: T,
     last: T,
+    // Set when there is no value of `T` left to move `current` or `last` to.
+    exhausted: bool,
+}
+
+impl<T: PartialOrd> BoundedRangeIter<T> {
+    fn is_done(&self) -> bool {
+        self.exhausted || self.current > self.last
+    }
 }
 
 impl<T> Iterator for BoundedRangeIter<T>
@@ -176,16 +197,22 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
+        if self.is_done() {
             None
         } else {
             let t = self.current;
-            self.current = Step::forward(self.current, 1);
+            match Step::forward_checked(t, 1) {
+                Some(next) => self.current = next,
+                None => self.exhausted = true,
+            }
             Some(t)
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
+        if self.is_done() {
+            return (0, Some(0));
+        }
         let size = Step::steps_between(&self.current, &self.last)
             .map(|steps| steps + 1)
             .unwrap_or_default();
@@ -200,7 +227,7 @@ where
     where
         Self: Sized,
     {
-        if self.current > self.last {
+        if self.is_done() {
             None
         } else {
             Some(self.last)
@@ -208,7 +235,10 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        match Step::forward_checked(self.current, n) {
+            Some(t) => self.current = t,
+            None => self.exhausted = true,
+        }
         self.next()
     }
 
@@ -226,17 +256,23 @@ where
     T: Copy + Ord + Step,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
+        if self.is_done() {
             None
         } else {
             let t = self.last;
-            self.last = Step::backward(self.last, 1);
+            match Step::backward_checked(t, 1) {
+                Some(prev) => self.last = prev,
+                None => self.exhausted = true,
+            }
             Some(t)
         }
     }
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.last = Step::backward(self.last, n);
+        match Step::backward_checked(self.last, n) {
+            Some(t) => self.last = t,
+            None => self.exhausted = true,
+        }
         self.next_back()
     }
 }
-- 
2.43.0


From 654c431a0e17239f92aee58065d857b7165dd484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:36 +0000
Subject: [PATCH 3/8] fix: size hints of iterators longer than usize::MAX

They claimed a length of 0 (so iterating a BoundedSet holding such a range
skipped it entirely) or overflowed; report (usize::MAX, None) instead.
---
 src/bounded_range.rs     |  7 +++----
 src/bounded_set.rs       | 16 +++++++++-------
 src/lower_bounded_set.rs |  2 +-
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index b23b97e..1a45891 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -213,10 +213,9 @@ where
         if self.is_done() {
             return (0, Some(0));
         }
-        let size = Step::steps_between(&self.current, &self.last)
-            .map(|steps| steps + 1)
-            .unwrap_or_default();
-        (size, Some(size))
+        Step::steps_between(&self.current, &self.last)
+            .and_then(|steps| steps.checked_add(1))
+            .map_or((usize::MAX, None), |size| (size, Some(size)))
     }
 
     fn count(self) -> usize {
diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 21cd260..656d943 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -124,7 +124,7 @@ where
         while self
             .range_iters
             .front()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_front();
@@ -133,8 +133,10 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.range_iters.iter().map(|i| i.len()).sum();
-        (size, Some(size))
+        self.range_iters
+            .iter()
+            .try_fold(0usize, |size, i| size.checked_add(i.size_hint().1?))
+            .map_or((usize::MAX, None), |size| (size, Some(size)))
     }
 
     fn count(self) -> usize
@@ -151,7 +153,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -160,7 +162,7 @@ where
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.front().map(|i| i.len()) {
+        while let Some((len, Some(_))) = self.range_iters.front().map(|i| i.size_hint()) {
             if len <= n {
                 n -= len;
                 self.range_iters.remove(0);
@@ -188,7 +190,7 @@ where
         while self
             .range_iters
             .back()
-            .map(|i| i.len() == 0)
+            .map(|i| i.size_hint().0 == 0)
             .unwrap_or(false)
         {
             self.range_iters.pop_back();
@@ -197,7 +199,7 @@ where
     }
 
     fn nth_back(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.back_mut().map(|i| i.len()) {
+        while let Some((len, Some(_))) = self.range_iters.back().map(|i| i.size_hint()) {
             if len <= n {
                 n -= len;
                 self.range_iters.pop_back();
diff --git a/src/lower_bounded_set.rs b/src/lower_bounded_set.rs
index 0485aa5..dcb9da6 100644
--- a/src/lower_bounded_set.rs
+++ b/src/lower_bounded_set.rs
@@ -127,7 +127,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        let bounded_size = self.set_iter.len();
+        let bounded_size = self.set_iter.size_hint().0;
         self.set_iter
             .nth(n)
             .or_else(|| self.range_iter.nth(n - bounded_size))
-- 
2.43.0


From 650a9a2e4e5940e4df91e67818a660a7212c7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:09 +0000
Subject: [PATCH 4/8] fix: end lower-bounded iteration at the greatest value of
 T

Creating the iterator of a set such as {0..3} plus everything above 255u8
overflowed before yielding anything, and running past the greatest value
panicked (debug) or wrapped around to values below the bound (release).
---
 src/lower_bounded_range.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index 1c7fb91..502864c 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -51,8 +51,8 @@ where
     fn into_iter(self) -> Self::IntoIter {
         LowerBoundedRangeIter {
             current: match self.start {
-                LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-                LowerBound(Bound::Included(t)) => t,
+                LowerBound(Bound::Excluded(t)) => Step::forward_checked(t, 1),
+                LowerBound(Bound::Included(t)) => Some(t),
             },
         }
     }
@@ -103,7 +103,8 @@ impl<T: Copy + Ord> LowerBoundedRange<T> {
 /// ```
 #[derive(Clone, Debug)]
 pub struct LowerBoundedRangeIter<T> {
-    current: T,
+    // `None` once the greatest value of `T` has been passed.
+    current: Option<T>,
 }
 
 impl<T> Iterator for LowerBoundedRangeIter<T>
@@ -113,8 +114,8 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let t = self.current;
-        self.current = Step::forward(self.current, 1);
+        let t = self.current?;
+        self.current = Step::forward_checked(t, 1);
         Some(t)
     }
 
@@ -123,7 +124,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        self.current = Step::forward_checked(self.current?, n);
         self.next()
     }
 
-- 
2.43.0


From b05978638961655ab8a58f341746d024baa5bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:12 +0000
Subject: [PATCH 5/8] fix: convert empty ranges at the limits of T to empty std
 ranges

RangeInclusive::<u8>::from(EmptyRange::new()) and from (0..0) panicked in debug
builds and became 0..=255 in release builds.
---
 src/bounded_range.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 1a45891..2983bf3 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -54,7 +54,11 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // There is nothing above the greatest value: the range is empty.
+                None => return t..t,
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
@@ -71,11 +75,19 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // There is nothing above the greatest value: the range is empty.
+                None => return t..=Step::backward(t, 1),
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
-            Bound::Excluded(t) => Step::backward(t, 1),
+            Bound::Excluded(t) => match Step::backward_checked(t, 1) {
+                Some(end) => end,
+                // There is nothing below the least value: the range is empty.
+                None => return Step::forward(t, 1)..=t,
+            },
             Bound::Included(t) => t,
         };
         start..=end
-- 
2.43.0


From bd1fa12ca4ebdd1ca1c6e3b641db4fc2e4e575bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:16 +0000
Subject: [PATCH 6/8] fix: never convert a range to a std range with other
 contents

Where the std type cannot express the range (..=255u8 as a RangeTo), release
builds wrapped and returned an unrelated range (..0), which also made
vec[..=usize::MAX] an empty slice instead of a panic. Panic in all builds, as
debug builds already did.
---
 src/bounded_range.rs       |  3 ++-
 src/lower_bounded_range.rs |  4 +++-
 src/upper_bounded_range.rs | 10 ++++++++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 2983bf3..c0c8fbb 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -63,7 +63,8 @@ where
         };
         let end = match r.end.to_bound() {
             Bound::Excluded(t) => t,
-            Bound::Included(t) => Step::forward(t, 1),
+            Bound::Included(t) => Step::forward_checked(t, 1)
+                .expect("inclusive end has no successor to use as an exclusive end"),
         };
         start..end
     }
diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index 502864c..dc934e7 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -36,7 +36,9 @@ where
 {
     fn from(r: LowerBoundedRange<T>) -> Self {
         match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1)..,
+            Bound::Excluded(t) => {
+                Step::forward_checked(t, 1).expect("excluded start has no successor")..
+            }
             Bound::Included(t) => t..,
         }
     }
diff --git a/src/upper_bounded_range.rs b/src/upper_bounded_range.rs
index 33bbbf5..048f5b2 100644
--- a/src/upper_bounded_range.rs
+++ b/src/upper_bounded_range.rs
@@ -44,7 +44,10 @@ where
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
             Bound::Excluded(t) => ..t,
-            Bound::Included(t) => ..Step::forward(t, 1),
+            Bound::Included(t) => {
+                ..Step::forward_checked(t, 1)
+                    .expect("inclusive end has no successor to use as an exclusive end")
+            }
         }
     }
 }
@@ -55,7 +58,10 @@ where
 {
     fn from(r: UpperBoundedRange<T>) -> Self {
         match r.end.to_bound() {
-            Bound::Excluded(t) => ..=Step::backward(t, 1),
+            Bound::Excluded(t) => {
+                ..=Step::backward_checked(t, 1)
+                    .expect("exclusive end has no predecessor to use as an inclusive end")
+            }
             Bound::Included(t) => ..=t,
         }
     }
-- 
2.43.0


From 449991c733a195e4195bfbf6450ae73dce61b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:07 +0000
Subject: [PATCH 7/8] fix: merge set pieces without recursing once per piece

Adding a range that covers tens of thousands of pieces overflowed the stack and
aborted the process.
---
 src/bounded_set.rs   | 20 +++++++++-----------
 src/unbounded_set.rs | 38 ++++++++++++++++++++------------------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 656d943..79fec25 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -61,20 +61,18 @@ impl<T> BoundedSet<T> {
 }
 
 impl<T: Copy + Ord> BoundedSet<T> {
-    pub(crate) fn add_range(&mut self, r: BoundedRange<T>) {
+    pub(crate) fn add_range(&mut self, mut r: BoundedRange<T>) {
         if !r.is_empty() {
-            if let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
-                let new_range = r.combine(&self.ranges[index]);
+            while let Some(index) = self.ranges.iter().position(|range| range.intersects(r)) {
+                r = r.combine(&self.ranges[index]);
                 self.ranges.remove(index);
-                self.add_range(new_range);
-            } else {
-                let index = self
-                    .ranges
-                    .iter()
-                    .position(|range| range.start > r.start)
-                    .unwrap_or(self.ranges.len());
-                self.ranges.insert(index, r);
             }
+            let index = self
+                .ranges
+                .iter()
+                .position(|range| range.start > r.start)
+                .unwrap_or(self.ranges.len());
+            self.ranges.insert(index, r);
         }
     }
     pub(crate) fn add_set(&mut self, other: Self) {
diff --git a/src/unbounded_set.rs b/src/unbounded_set.rs
index a47108a..6f21125 100644
--- a/src/unbounded_set.rs
+++ b/src/unbounded_set.rs
@@ -47,24 +47,26 @@ impl<T: Copy + Ord> PiecewiseUnboundedSet<T> {
     }
 
     fn defragment(&mut self) {
-        if let Some(index) = self
-            .ranges
-            .ranges
-            .iter()
-            .position(|r| self.upper_bounded_range.intersects(*r))
-        {
-            let range = self.ranges.ranges.remove(index).unwrap();
-            self.upper_bounded_range.end = self.upper_bounded_range.end.max(range.end);
-            self.defragment();
-        } else if let Some(index) = self
-            .ranges
-            .ranges
-            .iter()
-            .position(|r| self.lower_bounded_range.intersects(*r))
-        {
-            let range = self.ranges.ranges.remove(index).unwrap();
-            self.lower_bounded_range.start = self.lower_bounded_range.start.min(range.start);
-            self.defragment();
+        loop {
+            if let Some(index) = self
+                .ranges
+                .ranges
+                .iter()
+                .position(|r| self.upper_bounded_range.intersects(*r))
+            {
+                let range = self.ranges.ranges.remove(index).unwrap();
+                self.upper_bounded_range.end = self.upper_bounded_range.end.max(range.end);
+            } else if let Some(index) = self
+                .ranges
+                .ranges
+                .iter()
+                .position(|r| self.lower_bounded_range.intersects(*r))
+            {
+                let range = self.ranges.ranges.remove(index).unwrap();
+                self.lower_bounded_range.start = self.lower_bounded_range.start.min(range.start);
+            } else {
+                return;
+            }
         }
     }
 }
-- 
2.43.0


From 50c5e941592a51d490c2ed945f93dca03882a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:08 +0000
Subject: [PATCH 8/8] fix: last() of a set iterator no longer walks the whole
 last piece

`i.last()` on `&mut BoundedRangeIter` resolved to the default method of
`&mut I`, which steps through every value: on a piece spanning much of
u64 it never returned.
---
 src/bounded_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 79fec25..3a93f2d 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -156,7 +156,7 @@ where
         {
             self.range_iters.pop_back();
         }
-        self.range_iters.back_mut().map(|i| i.last()).flatten()
+        self.range_iters.pop_back().and_then(|i| i.last())
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-- 
2.43.0

