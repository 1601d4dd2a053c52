From b5a036644bc39b5edb6f5c4c3e7aacf3eaa17959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 1/6] fix: forward_by must not wrap around or panic for large
 offsets

index + offset overflowed: a panic with overflow checks, and without them the
index moved backwards and success was reported.
---
 src/container.rs | 2 +-
 src/indexing.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 2c54fb6..bf8efee 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -217,7 +217,7 @@ impl<'id, Array, T, Mode> Container<'id, Array, Mode>
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.len() {
             index.index = i;
             true
diff --git a/src/indexing.rs b/src/indexing.rs
index c701ab0..46b9283 100644
--- a/src/indexing.rs
+++ b/src/indexing.rs
@@ -265,7 +265,7 @@ impl<'id, P> Range<'id, P> {
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.end {
             index.index = i;
             true
-- 
2.43.0


From 1f679d740607b535a279b192edd277b99e9ddaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 2/6] fix: scan_tail_ must only accept dereferenceable pointers

The result includes the element at the pointer, so for the past-the-end edge
pointer it reached one element outside the container.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 9a7168e..52b1972 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -306,7 +306,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
     ///
     /// Result always includes `index` in the range
     #[inline]
-    pub fn scan_tail_<P, F>(&self, index: PIndex<'id, T, P>, mut f: F) -> PRange<'id, T, P>
+    pub fn scan_tail_<F>(&self, index: PIndex<'id, T>, mut f: F) -> PRange<'id, T, NonEmpty>
         where F: FnMut(&T) -> bool
     {
         unsafe {
-- 
2.43.0


From 4149a77a1098212bf486fc8480aba0aba6f0ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 3/6] fix: split_container_at_pointer needs a container with
 mutable access

It hands out containers of &mut [T]; with only Contiguous required, that gave
mutable access to the elements of a shared slice.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 52b1972..0636126 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -377,7 +377,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
         }
     }
 }
-impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
+impl<'id, T, Array> Container<'id, Array> where Array: ContiguousMut<Item=T> {
     #[inline]
     pub fn split_container_at_pointer<P, F, Out>(&mut self, index: PIndex<'id, T, P>, f: F) -> Out
         //-> (PRange<'id, T>, PRange<'id, T, P>)
-- 
2.43.0


From 4e7856096c6374d73a544686f61dfa4e94dcea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 4/6] fix: lower_bound_raw_ptr must work for zero-sized
 elements

It divided by the element size to get the number of elements between pointers.
---
 src/algorithms.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index c92beb0..28ea96d 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -813,28 +813,23 @@ pub fn lower_bound_pslice<T, F>(v: &[T], f: F) -> usize
 pub fn lower_bound_raw_ptr<T: PartialOrd>(v: &[T], elt: &T) -> usize {
     unsafe {
         let mut start = v.as_ptr();
-        let end = start.offset(v.len() as isize);
-        let mut count = ptrdistance(start, end);
+        let mut position = 0;
+        let mut count = v.len();
         while count > 0 {
             let step = count / 2;
             let it = start.offset(step as isize);
             if *it < *elt {
                 start = it.offset(1);
+                position += step + 1;
                 count -= step + 1;
             } else {
                 count = step;
             }
         }
-        ptrdistance(v.as_ptr(), start)
+        position
     }
 }
 
-/// return the number of steps between a and b
-fn ptrdistance<T>(from: *const T, to: *const T) -> usize {
-    use std::mem;
-    (to as usize - from as usize) / mem::size_of::<T>()
-}
-
 
 #[test]
 fn test_lower_bound() {
-- 
2.43.0


From 78cca7f4c3eeaa7d1e3949ee0daadb13cae7baee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 5/6] verif hook: lower the quicksort cut-off under --cfg
 indexing_verif

---
 src/algorithms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index 28ea96d..c567cf0 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -28,6 +28,9 @@ macro_rules! puts {
 */
 
 // limit for switching to insertion sort
+#[cfg(indexing_verif)]
+const QS_INSERTION_SORT_THRESH: usize = 3;
+#[cfg(not(indexing_verif))]
 const QS_INSERTION_SORT_THRESH: usize = 24;
 
 /// Simple quicksort implemented using `Range`,
-- 
2.43.0


From 58599746cf12e6a5110f4596172d679209898fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:10 +0000
Subject: [PATCH 6/6] fix: quicksorts recurse into the shorter part only

Equal or sorted elements made every quicksort recurse once per element:
10,000 equal elements overflowed the stack in a dev build.
---
 src/algorithms.rs | 68 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index c567cf0..423cb62 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -34,14 +34,23 @@ const QS_INSERTION_SORT_THRESH: usize = 3;
 const QS_INSERTION_SORT_THRESH: usize = 24;
 
 /// Simple quicksort implemented using `Range`,
-pub fn quicksort_range<T: Ord>(v: &mut [T]) {
+pub fn quicksort_range<T: Ord>(mut v: &mut [T]) {
+    while let Some(mid) = partition_range(v) {
+        // recurse into the shorter part only: the depth stays logarithmic
+        let (a, b) = { v }.split_at_mut(mid);
+        v = if a.len() < b.len() { quicksort_range(a); b } else { quicksort_range(b); a };
+    }
+}
+
+/// Partition around a pivot and return where to split; sort if short
+fn partition_range<T: Ord>(v: &mut [T]) -> Option<usize> {
     scope(v, |mut v| {
         let range = v.range();
         if let Ok(range) = range.nonempty() {
             // Fall back to insertion sort for short sections
             if range.len() <= QS_INSERTION_SORT_THRESH {
                 insertion_sort_ranges(&mut v[..], |x, y| x < y);
-                return;
+                return None;
             }
 
             let (l, m, r) = (range.first(), range.upper_middle(), range.last());
@@ -79,25 +88,34 @@ pub fn quicksort_range<T: Ord>(v: &mut [T]) {
                 }
             }
 
-            // ok split at pivot location and recurse
-            let (a, b) = v.split_at(scan.first());
-            //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
-            quicksort_range(&mut v[a]);
-            quicksort_range(&mut v[b]);
+            // ok split at pivot location
+            Some(scan.first().integer())
+        } else {
+            None
         }
-    });
+    })
 }
 
 /// Simple quicksort implemented using `indexing`’s PRange.
 #[cfg(feature="experimental_pointer_ranges")]
-pub fn quicksort_prange<T: Ord>(v: &mut [T]) {
+pub fn quicksort_prange<T: Ord>(mut v: &mut [T]) {
+    while let Some(mid) = partition_prange(v) {
+        // recurse into the shorter part only: the depth stays logarithmic
+        let (a, b) = { v }.split_at_mut(mid);
+        v = if a.len() < b.len() { quicksort_prange(a); b } else { quicksort_prange(b); a };
+    }
+}
+
+/// Partition around a pivot and return where to split; sort if short
+#[cfg(feature="experimental_pointer_ranges")]
+fn partition_prange<T: Ord>(v: &mut [T]) -> Option<usize> {
     scope(v, |mut v| {
         let range = v.pointer_range();
         if let Ok(range) = range.nonempty() {
             // Fall back to insertion sort for short sections
             if range.len() <= QS_INSERTION_SORT_THRESH {
                 insertion_sort_ranges(&mut v[..], |x, y| x < y);
-                return;
+                return None;
             }
 
             let (l, m, r) = (range.first(), range.upper_middle(), range.last());
@@ -135,22 +153,30 @@ pub fn quicksort_prange<T: Ord>(v: &mut [T]) {
                 }
             }
 
-            // ok split at pivot location and recurse
-            let (a, b) = v.split_at_pointer(scan.first());
-            //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
-            quicksort_prange(&mut v[a]);
-            quicksort_prange(&mut v[b]);
+            // ok split at pivot location
+            Some(v.distance_to(scan.first()))
+        } else {
+            None
         }
-    });
+    })
 }
 
 
 /// quicksort implemented using regular bounds checked indexing
-pub fn quicksort_bounds<T: Ord>(v: &mut [T]) {
+pub fn quicksort_bounds<T: Ord>(mut v: &mut [T]) {
+    while let Some(mid) = partition_bounds(v) {
+        // recurse into the shorter part only: the depth stays logarithmic
+        let (a, b) = { v }.split_at_mut(mid);
+        v = if a.len() < b.len() { quicksort_bounds(a); b } else { quicksort_bounds(b); a };
+    }
+}
+
+/// Partition around a pivot and return where to split; sort if short
+fn partition_bounds<T: Ord>(v: &mut [T]) -> Option<usize> {
     // Fall back to insertion sort for short sections
     if v.len() <= QS_INSERTION_SORT_THRESH {
         insertion_sort_ranges(&mut v[..], |x, y| x < y);
-        return;
+        return None;
     }
 
     let (l, m, r) = (0, v.len() / 2, v.len() - 1);
@@ -184,10 +210,8 @@ pub fn quicksort_bounds<T: Ord>(v: &mut [T]) {
         i += 1;
     }
 
-    // ok split at pivot location and recurse
-    let (a, b) = v.split_at_mut(i);
-    quicksort_bounds(a);
-    quicksort_bounds(b);
+    // ok split at pivot location
+    Some(i)
 }
 
 #[cfg(feature="experimental_pointer_ranges")]
-- 
2.43.0

