From 37f9b19bbe0215240b376914e5b9d783a0fdc144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 1/7] fix: forward_by must not overflow for large offsets

index + offset overflowed: a panic with overflow checks, and without them
the index wrapped around, moved backwards and true was returned. Saturate,
like advance_by and forward_range_by do.
---
 src/container.rs | 2 +-
 src/indexing.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 2c54fb6..bf8efee 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -217,7 +217,7 @@ impl<'id, Array, T, Mode> Container<'id, Array, Mode>
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.len() {
             index.index = i;
             true
diff --git a/src/indexing.rs b/src/indexing.rs
index c701ab0..46b9283 100644
--- a/src/indexing.rs
+++ b/src/indexing.rs
@@ -265,7 +265,7 @@ impl<'id, P> Range<'id, P> {
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.end {
             index.index = i;
             true
-- 
2.43.0


From 4609c12795cab35771354b3e38580c129bf57c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 2/7] fix: allow indices above isize::MAX (zero-sized elements)

Slices of zero-sized elements can be longer than isize::MAX, and vet, range
iteration etc. panicked on their valid indices in debug builds.
---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 59cba42..d165534 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -169,7 +169,6 @@ copy_and_clone!(['id, P] Index<'id, P>);
 impl<'id, P> Index<'id, P> {
     #[inline(always)]
     unsafe fn new(index: usize) -> Index<'id, P> {
-        debug_assert!(index as isize >= 0);
         Index { id: Id::default(), index: index, proof: PhantomData }
     }
 
-- 
2.43.0


From a3568ae465f250136bf223bc3b009cc86147db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 3/7] fix: scan_tail_ from the past-the-end pointer must stay
 in bounds

The pointer may be an edge pointer (any proof is accepted); the returned
range then ended one element past the end of the container, and slicing
the container with it read out of bounds.
---
 src/pointer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 9a7168e..90f4821 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -321,7 +321,14 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
                 }
                 end.dec();
             }
-            PRange::new(end, index.ptr().offset(1))
+            // an edge index has no element to include
+            let container_end = self.pointer_range().end;
+            let after = if index.ptr() == container_end {
+                container_end
+            } else {
+                index.ptr().offset(1)
+            };
+            PRange::new(end, after)
         }
     }
 
-- 
2.43.0


From 064b066f5e9478fc0eb4486ba7895a9570ccd8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 4/7] fix: split_container_at_pointer requires mutable storage

It hands out two mutable slices, but accepted containers of shared slices,
so that safe code could write through a shared reference.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 90f4821..f171e17 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -384,7 +384,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
         }
     }
 }
-impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
+impl<'id, T, Array> Container<'id, Array> where Array: ContiguousMut<Item=T> {
     #[inline]
     pub fn split_container_at_pointer<P, F, Out>(&mut self, index: PIndex<'id, T, P>, f: F) -> Out
         //-> (PRange<'id, T>, PRange<'id, T, P>)
-- 
2.43.0


From d0b0334ce292e2c124d82f761d743eeb32bbcc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 5/7] fix: lower_bound_raw_ptr divided by zero for zero-sized
 elements

All elements of such a slice are equal, so the lower bound is 0, as
lower_bound returns.
---
 src/algorithms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index c92beb0..a37f953 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -829,10 +829,10 @@ pub fn lower_bound_raw_ptr<T: PartialOrd>(v: &[T], elt: &T) -> usize {
     }
 }
 
-/// return the number of steps between a and b
+/// return the number of steps between a and b (zero for zero-sized elements)
 fn ptrdistance<T>(from: *const T, to: *const T) -> usize {
     use std::mem;
-    (to as usize - from as usize) / mem::size_of::<T>()
+    (to as usize - from as usize) / cmp::max(1, mem::size_of::<T>())
 }
 
 
-- 
2.43.0


From 0d07f6fb9f00cd9830a55c3b9dd75be0b847845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 6/7] hook: cfg(indexing_mc) lowers the insertion sort
 threshold

---
 src/algorithms.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index a37f953..140cc35 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -28,7 +28,13 @@ macro_rules! puts {
 */
 
 // limit for switching to insertion sort
+#[allow(unexpected_cfgs)]
+#[cfg(not(indexing_mc))]
 const QS_INSERTION_SORT_THRESH: usize = 24;
+// model checking: lets small inputs reach the partition
+#[allow(unexpected_cfgs)]
+#[cfg(indexing_mc)]
+const QS_INSERTION_SORT_THRESH: usize = 4;
 
 /// Simple quicksort implemented using `Range`,
 pub fn quicksort_range<T: Ord>(v: &mut [T]) {
-- 
2.43.0


From 3e72a5bf7a737070717e6700247ad089f2935f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 7/7] fix: quicksort recursion depth is logarithmic

Sorted input split badly, so that the recursion depth was proportional to
the length of the input and long input overflowed the stack. Recurse into
the shorter part only and loop on the longer.
---
 src/algorithms.rs | 114 +++++++++++++++++++++++++---------------------
 1 file changed, 63 insertions(+), 51 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index 140cc35..29420ea 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -39,11 +39,11 @@ const QS_INSERTION_SORT_THRESH: usize = 4;
 /// Simple quicksort implemented using `Range`,
 pub fn quicksort_range<T: Ord>(v: &mut [T]) {
     scope(v, |mut v| {
-        let range = v.range();
-        if let Ok(range) = range.nonempty() {
+        let mut rest = v.range();
+        while let Ok(range) = rest.nonempty() {
             // Fall back to insertion sort for short sections
             if range.len() <= QS_INSERTION_SORT_THRESH {
-                insertion_sort_ranges(&mut v[..], |x, y| x < y);
+                insertion_sort_ranges(&mut v[range], |x, y| x < y);
                 return;
             }
 
@@ -82,11 +82,13 @@ pub fn quicksort_range<T: Ord>(v: &mut [T]) {
                 }
             }
 
-            // ok split at pivot location and recurse
-            let (a, b) = v.split_at(scan.first());
+            // ok split at pivot location; recurse into the shorter part and
+            // continue with the longer, so that the depth is logarithmic
+            let (a, b, _) = range.split_at(scan.start() - range.start());
             //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
-            quicksort_range(&mut v[a]);
-            quicksort_range(&mut v[b]);
+            let (short, long) = if a.len() < b.len() { (a, b) } else { (b, a) };
+            quicksort_range(&mut v[short]);
+            rest = long;
         }
     });
 }
@@ -95,11 +97,11 @@ pub fn quicksort_range<T: Ord>(v: &mut [T]) {
 #[cfg(feature="experimental_pointer_ranges")]
 pub fn quicksort_prange<T: Ord>(v: &mut [T]) {
     scope(v, |mut v| {
-        let range = v.pointer_range();
-        if let Ok(range) = range.nonempty() {
+        let mut rest = v.pointer_range();
+        while let Ok(range) = rest.nonempty() {
             // Fall back to insertion sort for short sections
             if range.len() <= QS_INSERTION_SORT_THRESH {
-                insertion_sort_ranges(&mut v[..], |x, y| x < y);
+                insertion_sort_ranges(&mut v[range], |x, y| x < y);
                 return;
             }
 
@@ -138,59 +140,69 @@ pub fn quicksort_prange<T: Ord>(v: &mut [T]) {
                 }
             }
 
-            // ok split at pivot location and recurse
-            let (a, b) = v.split_at_pointer(scan.first());
+            // ok split at pivot location; recurse into the shorter part and
+            // continue with the longer, so that the depth is logarithmic
+            let a = v.nonempty_range(range.first(), scan.first());
+            let b = v.nonempty_range(scan.first(), range.past_the_end());
             //puts!("a={:?}, pivot={:?}, b={:?}", &v[a], &v[scan.first()], &v[b]);
-            quicksort_prange(&mut v[a]);
-            quicksort_prange(&mut v[b]);
+            rest = match (a, b) {
+                (Ok(a), Ok(b)) => {
+                    let (short, long) = if a.len() < b.len() { (a, b) } else { (b, a) };
+                    quicksort_prange(&mut v[short]);
+                    long.no_proof()
+                }
+                (Ok(r), Err(_)) | (Err(_), Ok(r)) => r.no_proof(),
+                (Err(_), Err(_)) => return,
+            };
         }
     });
 }
 
 
 /// quicksort implemented using regular bounds checked indexing
-pub fn quicksort_bounds<T: Ord>(v: &mut [T]) {
-    // Fall back to insertion sort for short sections
-    if v.len() <= QS_INSERTION_SORT_THRESH {
-        insertion_sort_ranges(&mut v[..], |x, y| x < y);
-        return;
-    }
-
-    let (l, m, r) = (0, v.len() / 2, v.len() - 1);
-    let mut pivot = if v[l] <= v[m] && v[m] <= v[r] {
-        m
-    } else if v[m] <= v[l] && v[l] <= v[r] {
-        l
-    } else {
-        r
-    };
-
-    // partition
-    v.swap(0, pivot);
-    pivot = 0;
-    let mut i = 0;
-    let mut j = v.len() - 1;
-    'main: loop {
-        if v[i] >= v[pivot] {
-            loop {
-                if v[j] <= v[pivot] {
-                    v.swap(i, j);
-                    break;
+pub fn quicksort_bounds<T: Ord>(mut v: &mut [T]) {
+    while v.len() > QS_INSERTION_SORT_THRESH {
+        let (l, m, r) = (0, v.len() / 2, v.len() - 1);
+        let mut pivot = if v[l] <= v[m] && v[m] <= v[r] {
+            m
+        } else if v[m] <= v[l] && v[l] <= v[r] {
+            l
+        } else {
+            r
+        };
+
+        // partition
+        v.swap(0, pivot);
+        pivot = 0;
+        let mut i = 0;
+        let mut j = v.len() - 1;
+        'main: loop {
+            if v[i] >= v[pivot] {
+                loop {
+                    if v[j] <= v[pivot] {
+                        v.swap(i, j);
+                        break;
+                    }
+                    j -= 1;
+                    if i >= j { break 'main; }
                 }
-                j -= 1;
-                if i >= j { break 'main; }
             }
+            if i >= j {
+                break;
+            }
+            i += 1;
         }
-        if i >= j {
-            break;
-        }
-        i += 1;
+
+        // ok split at pivot location; recurse into the shorter part and
+        // continue with the longer, so that the depth is logarithmic
+        let (a, b) = v.split_at_mut(i);
+        let (short, long) = if a.len() < b.len() { (a, b) } else { (b, a) };
+        quicksort_bounds(short);
+        v = long;
     }
 
-    // ok split at pivot location and recurse
-    let (a, b) = v.split_at_mut(i);
-    quicksort_bounds(a);
-    quicksort_bounds(b);
+    // Fall back to insertion sort for short sections
+    insertion_sort_ranges(v, |x, y| x < y);
 }
 
 #[cfg(feature="experimental_pointer_ranges")]
-- 
2.43.0

