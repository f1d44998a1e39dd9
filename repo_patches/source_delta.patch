From da17dc39aa12ec6ff6cc35b64274852dd2963c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:31 +0000
Subject: [PATCH 01/22] fix: counter summary does not count a reset for a point
 it ignores

A point at the same time as the last one is dropped by add_point, but its
value was still compared by reset(), inflating num_resets and reset_sum.
---
 crates/counter-agg/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/counter-agg/src/lib.rs b/crates/counter-agg/src/lib.rs
index eafeca1..25012c0 100644
--- a/crates/counter-agg/src/lib.rs
+++ b/crates/counter-agg/src/lib.rs
@@ -360,7 +360,10 @@ impl CounterSummaryBuilder {
 
     /// expects time-ordered input
     pub fn add_point(&mut self, incoming: &TSPoint) -> Result<(), CounterError> {
-        self.0.reset(incoming);
+        // a point at the same time as the last one is ignored, so it cannot be a reset either
+        if incoming.ts > self.0.last.ts {
+            self.0.reset(incoming);
+        }
         self.0.add_point(incoming)
     }
 
-- 
2.43.0


From 0dea78f8938fc0dd0334ea0ebc2f815854cef24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:31 +0000
Subject: [PATCH 02/22] fix: TimeWeightSummary::with_bounds keeps the start
 extension when both bounds are given

---
 crates/time-weighted-average/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/time-weighted-average/src/lib.rs b/crates/time-weighted-average/src/lib.rs
index 6e54786..8c8c8db 100644
--- a/crates/time-weighted-average/src/lib.rs
+++ b/crates/time-weighted-average/src/lib.rs
@@ -129,7 +129,7 @@ impl TimeWeightSummary {
         }
 
         if let Some((end, next)) = end_next {
-            calc = self.with_next(end, next)?
+            calc = calc.with_next(end, next)?
         }
         Ok(calc)
     }
-- 
2.43.0


From da8715b37e4f1e915e9db568e28f3c94f757ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 03/22] fix: t-digest builder merge keeps the values still
 buffered on either side

merge_unsorted returns the new digest; its result was dropped, so merging
partial aggregates lost every value that had not been digested yet.
---
 crates/t-digest/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 0856b31..e0b8fd7 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -726,12 +726,12 @@ impl Builder {
 
     pub fn merge(&mut self, other: Self) {
         assert_eq!(self.digested.max_size(), other.digested.max_size());
-        let digvec = vec![std::mem::take(&mut self.digested), other.digested];
+        let mut digvec = vec![std::mem::take(&mut self.digested), other.digested];
         if !self.buffer.is_empty() {
-            digvec[0].merge_unsorted(std::mem::take(&mut self.buffer));
+            digvec[0] = digvec[0].merge_unsorted(std::mem::take(&mut self.buffer));
         }
         if !other.buffer.is_empty() {
-            digvec[1].merge_unsorted(other.buffer);
+            digvec[1] = digvec[1].merge_unsorted(other.buffer);
         }
         self.digested = TDigest::merge_digests(digvec);
     }
-- 
2.43.0


From 7c53291c4b3bac5214e437e7007ef325382359f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 04/22] fix: t-digest rank of the minimum or maximum value is
 not NaN

---
 crates/t-digest/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index e0b8fd7..44354c3 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -552,10 +552,13 @@ impl TDigest {
                 + (v - weighted_midpoint) / (hi_bound - weighted_midpoint) * hi_weight as f64 / 2.0)
                 / self.count as f64
         } else {
-            (accum_weight as f64
-                - (weighted_midpoint - v) / (weighted_midpoint - low_bound) * low_weight as f64
-                    / 2.0)
-                / self.count as f64
+            // v == low_bound may coincide with weighted_midpoint, and then 0/0 would be NaN
+            let distance = if v > low_bound {
+                (weighted_midpoint - v) / (weighted_midpoint - low_bound)
+            } else {
+                1.0
+            };
+            (accum_weight as f64 - distance * low_weight as f64 / 2.0) / self.count as f64
         }
     }
 
-- 
2.43.0


From 0e434eb3ada6ce82227aa5878585e72222e6130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 05/22] fix: merging empty t-digests keeps their size

---
 crates/t-digest/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 44354c3..d6825df 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -420,7 +420,10 @@ impl TDigest {
     pub fn merge_digests(digests: Vec<TDigest>) -> TDigest {
         let n_centroids: usize = digests.iter().map(|d| d.centroids.len()).sum();
         if n_centroids == 0 {
-            return TDigest::default();
+            return match digests.first() {
+                Some(digest) => TDigest::new_with_size(digest.max_size),
+                None => TDigest::default(),
+            };
         }
 
         // TODO should this be the smaller of the sizes?
-- 
2.43.0


From b554c88a52fcf40c851c6eaddd9dd1f607c8a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 06/22] verif hooks: expose private HyperLogLog and UDDSketch
 items to /verif, guarded by cfg(tsdbtk_verif)

---
 crates/hyperloglogplusplus/src/dense.rs  | 5 +++++
 crates/hyperloglogplusplus/src/lib.rs    | 5 +++++
 crates/hyperloglogplusplus/src/sparse.rs | 5 +++++
 crates/udd-sketch/src/lib.rs             | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/crates/hyperloglogplusplus/src/dense.rs b/crates/hyperloglogplusplus/src/dense.rs
index 4289e57..cae9087 100644
--- a/crates/hyperloglogplusplus/src/dense.rs
+++ b/crates/hyperloglogplusplus/src/dense.rs
@@ -231,6 +231,11 @@ impl<'s> Storage<'s> {
     }
 }
 
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/hll_dense.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use fnv::FnvHasher;
diff --git a/crates/hyperloglogplusplus/src/lib.rs b/crates/hyperloglogplusplus/src/lib.rs
index 2cafefb..5a3adc0 100644
--- a/crates/hyperloglogplusplus/src/lib.rs
+++ b/crates/hyperloglogplusplus/src/lib.rs
@@ -209,6 +209,11 @@ pub fn precision_for_error(max_error: f64) -> u8 {
     precision as u8
 }
 
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/hll.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::HashSet;
diff --git a/crates/hyperloglogplusplus/src/sparse.rs b/crates/hyperloglogplusplus/src/sparse.rs
index 5e50c7f..1e0a837 100644
--- a/crates/hyperloglogplusplus/src/sparse.rs
+++ b/crates/hyperloglogplusplus/src/sparse.rs
@@ -262,6 +262,11 @@ impl Ord for Encoded {
     }
 }
 
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/hll_sparse.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use fnv::FnvHasher;
diff --git a/crates/udd-sketch/src/lib.rs b/crates/udd-sketch/src/lib.rs
index dfd53fa..03e0e80 100644
--- a/crates/udd-sketch/src/lib.rs
+++ b/crates/udd-sketch/src/lib.rs
@@ -651,6 +651,11 @@ pub fn gamma(alpha: f64) -> f64 {
     (1.0 + alpha) / (1.0 - alpha)
 }
 
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/udd.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use rand::{RngExt as _, SeedableRng};
-- 
2.43.0


From 004bf0b2be83c36c538e0e5a4483ad120628d382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 07/22] fix: nmost rollup must not stop early while there is
 still room

Rolling up {5, 4} into {10} with a capacity of three returned {10}: the early exit for
sorted input compared against the heap's root even when the heap was not full.
---
 extension/src/nmost.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/extension/src/nmost.rs b/extension/src/nmost.rs
index 018e886..0e471be 100644
--- a/extension/src/nmost.rs
+++ b/extension/src/nmost.rs
@@ -42,9 +42,13 @@ impl<T: Ord> NMostTransState<T> {
         new_heap
     }
 
+    fn is_full(&self) -> bool {
+        self.heap.len() == self.capacity
+    }
+
     fn new_entry(&mut self, new_val: T) {
         // If at capacity see if we need to replace something
-        if self.heap.len() == self.capacity {
+        if self.is_full() {
             if !self.belongs_in_heap(&new_val) {
                 return;
             }
@@ -102,7 +106,8 @@ fn nmost_rollup_trans_function<T: Ord + Copy>(
             if let Some(mut state) = state {
                 for val in sorted_vals {
                     // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.belongs_in_heap(val) {
+                    // (while there is still room every value is added)
+                    if state.is_full() && !state.belongs_in_heap(val) {
                         return Some(state);
                     }
                     state.new_entry(*val);
@@ -267,7 +272,12 @@ fn nmost_by_rollup_trans_function<T: Ord + Copy>(
                     .zip(datum_store.clone().into_anyelement_iter())
                 {
                     // The values are sorted, so as soon as we find one that shouldn't be added, we're done
-                    if !state.values.belongs_in_heap(&(*val, state.values.capacity)) {
+                    // (while there is still room every value is added)
+                    if state.values.is_full()
+                        && !state
+                            .values
+                            .belongs_in_heap(&(*val, state.values.capacity))
+                    {
                         return Some(state);
                     }
                     state.new_entry(*val, element);
-- 
2.43.0


From 018294efcdbbb73b1bd5131358863a545e2134a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:45 +0000
Subject: [PATCH 08/22] fix: max_n/min_n final functions must not empty the
 aggregate state

A final function may run several times on one state (window frames, shared state);
taking the heap out of the state lost every value seen so far.
---
 extension/src/nmost/max_float.rs | 2 +-
 extension/src/nmost/max_int.rs   | 2 +-
 extension/src/nmost/max_time.rs  | 2 +-
 extension/src/nmost/min_float.rs | 2 +-
 extension/src/nmost/min_int.rs   | 2 +-
 extension/src/nmost/min_time.rs  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 28263d7..8c2a955 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -28,7 +28,7 @@ ron_inout_funcs!(MaxFloats<'input>);
 
 impl<'input> From<&mut MaxFloatTransType> for MaxFloats<'input> {
     fn from(item: &mut MaxFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 0af682a..5cd777f 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxInts<'input>);
 
 impl<'input> From<&mut MaxIntTransType> for MaxInts<'input> {
     fn from(item: &mut MaxIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index 930adef..d36382b 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxTimes<'input>);
 
 impl<'input> From<&mut MaxTimeTransType> for MaxTimes<'input> {
     fn from(item: &mut MaxTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxTimes {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index ba72207..0a3c8ab 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MinFloats<'input>);
 
 impl<'input> From<&mut MinFloatTransType> for MinFloats<'input> {
     fn from(item: &mut MinFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index e832ce6..93ea5f1 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinInts<'input>);
 
 impl<'input> From<&mut MinIntTransType> for MinInts<'input> {
     fn from(item: &mut MinIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index a121a81..6d892a0 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinTimes<'input>);
 
 impl<'input> From<&mut MinTimeTransType> for MinTimes<'input> {
     fn from(item: &mut MinTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinTimes {
                 capacity: item.capacity as u32,
-- 
2.43.0


From 6bdba0e4bec72af1c33ddd4cd2f4ea7c60d60f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:02 +0000
Subject: [PATCH 09/22] fix: tdigest final function must not empty the
 aggregate state

---
 extension/src/tdigest.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extension/src/tdigest.rs b/extension/src/tdigest.rs
index 07d9f1a..724cf90 100644
--- a/extension/src/tdigest.rs
+++ b/extension/src/tdigest.rs
@@ -186,12 +186,13 @@ impl<'input> TDigest<'input> {
 fn tdigest_final(state: Internal, fcinfo: pg_sys::FunctionCallInfo) -> Option<TDigest<'static>> {
     unsafe {
         in_aggregate_context(fcinfo, || {
-            let mut state = state;
-            let state: &mut tdigest::Builder = match state.get_mut() {
+            let state: &tdigest::Builder = match state.get() {
                 None => return None,
                 Some(state) => state,
             };
-            TDigest::from_internal_tdigest(&state.build()).into()
+            // building takes the digest out of the builder; the state itself must survive, it may be
+            // finalized again (window frames, shared state)
+            TDigest::from_internal_tdigest(&state.clone().build()).into()
         })
     }
 }
-- 
2.43.0


From 1204cb639aad79e6df819fa529b0cdd58259473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 10/22] fix: heartbeat_agg rollup must not shorten live ranges
 or panic on trimmed aggregates

The fast path assumed that the first new interval reaches at least as far as the last old
one, which trimmed intervals do not, and that both sides have intervals.
---
 extension/src/heartbeat_agg.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 2bb8b50..2dbe6bb 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -114,23 +114,14 @@ impl HeartbeatTransState {
     }
 
     fn combine_intervals(&mut self, new_intervals: Vec<(i64, i64)>) {
-        // Optimized path for nonoverlapping, ordered inputs
-        if self.last < new_intervals.first().unwrap().0 {
-            let mut new_intervals = new_intervals.into_iter();
-
-            // Grab the first new interval to check for overlap with the existing data
-            let first_new = new_intervals.next().unwrap();
-
-            if self.liveness.last().unwrap().1 >= first_new.0 {
-                // Note that the bound of the new interval must be >= the old bound
-                self.liveness.last_mut().unwrap().1 = first_new.1;
-            } else {
-                self.liveness.push(first_new);
-            }
+        // Either side has no intervals if it was trimmed to a range without liveness
+        let Some(first_new) = new_intervals.first() else {
+            return;
+        };
 
-            for val in new_intervals {
-                self.liveness.push(val);
-            }
+        // Optimized path for nonoverlapping, ordered inputs
+        if self.liveness.last().is_none_or(|last| last.1 < first_new.0) {
+            self.liveness.extend(new_intervals);
             return;
         }
 
-- 
2.43.0


From ffb93094f73128230fc43dd5dbfaa6ff6bc4484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 11/22] fix: heartbeat_agg trim_to of ranges with dead edges or
 no liveness

Trimming to a range that starts after the last live interval indexed out of bounds, a range
inside a gap produced an interval ending before it starts, an aggregate without intervals
underflowed, and trimming at the aggregate's own end forgot when the last heartbeat was.
---
 extension/src/heartbeat_agg.rs | 74 +++++++++++++---------------------
 1 file changed, 27 insertions(+), 47 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 2dbe6bb..ee7da33 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -204,63 +204,43 @@ ron_inout_funcs!(HeartbeatAgg<'input>);
 
 impl HeartbeatAgg<'_> {
     fn trim_to(self, start: Option<i64>, end: Option<i64>) -> HeartbeatAgg<'static> {
-        if (start.is_some() && start.unwrap() < self.start_time)
-            || (end.is_some() && end.unwrap() > self.end_time)
-        {
+        let new_start = start.unwrap_or(self.start_time);
+        let new_end = end.unwrap_or(self.end_time);
+        if new_start < self.start_time || new_end > self.end_time || new_start > new_end {
             error!("Can not query beyond the original aggregate bounds");
         }
 
+        // Keep what lies within the new bounds of each live interval, which may be nothing at all
         let mut starts: Vec<i64> = vec![];
         let mut ends: Vec<i64> = vec![];
-        for i in 0..self.num_intervals as usize {
-            starts.push(self.interval_starts.slice()[i]);
-            ends.push(self.interval_ends.slice()[i]);
-        }
-
-        let low_idx = if let Some(start) = start {
-            let mut idx = 0;
-            while idx < self.num_intervals as usize && ends[idx] < start {
-                idx += 1;
-            }
-            if starts[idx] < start {
-                starts[idx] = start;
+        // With nothing left alive, nothing is known to stay alive past the new start
+        let mut last_seen = new_start - self.interval_len;
+        let last_end = self.interval_ends.as_slice().last().copied();
+        for (interval_start, interval_end) in
+            self.interval_starts.iter().zip(self.interval_ends.iter())
+        {
+            if interval_end <= new_start || interval_start >= new_end {
+                continue;
             }
-            idx
-        } else {
-            0
-        };
-
-        let mut new_last = None;
-        let high_idx = if let Some(end) = end {
-            if self.num_intervals > 0 {
-                let mut idx = self.num_intervals as usize - 1;
-                while idx > low_idx && starts[idx] > end {
-                    idx -= 1;
-                }
-                new_last = Some(ends[idx] - self.interval_len);
-                if ends[idx] > end {
-                    if end < new_last.unwrap() {
-                        new_last = Some(end);
-                    }
-                    ends[idx] = end;
-                }
-                idx
+            starts.push(max(interval_start, new_start));
+            ends.push(min(interval_end, new_end));
+            let last_heartbeat = if Some(interval_end) == last_end {
+                self.last_seen // this interval's end may have been cut off by the aggregate's end
             } else {
-                self.num_intervals as usize - 1
-            }
-        } else {
-            self.num_intervals as usize - 1
-        };
+                interval_end - self.interval_len
+            };
+            last_seen = min(last_heartbeat, new_end);
+        }
 
         unsafe {
             flatten!(HeartbeatAgg {
-                start_time: start.unwrap_or(self.start_time),
-                end_time: end.unwrap_or(self.end_time),
-                last_seen: new_last.unwrap_or(self.last_seen),
+                start_time: new_start,
+                end_time: new_end,
+                last_seen,
                 interval_len: self.interval_len,
-                num_intervals: (high_idx - low_idx + 1) as u64,
-                interval_starts: starts[low_idx..=high_idx].into(),
-                interval_ends: ends[low_idx..=high_idx].into(),
+                num_intervals: starts.len() as u64,
+                interval_starts: starts.into(),
+                interval_ends: ends.into(),
             })
         }
     }
@@ -278,7 +258,7 @@ impl HeartbeatAgg<'_> {
     fn interpolate_start(&mut self, pred: &Self) {
         // only allow interpolation of non-overlapping ranges
         assert!(pred.end_time <= self.start_time);
-        let pred_end = pred.last_seen + self.interval_len;
+        let pred_end = min(pred.last_seen + self.interval_len, self.end_time);
 
         if pred_end <= self.start_time {
             return;
-- 
2.43.0


From bd845c4ed4b1b4560922c78f3ed367e13e6c4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:13 +0000
Subject: [PATCH 12/22] verif hooks: expose private extension items to /verif,
 guarded by cfg(tsdbtk_verif)

---
 extension/src/asap.rs                             | 5 +++++
 extension/src/candlestick.rs                      | 5 +++++
 extension/src/counter_agg.rs                      | 5 +++++
 extension/src/counter_agg/accessors.rs            | 5 +++++
 extension/src/countminsketch.rs                   | 5 +++++
 extension/src/datum_utils.rs                      | 5 +++++
 extension/src/duration.rs                         | 5 +++++
 extension/src/frequency.rs                        | 5 +++++
 extension/src/gauge_agg.rs                        | 5 +++++
 extension/src/heartbeat_agg.rs                    | 5 +++++
 extension/src/heartbeat_agg/accessors.rs          | 5 +++++
 extension/src/hyperloglog.rs                      | 5 +++++
 extension/src/lib.rs                              | 5 +++++
 extension/src/lttb.rs                             | 5 +++++
 extension/src/nmost.rs                            | 5 +++++
 extension/src/range.rs                            | 5 +++++
 extension/src/saturation.rs                       | 5 +++++
 extension/src/serialization.rs                    | 5 +++++
 extension/src/state_aggregate.rs                  | 5 +++++
 extension/src/state_aggregate/accessors.rs        | 5 +++++
 extension/src/state_aggregate/rollup.rs           | 5 +++++
 extension/src/stats_agg.rs                        | 5 +++++
 extension/src/tdigest.rs                          | 5 +++++
 extension/src/time_vector.rs                      | 5 +++++
 extension/src/time_vector/iter.rs                 | 5 +++++
 extension/src/time_vector/pipeline.rs             | 5 +++++
 extension/src/time_vector/pipeline/aggregation.rs | 5 +++++
 extension/src/time_vector/pipeline/arithmetic.rs  | 5 +++++
 extension/src/time_vector/pipeline/delta.rs       | 5 +++++
 extension/src/time_vector/pipeline/expansion.rs   | 5 +++++
 extension/src/time_vector/pipeline/fill_to.rs     | 5 +++++
 extension/src/time_vector/pipeline/filter.rs      | 5 +++++
 extension/src/time_vector/pipeline/lambda.rs      | 5 +++++
 extension/src/time_vector/pipeline/map.rs         | 5 +++++
 extension/src/time_vector/pipeline/sort.rs        | 5 +++++
 extension/src/time_weighted_average.rs            | 5 +++++
 extension/src/time_weighted_average/accessors.rs  | 5 +++++
 extension/src/uddsketch.rs                        | 5 +++++
 38 files changed, 190 insertions(+)

diff --git a/extension/src/asap.rs b/extension/src/asap.rs
index 2bffd8a..7256018 100644
--- a/extension/src/asap.rs
+++ b/extension/src/asap.rs
@@ -411,3 +411,8 @@ mod tests {
         })
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_asap.rs"));
+}
diff --git a/extension/src/candlestick.rs b/extension/src/candlestick.rs
index ddcc5b6..3382c80 100644
--- a/extension/src/candlestick.rs
+++ b/extension/src/candlestick.rs
@@ -1053,3 +1053,8 @@ mod tests {
         assert_eq!(*output_buffer, expected);
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_candlestick.rs"));
+}
diff --git a/extension/src/counter_agg.rs b/extension/src/counter_agg.rs
index 45d0db6..3254f58 100644
--- a/extension/src/counter_agg.rs
+++ b/extension/src/counter_agg.rs
@@ -1860,3 +1860,8 @@ pub(crate) mod testing {
             ).unwrap();
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_counter_agg.rs"));
+}
diff --git a/extension/src/counter_agg/accessors.rs b/extension/src/counter_agg/accessors.rs
index 1d2d379..dbfb24f 100644
--- a/extension/src/counter_agg/accessors.rs
+++ b/extension/src/counter_agg/accessors.rs
@@ -89,3 +89,8 @@ fn counter_interpolated_delta_accessor(
         }
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_counter_agg_accessors.rs"));
+}
diff --git a/extension/src/countminsketch.rs b/extension/src/countminsketch.rs
index 5413bb0..53d91d2 100644
--- a/extension/src/countminsketch.rs
+++ b/extension/src/countminsketch.rs
@@ -295,3 +295,8 @@ mod tests {
         })
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_countminsketch.rs"));
+}
diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index b92b4af..ba36285 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -734,3 +734,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_datum_utils.rs"));
+}
diff --git a/extension/src/duration.rs b/extension/src/duration.rs
index c2886cb..c81c0ab 100644
--- a/extension/src/duration.rs
+++ b/extension/src/duration.rs
@@ -87,3 +87,8 @@ mod test {
         assert_eq!(DurationUnit::from_str(""), None);
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_duration.rs"));
+}
diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index b99abc9..a7a1864 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -2764,3 +2764,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_frequency.rs"));
+}
diff --git a/extension/src/gauge_agg.rs b/extension/src/gauge_agg.rs
index e65097d..c5f049f 100644
--- a/extension/src/gauge_agg.rs
+++ b/extension/src/gauge_agg.rs
@@ -1119,3 +1119,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_gauge_agg.rs"));
+}
diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index ee7da33..e911170 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -1912,3 +1912,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_heartbeat_agg.rs"));
+}
diff --git a/extension/src/heartbeat_agg/accessors.rs b/extension/src/heartbeat_agg/accessors.rs
index dc30a51..9f98ed9 100644
--- a/extension/src/heartbeat_agg/accessors.rs
+++ b/extension/src/heartbeat_agg/accessors.rs
@@ -151,3 +151,8 @@ fn heartbeat_agg_trim_to_accessor(
         }
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_heartbeat_agg_accessors.rs"));
+}
diff --git a/extension/src/hyperloglog.rs b/extension/src/hyperloglog.rs
index 0332574..15c3257 100644
--- a/extension/src/hyperloglog.rs
+++ b/extension/src/hyperloglog.rs
@@ -1050,3 +1050,8 @@ mod tests {
 
     //TODO test continuous aggregates
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_hyperloglog.rs"));
+}
diff --git a/extension/src/lib.rs b/extension/src/lib.rs
index 59cdc34..ffb7a46 100644
--- a/extension/src/lib.rs
+++ b/extension/src/lib.rs
@@ -80,3 +80,8 @@ pub mod pg_test {
         vec![]
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_lib.rs"));
+}
diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index ed44dff..9b081b7 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -669,3 +669,8 @@ mod tests {
         })
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_lttb.rs"));
+}
diff --git a/extension/src/nmost.rs b/extension/src/nmost.rs
index 0e471be..337a130 100644
--- a/extension/src/nmost.rs
+++ b/extension/src/nmost.rs
@@ -291,3 +291,8 @@ fn nmost_by_rollup_trans_function<T: Ord + Copy>(
         })
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_nmost.rs"));
+}
diff --git a/extension/src/range.rs b/extension/src/range.rs
index dad3ad7..5343f0e 100644
--- a/extension/src/range.rs
+++ b/extension/src/range.rs
@@ -146,3 +146,8 @@ LANGUAGE SQL IMMUTABLE PARALLEL SAFE;\n\
 ",
     name = "time_bucket_range",
 );
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_range.rs"));
+}
diff --git a/extension/src/saturation.rs b/extension/src/saturation.rs
index 360949a..af88de5 100644
--- a/extension/src/saturation.rs
+++ b/extension/src/saturation.rs
@@ -88,3 +88,8 @@ mod tests {
         assert_eq!(i32::MIN, saturating_mul(i32::MAX, -2));
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_saturation.rs"));
+}
diff --git a/extension/src/serialization.rs b/extension/src/serialization.rs
index 6a3bc08..c6e724a 100644
--- a/extension/src/serialization.rs
+++ b/extension/src/serialization.rs
@@ -190,3 +190,8 @@ pub(crate) mod serde_reference_adaptor {
         0
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_serialization.rs"));
+}
diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 3f527a6..9b9359e 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -2772,3 +2772,8 @@ SELECT toolkit_experimental.duration_in('one', toolkit_experimental.compact_stat
         assert_eq!(agg.to_pg_bytes(), expected);
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_state_aggregate.rs"));
+}
diff --git a/extension/src/state_aggregate/accessors.rs b/extension/src/state_aggregate/accessors.rs
index 1e7a7df..975a156 100644
--- a/extension/src/state_aggregate/accessors.rs
+++ b/extension/src/state_aggregate/accessors.rs
@@ -335,3 +335,8 @@ fn accessor_state_agg_state_at_int(time: TimestampTz) -> AccessorStateAtInt {
         }
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_state_aggregate_accessors.rs"));
+}
diff --git a/extension/src/state_aggregate/rollup.rs b/extension/src/state_aggregate/rollup.rs
index eed7162..99de1c8 100644
--- a/extension/src/state_aggregate/rollup.rs
+++ b/extension/src/state_aggregate/rollup.rs
@@ -570,3 +570,8 @@ mod tests {
         assert_eq!(trans_state.values[0], expected.clone());
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_state_aggregate_rollup.rs"));
+}
diff --git a/extension/src/stats_agg.rs b/extension/src/stats_agg.rs
index f025fc0..6b4e7b1 100644
--- a/extension/src/stats_agg.rs
+++ b/extension/src/stats_agg.rs
@@ -2462,3 +2462,8 @@ INSERT INTO prices (
         assert!(result);
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_stats_agg.rs"));
+}
diff --git a/extension/src/tdigest.rs b/extension/src/tdigest.rs
index 724cf90..89cf667 100644
--- a/extension/src/tdigest.rs
+++ b/extension/src/tdigest.rs
@@ -808,3 +808,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_tdigest.rs"));
+}
diff --git a/extension/src/time_vector.rs b/extension/src/time_vector.rs
index 045e49c..e802052 100644
--- a/extension/src/time_vector.rs
+++ b/extension/src/time_vector.rs
@@ -1047,3 +1047,8 @@ mod tests {
         })
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector.rs"));
+}
diff --git a/extension/src/time_vector/iter.rs b/extension/src/time_vector/iter.rs
index acb7e60..ebf488e 100644
--- a/extension/src/time_vector/iter.rs
+++ b/extension/src/time_vector/iter.rs
@@ -34,3 +34,8 @@ impl<'a> Iterator for Iter<'a> {
         self.size_hint().0
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_iter.rs"));
+}
diff --git a/extension/src/time_vector/pipeline.rs b/extension/src/time_vector/pipeline.rs
index eb67eb7..6edc788 100644
--- a/extension/src/time_vector/pipeline.rs
+++ b/extension/src/time_vector/pipeline.rs
@@ -515,3 +515,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline.rs"));
+}
diff --git a/extension/src/time_vector/pipeline/aggregation.rs b/extension/src/time_vector/pipeline/aggregation.rs
index 2cb0882..fd0894a 100644
--- a/extension/src/time_vector/pipeline/aggregation.rs
+++ b/extension/src/time_vector/pipeline/aggregation.rs
@@ -1476,3 +1476,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline_aggregation.rs"));
+}
diff --git a/extension/src/time_vector/pipeline/arithmetic.rs b/extension/src/time_vector/pipeline/arithmetic.rs
index 104c758..a1e4d49 100644
--- a/extension/src/time_vector/pipeline/arithmetic.rs
+++ b/extension/src/time_vector/pipeline/arithmetic.rs
@@ -692,3 +692,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline_arithmetic.rs"));
+}
diff --git a/extension/src/time_vector/pipeline/delta.rs b/extension/src/time_vector/pipeline/delta.rs
index 933b829..4d8f06d 100644
--- a/extension/src/time_vector/pipeline/delta.rs
+++ b/extension/src/time_vector/pipeline/delta.rs
@@ -137,3 +137,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline_delta.rs"));
+}
diff --git a/extension/src/time_vector/pipeline/expansion.rs b/extension/src/time_vector/pipeline/expansion.rs
index 1f3f531..426d563 100644
--- a/extension/src/time_vector/pipeline/expansion.rs
+++ b/extension/src/time_vector/pipeline/expansion.rs
@@ -337,3 +337,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline_expansion.rs"));
+}
diff --git a/extension/src/time_vector/pipeline/fill_to.rs b/extension/src/time_vector/pipeline/fill_to.rs
index 1c0ff92..85486cc 100644
--- a/extension/src/time_vector/pipeline/fill_to.rs
+++ b/extension/src/time_vector/pipeline/fill_to.rs
@@ -289,3 +289,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline_fill_to.rs"));
+}
diff --git a/extension/src/time_vector/pipeline/filter.rs b/extension/src/time_vector/pipeline/filter.rs
index 2d8a794..ba1231e 100644
--- a/extension/src/time_vector/pipeline/filter.rs
+++ b/extension/src/time_vector/pipeline/filter.rs
@@ -142,3 +142,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline_filter.rs"));
+}
diff --git a/extension/src/time_vector/pipeline/lambda.rs b/extension/src/time_vector/pipeline/lambda.rs
index a2bbcd4..a77bf47 100644
--- a/extension/src/time_vector/pipeline/lambda.rs
+++ b/extension/src/time_vector/pipeline/lambda.rs
@@ -958,3 +958,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline_lambda.rs"));
+}
diff --git a/extension/src/time_vector/pipeline/map.rs b/extension/src/time_vector/pipeline/map.rs
index 15e513e..c686a85 100644
--- a/extension/src/time_vector/pipeline/map.rs
+++ b/extension/src/time_vector/pipeline/map.rs
@@ -952,3 +952,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline_map.rs"));
+}
diff --git a/extension/src/time_vector/pipeline/sort.rs b/extension/src/time_vector/pipeline/sort.rs
index db3137e..3aa9c30 100644
--- a/extension/src/time_vector/pipeline/sort.rs
+++ b/extension/src/time_vector/pipeline/sort.rs
@@ -152,3 +152,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_vector_pipeline_sort.rs"));
+}
diff --git a/extension/src/time_weighted_average.rs b/extension/src/time_weighted_average.rs
index 6320a96..3d9aa20 100644
--- a/extension/src/time_weighted_average.rs
+++ b/extension/src/time_weighted_average.rs
@@ -1103,3 +1103,8 @@ mod tests {
         });
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_weighted_average.rs"));
+}
diff --git a/extension/src/time_weighted_average/accessors.rs b/extension/src/time_weighted_average/accessors.rs
index b88c247..684e2a1 100644
--- a/extension/src/time_weighted_average/accessors.rs
+++ b/extension/src/time_weighted_average/accessors.rs
@@ -113,3 +113,8 @@ fn time_weight_interpolated_integral_accessor(
         }
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_time_weighted_average_accessors.rs"));
+}
diff --git a/extension/src/uddsketch.rs b/extension/src/uddsketch.rs
index 0c6f1e3..3913ec2 100644
--- a/extension/src/uddsketch.rs
+++ b/extension/src/uddsketch.rs
@@ -1310,3 +1310,8 @@ mod tests {
         })
     }
 }
+
+#[cfg(tsdbtk_verif)]
+pub mod verif {
+    include!(concat!(env!("TSDBTK_VERIF"), "/ext_uddsketch.rs"));
+}
-- 
2.43.0


From 25dc3990dc8678267ca2dbd28b7704f2d2cd7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:13 +0000
Subject: [PATCH 13/22] fix: bounds ranges with an inclusive infinite end

'[start, infinity]' overflowed: a panic with overflow checks, otherwise a range that ends
at the beginning of time.
---
 extension/src/range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/range.rs b/extension/src/range.rs
index 5343f0e..ce27d1e 100644
--- a/extension/src/range.rs
+++ b/extension/src/range.rs
@@ -28,7 +28,7 @@ pub unsafe fn get_range(range: tstzrange) -> Option<I64Range> {
         range_bytes = &range_bytes[8..];
         let mut left = i64::from_ne_bytes(bytes);
         if !lbound_inclusive(flags) {
-            left += 1;
+            left = left.saturating_add(1); // infinity has no successor
         }
         range.left = Some(left);
     }
@@ -36,7 +36,7 @@ pub unsafe fn get_range(range: tstzrange) -> Option<I64Range> {
         let bytes = range_bytes[..8].try_into().unwrap();
         let mut right = i64::from_ne_bytes(bytes);
         if rbound_inclusive(flags) {
-            right += 1;
+            right = right.saturating_add(1); // infinity has no successor
         }
         range.right = Some(right);
     }
-- 
2.43.0


From 1574d85f11ab211375d909d7402d2c543ba0b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 14/22] fix: state_agg's final function no longer empties the
 transition state

---
 extension/src/state_aggregate.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 9b9359e..c34e53a 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -610,12 +610,10 @@ impl state_agg {
 
             let mut merged_durations: Vec<TimeInState> = Vec::new();
             let mut last_record_state = None;
-            for record in s.records.drain(..) {
-                if last_record_state
-                    .clone()
-                    .map(|last| last != record.state)
-                    .unwrap_or(true)
-                {
+            // the final function must not consume the state: it is called again for every row of a
+            // moving window frame
+            for record in &s.records {
+                if last_record_state != Some(&record.state) {
                     if let Some(prev) = merged_durations.last_mut() {
                         prev.end_time = record.time;
                     }
@@ -624,7 +622,7 @@ impl state_agg {
                         end_time: 0,
                         state: record.state.entry(&mut states),
                     });
-                    last_record_state = Some(record.state);
+                    last_record_state = Some(&record.state);
                 }
             }
             if let Some(last_time_in_state) = merged_durations.last_mut() {
-- 
2.43.0


From f7e3bbabd4b0833d35b9ba2e2be966bc8fccbf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 15/22] fix: lttb no longer overflows when averaging the
 timestamps of a long bucket

---
 extension/src/lttb.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index 9b081b7..45acc78 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -167,6 +167,8 @@ pub fn gap_preserving_lttb_final_inner(
                     start = i + 1;
                 }
             }
+            // the last segment has a single endpoint if it's a lone point
+            endpoints_remaining += if start == count - 1 { 1 } else { 2 };
 
             let mut points_remaining = state.resolution as i64;
             let mut downsampled = vec![];
@@ -277,7 +279,8 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        // Timestamps are large enough for their sum to overflow an i64.
+        let mut avg_x = 0i128;
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -292,10 +295,10 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
-            avg_x += data[idx].ts;
+            avg_x += data[idx].ts as i128;
             avg_y += data[idx].val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
@@ -364,7 +367,8 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        // Timestamps are large enough for their sum to overflow an i64.
+        let mut avg_x = 0i128;
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -380,10 +384,10 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
             let point = data.get(idx).unwrap();
-            avg_x += point.ts;
+            avg_x += point.ts as i128;
             avg_y += point.val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
-- 
2.43.0


From 5db00b8b35cc560430eee799fc0feb065e63ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 16/22] fix: gp_lttb no longer fails when the last stretch is a
 single point

---
 extension/src/lttb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index 45acc78..bdcbab1 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -155,7 +155,7 @@ pub fn gap_preserving_lttb_final_inner(
 
             // Tracking endpoints remaining will keep us from assigning too many points
             // to early LTTB computations when there are lots of gaps later in the timeseries
-            let mut endpoints_remaining = 2;
+            let mut endpoints_remaining = 0;
             let mut start = 0;
             for i in 0..count - 1 {
                 if state.series[i + 1].ts - state.series[i].ts > max_gap {
-- 
2.43.0


From fa8026070e068f81ede2e31000c2afeccdb5531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 17/22] fix: filter() keeps the null flags of the points it
 retains

---
 extension/src/time_vector/pipeline/filter.rs | 26 +++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/extension/src/time_vector/pipeline/filter.rs b/extension/src/time_vector/pipeline/filter.rs
index ba1231e..7bc0ad8 100644
--- a/extension/src/time_vector/pipeline/filter.rs
+++ b/extension/src/time_vector/pipeline/filter.rs
@@ -52,8 +52,32 @@ pub fn filter_lambda_over_series(
     series: &mut Timevector_TSTZ_F64<'_>,
     mut func: impl FnMut(i64, f64) -> bool,
 ) {
-    series.points.as_owned().retain(|p| func(p.ts, p.val));
+    // the null bits have to move along with the points they describe
+    let old_nulls = std::mem::take(series.null_val.as_owned());
+    let mut null_val = vec![];
+    let mut has_nulls = false;
+    let mut old_idx = 0;
+    let mut new_idx = 0;
+    series.points.as_owned().retain(|p| {
+        let keep = func(p.ts, p.val);
+        if keep {
+            if new_idx % 8 == 0 {
+                null_val.push(0);
+            }
+            if old_nulls[old_idx / 8] & (1 << (old_idx % 8)) != 0 {
+                null_val[new_idx / 8] |= 1 << (new_idx % 8);
+                has_nulls = true;
+            }
+            new_idx += 1;
+        }
+        old_idx += 1;
+        keep
+    });
     series.num_points = series.points.len() as _;
+    *series.null_val.as_owned() = null_val;
+    if !has_nulls {
+        series.flags &= !FLAG_HAS_NULLS;
+    }
 }
 
 #[cfg(any(test, feature = "pg_test"))]
-- 
2.43.0


From b201333f5d22ea35dccab3a4b1b9dad011aff171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 18/22] fix: delta() of an empty timevector is empty instead of
 a panic

---
 extension/src/time_vector/pipeline/delta.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/extension/src/time_vector/pipeline/delta.rs b/extension/src/time_vector/pipeline/delta.rs
index 4d8f06d..2c19013 100644
--- a/extension/src/time_vector/pipeline/delta.rs
+++ b/extension/src/time_vector/pipeline/delta.rs
@@ -37,15 +37,17 @@ pub fn timevector_delta<'s>(series: &Timevector_TSTZ_F64<'s>) -> Timevector_TSTZ
     }
 
     let mut it = series.iter();
-    let mut prev = it.next().unwrap().val;
     let mut delta_points = Vec::new();
 
-    for pt in it {
-        delta_points.push(TSPoint {
-            ts: pt.ts,
-            val: pt.val - prev,
-        });
-        prev = pt.val;
+    if let Some(first) = it.next() {
+        let mut prev = first.val;
+        for pt in it {
+            delta_points.push(TSPoint {
+                ts: pt.ts,
+                val: pt.val - prev,
+            });
+            prev = pt.val;
+        }
     }
 
     let nulls_len = delta_points.len().div_ceil(8);
-- 
2.43.0


From e73081301ab05eea86a62b7d8e3258d38f779e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 19/22] fix: fill_to() refuses intervals that are not positive
 instead of never ending

---
 extension/src/time_vector/pipeline/fill_to.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extension/src/time_vector/pipeline/fill_to.rs b/extension/src/time_vector/pipeline/fill_to.rs
index 85486cc..54b227c 100644
--- a/extension/src/time_vector/pipeline/fill_to.rs
+++ b/extension/src/time_vector/pipeline/fill_to.rs
@@ -65,6 +65,9 @@ pub fn fillto_pipeline_element(
         let interval =
             ((*interval).month as i64 * 30 + (*interval).day as i64) * 24 * 60 * 60 * 1000000
                 + (*interval).time;
+        if interval <= 0 {
+            panic!("fill_to requires a positive interval")
+        }
 
         let fill_method = match fill_method.to_lowercase().as_str() {
             "locf" => FillToMethod::Locf,
-- 
2.43.0


From 666559bcc29fa932f04d4d768b44c97568b92d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 20/22] fix: map() over times no longer leaves a timevector
 marked as sorted when it is not

---
 extension/src/time_vector/pipeline/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/time_vector/pipeline/map.rs b/extension/src/time_vector/pipeline/map.rs
index c686a85..12d9171 100644
--- a/extension/src/time_vector/pipeline/map.rs
+++ b/extension/src/time_vector/pipeline/map.rs
@@ -82,6 +82,10 @@ pub fn map_lambda_over_series(
             val: new_val.unwrap_or(point.val),
         }
     }
+    // new times need not be in the order of the old ones
+    if !only_val && !series.points.as_slice().is_sorted_by_key(|p| p.ts) {
+        series.flags &= !FLAG_IS_SORTED;
+    }
 }
 
 #[pg_extern(
-- 
2.43.0


From 3cbe1d7ecd68b4170c1678cdf16a4ca4a65e0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 21/22] fix: fill_to() interpolation takes the length of the
 gap before rounding to a double

---
 extension/src/time_vector/pipeline/fill_to.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/src/time_vector/pipeline/fill_to.rs b/extension/src/time_vector/pipeline/fill_to.rs
index 54b227c..58e62ad 100644
--- a/extension/src/time_vector/pipeline/fill_to.rs
+++ b/extension/src/time_vector/pipeline/fill_to.rs
@@ -23,7 +23,7 @@ impl FillToMethod {
                 val: lhs.val,
             },
             FillToMethod::Interpolate => {
-                let interval = rhs.ts as f64 - lhs.ts as f64;
+                let interval = (rhs.ts - lhs.ts) as f64;
                 let left_wt = 1. - (target_ts - lhs.ts) as f64 / interval;
                 let right_wt = 1. - (rhs.ts - target_ts) as f64 / interval;
                 TSPoint {
-- 
2.43.0


From b6a88913d8d98026734c87fc6d7a46654853b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 22/22] fix: read the values of max_n_by/min_n_by and freq_agg
 from their text form when it has escapes

---
 extension/src/datum_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index ba36285..0697a31 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -341,8 +341,8 @@ impl<'a, 'de> Deserialize<'de> for DatumStore<'a> {
                 let mut reader = DatumFromSerializedTextReader::from_oid(oid);
 
                 let mut data = vec![];
-                while let Some(next) = seq.next_element::<&str>()? {
-                    data.push(reader.read_datum(next));
+                while let Some(next) = seq.next_element::<String>()? {
+                    data.push(reader.read_datum(&next));
                 }
 
                 Ok((oid, data).into())
-- 
2.43.0

