From f82714c144802d43fd3421057b88d824014cd537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 01/57] fix: a repeated timestamp is not a counter reset

---
 crates/counter-agg/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/counter-agg/src/lib.rs b/crates/counter-agg/src/lib.rs
index eafeca1..dcb9d45 100644
--- a/crates/counter-agg/src/lib.rs
+++ b/crates/counter-agg/src/lib.rs
@@ -81,7 +81,8 @@ impl MetricSummary {
     }
 
     fn reset(&mut self, incoming: &TSPoint) {
-        if incoming.val < self.last.val {
+        // points that repeat the last timestamp are ignored, so they can't be a reset either
+        if incoming.ts > self.last.ts && incoming.val < self.last.val {
             self.reset_sum += self.last.val;
             self.num_resets += 1;
         }
-- 
2.43.0


From c61888bad403897fee6f55e033a13c312bdae2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 02/57] fix: nmost rollups keep every value while there is room
 for it

---
 extension/src/nmost.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/src/nmost.rs b/extension/src/nmost.rs
index 018e886..3227f2d 100644
--- a/extension/src/nmost.rs
+++ b/extension/src/nmost.rs
@@ -56,8 +56,9 @@ impl<T: Ord> NMostTransState<T> {
     }
 
     fn belongs_in_heap(&self, val: &T) -> bool {
+        // Anything belongs as long as there's room for it
         // Note that this will actually be '>' if T is a Reverse<...> type
-        val < self.heap.peek().unwrap()
+        self.heap.len() < self.capacity || val < self.heap.peek().unwrap()
     }
 }
 
-- 
2.43.0


From 978e101b96917924588fbeddf465b9f62471e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 03/57] fix: the final functions of max_n and min_n leave the
 transition state intact

---
 extension/src/nmost/max_float.rs | 2 +-
 extension/src/nmost/max_int.rs   | 2 +-
 extension/src/nmost/max_time.rs  | 2 +-
 extension/src/nmost/min_float.rs | 2 +-
 extension/src/nmost/min_int.rs   | 2 +-
 extension/src/nmost/min_time.rs  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 28263d7..8c2a955 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -28,7 +28,7 @@ ron_inout_funcs!(MaxFloats<'input>);
 
 impl<'input> From<&mut MaxFloatTransType> for MaxFloats<'input> {
     fn from(item: &mut MaxFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 0af682a..5cd777f 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxInts<'input>);
 
 impl<'input> From<&mut MaxIntTransType> for MaxInts<'input> {
     fn from(item: &mut MaxIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index 930adef..d36382b 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MaxTimes<'input>);
 
 impl<'input> From<&mut MaxTimeTransType> for MaxTimes<'input> {
     fn from(item: &mut MaxTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MaxTimes {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index ba72207..0a3c8ab 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -27,7 +27,7 @@ ron_inout_funcs!(MinFloats<'input>);
 
 impl<'input> From<&mut MinFloatTransType> for MinFloats<'input> {
     fn from(item: &mut MinFloatTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinFloats {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index e832ce6..93ea5f1 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinInts<'input>);
 
 impl<'input> From<&mut MinIntTransType> for MinInts<'input> {
     fn from(item: &mut MinIntTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinInts {
                 capacity: item.capacity as u32,
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index a121a81..6d892a0 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -25,7 +25,7 @@ ron_inout_funcs!(MinTimes<'input>);
 
 impl<'input> From<&mut MinTimeTransType> for MinTimes<'input> {
     fn from(item: &mut MinTimeTransType) -> Self {
-        let heap = std::mem::take(&mut item.heap);
+        let heap = item.heap.clone();
         unsafe {
             flatten!(MinTimes {
                 capacity: item.capacity as u32,
-- 
2.43.0


From 11a9f4b668135baeb193c0d6812f23a38883a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 04/57] fix: the final function of state_agg leaves the
 transition state intact

---
 extension/src/state_aggregate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/src/state_aggregate.rs b/extension/src/state_aggregate.rs
index 3f527a6..33d875a 100644
--- a/extension/src/state_aggregate.rs
+++ b/extension/src/state_aggregate.rs
@@ -610,7 +610,7 @@ impl state_agg {
 
             let mut merged_durations: Vec<TimeInState> = Vec::new();
             let mut last_record_state = None;
-            for record in s.records.drain(..) {
+            for record in s.records.iter().cloned() {
                 if last_record_state
                     .clone()
                     .map(|last| last != record.state)
-- 
2.43.0


From 0bc3f2ad392111a23134efd70b5c3e9178c06454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 05/57] fix: trimming a heartbeat_agg to a window without live
 ranges

trim_to indexed past the live ranges when the window started after them,
kept ranges outside of the window (with negative lengths) when it fell in
a gap, and lost track of the last heartbeat when the last range was cut off
by the end of the aggregate.
---
 extension/src/heartbeat_agg.rs | 79 ++++++++++++++--------------------
 1 file changed, 33 insertions(+), 46 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 2bb8b50..3efd222 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -114,6 +114,15 @@ impl HeartbeatTransState {
     }
 
     fn combine_intervals(&mut self, new_intervals: Vec<(i64, i64)>) {
+        // Trimmed aggregates may not have any live ranges
+        if new_intervals.is_empty() {
+            return;
+        }
+        if self.liveness.is_empty() {
+            self.liveness = new_intervals;
+            return;
+        }
+
         // Optimized path for nonoverlapping, ordered inputs
         if self.last < new_intervals.first().unwrap().0 {
             let mut new_intervals = new_intervals.into_iter();
@@ -213,63 +222,41 @@ ron_inout_funcs!(HeartbeatAgg<'input>);
 
 impl HeartbeatAgg<'_> {
     fn trim_to(self, start: Option<i64>, end: Option<i64>) -> HeartbeatAgg<'static> {
-        if (start.is_some() && start.unwrap() < self.start_time)
-            || (end.is_some() && end.unwrap() > self.end_time)
-        {
+        let start = start.unwrap_or(self.start_time);
+        let end = end.unwrap_or(self.end_time);
+        if start < self.start_time || end > self.end_time || start > end {
             error!("Can not query beyond the original aggregate bounds");
         }
 
+        let mut last_seen = i64::MIN;
         let mut starts: Vec<i64> = vec![];
         let mut ends: Vec<i64> = vec![];
-        for i in 0..self.num_intervals as usize {
-            starts.push(self.interval_starts.slice()[i]);
-            ends.push(self.interval_ends.slice()[i]);
-        }
-
-        let low_idx = if let Some(start) = start {
-            let mut idx = 0;
-            while idx < self.num_intervals as usize && ends[idx] < start {
-                idx += 1;
-            }
-            if starts[idx] < start {
-                starts[idx] = start;
+        for (range_start, range_end) in self.interval_starts.iter().zip(self.interval_ends.iter()) {
+            // Ranges entirely outside of the new bounds are dropped
+            if range_end <= start || range_start >= end {
+                continue;
             }
-            idx
-        } else {
-            0
-        };
-
-        let mut new_last = None;
-        let high_idx = if let Some(end) = end {
-            if self.num_intervals > 0 {
-                let mut idx = self.num_intervals as usize - 1;
-                while idx > low_idx && starts[idx] > end {
-                    idx -= 1;
-                }
-                new_last = Some(ends[idx] - self.interval_len);
-                if ends[idx] > end {
-                    if end < new_last.unwrap() {
-                        new_last = Some(end);
-                    }
-                    ends[idx] = end;
-                }
-                idx
+            // The last range may have been cut off by the end of the aggregate, but there
+            // last_seen tells us the final heartbeat
+            let range_last = if range_end == self.end_time {
+                self.last_seen
             } else {
-                self.num_intervals as usize - 1
-            }
-        } else {
-            self.num_intervals as usize - 1
-        };
+                range_end - self.interval_len
+            };
+            last_seen = min(range_last, end);
+            starts.push(max(range_start, start));
+            ends.push(min(range_end, end));
+        }
 
         unsafe {
             flatten!(HeartbeatAgg {
-                start_time: start.unwrap_or(self.start_time),
-                end_time: end.unwrap_or(self.end_time),
-                last_seen: new_last.unwrap_or(self.last_seen),
+                start_time: start,
+                end_time: end,
+                last_seen,
                 interval_len: self.interval_len,
-                num_intervals: (high_idx - low_idx + 1) as u64,
-                interval_starts: starts[low_idx..=high_idx].into(),
-                interval_ends: ends[low_idx..=high_idx].into(),
+                num_intervals: starts.len() as u64,
+                interval_starts: starts.into(),
+                interval_ends: ends.into(),
             })
         }
     }
-- 
2.43.0


From f41f3c7c0706fdc3d4d6884883b45102b09bc17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 06/57] fix: heartbeat trim_to accessor ending at the postgres
 epoch

---
 extension/src/heartbeat_agg.rs           | 2 +-
 extension/src/heartbeat_agg/accessors.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index 3efd222..db072af 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -576,7 +576,7 @@ pub fn arrow_heartbeat_agg_trim_to(
     agg: HeartbeatAgg<'static>,
     accessor: HeartbeatTrimToAccessor,
 ) -> HeartbeatAgg<'static> {
-    let end = if accessor.end == 0 {
+    let end = if accessor.end == HeartbeatTrimToAccessor::NO_END {
         None
     } else {
         Some(accessor.end)
diff --git a/extension/src/heartbeat_agg/accessors.rs b/extension/src/heartbeat_agg/accessors.rs
index dc30a51..69f7fa7 100644
--- a/extension/src/heartbeat_agg/accessors.rs
+++ b/extension/src/heartbeat_agg/accessors.rs
@@ -131,6 +131,11 @@ pg_type! {
 
 ron_inout_funcs!(HeartbeatTrimToAccessor);
 
+impl HeartbeatTrimToAccessor {
+    // The end of an accessor that was given no duration. This can't be 0, which is a valid time.
+    pub const NO_END: i64 = i64::MAX;
+}
+
 // Note that this is unable to take only a duration, as we don't have the functionality to store
 // an interval in PG format and are unable to convert it to an int without a reference time.
 // This is a difference from the inline function.
@@ -141,7 +146,7 @@ fn heartbeat_agg_trim_to_accessor(
 ) -> HeartbeatTrimToAccessor {
     let end = duration
         .map(|intv| crate::datum_utils::ts_interval_sum_to_ms(&start, &intv))
-        .unwrap_or(0);
+        .unwrap_or(HeartbeatTrimToAccessor::NO_END);
     let start = i64::from(start);
 
     crate::build! {
-- 
2.43.0


From 2bdc0cd4932c9ab201d719a3ca53035326cabb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 07/57] fix: building a tdigest leaves the builder intact

---
 crates/t-digest/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 0856b31..0b5de3b 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -721,7 +721,7 @@ impl Builder {
 
     pub fn build(&mut self) -> TDigest {
         self.digest();
-        std::mem::take(&mut self.digested)
+        self.digested.clone()
     }
 
     pub fn merge(&mut self, other: Self) {
-- 
2.43.0


From ed9aae86d21bdbc5db0fcf108eef0244f7ce5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 08/57] fix: merging tdigest builders keeps their buffered
 values

---
 crates/t-digest/src/lib.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 0b5de3b..83e5895 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -724,15 +724,11 @@ impl Builder {
         self.digested.clone()
     }
 
-    pub fn merge(&mut self, other: Self) {
+    pub fn merge(&mut self, mut other: Self) {
         assert_eq!(self.digested.max_size(), other.digested.max_size());
+        self.digest();
+        other.digest();
         let digvec = vec![std::mem::take(&mut self.digested), other.digested];
-        if !self.buffer.is_empty() {
-            digvec[0].merge_unsorted(std::mem::take(&mut self.buffer));
-        }
-        if !other.buffer.is_empty() {
-            digvec[1].merge_unsorted(other.buffer);
-        }
         self.digested = TDigest::merge_digests(digvec);
     }
 }
-- 
2.43.0


From e3dad02f56ce69d5d5934eb19f9c072f2162f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 09/57] fix: merging empty tdigests keeps their size

---
 crates/t-digest/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index 83e5895..e909a58 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -420,7 +420,10 @@ impl TDigest {
     pub fn merge_digests(digests: Vec<TDigest>) -> TDigest {
         let n_centroids: usize = digests.iter().map(|d| d.centroids.len()).sum();
         if n_centroids == 0 {
-            return TDigest::default();
+            return match digests.first() {
+                Some(digest) => TDigest::new_with_size(digest.max_size),
+                None => TDigest::default(),
+            };
         }
 
         // TODO should this be the smaller of the sizes?
-- 
2.43.0


From 77dedd3962d9a6c09d99e40725bc2f89e46baece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 10/57] fix: topn of a non-positive number of values

With a mcv_agg a negative N computed a harmonic number of nearly 2^64 terms,
which never ends and can't be interrupted.
---
 extension/src/frequency.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index b99abc9..48d785c 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1415,6 +1415,11 @@ fn validate_topn_for_mcv_agg(
         return;
     }
 
+    if n < 0 {
+        // Nothing was requested, and the number of values below is unsigned
+        return;
+    }
+
     // TODO: should we allow this if we have enough data?
     if n > topn as i32 {
         pgrx::error!(
@@ -1696,7 +1701,7 @@ impl<Input, InputIterator: std::iter::Iterator<Item = Input>> TopNIterator<Input
             datums_iter,
             counts_iter: counts.into_iter(),
             values_seen,
-            max_n: max_n as u32,
+            max_n: max_n.max(0) as u32,
             min_freq,
             i: 0,
         }
-- 
2.43.0


From 1a6aa6bf26804f817cf0a2439468c5c40e1542e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 11/57] fix: the filter pipeline element keeps nulls with their
 points

---
 extension/src/time_vector/pipeline/filter.rs | 24 +++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/extension/src/time_vector/pipeline/filter.rs b/extension/src/time_vector/pipeline/filter.rs
index 2d8a794..a336064 100644
--- a/extension/src/time_vector/pipeline/filter.rs
+++ b/extension/src/time_vector/pipeline/filter.rs
@@ -52,8 +52,30 @@ pub fn filter_lambda_over_series(
     series: &mut Timevector_TSTZ_F64<'_>,
     mut func: impl FnMut(i64, f64) -> bool,
 ) {
-    series.points.as_owned().retain(|p| func(p.ts, p.val));
+    // nulls are stored by position, so they have to follow their points
+    let mut old_idx = 0;
+    let was_null: Vec<bool> = (0..series.num_points()).map(|i| series.is_null_val(i)).collect();
+    let mut is_null = vec![];
+    series.points.as_owned().retain(|p| {
+        let keep = func(p.ts, p.val);
+        if keep {
+            is_null.push(was_null[old_idx]);
+        }
+        old_idx += 1;
+        keep
+    });
     series.num_points = series.points.len() as _;
+
+    let mut null_val = std::vec::from_elem(0_u8, is_null.len().div_ceil(8));
+    for (i, null) in is_null.iter().enumerate() {
+        if *null {
+            null_val[i / 8] |= 1 << (i % 8);
+        }
+    }
+    series.null_val = null_val.into();
+    if !is_null.contains(&true) {
+        series.flags &= !FLAG_HAS_NULLS;
+    }
 }
 
 #[cfg(any(test, feature = "pg_test"))]
-- 
2.43.0


From 6365a6220d6ef16be219f4b581447120d16b0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 12/57] fix: a map that reorders times leaves the timevector
 unsorted

---
 extension/src/time_vector/pipeline/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extension/src/time_vector/pipeline/map.rs b/extension/src/time_vector/pipeline/map.rs
index 15e513e..220d417 100644
--- a/extension/src/time_vector/pipeline/map.rs
+++ b/extension/src/time_vector/pipeline/map.rs
@@ -82,6 +82,11 @@ pub fn map_lambda_over_series(
             val: new_val.unwrap_or(point.val),
         }
     }
+
+    // The new times may come in a different order
+    if !only_val && !series.points.as_slice().is_sorted_by_key(|point| point.ts) {
+        series.flags &= !FLAG_IS_SORTED;
+    }
 }
 
 #[pg_extern(
-- 
2.43.0


From f20f9752b2c39b33fd36754a57c8fa9ae2efad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 13/57] fix: the delta of an empty timevector is empty

---
 extension/src/time_vector/pipeline/delta.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/extension/src/time_vector/pipeline/delta.rs b/extension/src/time_vector/pipeline/delta.rs
index 933b829..bea2c8b 100644
--- a/extension/src/time_vector/pipeline/delta.rs
+++ b/extension/src/time_vector/pipeline/delta.rs
@@ -37,7 +37,10 @@ pub fn timevector_delta<'s>(series: &Timevector_TSTZ_F64<'s>) -> Timevector_TSTZ
     }
 
     let mut it = series.iter();
-    let mut prev = it.next().unwrap().val;
+    let Some(first) = it.next() else {
+        return series.clone();
+    };
+    let mut prev = first.val;
     let mut delta_points = Vec::new();
 
     for pt in it {
-- 
2.43.0


From 4745c8835b39579f66fd70794361246cccf30a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 14/57] fix: fill_to never ends with an interval that isn't
 positive

---
 extension/src/time_vector/pipeline/fill_to.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/time_vector/pipeline/fill_to.rs b/extension/src/time_vector/pipeline/fill_to.rs
index 1c0ff92..b6f07c2 100644
--- a/extension/src/time_vector/pipeline/fill_to.rs
+++ b/extension/src/time_vector/pipeline/fill_to.rs
@@ -94,6 +94,10 @@ pub fn fill_to<'s>(
         _ => unreachable!(),
     };
 
+    if interval <= 0 {
+        panic!("Fill_to requires a positive interval")
+    }
+
     if !series.is_sorted() {
         panic!("Timevector must be sorted prior to passing to fill_to")
     }
-- 
2.43.0


From bcfc9cedebebae171960792f47d288006f70f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 15/57] fix: rolling recalculates when infinite or NaN inputs
 leave the window

---
 crates/stats-agg/src/stats1d.rs | 4 ++++
 crates/stats-agg/src/stats2d.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index c91da00..d3cfae9 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -249,6 +249,10 @@ where
         } else if combined.n < remove.n {
             panic!(); // given that we're always removing things that we've previously added, we shouldn't be able to get a case where we're removing an n that's larger.
         }
+        // if we are removing nan/infinite inputs, it's time to recalculate.
+        if !remove.sx.is_finite() {
+            return None;
+        }
         // if the sum we're removing is very large compared to the overall value we need to recalculate, see note on the remove function
         if remove.sx / combined.sx > <T as From<f64>>::from(INV_FLOATING_ERROR_THRESHOLD) {
             return None;
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index fe6e1e1..318070a 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -361,6 +361,10 @@ impl<T: FloatLike> StatsSummary2D<T> {
         } else if combined.n < remove.n {
             panic!(); //  given that we're always removing things that we've previously added, we shouldn't be able to get a case where we're removing an n that's larger.
         }
+        // if we are removing nan/infinite inputs, it's time to recalculate.
+        if !remove.sx.is_finite() || !remove.sy.is_finite() {
+            return None;
+        }
         // if the sum we're removing is very large compared to the overall value we need to recalculate, see note on the remove function
         let thresh = <T as From<f64>>::from(INV_FLOATING_ERROR_THRESHOLD);
         if remove.sx / combined.sx > thresh || remove.sy / combined.sy > thresh {
-- 
2.43.0


From 4a8d5b36282b17ddc43fc08648d6461a84b5a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:22 +0000
Subject: [PATCH 16/57] fix: a moving stats_agg left with one value has no
 spread

---
 crates/stats-agg/src/stats1d.rs | 9 +++++++++
 crates/stats-agg/src/stats2d.rs | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index d3cfae9..9c2b557 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -166,6 +166,11 @@ where
             sx4: T::zero(), // initialize this for now.
         };
 
+        // a single value has no spread, don't leave rounding errors in its moments
+        if new.n == 1 && new.sx.is_finite() {
+            return Some(new);
+        }
+
         let tmpx = p * self.n64() - self.sx;
         let scale = (self.n64() * new.n64()).recip();
         new.sx2 = self.sx2 - tmpx * tmpx * scale;
@@ -264,6 +269,10 @@ where
             sx3: T::zero(), //just initialize this, for now.
             sx4: T::zero(), //just initialize this, for now.
         };
+        // a single value has no spread, don't leave rounding errors in its moments
+        if part.n == 1 && part.sx.is_finite() {
+            return Some(part);
+        }
         let tmp = part.sx / part.n64() - remove.sx / remove.n64(); //gets squared so order doesn't matter
         part.sx2 =
             combined.sx2 - remove.sx2 - part.n64() * remove.n64() * tmp * tmp / combined.n64();
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index 318070a..04929cb 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -226,6 +226,10 @@ impl<T: FloatLike> StatsSummary2D<T> {
             sy4: T::zero(),
             sxy: T::zero(),
         };
+        // a single point has no spread, don't leave rounding errors in its moments
+        if new.n == 1 && new.sx.is_finite() && new.sy.is_finite() {
+            return Some(new);
+        }
         let tmpx = p.x * self.n64() - self.sx;
         let tmpy = p.y * self.n64() - self.sy;
         let scale = (self.n64() * new.n64()).recip();
@@ -382,6 +386,10 @@ impl<T: FloatLike> StatsSummary2D<T> {
             sy4: T::zero(),
             sxy: T::zero(),
         };
+        // a single point has no spread, don't leave rounding errors in its moments
+        if part.n == 1 && part.sx.is_finite() && part.sy.is_finite() {
+            return Some(part);
+        }
         let tmpx = part.sx / part.n64() - remove.sx / remove.n64(); //gets squared so order doesn't matter
         let tmpy = part.sy / part.n64() - remove.sy / remove.n64();
         part.sx2 =
-- 
2.43.0


From 09c5add8a244bd134081de997c864e43c5e41ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 17/57] fix: the rank of a tdigest's extreme values is not NaN

---
 crates/t-digest/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/t-digest/src/lib.rs b/crates/t-digest/src/lib.rs
index e909a58..32fe90f 100644
--- a/crates/t-digest/src/lib.rs
+++ b/crates/t-digest/src/lib.rs
@@ -555,10 +555,13 @@ impl TDigest {
                 + (v - weighted_midpoint) / (hi_bound - weighted_midpoint) * hi_weight as f64 / 2.0)
                 / self.count as f64
         } else {
-            (accum_weight as f64
-                - (weighted_midpoint - v) / (weighted_midpoint - low_bound) * low_weight as f64
-                    / 2.0)
-                / self.count as f64
+            // with no room between the bounds, v is the low bound itself
+            let below_midpoint = if weighted_midpoint > low_bound {
+                (weighted_midpoint - v) / (weighted_midpoint - low_bound)
+            } else {
+                1.0
+            };
+            (accum_weight as f64 - below_midpoint * low_weight as f64 / 2.0) / self.count as f64
         }
     }
 
-- 
2.43.0


From 1f37f8c41ece616e2ecbb817d13ead5c5aa11d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 18/57] fix: uddsketch compaction ends when the size cannot be
 reached

---
 crates/udd-sketch/src/lib.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/udd-sketch/src/lib.rs b/crates/udd-sketch/src/lib.rs
index dfd53fa..a2b9628 100644
--- a/crates/udd-sketch/src/lib.rs
+++ b/crates/udd-sketch/src/lib.rs
@@ -402,6 +402,19 @@ impl UDDSketch {
         self.alpha = 2.0 * self.alpha / (1.0 + self.alpha.powi(2)); // See https://arxiv.org/pdf/2004.08604.pdf Equation 4
     }
 
+    // Values of different signs, zeros, and infinities never share a bucket, so there are
+    // sizes no amount of compacting can reach; after this many compactions the buckets
+    // no longer change.
+    fn compact_to_max_buckets(&mut self) {
+        const MAX_COMPACTIONS: u8 = 63;
+
+        while self.buckets.len() > self.max_buckets.get() as usize
+            && self.compactions < MAX_COMPACTIONS
+        {
+            self.compact_buckets();
+        }
+    }
+
     pub fn bucket_iter(&self) -> SketchHashIterator<'_> {
         self.buckets.iter()
     }
@@ -411,9 +424,7 @@ impl UDDSketch {
     pub fn add_value(&mut self, value: f64) {
         self.buckets.increment(self.key(value));
 
-        while self.buckets.len() > self.max_buckets.get() as usize {
-            self.compact_buckets();
-        }
+        self.compact_to_max_buckets();
 
         self.num_values += 1;
         self.values_sum += value;
@@ -457,9 +468,7 @@ impl UDDSketch {
             self.buckets.entry_upsert(key, count);
         }
 
-        while self.buckets.len() > self.max_buckets.get() as usize {
-            self.compact_buckets();
-        }
+        self.compact_to_max_buckets();
 
         self.num_values += other.values;
         self.values_sum += other.sum;
@@ -501,9 +510,7 @@ impl UDDSketch {
             self.buckets.entry_upsert(key, value);
         }
 
-        while self.buckets.len() > self.max_buckets.get() as usize {
-            self.compact_buckets();
-        }
+        self.compact_to_max_buckets();
 
         self.num_values += other.num_values;
         self.values_sum += other.values_sum;
-- 
2.43.0


From 8227ad39b8936957bb294751d4d8917187df4476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 19/57] fix: merging uddsketches whose error is close to 1

---
 crates/udd-sketch/src/lib.rs | 42 +++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/crates/udd-sketch/src/lib.rs b/crates/udd-sketch/src/lib.rs
index a2b9628..aec6be9 100644
--- a/crates/udd-sketch/src/lib.rs
+++ b/crates/udd-sketch/src/lib.rs
@@ -399,7 +399,21 @@ impl UDDSketch {
 
         self.compactions += 1;
         self.gamma *= self.gamma; // See https://arxiv.org/pdf/2004.08604.pdf Equation 3
-        self.alpha = 2.0 * self.alpha / (1.0 + self.alpha.powi(2)); // See https://arxiv.org/pdf/2004.08604.pdf Equation 4
+        self.alpha = compacted_error(self.alpha);
+    }
+
+    // Whether the other sketch started from the same error as this one. Errors are compared
+    // after the same number of compactions: the initial error can't be recovered from one that is
+    // close to 1.
+    fn same_initial_error(&self, other_error: f64, other_compactions: u8) -> bool {
+        let (mut error, mut other_error) = (self.alpha, other_error);
+        for _ in self.compactions..other_compactions {
+            error = compacted_error(error);
+        }
+        for _ in other_compactions..self.compactions {
+            other_error = compacted_error(other_error);
+        }
+        (error - other_error).abs() < 1e-9 // f64::EPSILON too small, see issue #396
     }
 
     // Values of different signs, zeros, and infinities never share a bucket, so there are
@@ -439,16 +453,8 @@ impl UDDSketch {
         mut keys: impl Iterator<Item = SketchHashKey>,
         mut counts: impl Iterator<Item = u64>,
     ) {
-        let other_gamma = gamma(other.current_error);
         // Require matching initial parameters
-        debug_assert!(
-            (self
-                .gamma
-                .powf(1.0 / f64::powi(2.0, self.compactions as i32))
-                - other_gamma.powf(1.0 / f64::powi(2.0, other.compactions as i32)))
-            .abs()
-                < 1e-9 // f64::EPSILON too small, see issue #396
-        );
+        debug_assert!(self.same_initial_error(other.current_error, other.compactions));
         debug_assert_eq!(self.max_buckets.get(), other.max_buckets);
 
         if other.values == 0 {
@@ -476,16 +482,7 @@ impl UDDSketch {
 
     pub fn merge_sketch(&mut self, other: &UDDSketch) {
         // Require matching initial parameters
-        assert!(
-            (self
-                .gamma
-                .powf(1.0 / f64::powi(2.0, self.compactions as i32))
-                - other
-                    .gamma
-                    .powf(1.0 / f64::powi(2.0, other.compactions as i32)))
-            .abs()
-                < 1e-9 // f64::EPSILON too small, see issue #396
-        );
+        assert!(self.same_initial_error(other.alpha, other.compactions));
         assert!(self.max_buckets == other.max_buckets);
 
         if other.num_values == 0 {
@@ -654,6 +651,11 @@ fn key(value: f64, gamma: f64) -> SketchHashKey {
     }
 }
 
+/// The error of a sketch with the given error after one more compaction
+fn compacted_error(alpha: f64) -> f64 {
+    2.0 * alpha / (1.0 + alpha.powi(2)) // See https://arxiv.org/pdf/2004.08604.pdf Equation 4
+}
+
 pub fn gamma(alpha: f64) -> f64 {
     (1.0 + alpha) / (1.0 - alpha)
 }
-- 
2.43.0


From c6ca45c8de420b8180b2652cabfc0fa94a1733e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 20/57] fix: mcv_agg with n = 1 kept too few counters

gen_harmonic(0, s) is 1, so the probability of an element before the first
was 1/zeta(s): with a skew of 1.73 or more a single counter was left, which always
holds the last value seen.
---
 extension/src/frequency.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 48d785c..4e6f5eb 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -220,7 +220,11 @@ impl SpaceSavingTransState {
         }
 
         let prob_eq_n = zeta_eq_n(skew, nval as u64);
-        let prob_lt_n = zeta_le_n(skew, nval as u64 - 1);
+        let prob_lt_n = if nval == 1 {
+            0.0 // nothing is below the first element
+        } else {
+            zeta_le_n(skew, nval as u64 - 1)
+        };
 
         SpaceSavingTransState {
             entries: vec![],
-- 
2.43.0


From 7abc704b7dbb5e220c32ca7b2668a73a71e446d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 21/57] fix: max_n/min_n as partial aggregates over a part
 without rows

The serialization functions were called with the NULL state of such a part
and failed; they are strict now, like those of the other aggregates.
---
 extension/src/nmost/max_float.rs | 4 ++--
 extension/src/nmost/max_int.rs   | 4 ++--
 extension/src/nmost/max_time.rs  | 4 ++--
 extension/src/nmost/min_float.rs | 4 ++--
 extension/src/nmost/min_int.rs   | 4 ++--
 extension/src/nmost/min_time.rs  | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/extension/src/nmost/max_float.rs b/extension/src/nmost/max_float.rs
index 8c2a955..6aca9e0 100644
--- a/extension/src/nmost/max_float.rs
+++ b/extension/src/nmost/max_float.rs
@@ -95,13 +95,13 @@ pub fn max_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MaxFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxFloatTransType = crate::do_deserialize!(bytes, MaxFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_int.rs b/extension/src/nmost/max_int.rs
index 5cd777f..639acfc 100644
--- a/extension/src/nmost/max_int.rs
+++ b/extension/src/nmost/max_int.rs
@@ -89,13 +89,13 @@ pub fn max_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MaxIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxIntTransType = crate::do_deserialize!(bytes, MaxIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/max_time.rs b/extension/src/nmost/max_time.rs
index d36382b..24f6396 100644
--- a/extension/src/nmost/max_time.rs
+++ b/extension/src/nmost/max_time.rs
@@ -90,13 +90,13 @@ pub fn max_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MaxTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn max_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MaxTimeTransType = crate::do_deserialize!(bytes, MaxTimeTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_float.rs b/extension/src/nmost/min_float.rs
index 0a3c8ab..93443e5 100644
--- a/extension/src/nmost/min_float.rs
+++ b/extension/src/nmost/min_float.rs
@@ -94,13 +94,13 @@ pub fn min_n_float_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_serialize(state: Internal) -> bytea {
     let state: Inner<MinFloatTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_float_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinFloatTransType = crate::do_deserialize!(bytes, MinFloatTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_int.rs b/extension/src/nmost/min_int.rs
index 93ea5f1..d709cf7 100644
--- a/extension/src/nmost/min_int.rs
+++ b/extension/src/nmost/min_int.rs
@@ -81,13 +81,13 @@ pub fn min_n_int_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_serialize(state: Internal) -> bytea {
     let state: Inner<MinIntTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_int_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinIntTransType = crate::do_deserialize!(bytes, MinIntTransType);
     Internal::new(i).into()
diff --git a/extension/src/nmost/min_time.rs b/extension/src/nmost/min_time.rs
index 6d892a0..dccc4e7 100644
--- a/extension/src/nmost/min_time.rs
+++ b/extension/src/nmost/min_time.rs
@@ -81,13 +81,13 @@ pub fn min_n_time_combine(
     .internal()
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_serialize(state: Internal) -> bytea {
     let state: Inner<MinTimeTransType> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-#[pg_extern(immutable, parallel_safe)]
+#[pg_extern(immutable, parallel_safe, strict)]
 pub fn min_n_time_deserialize(bytes: bytea, _internal: Internal) -> Option<Internal> {
     let i: MinTimeTransType = crate::do_deserialize!(bytes, MinTimeTransType);
     Internal::new(i).into()
-- 
2.43.0


From a4027d301cb8055d4a4028b431edccf432f18aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 22/57] fix: interpolating a trimmed heartbeat_agg beyond its
 end

---
 extension/src/heartbeat_agg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index db072af..f0729d0 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -274,7 +274,8 @@ impl HeartbeatAgg<'_> {
     fn interpolate_start(&mut self, pred: &Self) {
         // only allow interpolation of non-overlapping ranges
         assert!(pred.end_time <= self.start_time);
-        let pred_end = pred.last_seen + self.interval_len;
+        // A trimmed aggregate can be shorter than the liveness interval
+        let pred_end = min(pred.last_seen + self.interval_len, self.end_time);
 
         if pred_end <= self.start_time {
             return;
-- 
2.43.0


From dc8240cb3835102ba01a91569592067436c84a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:55 +0000
Subject: [PATCH 23/57] fix: rollup of trimmed or interpolated heartbeat_aggs
 lost live time

---
 extension/src/heartbeat_agg.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extension/src/heartbeat_agg.rs b/extension/src/heartbeat_agg.rs
index f0729d0..006de97 100644
--- a/extension/src/heartbeat_agg.rs
+++ b/extension/src/heartbeat_agg.rs
@@ -123,8 +123,10 @@ impl HeartbeatTransState {
             return;
         }
 
-        // Optimized path for nonoverlapping, ordered inputs
-        if self.last < new_intervals.first().unwrap().0 {
+        // Optimized path for ordered inputs, of which at most the adjacent intervals overlap
+        // Trimmed or interpolated aggregates may have intervals that start after their last heartbeat
+        let (old_last, new_first) = (*self.liveness.last().unwrap(), new_intervals[0]);
+        if old_last.0 <= new_first.0 && old_last.1 <= new_first.1 {
             let mut new_intervals = new_intervals.into_iter();
 
             // Grab the first new interval to check for overlap with the existing data
-- 
2.43.0


From fc67f99a367e6746d09b439f34653240bf8d8926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:14 +0000
Subject: [PATCH 24/57] fix: partial rollup of interleaved state_agg pieces

---
 extension/src/state_aggregate/rollup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/state_aggregate/rollup.rs b/extension/src/state_aggregate/rollup.rs
index eed7162..ab04183 100644
--- a/extension/src/state_aggregate/rollup.rs
+++ b/extension/src/state_aggregate/rollup.rs
@@ -377,8 +377,8 @@ fn state_agg_rollup_final_inner(
 
 #[pg_extern(immutable, parallel_safe, strict)]
 pub fn state_agg_rollup_serialize(state: Internal) -> bytea {
-    let mut state: Inner<RollupTransState> = unsafe { state.to_inner().unwrap() };
-    state.merge();
+    // The values can't be merged yet: other partial states may hold values that lie between them
+    let state: Inner<RollupTransState> = unsafe { state.to_inner().unwrap() };
     crate::do_serialize!(state)
 }
 
-- 
2.43.0


From feaaea38f72198ba18eb63c21c69766c8a7b9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:14 +0000
Subject: [PATCH 25/57] fix: lttb overflows on large buckets or late timestamps

---
 extension/src/lttb.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index ed44dff..60e25f1 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -277,7 +277,7 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        let mut avg_x = 0i128; // the sum of many timestamps doesn't fit an i64
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -292,10 +292,10 @@ pub fn lttb(data: &[TSPoint], threshold: usize) -> Cow<'_, [TSPoint]> {
 
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
-            avg_x += data[idx].ts;
+            avg_x += data[idx].ts as i128;
             avg_y += data[idx].val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
@@ -364,7 +364,7 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
-        let mut avg_x = 0i64;
+        let mut avg_x = 0i128; // the sum of many timestamps doesn't fit an i64
         let mut avg_y = 0f64;
 
         let avg_range_start = (((i + 1) as f64) * every) as usize + 1;
@@ -380,10 +380,10 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
         for i in 0..(avg_range_end - avg_range_start) {
             let idx = avg_range_start + i;
             let point = data.get(idx).unwrap();
-            avg_x += point.ts;
+            avg_x += point.ts as i128;
             avg_y += point.val;
         }
-        avg_x /= avg_range_length as i64;
+        let avg_x = (avg_x / avg_range_length as i128) as i64;
         avg_y /= avg_range_length;
 
         // Get the range for this bucket.
-- 
2.43.0


From a3c6a12eedf61aee69428aecd4a77e289d18cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 26/57] fix: lttb of a timevector keeps its points' nulls

---
 extension/src/lttb.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index 60e25f1..2b35e7b 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -352,6 +352,7 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
     }
 
     let mut sampled = Vec::with_capacity(threshold);
+    let mut is_null = Vec::with_capacity(threshold);
 
     // Bucket size. Leave room for start and end data points.
     let every = ((data.num_points() - 2) as f64) / ((threshold - 2) as f64);
@@ -361,6 +362,7 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
 
     // Always add the first point.
     sampled.push(data.get(a).unwrap());
+    is_null.push(data.is_null_val(a));
 
     for i in 0..threshold - 2 {
         // Calculate point average for next bucket (containing c).
@@ -411,21 +413,28 @@ pub fn lttb_ts(data: Timevector_TSTZ_F64, threshold: usize) -> Timevector_TSTZ_F
         }
 
         sampled.push(data.get(next_a).unwrap()); // Pick this point from the bucket.
+        is_null.push(data.is_null_val(next_a));
         a = next_a; // This a is the next a (chosen b).
     }
 
     // Always add the last point.
     sampled.push(data.get(data.num_points() - 1).unwrap());
+    is_null.push(data.is_null_val(data.num_points() - 1));
 
-    let nulls_len = sampled.len().div_ceil(8);
+    let mut flags = time_vector::FLAG_IS_SORTED;
+    let mut null_val = std::vec::from_elem(0_u8, sampled.len().div_ceil(8));
+    for (i, _) in is_null.iter().enumerate().filter(|(_, null)| **null) {
+        flags |= time_vector::FLAG_HAS_NULLS;
+        null_val[i / 8] |= 1 << (i % 8);
+    }
 
     crate::build! {
         Timevector_TSTZ_F64 {
             num_points: sampled.len() as _,
-            flags: time_vector::FLAG_IS_SORTED,
+            flags,
             internal_padding: [0; 3],
             points: sampled.into(),
-            null_val: std::vec::from_elem(0_u8, nulls_len).into(),
+            null_val: null_val.into(),
         }
     }
 }
-- 
2.43.0


From 3fe34204bc7cb0ea07a4a5875dfd4c11266a91a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 27/57] fix: gp_lttb counts a single last point as one endpoint

---
 extension/src/lttb.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/lttb.rs b/extension/src/lttb.rs
index 2b35e7b..9cb72cc 100644
--- a/extension/src/lttb.rs
+++ b/extension/src/lttb.rs
@@ -167,6 +167,10 @@ pub fn gap_preserving_lttb_final_inner(
                     start = i + 1;
                 }
             }
+            if start == count - 1 {
+                // the last subarray has a single point, which is both its endpoints
+                endpoints_remaining -= 1;
+            }
 
             let mut points_remaining = state.resolution as i64;
             let mut downsampled = vec![];
-- 
2.43.0


From acc9f239177b18dd1c120b6403b45d1755072638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 28/57] fix: lambda variables whose names start with $time or
 $value

---
 extension/src/time_vector/pipeline/lambda/lambda_expr.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/time_vector/pipeline/lambda/lambda_expr.pest b/extension/src/time_vector/pipeline/lambda/lambda_expr.pest
index 1d16b06..2e2f749 100644
--- a/extension/src/time_vector/pipeline/lambda/lambda_expr.pest
+++ b/extension/src/time_vector/pipeline/lambda/lambda_expr.pest
@@ -34,8 +34,8 @@ operation = _{
 num = @{ int ~ ("." ~ ASCII_DIGIT*)? ~ (^"e" ~ int)? }
     int = { ("+" | "-")? ~ ASCII_DIGIT+ }
 
-time_var = @{ ^"$time" }
-val_var = @{ ^"$value" }
+time_var = @{ ^"$time" ~ !(ASCII_ALPHANUMERIC | "_") }
+val_var = @{ ^"$value" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 time = @{ string ~ "t" }
 interval = @{ string ~ "i" }
-- 
2.43.0


From 24a0aadb9a0c809638f65b09d7592b9c12cabe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:06 +0000
Subject: [PATCH 29/57] fix: stats pipelines check the nulls of the pipeline's
 result

---
 extension/src/time_vector/pipeline/aggregation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extension/src/time_vector/pipeline/aggregation.rs b/extension/src/time_vector/pipeline/aggregation.rs
index 2cb0882..6add831 100644
--- a/extension/src/time_vector/pipeline/aggregation.rs
+++ b/extension/src/time_vector/pipeline/aggregation.rs
@@ -107,10 +107,10 @@ pub fn arrow_run_pipeline_then_stats_agg<'a>(
     mut timevector: Timevector_TSTZ_F64<'a>,
     pipeline: toolkit_experimental::PipelineThenStatsAgg<'a>,
 ) -> StatsSummary1D {
+    timevector = run_pipeline_elements(timevector, pipeline.elements.iter());
     if timevector.has_nulls() {
         panic!("Unable to compute stats aggregate over timevector containing nulls");
     }
-    timevector = run_pipeline_elements(timevector, pipeline.elements.iter());
     let mut stats = InternalStatsSummary1D::new();
     for TSPoint { val, .. } in timevector.iter() {
         stats_agg::unwrap_stats_result(stats.accum(val));
-- 
2.43.0


From 6ae8a9e791bca077004aea35a22d756ce745e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 30/57] fix: partial states of counter, gauge and time_weight
 keep their summaries apart

---
 extension/src/counter_agg.rs           | 4 +++-
 extension/src/gauge_agg.rs             | 4 +++-
 extension/src/time_weighted_average.rs | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/extension/src/counter_agg.rs b/extension/src/counter_agg.rs
index 45d0db6..07821c9 100644
--- a/extension/src/counter_agg.rs
+++ b/extension/src/counter_agg.rs
@@ -230,7 +230,9 @@ impl CounterSummaryTransState {
 pub fn counter_summary_trans_serialize(state: Internal) -> bytea {
     let mut state = state;
     let state: &mut CounterSummaryTransState = unsafe { state.get_mut().unwrap() };
-    state.combine_summaries();
+    // summaries which do not overlap can have those of another partition between
+    // them, only the final function has them all
+    state.combine_points();
     crate::do_serialize!(state)
 }
 
diff --git a/extension/src/gauge_agg.rs b/extension/src/gauge_agg.rs
index e65097d..07d39b5 100644
--- a/extension/src/gauge_agg.rs
+++ b/extension/src/gauge_agg.rs
@@ -183,7 +183,9 @@ impl GaugeSummaryTransState {
 fn gauge_summary_trans_serialize(state: Internal) -> bytea {
     let mut state = state;
     let state: &mut GaugeSummaryTransState = unsafe { state.get_mut().unwrap() };
-    state.combine_summaries();
+    // summaries which do not overlap can have those of another partition between
+    // them, only the final function has them all
+    state.combine_points();
     crate::do_serialize!(state)
 }
 
diff --git a/extension/src/time_weighted_average.rs b/extension/src/time_weighted_average.rs
index 6320a96..69f16d4 100644
--- a/extension/src/time_weighted_average.rs
+++ b/extension/src/time_weighted_average.rs
@@ -157,7 +157,9 @@ impl TimeWeightTransState {
 #[pg_extern(immutable, parallel_safe, strict)]
 pub fn time_weight_trans_serialize(state: Internal) -> bytea {
     let mut state: Inner<TimeWeightTransState> = unsafe { state.to_inner().unwrap() };
-    state.combine_summaries();
+    // summaries which do not overlap can have those of another partition between
+    // them, only the final function has them all
+    state.combine_points();
     crate::do_serialize!(state)
 }
 
-- 
2.43.0


From 1b0964ca056f2e71d0c09f157e71f89923f87bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 31/57] fix: read back text forms whose strings are escaped

---
 extension/src/datum_utils.rs             | 4 ++--
 extension/src/serialization/functions.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index b92b4af..a37f432 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -341,8 +341,8 @@ impl<'a, 'de> Deserialize<'de> for DatumStore<'a> {
                 let mut reader = DatumFromSerializedTextReader::from_oid(oid);
 
                 let mut data = vec![];
-                while let Some(next) = seq.next_element::<&str>()? {
-                    data.push(reader.read_datum(next));
+                while let Some(next) = seq.next_element::<String>()? {
+                    data.push(reader.read_datum(&next));
                 }
 
                 Ok((oid, data).into())
diff --git a/extension/src/serialization/functions.rs b/extension/src/serialization/functions.rs
index 09641d7..cac9205 100644
--- a/extension/src/serialization/functions.rs
+++ b/extension/src/serialization/functions.rs
@@ -55,7 +55,7 @@ impl<'de> Deserialize<'de> for PgProcId {
             #[allow(improper_ctypes)]
             fn regprocedurein(fcinfo: pg_sys::FunctionCallInfo) -> Datum;
         }
-        let qualified_name = <&str>::deserialize(deserializer)?;
+        let qualified_name = String::deserialize(deserializer)?;
         let qualified_name = CString::new(qualified_name).unwrap();
         let oid = unsafe {
             pg_sys::DirectFunctionCall1Coll(
-- 
2.43.0


From e031d1367201517af6ff66d787dfd6f4ec12d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 32/57] fix: recalculate when removing a value leaves a
 negative sum of squares

---
 crates/stats-agg/src/stats1d.rs | 8 ++++++++
 crates/stats-agg/src/stats2d.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/stats-agg/src/stats1d.rs b/crates/stats-agg/src/stats1d.rs
index 9c2b557..26e8a25 100644
--- a/crates/stats-agg/src/stats1d.rs
+++ b/crates/stats-agg/src/stats1d.rs
@@ -174,6 +174,10 @@ where
         let tmpx = p * self.n64() - self.sx;
         let scale = (self.n64() * new.n64()).recip();
         new.sx2 = self.sx2 - tmpx * tmpx * scale;
+        // only rounding errors are left of the spread, it's time to recalculate.
+        if new.sx2 < T::zero() {
+            return None;
+        }
         new.sx3 = m3::remove(new.n64(), new.sx, new.sx2, self.sx3, p);
         new.sx4 = m4::remove(new.n64(), new.sx, new.sx2, new.sx3, self.sx4, p);
 
@@ -276,6 +280,10 @@ where
         let tmp = part.sx / part.n64() - remove.sx / remove.n64(); //gets squared so order doesn't matter
         part.sx2 =
             combined.sx2 - remove.sx2 - part.n64() * remove.n64() * tmp * tmp / combined.n64();
+        // only rounding errors are left of the spread, it's time to recalculate.
+        if part.sx2 < T::zero() {
+            return None;
+        }
         part.sx3 = m3::remove_combined(
             part.n64(),
             remove.n64(),
diff --git a/crates/stats-agg/src/stats2d.rs b/crates/stats-agg/src/stats2d.rs
index 04929cb..62b6847 100644
--- a/crates/stats-agg/src/stats2d.rs
+++ b/crates/stats-agg/src/stats2d.rs
@@ -240,6 +240,10 @@ impl<T: FloatLike> StatsSummary2D<T> {
         new.sy3 = m3::remove(new.n64(), new.sy, new.sy2, self.sy3, p.y);
         new.sy4 = m4::remove(new.n64(), new.sy, new.sy2, new.sy3, self.sy4, p.y);
         new.sxy = self.sxy - tmpx * tmpy * scale;
+        // only rounding errors are left of the spread, it's time to recalculate.
+        if new.sx2 < T::zero() || new.sy2 < T::zero() {
+            return None;
+        }
         Some(new)
     }
 
@@ -442,6 +446,10 @@ impl<T: FloatLike> StatsSummary2D<T> {
         );
         part.sxy =
             combined.sxy - remove.sxy - part.n64() * remove.n64() * tmpx * tmpy / combined.n64();
+        // only rounding errors are left of the spread, it's time to recalculate.
+        if part.sx2 < T::zero() || part.sy2 < T::zero() {
+            return None;
+        }
         Some(part)
     }
 
-- 
2.43.0


From b3b2aa740284ef6e62ffa5d5ea35f4d65fced5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 33/57] fix: partial states of freq_agg and mcv_agg keep values
 exactly

---
 extension/src/datum_utils.rs | 27 +++++++++++++++++++++++++++
 extension/src/frequency.rs   |  4 ++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index a37f432..19a16de 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -66,6 +66,33 @@ pub fn interval_to_ms(ref_time: &crate::raw::TimestampTz, interval: &crate::raw:
     ts_interval_sum_to_ms(ref_time, interval) - ref_time.0.value() as i64
 }
 
+/// Run `f` with the settings under which the text of a value reads back as the same value, whatever
+/// the session shows to its user (the ones pg_dump and postgres_fdw transmit values with)
+pub(crate) fn with_transmission_settings<T>(f: impl FnOnce() -> T) -> T {
+    unsafe {
+        let nest_level = pg_sys::NewGUCNestLevel();
+        for (name, value) in [
+            (c"extra_float_digits", c"3"),
+            (c"DateStyle", c"ISO"),
+            (c"IntervalStyle", c"postgres"),
+        ] {
+            pg_sys::set_config_option(
+                name.as_ptr(),
+                value.as_ptr(),
+                pg_sys::GucContext::PGC_USERSET,
+                pg_sys::GucSource::PGC_S_SESSION,
+                pg_sys::GucAction::GUC_ACTION_SAVE,
+                true,
+                0,
+                false,
+            );
+        }
+        let result = f();
+        pg_sys::AtEOXact_GUC(true, nest_level);
+        result
+    }
+}
+
 pub struct TextSerializableDatumWriter {
     flinfo: pg_sys::FmgrInfo,
 }
diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 4e6f5eb..609a19f 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -24,7 +24,7 @@ use crate::{
     build,
     datum_utils::{
         DatumFromSerializedTextReader, DatumHashBuilder, DatumStore, TextSerializableDatumWriter,
-        deep_copy_datum,
+        deep_copy_datum, with_transmission_settings,
     },
     palloc::{Inner, Internal, InternalAsValue, ToInternal},
     pg_any_element::{PgAnyElement, PgAnyElementHashMap},
@@ -1001,7 +1001,7 @@ fn space_saving_text_final(
 #[pg_extern(immutable, parallel_safe)]
 fn space_saving_serialize(state: Internal) -> Option<bytea> {
     let state = unsafe { state.to_inner::<SpaceSavingTransState>() };
-    state.map(|state| crate::do_serialize!(state))
+    state.map(|state| with_transmission_settings(|| crate::do_serialize!(state)))
 }
 
 #[pg_extern(immutable, parallel_safe)]
-- 
2.43.0


From 2ca28067c29cdeeaee6663e7c006af7d824ce7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 34/57] fix: a bad timestamp in a text form ended the server
 process

Errors unwound out of extern "C" functions, which aborts.
---
 crates/tspoint/src/lib.rs      | 4 ++--
 extension/src/serialization.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tspoint/src/lib.rs b/crates/tspoint/src/lib.rs
index 7684495..8c8c5d9 100644
--- a/crates/tspoint/src/lib.rs
+++ b/crates/tspoint/src/lib.rs
@@ -35,7 +35,7 @@ impl Serialize for TSPoint {
     {
         if serializer.is_human_readable() {
             // FIXME ugly hack to use postgres functions in an non-postgres library
-            unsafe extern "C" {
+            unsafe extern "C-unwind" {
                 fn _ts_toolkit_encode_timestamptz(dt: i64, buf: &mut [u8; 128]);
             }
             let mut ts = [0; 128];
@@ -70,7 +70,7 @@ impl<'de> Deserialize<'de> for TSPoint {
         }
 
         // FIXME ugly hack to use postgres functions in an non-postgres library
-        unsafe extern "C" {
+        unsafe extern "C-unwind" {
             // this is only going to be used to communicate with a rust lib we compile with this one
             #[allow(improper_ctypes)]
             fn _ts_toolkit_decode_timestamptz(text: &str) -> i64;
diff --git a/extension/src/serialization.rs b/extension/src/serialization.rs
index 6a3bc08..1ce6d8c 100644
--- a/extension/src/serialization.rs
+++ b/extension/src/serialization.rs
@@ -16,7 +16,7 @@ mod types;
 
 // basically timestamptz_out
 #[unsafe(no_mangle)]
-pub extern "C" fn _ts_toolkit_encode_timestamptz(
+pub extern "C-unwind" fn _ts_toolkit_encode_timestamptz(
     dt: pg_sys::TimestampTz,
     buf: &mut [c_char; pg_sys::MAXDATELEN as _],
 ) {
@@ -54,7 +54,7 @@ pub extern "C" fn _ts_toolkit_encode_timestamptz(
 #[unsafe(no_mangle)]
 // this is only going to be used to communicate with a rust lib we compile with this one
 #[allow(improper_ctypes_definitions)]
-pub extern "C" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
+pub extern "C-unwind" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
     use std::{ffi::CString, mem::MaybeUninit, ptr};
     let str = CString::new(text).unwrap();
     unsafe {
-- 
2.43.0


From e5fd705f866bf15cec4081c3eb22adcef8b935ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 35/57] fix: refuse lambda expressions that would overflow the
 stack

---
 .../src/time_vector/pipeline/lambda/parser.rs | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/extension/src/time_vector/pipeline/lambda/parser.rs b/extension/src/time_vector/pipeline/lambda/parser.rs
index e16521f..c4d9358 100644
--- a/extension/src/time_vector/pipeline/lambda/parser.rs
+++ b/extension/src/time_vector/pipeline/lambda/parser.rs
@@ -34,7 +34,40 @@ use UnaryOp::*;
 #[grammar = "time_vector/pipeline/lambda/lambda_expr.pest"] // relative to src
 pub struct ExpressionParser;
 
+// Parsing, type checking, evaluating, and dropping an expression all recurse
+// into it. These keep the recursion well within the stack.
+const MAX_PARENTHESES_DEPTH: usize = 128;
+const MAX_OPERATORS: usize = 1024;
+
+fn check_nesting(input: &str) {
+    let mut depth = 0usize;
+    let mut quoted = false;
+    for byte in input.bytes() {
+        match byte {
+            b'\'' => quoted = !quoted,
+            b'(' if !quoted => depth += 1,
+            b')' if !quoted => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+        if depth > MAX_PARENTHESES_DEPTH {
+            panic!("expression is nested too deep")
+        }
+    }
+
+    let lowercase = input.to_ascii_lowercase();
+    let words: usize = ["not", "and", "or"]
+        .iter()
+        .map(|word| lowercase.matches(word).count())
+        .sum();
+    let symbols = input.bytes().filter(|b| b"+-*/^=<>".contains(b)).count();
+    if words + symbols > MAX_OPERATORS {
+        panic!("expression has too many operators")
+    }
+}
+
 pub fn parse_expression(input: &str) -> Expression {
+    check_nesting(input);
+
     let parsed = ExpressionParser::parse(calculation, input).unwrap_or_else(|e| panic!("{}", e));
 
     let mut variables = Vec::new();
-- 
2.43.0


From 0d93747ca567319d7344cf9e919f56523bb94ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 36/57] fix: reporting a bad time zone in a text form read a
 null pointer

---
 extension/src/serialization.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extension/src/serialization.rs b/extension/src/serialization.rs
index 1ce6d8c..a810c81 100644
--- a/extension/src/serialization.rs
+++ b/extension/src/serialization.rs
@@ -88,9 +88,11 @@ pub extern "C-unwind" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
                 &mut tz,
             )
         }
+        // filled in by, and needed to report, some of the errors of DecodeDateTime()
+        #[cfg(not(feature = "pg15"))]
+        let mut extra = pgrx::pg_sys::DateTimeErrorExtra::default();
         #[cfg(not(feature = "pg15"))]
         if dterr == 0 {
-            let mut extra = pgrx::pg_sys::DateTimeErrorExtra::default();
             dterr = pg_sys::DecodeDateTime(
                 field.as_mut_ptr(),
                 ftype.as_mut_ptr(),
@@ -115,7 +117,7 @@ pub extern "C-unwind" fn _ts_toolkit_decode_timestamptz(text: &str) -> i64 {
         if dterr != 0 {
             pg_sys::DateTimeParseError(
                 dterr,
-                core::ptr::null_mut(),
+                &mut extra as *mut pgrx::pg_sys::DateTimeErrorExtra,
                 str.as_ptr(),
                 c"timestamptz".as_ptr().cast::<c_char>(),
                 core::ptr::null_mut(),
-- 
2.43.0


From ade0725ea7296c55afc90652f0cf00f06bdd1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 37/57] fix: refuse rollup of frequency aggregates over
 different types

---
 extension/src/frequency.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 609a19f..cdd106e 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -351,6 +351,10 @@ impl SpaceSavingTransState {
     }
 
     fn combine(one: &SpaceSavingTransState, two: &SpaceSavingTransState) -> SpaceSavingTransState {
+        if one.type_oid() != two.type_oid() {
+            pgrx::error!("can not combine frequency aggregates of different types")
+        }
+
         // This takes an entry from a TransState, updates it with any state from the other TransState, and adds the result into the map
         fn new_entry(
             entry: &SpaceSavingEntry,
-- 
2.43.0


From 8bee881719befc925e19225b9d64dc62d4e21d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 38/57] fix: creating an mcv_agg for a large n could not be
 canceled

---
 extension/src/frequency.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index cdd106e..2a87706 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -34,13 +34,25 @@ use crate::{
 };
 
 use spfunc::zeta::zeta;
-use statrs::function::harmonic::gen_harmonic;
 
 // Helper functions for zeta distribution
 
 // Default s-value
 const DEFAULT_ZETA_SKEW: f64 = 1.1;
 
+// generalized harmonic number; it can be canceled, as it takes minutes for the largest n
+fn gen_harmonic(n: u64, m: f64) -> f64 {
+    if n == 0 {
+        return 1.0;
+    }
+    (1..=n).fold(0.0, |acc, x| {
+        if x % 65536 == 0 {
+            pgrx::check_for_interrupts!();
+        }
+        acc + (x as f64).powf(-m)
+    })
+}
+
 // probability of the nth element of a zeta distribution
 fn zeta_eq_n(skew: f64, n: u64) -> f64 {
     1.0 / zeta(skew) * (n as f64).powf(-skew)
-- 
2.43.0


From 6f12488d9fe56c4b77aad80ad97e711538f01f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 39/57] fix: days_in_month and month_normalize count the days
 of the calendar month

A month that loses an hour to daylight saving time counted a day short, and
month_normalize counted the days from the reference date instead of those of
its month.
---
 extension/src/utilities.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/utilities.rs b/extension/src/utilities.rs
index 70e9fb2..5bf89cb 100644
--- a/extension/src/utilities.rs
+++ b/extension/src/utilities.rs
@@ -93,7 +93,7 @@ extension_sql!(
 CREATE FUNCTION days_in_month(date timestamptz) RETURNS int
 SET search_path TO pg_catalog,pg_temp
 AS $$
-SELECT CAST(EXTRACT('day' FROM (date_trunc('month', $1) + interval '1 month' - date_trunc('month', $1))) AS INTEGER)
+SELECT CAST(EXTRACT('day' FROM (date_trunc('month', $1) + interval '1 month' - interval '1 day')) AS INTEGER)
 $$ LANGUAGE SQL STRICT IMMUTABLE PARALLEL SAFE;
 ",
     name = "days_in_month",
@@ -105,7 +105,7 @@ extension_sql!(
 CREATE FUNCTION month_normalize(metric float8, reference_date timestamptz, days float8 DEFAULT 365.25/12) RETURNS float8
 SET search_path TO pg_catalog,pg_temp
 AS $$
-SELECT metric * days / CAST(EXTRACT('day' FROM (reference_date + interval '1 month' - reference_date)) as INTEGER)
+SELECT metric * days / CAST(EXTRACT('day' FROM (date_trunc('month', reference_date) + interval '1 month' - interval '1 day')) as INTEGER)
 $$ LANGUAGE SQL STRICT IMMUTABLE PARALLEL SAFE;
 ",
     name="month_normalize",
-- 
2.43.0


From 38102859753a52e9d299e9885745ba92e6277ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 40/57] fix: nth and len of an iterator over stored elements
 skip their padding

---
 crates/flat_serialize/flat_serialize/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/flat_serialize/flat_serialize/src/lib.rs b/crates/flat_serialize/flat_serialize/src/lib.rs
index 1881e59..7ef9edf 100644
--- a/crates/flat_serialize/flat_serialize/src/lib.rs
+++ b/crates/flat_serialize/flat_serialize/src/lib.rs
@@ -444,7 +444,8 @@ where
             return None;
         }
         let (val, rem) = unsafe { <T>::try_ref(self.slice).unwrap() };
-        self.slice = rem;
+        let additional_len = aligning_len(rem.as_ptr() as _, T::REQUIRED_ALIGNMENT);
+        self.slice = &rem[additional_len..];
         Some(val)
     }
 }
-- 
2.43.0


From 41840df14a85fed8ec92b5887eae4d3e7ba2dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 41/57] fix: writing an array of variable-length elements
 reserved one byte for each

---
 crates/flat_serialize/flat_serialize/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/flat_serialize/flat_serialize/src/lib.rs b/crates/flat_serialize/flat_serialize/src/lib.rs
index 7ef9edf..75cb258 100644
--- a/crates/flat_serialize/flat_serialize/src/lib.rs
+++ b/crates/flat_serialize/flat_serialize/src/lib.rs
@@ -162,7 +162,7 @@ where
         let size = if Self::TRIVIAL_COPY {
             Self::MIN_LEN
         } else {
-            self.len()
+            self.num_bytes()
         };
         let (mut input, rem) = input.split_at_mut(size);
         input = &mut input[..size];
-- 
2.43.0


From 97bd4bd50520400397b06ea0ab52d593d5c12e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 42/57] fix: map_series resolved its type by name, once per
 session

The check of the mapping function's type looked timevector_tstz_f64 up through
the caller's search_path and cached the oid: it failed (for the rest of the
session) where the search_path does not lead to it, and in the session that
recreated the extension.
---
 extension/src/time_vector.rs              | 28 +++++++++++++++++++++--
 extension/src/time_vector/pipeline/map.rs | 14 ++++++------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/extension/src/time_vector.rs b/extension/src/time_vector.rs
index 045e49c..7d2a538 100644
--- a/extension/src/time_vector.rs
+++ b/extension/src/time_vector.rs
@@ -105,8 +105,32 @@ impl<'a> IntoIterator for Timevector_TSTZ_F64<'a> {
     }
 }
 
-pub static TIMEVECTOR_OID: once_cell::sync::Lazy<pg_sys::Oid> =
-    once_cell::sync::Lazy::new(|| pgrx::regtypein("timevector_tstz_f64"));
+/// Whether `type_oid` is this extension's `timevector_tstz_f64`. This asks the
+/// catalogs every time: looking the type up by name would depend on the
+/// caller's `search_path`, and its oid changes when the extension is recreated.
+pub fn is_timevector_type(type_oid: pg_sys::Oid) -> bool {
+    unsafe {
+        let extension = pg_sys::get_extension_oid(c"timescaledb_toolkit".as_ptr(), true);
+        if extension == pg_sys::InvalidOid
+            || pg_sys::getExtensionOfObject(pg_sys::TypeRelationId, type_oid) != extension
+        {
+            return false;
+        }
+
+        let tuple = pg_sys::SearchSysCache1(
+            pg_sys::SysCacheIdentifier::TYPEOID as _,
+            pg_sys::Datum::from(type_oid),
+        );
+        if tuple.is_null() {
+            return false;
+        }
+        let type_tuple: pg_sys::Form_pg_type = pg_sys::GETSTRUCT(tuple).cast();
+        let is_timevector =
+            CStr::from_ptr((*type_tuple).typname.data.as_ptr()) == c"timevector_tstz_f64";
+        pg_sys::ReleaseSysCache(tuple);
+        is_timevector
+    }
+}
 
 #[pg_extern(immutable, parallel_safe)]
 pub fn unnest<'a>(
diff --git a/extension/src/time_vector/pipeline/map.rs b/extension/src/time_vector/pipeline/map.rs
index 220d417..1e6879a 100644
--- a/extension/src/time_vector/pipeline/map.rs
+++ b/extension/src/time_vector/pipeline/map.rs
@@ -111,11 +111,11 @@ pub fn map_series_element<'a>(function: crate::raw::regproc) -> Element<'a> {
     }
 }
 
-// `function` must be `fn(expected) RETURNS expected`; `signature` names it in
-// the error messages.
+// `function` must be `fn(expected) RETURNS expected`, for the type `is_expected`
+// recognises; `signature` names it in the error messages.
 fn check_user_function_signature(
     function: pg_sys::regproc,
-    expected: pg_sys::Oid,
+    is_expected: impl Fn(pg_sys::Oid) -> bool,
     signature: &str,
 ) {
     let mut argtypes: *mut pg_sys::Oid = ptr::null_mut();
@@ -127,11 +127,11 @@ fn check_user_function_signature(
     }
 
     assert!(!argtypes.is_null());
-    if unsafe { *argtypes } != expected {
+    if !is_expected(unsafe { *argtypes }) {
         error!("invalid argument type, expected {signature}")
     }
 
-    if rettype != expected {
+    if !is_expected(rettype) {
         error!("invalid return type, expected {signature}")
     }
 }
@@ -139,7 +139,7 @@ fn check_user_function_signature(
 pub fn check_user_function_type(function: pg_sys::regproc) {
     check_user_function_signature(
         function,
-        *crate::time_vector::TIMEVECTOR_OID,
+        crate::time_vector::is_timevector_type,
         "fn(timevector) RETURNS timevector",
     )
 }
@@ -147,7 +147,7 @@ pub fn check_user_function_type(function: pg_sys::regproc) {
 pub fn check_user_function_data_type(function: pg_sys::regproc) {
     check_user_function_signature(
         function,
-        pgrx::PgBuiltInOids::FLOAT8OID.value(),
+        |type_oid| type_oid == pgrx::PgBuiltInOids::FLOAT8OID.value(),
         "fn(double precision) RETURNS double precision",
     )
 }
-- 
2.43.0


From 6ebcd1ce9ccae9bf610eabf8929c5342d94ca69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 43/57] fix: text forms over the default collation could not be
 read in another database

The collation's name was taken from pg_database with the column layout of
PostgreSQL 14: it was the locale provider and the flags that follow it, which a
database of another provider, or one marked as a template, did not read back.
---
 extension/src/serialization/collations.rs | 77 +++++++----------------
 1 file changed, 22 insertions(+), 55 deletions(-)

diff --git a/extension/src/serialization/collations.rs b/extension/src/serialization/collations.rs
index 88dbfc6..282c533 100644
--- a/extension/src/serialization/collations.rs
+++ b/extension/src/serialization/collations.rs
@@ -9,8 +9,6 @@ use flat_serialize::{FlatSerializable, WrapErr, impl_flat_serializable};
 
 use serde::{Deserialize, Serialize};
 
-use once_cell::sync::Lazy;
-
 use pg_sys::Oid;
 use pgrx::*;
 
@@ -62,42 +60,15 @@ struct FormData_pg_collation {
 #[allow(non_camel_case_types)]
 type Form_pg_collation = *mut FormData_pg_collation;
 
-#[allow(non_camel_case_types)]
-#[derive(Copy, Clone)]
-#[repr(C)]
-struct FormData_pg_database {
-    oid: Oid,
-    datname: pg_sys::NameData,
-    datdba: Oid,
-    encoding: i32,
-    datcollate: pg_sys::NameData,
-    // TODO more fields I'm ignoring
-}
-
-#[allow(non_camel_case_types)]
-type Form_pg_database = *mut FormData_pg_database;
-
-static DEFAULT_COLLATION_NAME: Lazy<CString> = Lazy::new(|| unsafe {
-    let tuple = pg_sys::SearchSysCache1(
-        pg_sys::SysCacheIdentifier::DATABASEOID as _,
-        pg_sys::Datum::from(pg_sys::MyDatabaseId),
-    );
-    if tuple.is_null() {
-        pgrx::error!("no database info");
+/// Earlier releases wrote the default collation not as itself but as the
+/// beginning of its database's entry in `pg_database`: the locale provider,
+/// and `datistemplate` and the flags that follow it when they are set.
+fn is_former_default_collation_name(name: &str) -> bool {
+    match name.as_bytes() {
+        [b'b' | b'c' | b'i', flags @ ..] => flags.len() <= 3 && flags.iter().all(|&f| f == 1),
+        _ => false,
     }
-
-    let database_tuple: Form_pg_database = get_struct(tuple);
-    let collation_name = (*database_tuple).datcollate.data.as_ptr();
-    let collation_name_len = CStr::from_ptr(collation_name).to_bytes().len();
-    let collation_name = pg_sys::pg_server_to_any(
-        collation_name,
-        collation_name_len as _,
-        pg_sys::pg_enc::PG_UTF8 as _,
-    );
-    let collation_name = CStr::from_ptr(collation_name);
-    pg_sys::ReleaseSysCache(tuple);
-    CString::from(collation_name)
-});
+}
 
 impl Serialize for PgCollationId {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -137,20 +108,16 @@ impl Serialize for PgCollationId {
             let namespace = CStr::from_ptr(namespace);
             let namespace = namespace.to_str().unwrap();
 
-            // the 'default' collation isn't really a collation, and we need to
-            // look in pg_database to discover what real collation is
-            let collation_name = if self.0 == DEFAULT_COLLATION_OID {
-                &*DEFAULT_COLLATION_NAME
-            } else {
-                let collation_name = (*collation_tuple).collname.data.as_ptr();
-                let collation_name_len = CStr::from_ptr(collation_name).to_bytes().len();
-                let collation_name = pg_sys::pg_server_to_any(
-                    collation_name,
-                    collation_name_len as _,
-                    pg_sys::pg_enc::PG_UTF8 as _,
-                );
-                CStr::from_ptr(collation_name)
-            };
+            // NOTE the 'default' collation is written as itself: it stands for
+            //      the collation of whichever database the value is read in
+            let collation_name = (*collation_tuple).collname.data.as_ptr();
+            let collation_name_len = CStr::from_ptr(collation_name).to_bytes().len();
+            let collation_name = pg_sys::pg_server_to_any(
+                collation_name,
+                collation_name_len as _,
+                pg_sys::pg_enc::PG_UTF8 as _,
+            );
+            let collation_name = CStr::from_ptr(collation_name);
             let collation_name = collation_name.to_str().unwrap();
 
             let qualified_name: (&str, &str) = (namespace, collation_name);
@@ -170,7 +137,7 @@ impl<'de> Deserialize<'de> for PgCollationId {
     {
         use serde::de::Error;
 
-        let collation = <Option<(&str, &str)>>::deserialize(deserializer)?;
+        let collation = <Option<(String, String)>>::deserialize(deserializer)?;
         let (namespace, name) = match collation {
             None => return Ok(Self(pg_sys::Oid::INVALID)),
             Some(qualified_name) => qualified_name,
@@ -230,9 +197,9 @@ impl<'de> Deserialize<'de> for PgCollationId {
             }
 
             if collation_id == pg_sys::InvalidOid {
-                // The default collation doesn't necessarily exist in the
-                // collations catalog, so check that specially
-                if name == &**DEFAULT_COLLATION_NAME {
+                if namespace_id == pg_sys::Oid::from(pg_sys::PG_CATALOG_NAMESPACE)
+                    && name.to_str().is_ok_and(is_former_default_collation_name)
+                {
                     return Ok(PgCollationId(DEFAULT_COLLATION_OID));
                 }
                 return Err(D::Error::custom(format!(
-- 
2.43.0


From 877f69b804d21164c7c2290b68f8f1d1ef5c14e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 44/57] fix: text forms name the types whose oids differ
 between databases

A frequency aggregate over a type of the user's own was written with the type's
oid, so it could not be restored into another database, or was read back there
as values of whatever type has that oid.
---
 extension/src/datum_utils.rs         |  6 ++--
 extension/src/frequency.rs           | 25 +++++++--------
 extension/src/serialization.rs       |  2 +-
 extension/src/serialization/types.rs | 46 +++++++++++++++++++++++++++-
 4 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/extension/src/datum_utils.rs b/extension/src/datum_utils.rs
index 19a16de..42a9e72 100644
--- a/extension/src/datum_utils.rs
+++ b/extension/src/datum_utils.rs
@@ -14,7 +14,7 @@ use serde::{
 use pg_sys::{Datum, Oid};
 use pgrx::*;
 
-use crate::serialization::{PgCollationId, ShortTypeId};
+use crate::serialization::{PgCollationId, ShortTypeId, StoredTypeId};
 
 pub(crate) unsafe fn deep_copy_datum(datum: Datum, typoid: Oid) -> Datum {
     let tentry = unsafe { pg_sys::lookup_type_cache(typoid, 0_i32) };
@@ -336,7 +336,7 @@ impl<'a> Serialize for DatumStore<'a> {
         let mut writer = TextSerializableDatumWriter::from_oid(self.type_oid.0);
         let count = self.iter().count();
         let mut seq = serializer.serialize_seq(Some(count + 1))?;
-        seq.serialize_element(&self.type_oid.0.to_u32())?;
+        seq.serialize_element(&StoredTypeId(self.type_oid.0))?;
         for element in self.iter() {
             seq.serialize_element(&writer.make_serializable(element))?;
         }
@@ -362,7 +362,7 @@ impl<'a, 'de> Deserialize<'de> for DatumStore<'a> {
             where
                 A: SeqAccess<'de>,
             {
-                let oid = Oid::from(seq.next_element::<u32>().unwrap().unwrap()); // TODO: error handling
+                let StoredTypeId(oid) = seq.next_element()?.unwrap(); // TODO: error handling
 
                 // TODO separate human-readable and binary forms
                 let mut reader = DatumFromSerializedTextReader::from_oid(oid);
diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 2a87706..6cacddc 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -31,6 +31,7 @@ use crate::{
     pg_type,
     raw::{bytea, text},
     ron_inout_funcs,
+    serialization::StoredTypeId,
 };
 
 use spfunc::zeta::zeta;
@@ -435,7 +436,7 @@ impl SpaceSavingTransState {
 pg_type! {
     #[derive(Debug)]
     struct SpaceSavingAggregate<'input> {
-        type_oid: u32,
+        type_oid: StoredTypeId,
         num_values: u32,
         values_seen: u64,
         freq_param: f64,
@@ -460,7 +461,7 @@ impl<'input> From<&SpaceSavingTransState> for SpaceSavingAggregate<'input> {
 
         build! {
             SpaceSavingAggregate {
-                type_oid: trans.type_oid().into(),
+                type_oid: StoredTypeId(trans.type_oid()),
                 num_values: trans.entries.len() as _,
                 values_seen: trans.total_vals,
                 freq_param: trans.freq_param,
@@ -482,14 +483,14 @@ impl<'input> From<(&SpaceSavingAggregate<'input>, &pg_sys::FunctionCallInfo)>
         let mut trans = if agg.topn == 0 {
             SpaceSavingTransState::freq_agg_from_type_id(
                 agg.freq_param,
-                Oid::from(agg.type_oid),
+                agg.type_oid.0,
                 collation,
             )
         } else {
             SpaceSavingTransState::mcv_agg_from_type_id(
                 agg.freq_param,
                 agg.topn as u32,
-                Oid::from(agg.type_oid),
+                agg.type_oid.0,
                 collation,
             )
         };
@@ -506,7 +507,7 @@ impl<'input> From<(&SpaceSavingAggregate<'input>, &pg_sys::FunctionCallInfo)>
 impl<'input> SpaceSavingAggregate<'input> {
     /// Require `type_oid` and the datum count to match the stored `datums`.
     fn validate(&self) {
-        if Oid::from(self.type_oid) != self.datums.type_oid() {
+        if self.type_oid.0 != self.datums.type_oid() {
             pgrx::error!("invalid frequency aggregate: element type does not match stored values")
         }
         if self.datums.iter().count() != self.num_values as usize {
@@ -1328,7 +1329,7 @@ pub fn freq_iter<'a>(
     ),
 > {
     unsafe {
-        if ty.oid().to_u32() != agg.type_oid {
+        if ty.oid() != agg.type_oid.0 {
             pgrx::error!("mischatched types")
         }
         let counts = agg.counts.slice().iter().zip(agg.overcounts.slice().iter());
@@ -1336,7 +1337,7 @@ pub fn freq_iter<'a>(
             move |(value, (&count, &overcount))| {
                 let total = agg.values_seen as f64;
                 let value =
-                    AnyElement::from_polymorphic_datum(value, false, Oid::from(agg.type_oid))
+                    AnyElement::from_polymorphic_datum(value, false, agg.type_oid.0)
                         .unwrap();
                 let min_freq = (count - overcount) as f64 / total;
                 let max_freq = count as f64 / total;
@@ -1468,7 +1469,7 @@ pub fn topn(
     ty: Option<AnyElement>,
 ) -> SetOfIterator<'_, AnyElement> {
     // If called with a NULL, assume type matches
-    if ty.is_some() && ty.unwrap().oid().to_u32() != agg.type_oid {
+    if ty.is_some() && ty.unwrap().oid() != agg.type_oid.0 {
         pgrx::error!("mischatched types")
     }
 
@@ -1481,7 +1482,7 @@ pub fn topn(
     );
     let min_freq = if agg.topn == 0 { agg.freq_param } else { 0. };
 
-    let type_oid: u32 = agg.type_oid;
+    let type_oid = agg.type_oid.0;
     SetOfIterator::new(
         TopNIterator::new(
             agg.datums.clone().into_iter(),
@@ -1492,7 +1493,7 @@ pub fn topn(
         )
         // TODO Shouldn't failure to convert to AnyElement cause error, not early stop?
         .map_while(move |value| unsafe {
-            AnyElement::from_polymorphic_datum(value, false, Oid::from(type_oid))
+            AnyElement::from_polymorphic_datum(value, false, type_oid)
         }),
     )
 }
@@ -1612,7 +1613,7 @@ pub fn max_frequency(agg: SpaceSavingAggregate<'_>, value: AnyElement) -> f64 {
     match agg
         .datums
         .iter()
-        .position(|datum| value == (datum, Oid::from(agg.type_oid)).into())
+        .position(|datum| value == (datum, agg.type_oid.0).into())
     {
         Some(idx) => agg.counts.slice()[idx] as f64 / agg.values_seen as f64,
         None => 0.,
@@ -1625,7 +1626,7 @@ pub fn min_frequency(agg: SpaceSavingAggregate<'_>, value: AnyElement) -> f64 {
     match agg
         .datums
         .iter()
-        .position(|datum| value == (datum, Oid::from(agg.type_oid)).into())
+        .position(|datum| value == (datum, agg.type_oid.0).into())
     {
         Some(idx) => {
             (agg.counts.slice()[idx] - agg.overcounts.slice()[idx]) as f64 / agg.values_seen as f64
diff --git a/extension/src/serialization.rs b/extension/src/serialization.rs
index a810c81..832db67 100644
--- a/extension/src/serialization.rs
+++ b/extension/src/serialization.rs
@@ -1,6 +1,6 @@
 pub use self::collations::PgCollationId;
 pub use self::functions::PgProcId;
-pub use self::types::ShortTypeId;
+pub use self::types::{ShortTypeId, StoredTypeId};
 use std::{
     convert::TryInto,
     os::raw::{c_char, c_int},
diff --git a/extension/src/serialization/types.rs b/extension/src/serialization/types.rs
index 5736724..b6eef94 100644
--- a/extension/src/serialization/types.rs
+++ b/extension/src/serialization/types.rs
@@ -52,6 +52,50 @@ impl<'de> Deserialize<'de> for ShortTypeId {
     }
 }
 
+/// A type oid that is serialized as just that, except that text forms, which may
+/// be read in another database, name the types whose oids can differ there.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+#[repr(transparent)]
+pub struct StoredTypeId(pub Oid);
+
+impl_flat_serializable!(StoredTypeId);
+
+impl Serialize for StoredTypeId {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: serde::Serializer,
+    {
+        let oid = self.0.to_u32();
+        if serializer.is_human_readable() && oid >= pg_sys::FirstGenbkiObjectId {
+            PgTypId(self.0).serialize(serializer)
+        } else {
+            oid.serialize(serializer)
+        }
+    }
+}
+
+impl<'de> Deserialize<'de> for StoredTypeId {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        #[serde(untagged)]
+        enum OidOrName {
+            Oid(u32),
+            Name(PgTypId),
+        }
+
+        if !deserializer.is_human_readable() {
+            return Ok(Self(u32::deserialize(deserializer)?.into()));
+        }
+        match OidOrName::deserialize(deserializer)? {
+            OidOrName::Oid(oid) => Ok(Self(oid.into())),
+            OidOrName::Name(type_id) => Ok(Self(type_id.0)),
+        }
+    }
+}
+
 #[derive(Debug, Serialize, Deserialize)]
 #[allow(clippy::upper_case_acronyms)]
 enum ShortTypIdSerializer {
@@ -262,7 +306,7 @@ impl<'de> Deserialize<'de> for PgTypId {
     {
         use serde::de::Error;
 
-        let (namespace, name) = <(&str, &str)>::deserialize(deserializer)?;
+        let (namespace, name) = <(String, String)>::deserialize(deserializer)?;
         let (namespace, name) = (
             CString::new(namespace).unwrap(),
             CString::new(name).unwrap(),
-- 
2.43.0


From d91b253ca9a125631166e9a345b887d307df93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 45/57] fix: frequency aggregates kept memory for every row
 they had seen

The value an entry gives up when another takes its place, and the
argument block of every comparison, stayed allocated until the
aggregate ended, so a sketch of ten values grew with its input.
---
 extension/src/frequency.rs      | 5 +++--
 extension/src/pg_any_element.rs | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index 6cacddc..fce51e6 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -24,7 +24,7 @@ use crate::{
     build,
     datum_utils::{
         DatumFromSerializedTextReader, DatumHashBuilder, DatumStore, TextSerializableDatumWriter,
-        deep_copy_datum, with_transmission_settings,
+        deep_copy_datum, free_datum, with_transmission_settings,
     },
     palloc::{Inner, Internal, InternalAsValue, ToInternal},
     pg_any_element::{PgAnyElement, PgAnyElementHashMap},
@@ -323,7 +323,8 @@ impl SpaceSavingTransState {
             let typoid = self.type_oid();
             let entry = self.entries.last_mut().unwrap();
             self.indices.remove(&(entry.value, typoid).into());
-            entry.value = new_value; // JOSH FIXME should we pfree() old value if by-ref?
+            // the states own their values, so nothing else refers to the evicted one
+            unsafe { free_datum(std::mem::replace(&mut entry.value, new_value), typoid) };
             entry.overcount = entry.count;
             entry.count += 1;
             self.indices
diff --git a/extension/src/pg_any_element.rs b/extension/src/pg_any_element.rs
index 02c7696..7f41fd5 100644
--- a/extension/src/pg_any_element.rs
+++ b/extension/src/pg_any_element.rs
@@ -65,7 +65,10 @@ impl PartialEq for PgAnyElement {
                     value: other.datum,
                     isnull: false,
                 };
-                (*(*info).flinfo).fn_addr.unwrap()(info) != Datum::from(0)
+                let equal = (*(*info).flinfo).fn_addr.unwrap()(info) != Datum::from(0);
+                // this runs for every row of an aggregate, whose context lives as long as it does
+                pg_sys::pfree(info.cast());
+                equal
             }
         }
     }
-- 
2.43.0


From 9dcfcf0e0db06a7c22be4d3f5988a24167990109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 46/57] fix: the update tester panicked on every query that
 returns rows

---
 tools/update-tester/src/testrunner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index a46f862..d77c3de 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -450,7 +450,7 @@ fn get_values(query_results: Vec<SimpleQueryMessage>) -> QueryValues {
     query_results
         .into_iter()
         .filter_map(|msg| match msg {
-            SimpleQueryMessage::CommandComplete(_) => None,
+            SimpleQueryMessage::RowDescription(_) | SimpleQueryMessage::CommandComplete(_) => None,
             SimpleQueryMessage::Row(row) => {
                 let mut values = Vec::with_capacity(row.len());
                 for i in 0..row.len() {
@@ -478,7 +478,7 @@ pub fn validate_output(output: Vec<SimpleQueryMessage>, test: &Test) -> Result<(
                 }
                 rows.push(row);
             }
-            CommandComplete(_) => {}
+            RowDescription(_) | CommandComplete(_) => {}
             _ => unreachable!(),
         }
     }
-- 
2.43.0


From d39cddbc10afbf241c0711be02b6dab030cca4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 47/57] fix: precision limits given on a SQL block were dropped

---
 tools/sql-doctester/src/parser.rs | 4 +++-
 tools/update-tester/src/parser.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/sql-doctester/src/parser.rs b/tools/sql-doctester/src/parser.rs
index 6203b79..cbbccf3 100644
--- a/tools/sql-doctester/src/parser.rs
+++ b/tools/sql-doctester/src/parser.rs
@@ -118,7 +118,9 @@ pub fn extract_tests_from_string(s: &str, file_stem: &str) -> TestFile {
                                             "cannot have precision limits on both test and output.\n{file_stem}:{current_line} {heading_stack:?}"
                                         )
                                     }
-                                    test.precision_limits = code_block_info.precision_limits;
+                                    if test.precision_limits.is_empty() {
+                                        test.precision_limits = code_block_info.precision_limits;
+                                    }
                                     let _ = parser.next();
                                     break;
                                 }
diff --git a/tools/update-tester/src/parser.rs b/tools/update-tester/src/parser.rs
index 4b78030..ab340d0 100644
--- a/tools/update-tester/src/parser.rs
+++ b/tools/update-tester/src/parser.rs
@@ -168,7 +168,9 @@ pub fn extract_tests_from_string(s: &str, file_stem: &str) -> TestFile {
                                             "cannot have precision limits on both test and output.\n{file_stem}:{current_line} {heading_stack:?}",
                                         )
                                     }
-                                    test.precision_limits = code_block_info.precision_limits;
+                                    if test.precision_limits.is_empty() {
+                                        test.precision_limits = code_block_info.precision_limits;
+                                    }
                                     let _ = parser.next();
                                     break;
                                 }
-- 
2.43.0


From 3467be1f50b54e60d77d7946763c6285371fced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 48/57] fix: a precision limit inside a multi-byte character
 panicked

---
 tools/sql-doctester/src/runner.rs     | 4 +++-
 tools/update-tester/src/testrunner.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/sql-doctester/src/runner.rs b/tools/sql-doctester/src/runner.rs
index 2c7e220..5e04efa 100644
--- a/tools/sql-doctester/src/runner.rs
+++ b/tools/sql-doctester/src/runner.rs
@@ -210,7 +210,9 @@ fn validate_output(output: Vec<SimpleQueryMessage>, test: &Test) -> Result<(), T
         )));
     }
 
-    fn clamp_len<'s>(mut col: &'s str, idx: usize, test: &Test) -> &'s str {
+    // the limit counts bytes, so it can fall inside a character
+    fn clamp_len<'s>(col: &'s str, idx: usize, test: &Test) -> &'s [u8] {
+        let mut col = col.as_bytes();
         let max_len = test.precision_limits.get(&idx);
         if let Some(&max_len) = max_len {
             if col.len() > max_len {
diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index d77c3de..5d2465c 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -503,7 +503,9 @@ pub fn validate_output(output: Vec<SimpleQueryMessage>, test: &Test) -> Result<(
         )));
     }
 
-    fn clamp_len<'s>(mut col: &'s str, idx: usize, test: &Test) -> &'s str {
+    // the limit counts bytes, so it can fall inside a character
+    fn clamp_len<'s>(col: &'s str, idx: usize, test: &Test) -> &'s [u8] {
+        let mut col = col.as_bytes();
         let max_len = test.precision_limits.get(&idx);
         if let Some(&max_len) = max_len {
             if col.len() > max_len {
-- 
2.43.0


From 4d0cce6e1aa3e55265a65a506fd4b575df483742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 49/57] fix: the doc testers panicked on a later row with more
 columns than the first

---
 tools/sql-doctester/src/runner.rs     | 3 +++
 tools/update-tester/src/testrunner.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tools/sql-doctester/src/runner.rs b/tools/sql-doctester/src/runner.rs
index 5e04efa..8fc21e0 100644
--- a/tools/sql-doctester/src/runner.rs
+++ b/tools/sql-doctester/src/runner.rs
@@ -287,6 +287,9 @@ fn stringify_delta(left: &[Vec<String>], right: &[Vec<String>]) -> String {
         let left = left.get(i).unwrap_or(&EMPTY_ROW);
         let right = right.get(i).unwrap_or(&EMPTY_ROW);
         let cols = max(left.len(), right.len());
+        if width.len() < cols {
+            width.resize(cols, 0);
+        }
         for j in 0..cols {
             let left = left.get(j).unwrap_or(&EMPTY_VAL);
             let right = right.get(j).unwrap_or(&EMPTY_VAL);
diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index 5d2465c..9503da7 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -579,6 +579,9 @@ fn stringify_delta(left: &[Vec<String>], right: &[Vec<String>]) -> String {
         let left = left.get(i).unwrap_or(&EMPTY_ROW);
         let right = right.get(i).unwrap_or(&EMPTY_ROW);
         let cols = max(left.len(), right.len());
+        if width.len() < cols {
+            width.resize(cols, 0);
+        }
         for j in 0..cols {
             let left = left.get(j).unwrap_or(&EMPTY_VAL);
             let right = right.get(j).unwrap_or(&EMPTY_VAL);
-- 
2.43.0


From 8ce5e95add1ac39278b744873b401bc26667421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 50/57] fix: error positions were applied as byte offsets to
 non-ASCII SQL

---
 tools/sql-doctester/src/runner.rs     | 15 ++++++++-------
 tools/update-tester/src/testrunner.rs | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/tools/sql-doctester/src/runner.rs b/tools/sql-doctester/src/runner.rs
index 8fc21e0..03bf717 100644
--- a/tools/sql-doctester/src/runner.rs
+++ b/tools/sql-doctester/src/runner.rs
@@ -379,13 +379,14 @@ impl TestError {
     pub fn annotate_position<'s>(&self, sql: &'s str) -> Cow<'s, str> {
         match self.location() {
             None => sql.into(),
-            Some(pos) => format!(
-                "{}{}{}",
-                &sql[..pos as usize],
-                "~>".bright_red(),
-                &sql[pos as usize..],
-            )
-            .into(),
+            Some(pos) => {
+                // Postgres counts characters, not bytes
+                let pos = sql
+                    .char_indices()
+                    .nth(pos as usize)
+                    .map_or(sql.len(), |(offset, _)| offset);
+                format!("{}{}{}", &sql[..pos], "~>".bright_red(), &sql[pos..]).into()
+            }
         }
     }
 
diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index 9503da7..087c0ad 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -672,13 +672,14 @@ impl TestError {
     pub fn annotate_position<'s>(&self, sql: &'s str) -> Cow<'s, str> {
         match self.location() {
             None => sql.into(),
-            Some(pos) => format!(
-                "{}{}{}",
-                &sql[..pos as usize],
-                "~>".bright_red(),
-                &sql[pos as usize..],
-            )
-            .into(),
+            Some(pos) => {
+                // Postgres counts characters, not bytes
+                let pos = sql
+                    .char_indices()
+                    .nth(pos as usize)
+                    .map_or(sql.len(), |(offset, _)| offset);
+                format!("{}{}{}", &sql[..pos], "~>".bright_red(), &sql[pos..]).into()
+            }
         }
     }
 
-- 
2.43.0


From 03543ab14fc6afe00b770b5df7101802f4e2994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 51/57] fix: sql-doctester read relative symlinks from the
 working directory

---
 tools/sql-doctester/src/main.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/tools/sql-doctester/src/main.rs b/tools/sql-doctester/src/main.rs
index b034f6e..23fe978 100644
--- a/tools/sql-doctester/src/main.rs
+++ b/tools/sql-doctester/src/main.rs
@@ -103,14 +103,7 @@ fn extract_tests(root: &str) -> Vec<TestFile> {
             continue;
         }
 
-        let realpath;
-        let path = if entry.file_type().is_symlink() {
-            realpath = fs::read_link(entry.path()).unwrap();
-            &*realpath
-        } else {
-            entry.path()
-        };
-        let contents = fs::read_to_string(path).unwrap();
+        let contents = fs::read_to_string(entry.path()).unwrap();
 
         let tests = parser::extract_tests_from_string(&contents, &entry.path().to_string_lossy());
         if !tests.tests.is_empty() {
-- 
2.43.0


From 264cb7b5a239d58d761b4c2d5956455d88eeec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 52/57] fix: outputs in CRLF files and in lists lost their rows

---
 tools/sql-doctester/src/parser.rs | 15 +++++++++------
 tools/update-tester/src/parser.rs | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/tools/sql-doctester/src/parser.rs b/tools/sql-doctester/src/parser.rs
index cbbccf3..4bb8f78 100644
--- a/tools/sql-doctester/src/parser.rs
+++ b/tools/sql-doctester/src/parser.rs
@@ -149,14 +149,17 @@ pub fn extract_tests_from_string(s: &str, file_stem: &str) -> TestFile {
                 }
 
                 // consume the output
+                // the parser can deliver the text of one block in several pieces
+                let mut output = String::new();
                 consume_text_until!(parser yields Event::End(TagEnd::CodeBlock) =>
-                    |text: CowStr| {
-                        let rows = text.split('\n').skip(2).filter(|s| !s.is_empty()).map(|s|
-                            s.split('|').map(|s| s.trim().to_string()).collect::<Vec<_>>()
-                        );
-                        test.output.extend(rows);
-                    }
+                    |text: CowStr| output.push_str(&text)
                 );
+                let rows = output
+                    .split('\n')
+                    .skip(2)
+                    .filter(|s| !s.is_empty())
+                    .map(|s| s.split('|').map(|s| s.trim().to_string()).collect::<Vec<_>>());
+                test.output.extend(rows);
 
                 tests.push(test);
             }
diff --git a/tools/update-tester/src/parser.rs b/tools/update-tester/src/parser.rs
index ab340d0..a63e97d 100644
--- a/tools/update-tester/src/parser.rs
+++ b/tools/update-tester/src/parser.rs
@@ -199,14 +199,17 @@ pub fn extract_tests_from_string(s: &str, file_stem: &str) -> TestFile {
                 }
 
                 // consume the output
+                // the parser can deliver the text of one block in several pieces
+                let mut output = String::new();
                 consume_text_until!(parser yields Event::End(TagEnd::CodeBlock) =>
-                    |text: CowStr| {
-                        let rows = text.split('\n').skip(2).filter(|s| !s.is_empty()).map(|s|
-                            s.split('|').map(|s| s.trim().to_string()).collect::<Vec<_>>()
-                        );
-                        test.output.extend(rows);
-                    }
+                    |text: CowStr| output.push_str(&text)
                 );
+                let rows = output
+                    .split('\n')
+                    .skip(2)
+                    .filter(|s| !s.is_empty())
+                    .map(|s| s.split('|').map(|s| s.trim().to_string()).collect::<Vec<_>>());
+                test.output.extend(rows);
 
                 tests.push(test);
             }
-- 
2.43.0


From 1572cfa3b7da5797910155fd077639b75e369497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:54 +0000
Subject: [PATCH 53/57] fix: every command line of the update tester panicked

---
 tools/update-tester/src/main.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tools/update-tester/src/main.rs b/tools/update-tester/src/main.rs
index 0f6fa15..1fcbde5 100644
--- a/tools/update-tester/src/main.rs
+++ b/tools/update-tester/src/main.rs
@@ -5,8 +5,7 @@ use std::{
     process,
 };
 
-use clap::Arg;
-use clap::Command;
+use clap::{Arg, ArgAction, Command};
 
 use colored::Colorize;
 
@@ -151,10 +150,8 @@ fn main() {
             )
 	)
 // Mutates help, removing the short flag (-h) so that it can be used by HOST
-	.mut_arg("help", |_h| {
-      Arg::new("help")
-          .long("help")
-  })
+	.disable_help_flag(true)
+	.arg(Arg::new("help").long("help").action(ArgAction::Help).global(true))
 	.get_matches();
 
     match matches.subcommand() {
-- 
2.43.0


From 3cf391a11a257d149e9cf3758835898e416a0639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 54/57] fix: a space before min-toolkit-version panicked the
 update tester

---
 tools/update-tester/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/update-tester/src/parser.rs b/tools/update-tester/src/parser.rs
index a63e97d..6cb263f 100644
--- a/tools/update-tester/src/parser.rs
+++ b/tools/update-tester/src/parser.rs
@@ -268,7 +268,7 @@ fn parse_code_block_info(info: &str) -> CodeBlockInfo {
             m if m.starts_with("min-toolkit-version") => {
                 // TODO Can we assume that version is greater than 1.10.1 since current tests don't have a min version? This means we ccan skip edge cases of 1.4/1.10.0-dev/etc.
                 info.min_toolkit_version =
-                    Some(Version::parse(token.trim_start_matches("min-toolkit-version=")).unwrap())
+                    Some(Version::parse(m.trim_start_matches("min-toolkit-version=")).unwrap())
             } // not great, shouldn't assume they typed in a valid version. fix later
             "creation" => info.creation = true,
             "validation" => info.validation = true,
-- 
2.43.0


From fb38988d00021deac6be9f5058c11bcfdf4773b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 55/57] fix: the update tester compared outputs marked
 ignore-output

---
 tools/update-tester/src/parser.rs     | 2 +-
 tools/update-tester/src/testrunner.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/update-tester/src/parser.rs b/tools/update-tester/src/parser.rs
index 6cb263f..1c76f53 100644
--- a/tools/update-tester/src/parser.rs
+++ b/tools/update-tester/src/parser.rs
@@ -24,7 +24,7 @@ pub struct Test {
     pub text: String,
     pub output: Vec<Vec<String>>,
     transactional: bool,
-    ignore_output: bool,
+    pub ignore_output: bool,
     pub precision_limits: HashMap<usize, usize>,
     pub creation: bool,
     pub validation: bool,
diff --git a/tools/update-tester/src/testrunner.rs b/tools/update-tester/src/testrunner.rs
index 087c0ad..72cce43 100644
--- a/tools/update-tester/src/testrunner.rs
+++ b/tools/update-tester/src/testrunner.rs
@@ -467,6 +467,9 @@ fn get_values(query_results: Vec<SimpleQueryMessage>) -> QueryValues {
 
 pub fn validate_output(output: Vec<SimpleQueryMessage>, test: &Test) -> Result<(), TestError> {
     use SimpleQueryMessage::*;
+    if test.ignore_output {
+        return Ok(());
+    }
 
     let mut rows = Vec::with_capacity(test.output.len());
     for r in output {
-- 
2.43.0


From e9693c4e205cbd49325282f3cbc2cfd65b9d8f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:23 +0000
Subject: [PATCH 56/57] fix: topn crashed on a NULL of a type other than the
 aggregate's

---
 extension/src/frequency.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index fce51e6..e75491b 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -1463,13 +1463,34 @@ fn validate_topn_for_mcv_agg(
     }
 }
 
-#[pg_extern(immutable, parallel_safe)]
+// The declared type of a call's argument, which is all there is of a NULL
+fn validate_topn_dummy_type(
+    agg: &SpaceSavingAggregate,
+    fcinfo: pg_sys::FunctionCallInfo,
+    arg: usize,
+) {
+    if unsafe { pgrx::pg_getarg_type(fcinfo, arg) } != agg.type_oid.0 {
+        pgrx::error!("mischatched types")
+    }
+}
+
+#[pg_extern(immutable, parallel_safe, name = "topn")]
+pub fn topn_checked(
+    agg: SpaceSavingAggregate<'static>,
+    n: i32,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'static, AnyElement> {
+    validate_topn_dummy_type(&agg, fcinfo, 2);
+    topn(agg, n, ty)
+}
+
 pub fn topn(
     agg: SpaceSavingAggregate<'_>,
     n: i32,
     ty: Option<AnyElement>,
 ) -> SetOfIterator<'_, AnyElement> {
-    // If called with a NULL, assume type matches
+    // A NULL carries no type of its own
     if ty.is_some() && ty.unwrap().oid() != agg.type_oid.0 {
         pgrx::error!("mischatched types")
     }
@@ -1500,6 +1521,15 @@ pub fn topn(
 }
 
 #[pg_extern(immutable, parallel_safe, name = "topn")]
+pub fn default_topn_checked(
+    agg: SpaceSavingAggregate<'static>,
+    ty: Option<AnyElement>,
+    fcinfo: pg_sys::FunctionCallInfo,
+) -> SetOfIterator<'static, AnyElement> {
+    validate_topn_dummy_type(&agg, fcinfo, 1);
+    default_topn(agg, ty)
+}
+
 pub fn default_topn(
     agg: SpaceSavingAggregate<'_>,
     ty: Option<AnyElement>,
-- 
2.43.0


From 593aeb4ce471c960d83a3e9f6bdab146de19d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:33 +0000
Subject: [PATCH 57/57] fix: refuse a frequency or skew factor that is not a
 number

---
 extension/src/frequency.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extension/src/frequency.rs b/extension/src/frequency.rs
index e75491b..07024a7 100644
--- a/extension/src/frequency.rs
+++ b/extension/src/frequency.rs
@@ -228,7 +228,7 @@ impl SpaceSavingTransState {
         if nval == 0 {
             pgrx::error!("mcv aggregate requires an n value > 0")
         }
-        if skew <= 1.0 {
+        if skew.is_nan() || skew <= 1.0 {
             pgrx::error!("mcv aggregate requires a skew factor > 1.0")
         }
 
@@ -800,7 +800,7 @@ pub fn freq_agg_trans(
     value: Option<AnyElement>,
     fcinfo: pg_sys::FunctionCallInfo,
 ) -> Option<Internal> {
-    if freq <= 0. || freq >= 1.0 {
+    if freq.is_nan() || freq <= 0. || freq >= 1.0 {
         pgrx::error!("frequency aggregate requires a frequency in the range (0.0, 1.0)")
     }
 
-- 
2.43.0

