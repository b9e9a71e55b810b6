From a6e8869a22762a14205cb2e3f26b1175ca356094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 01/11] fix: honour the inactivity limit when the activity
 state is not shown

A processor, cockpit or panel with an inactivity limit and
show_activity_state(false) kept taking snapshots while inactive.
---
 src/cockpit.rs           | 20 ++++++++------------
 src/instruments/panel.rs | 20 ++++++++------------
 src/processor.rs         | 20 ++++++++------------
 3 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/cockpit.rs b/src/cockpit.rs
index 7f6625f..9bcbfc7 100644
--- a/src/cockpit.rs
+++ b/src/cockpit.rs
@@ -216,19 +216,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
 
diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index da2b2b1..428d90b 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -280,19 +280,15 @@ where
     fn put_values_into_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_default_descriptives(self, into, descriptive);
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_update.elapsed() > d;
             if self.show_activity_state {
-                if self.last_update.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
         self.counter
diff --git a/src/processor.rs b/src/processor.rs
index cad49c7..77c394a 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -460,19 +460,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
 
-- 
2.43.0


From 839055f1923a4cda6e1642bd3abf6688dcfe7107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 02/11] fix: track the activity of panels

A panel never noted that it handled an observation so that it became
inactive for good once its inactivity limit had passed since creation.
---
 src/instruments/panel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index 428d90b..0c3f88f 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -346,6 +346,8 @@ where
             return 0;
         }
 
+        self.last_update = Instant::now();
+
         let mut instruments_updated = 0;
 
         self.counter
-- 
2.43.0


From c7bf7151aa9e461c4d4e7b4ee745d5d81c91f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 03/11] fix: average peaks and bottoms of a tracking gauge over
 its records

peak_avg and bottom_avg divided by the length of the tracking window
instead of the number of records, so that seconds without a value
counted as 0.
---
 src/instruments/gauge/tracking.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index 6fd58eb..a841316 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -45,6 +45,7 @@ impl BucketsStats {
         let mut sum_peak = 0;
         let mut total_sum = 0;
         let mut total_count = 0;
+        let mut num_records = 0;
 
         buckets.iter().for_each(
             |Bucket {
@@ -55,6 +56,7 @@ impl BucketsStats {
                 if *count != 0 {
                     total_sum += sum;
                     total_count += count;
+                    num_records += 1;
 
                     let (min, max) = min_max;
 
@@ -70,8 +72,8 @@ impl BucketsStats {
 
         if total_count != 0 {
             let avg = (total_sum as f64) / (total_count as f64);
-            let bottom_avg = (sum_bottom as f64) / (buckets.len() as f64);
-            let peak_avg = (sum_peak as f64) / (buckets.len() as f64);
+            let bottom_avg = (sum_bottom as f64) / f64::from(num_records);
+            let peak_avg = (sum_peak as f64) / f64::from(num_records);
             Some(BucketsStats {
                 peak,
                 peak_min,
-- 
2.43.0


From 316cc90e3bfe3ecf744c5725d8778aac400b45f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 04/11] fix: stop processing messages when the queue is empty

---
 src/processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor.rs b/src/processor.rs
index 77c394a..3866e8c 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -553,7 +553,7 @@ where
                     }
                     processed += 1;
                 }
-                Err(TryRecvError::Empty) => {}
+                Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => {
                     let name = self.name.as_deref().unwrap_or_else(|| "<no name>");
                     util::log_warning(format!(
-- 
2.43.0


From dd13713b32d3550e8f4960eff44e840ebb369614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 05/11] fix: do not convert floats which are out of the range
 of the integer

---
 src/observation.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/observation.rs b/src/observation.rs
index 19f93c1..16b8596 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -257,8 +257,9 @@ impl ObservedValue {
                 }
             }
             ObservedValue::Float(v) => {
-                if v <= std::i64::MAX as f64 {
-                    Some(v.round() as i64)
+                let v = v.round();
+                if v >= std::i64::MIN as f64 && v < std::i64::MAX as f64 {
+                    Some(v as i64)
                 } else {
                     None
                 }
@@ -281,8 +282,9 @@ impl ObservedValue {
             }
             ObservedValue::UnsignedInteger(v) => Some(v),
             ObservedValue::Float(v) => {
-                if v <= std::u64::MAX as f64 {
-                    Some(v.round() as u64)
+                let v = v.round();
+                if v >= 0.0 && v < std::u64::MAX as f64 {
+                    Some(v as u64)
                 } else {
                     None
                 }
-- 
2.43.0


From 37c662c57a686f5f21d6e153c8a348c018b3557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 06/11] fix: negative values in a snapshot are not durations

---
 src/snapshot.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 0a70e92..e9ac4f0 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -245,7 +245,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_nanos(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_nanos(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_nanos(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -256,7 +258,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_micros(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_micros(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_micros(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -267,7 +271,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_millis(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_millis(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_millis(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -278,7 +284,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_secs(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_secs(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_secs(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
-- 
2.43.0


From f9e371fd29aa784fe9313784b12f98743aa37689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 07/11] fix: write the smallest integer to JSON without an
 overflow

---
 src/snapshot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index e9ac4f0..9e1e79c 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -2,6 +2,7 @@
 use std::fmt;
 use std::time::Duration;
 
+use json::number::Number;
 use json::{stringify, stringify_pretty, JsonValue};
 
 use crate::observation::ObservedValue;
@@ -361,7 +362,8 @@ impl ItemKind {
             }
             ItemKind::Float(v) => v.into(),
             ItemKind::UInt(v) => v.into(),
-            ItemKind::Int(v) => v.into(),
+            // `json` negates negative integers which overflows for the smallest one
+            ItemKind::Int(v) => Number::from_parts(v >= 0, v.wrapping_abs() as u64, 0).into(),
             ItemKind::Snapshot(ref snapshot) => snapshot.to_json_value(config),
         }
     }
-- 
2.43.0


From c01959e2beb630e2017914608bc6d8e2fb600018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 08/11] fix: do not panic on durations which cannot be added to
 or subtracted from an instant

---
 src/instruments/other_instruments/display.rs       | 10 +++++-----
 .../switches/non_occurrence_indicator.rs           |  3 +--
 src/instruments/switches/occurrence_indicator.rs   | 14 ++++++++------
 src/instruments/switches/staircase_timer.rs        | 10 +++++-----
 src/processor.rs                                   | 10 +++++++---
 5 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/instruments/other_instruments/display.rs b/src/instruments/other_instruments/display.rs
index 5879b87..e88aef0 100644
--- a/src/instruments/other_instruments/display.rs
+++ b/src/instruments/other_instruments/display.rs
@@ -21,7 +21,7 @@ pub struct DataDisplay {
     description: Option<String>,
     value: Option<ItemKind>,
     reset_after: Option<Duration>,
-    stay_on_until: Option<Instant>,
+    stay_on: Option<(Instant, Duration)>,
     reset_value: Option<ItemKind>,
 }
 
@@ -33,7 +33,7 @@ impl DataDisplay {
             description: None,
             value: None,
             reset_after: None,
-            stay_on_until: None,
+            stay_on: None,
             reset_value: None,
         }
     }
@@ -163,8 +163,8 @@ impl DataDisplay {
 
     /// Returns the current state
     pub fn value(&self) -> Option<ItemKind> {
-        if let Some(stay_on_until) = self.stay_on_until {
-            if stay_on_until >= Instant::now() {
+        if let Some((displayed_since, stay_on_for)) = self.stay_on {
+            if displayed_since.elapsed() <= stay_on_for {
                 self.value.clone()
             } else {
                 self.reset_value.clone()
@@ -191,7 +191,7 @@ impl Updates for DataDisplay {
     fn update(&mut self, update: &Update) -> usize {
         if let Some(value) = update.observed_value().and_then(|v| v.to_item_kind()) {
             if let Some(reset_after) = self.reset_after {
-                self.stay_on_until = Some(Instant::now() + reset_after);
+                self.stay_on = Some((Instant::now(), reset_after));
             }
             self.value = Some(value);
             1
diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index f4f4acc..ebc9cd9 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -208,8 +208,7 @@ impl NonOccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_not_have_happened_after = Instant::now() - self.if_not_happened_within;
-        let current_state = self.happened_last <= must_not_have_happened_after;
+        let current_state = self.happened_last.elapsed() >= self.if_not_happened_within;
 
         if self.invert {
             !current_state
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index 2748523..c83c95e 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -19,7 +19,7 @@ pub struct OccurrenceIndicator {
     title: Option<String>,
     description: Option<String>,
     if_happened_within: Duration,
-    happened_last: Instant,
+    happened_last: Option<Instant>,
     invert: bool,
     show_inverted: Option<NameAlternation>,
 }
@@ -31,7 +31,7 @@ impl OccurrenceIndicator {
             title: None,
             description: None,
             if_happened_within: Duration::from_secs(60),
-            happened_last: Instant::now() - Duration::from_secs(60),
+            happened_last: None,
             invert: false,
             show_inverted: None,
         }
@@ -102,7 +102,7 @@ impl OccurrenceIndicator {
 
     pub fn set_if_happened_within(&mut self, d: Duration) {
         self.if_happened_within = d;
-        self.happened_last = Instant::now() - d;
+        self.happened_last = None;
     }
 
     pub fn if_happened_within(mut self, d: Duration) -> Self {
@@ -203,8 +203,10 @@ impl OccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_have_happened_after = Instant::now() - self.if_happened_within;
-        let current_state = self.happened_last > must_have_happened_after;
+        let current_state = self
+            .happened_last
+            .map(|happened_last| happened_last.elapsed() < self.if_happened_within)
+            .unwrap_or(false);
 
         if self.invert {
             !current_state
@@ -230,7 +232,7 @@ impl PutsSnapshot for OccurrenceIndicator {
 
 impl Updates for OccurrenceIndicator {
     fn update(&mut self, _: &Update) -> usize {
-        self.happened_last = Instant::now();
+        self.happened_last = Some(Instant::now());
         1
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 0ab2a8c..d554b95 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -27,7 +27,7 @@ pub struct StaircaseTimer {
     description: Option<String>,
     switch_off_after: Duration,
     invert: bool,
-    stay_on_until: Option<Instant>,
+    stay_on: Option<(Instant, Duration)>,
     show_inverted: Option<NameAlternation>,
 }
 
@@ -39,7 +39,7 @@ impl StaircaseTimer {
             description: None,
             switch_off_after: Duration::from_secs(60),
             invert: false,
-            stay_on_until: None,
+            stay_on: None,
             show_inverted: None,
         }
     }
@@ -206,8 +206,8 @@ impl StaircaseTimer {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let value = if let Some(stay_on_until) = self.stay_on_until {
-            stay_on_until >= Instant::now()
+        let value = if let Some((switched_on_at, stay_on_for)) = self.stay_on {
+            switched_on_at.elapsed() <= stay_on_for
         } else {
             false
         };
@@ -236,7 +236,7 @@ impl PutsSnapshot for StaircaseTimer {
 
 impl Updates for StaircaseTimer {
     fn update(&mut self, _: &Update) -> usize {
-        self.stay_on_until = Some(Instant::now() + self.switch_off_after);
+        self.stay_on = Some((Instant::now(), self.switch_off_after));
         1
     }
 }
diff --git a/src/processor.rs b/src/processor.rs
index 3866e8c..74b2c62 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -127,9 +127,13 @@ impl ProcessingStrategy {
             ProcessingStrategy::DropOlderThan {
                 max_age,
                 drop_deltas,
-            } => ProcessingDecider::DropBeforeDeadline {
-                drop_if_older_than: Instant::now() - max_age,
-                drop_deltas,
+            } => match Instant::now().checked_sub(max_age) {
+                Some(drop_if_older_than) => ProcessingDecider::DropBeforeDeadline {
+                    drop_if_older_than,
+                    drop_deltas,
+                },
+                // nothing can be that old
+                None => ProcessingDecider::ProcessAll,
             },
         }
     }
-- 
2.43.0


From 4fe2e6717cf32ae6fafe1b910a02b3f93cab2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 09/11] fix: saturate instead of overflowing on extreme values

---
 src/instruments/counter.rs                    |  4 ++--
 src/instruments/fundamentals/metrics_meter.rs |  2 +-
 src/instruments/gauge/mod.rs                  |  4 ++--
 src/instruments/gauge/tracking.rs             | 12 +++++------
 src/instruments/histogram.rs                  |  3 ++-
 src/instruments/mod.rs                        | 12 +++++------
 .../other_instruments/value_meter.rs          |  3 ++-
 src/observation.rs                            | 20 +++++++++++++++----
 8 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/instruments/counter.rs b/src/instruments/counter.rs
index ff08486..929c335 100644
--- a/src/instruments/counter.rs
+++ b/src/instruments/counter.rs
@@ -78,12 +78,12 @@ impl Counter {
 
     /// Increase the stored value by one.
     pub fn inc(&mut self) {
-        self.count += 1;
+        self.count = self.count.saturating_add(1);
     }
 
     /// Increase the stored value by `n`
     pub fn inc_by(&mut self, n: u64) {
-        self.count += n;
+        self.count = self.count.saturating_add(n);
     }
 
     /// Get the current value
diff --git a/src/instruments/fundamentals/metrics_meter.rs b/src/instruments/fundamentals/metrics_meter.rs
index eff6e1d..16433d3 100644
--- a/src/instruments/fundamentals/metrics_meter.rs
+++ b/src/instruments/fundamentals/metrics_meter.rs
@@ -68,7 +68,7 @@ impl Meter for StdMeter {
         let mut s = self.data.lock().unwrap();
         self.tick_inner(&mut s);
 
-        s.count += n;
+        s.count = s.count.saturating_add(n);
 
         for i in 0..WINDOW.len() {
             s.ewma[i].update(n as usize);
diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index 6f92fef..d2c0013 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -346,10 +346,10 @@ impl Gauge {
 
     fn next_value(&self, current: Option<i64>, observed: ObservedValue) -> Option<i64> {
         match observed {
-            ObservedValue::ChangedBy(d) => current.map(|c| c + d).or_else(|| Some(d)),
+            ObservedValue::ChangedBy(d) => current.map(|c| c.saturating_add(d)).or_else(|| Some(d)),
             ObservedValue::Duration(time, unit) => {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
-                Some(value as i64)
+                Some(std::cmp::min(value, std::i64::MAX as u64) as i64)
             }
             x => x.convert_to_i64().or_else(|| current),
         }
diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index a841316..e7f9aba 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -3,7 +3,7 @@ use crate::snapshot::Snapshot;
 
 #[derive(Default)]
 pub struct Bucket {
-    pub sum: i64,
+    pub sum: i128,
     pub count: u64,
     pub min_max: (i64, i64),
 }
@@ -16,7 +16,7 @@ impl Bucket {
         } else {
             (v, v)
         };
-        self.sum += v;
+        self.sum += i128::from(v);
         self.count += 1;
     }
 }
@@ -41,8 +41,8 @@ impl BucketsStats {
         let mut peak_min = std::i64::MAX;
         let mut bottom = std::i64::MAX;
         let mut bottom_max = std::i64::MIN;
-        let mut sum_bottom = 0;
-        let mut sum_peak = 0;
+        let mut sum_bottom: i128 = 0;
+        let mut sum_peak: i128 = 0;
         let mut total_sum = 0;
         let mut total_count = 0;
         let mut num_records = 0;
@@ -64,8 +64,8 @@ impl BucketsStats {
                     peak_min = std::cmp::min(peak_min, *max);
                     bottom = std::cmp::min(bottom, *min);
                     bottom_max = std::cmp::max(bottom_max, *min);
-                    sum_bottom += min;
-                    sum_peak += max;
+                    sum_bottom += i128::from(*min);
+                    sum_peak += i128::from(*max);
                 }
             },
         );
diff --git a/src/instruments/histogram.rs b/src/instruments/histogram.rs
index cd195e4..eebb658 100644
--- a/src/instruments/histogram.rs
+++ b/src/instruments/histogram.rs
@@ -256,7 +256,8 @@ impl Updates for Histogram {
         match *with {
             Update::ObservationWithValue(ObservedValue::Duration(time, time_unit), _timestamp) => {
                 let d = super::duration_to_display_value(time, time_unit, self.display_time_unit);
-                self.inner_histogram.update(d as i64);
+                self.inner_histogram
+                    .update(std::cmp::min(d, std::i64::MAX as u64) as i64);
                 self.last_update = Instant::now();
 
                 1
diff --git a/src/instruments/mod.rs b/src/instruments/mod.rs
index 87bf567..e0e573c 100644
--- a/src/instruments/mod.rs
+++ b/src/instruments/mod.rs
@@ -129,17 +129,17 @@ fn duration_to_display_value(time: u64, current_unit: TimeUnit, target_unit: Tim
         (Nanoseconds, Microseconds) => time / 1_000,
         (Nanoseconds, Milliseconds) => time / 1_000_000,
         (Nanoseconds, Seconds) => time / 1_000_000_000,
-        (Microseconds, Nanoseconds) => time * 1_000,
+        (Microseconds, Nanoseconds) => time.saturating_mul(1_000),
         (Microseconds, Microseconds) => time,
         (Microseconds, Milliseconds) => time / 1_000,
         (Microseconds, Seconds) => time / 1_000_000,
-        (Milliseconds, Nanoseconds) => time * 1_000_000,
-        (Milliseconds, Microseconds) => time * 1_000,
+        (Milliseconds, Nanoseconds) => time.saturating_mul(1_000_000),
+        (Milliseconds, Microseconds) => time.saturating_mul(1_000),
         (Milliseconds, Milliseconds) => time,
         (Milliseconds, Seconds) => time / 1_000,
-        (Seconds, Nanoseconds) => time * 1_000_000_000,
-        (Seconds, Microseconds) => time * 1_000_000,
-        (Seconds, Milliseconds) => time * 1_000,
+        (Seconds, Nanoseconds) => time.saturating_mul(1_000_000_000),
+        (Seconds, Microseconds) => time.saturating_mul(1_000_000),
+        (Seconds, Milliseconds) => time.saturating_mul(1_000),
         (Seconds, Seconds) => time,
     }
 }
diff --git a/src/instruments/other_instruments/value_meter.rs b/src/instruments/other_instruments/value_meter.rs
index db3e2b9..12b170c 100644
--- a/src/instruments/other_instruments/value_meter.rs
+++ b/src/instruments/other_instruments/value_meter.rs
@@ -258,7 +258,8 @@ impl Updates for ValueMeter {
                 ObservedValue::Duration(time, unit) => {
                     let v =
                         super::super::duration_to_display_value(time, unit, self.display_time_unit);
-                    self.inner_meter.mark(v as i64);
+                    self.inner_meter
+                        .mark(std::cmp::min(v, std::i64::MAX as u64) as i64);
 
                     1
                 }
diff --git a/src/observation.rs b/src/observation.rs
index 16b8596..572f96f 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -182,7 +182,10 @@ impl From<bool> for ObservedValue {
 
 impl From<Duration> for ObservedValue {
     fn from(v: Duration) -> Self {
-        let nanos = (v.as_secs() * 1_000_000_000) + (v.subsec_nanos() as u64);
+        let nanos = v
+            .as_secs()
+            .saturating_mul(1_000_000_000)
+            .saturating_add(v.subsec_nanos() as u64);
         ObservedValue::Duration(nanos, TimeUnit::Nanoseconds)
     }
 }
@@ -197,16 +200,25 @@ impl From<(Duration, TimeUnit)> for ObservedValue {
     fn from(d: (Duration, TimeUnit)) -> Self {
         match d.1 {
             TimeUnit::Nanoseconds => {
-                let nanos = (d.0.as_secs() * 1_000_000_000) + (d.0.subsec_nanos() as u64);
+                let nanos =
+                    d.0.as_secs()
+                        .saturating_mul(1_000_000_000)
+                        .saturating_add(d.0.subsec_nanos() as u64);
                 (nanos, d.1).into()
             }
             TimeUnit::Microseconds => {
-                let micros = (d.0.as_secs() * 1_000_000) + (d.0.subsec_nanos() as u64 / 1_000);
+                let micros =
+                    d.0.as_secs()
+                        .saturating_mul(1_000_000)
+                        .saturating_add(d.0.subsec_nanos() as u64 / 1_000);
 
                 (micros, d.1).into()
             }
             TimeUnit::Milliseconds => {
-                let millis = (d.0.as_secs() * 1_000) + (d.0.subsec_nanos() as u64 / 1_000_000);
+                let millis =
+                    d.0.as_secs()
+                        .saturating_mul(1_000)
+                        .saturating_add(d.0.subsec_nanos() as u64 / 1_000_000);
                 (millis, d.1).into()
             }
             TimeUnit::Seconds => (d.0.as_secs(), d.1).into(),
-- 
2.43.0


From 40f75184209850c70869b97dd87ef6c325766506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 10/11] fix: a histogram is active until its inactivity limit
 has passed

At exactly the limit it was shown as inactive but was not reset by the next
value, so that it showed values from before and after the inactivity.
---
 src/instruments/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruments/histogram.rs b/src/instruments/histogram.rs
index eebb658..500a52a 100644
--- a/src/instruments/histogram.rs
+++ b/src/instruments/histogram.rs
@@ -182,7 +182,7 @@ impl Histogram {
     fn put_values_into_snapshot(&self, into: &mut Snapshot) {
         let is_active = self
             .max_inactivity_duration
-            .map(|max_inactivity_duration| self.last_update.elapsed() < max_inactivity_duration)
+            .map(|max_inactivity_duration| self.last_update.elapsed() <= max_inactivity_duration)
             .unwrap_or(true);
 
         if self.max_inactivity_duration.is_some() && self.show_activity_state {
-- 
2.43.0


From c441b0e871bd72a35917058b6ffa375b4bfa86f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 11/11] fix: a switch shown at its deadline could equal its
 inverted value

put_snapshot determined the state once for the value and once more for the
inverted value. If the deadline was between the two, both were shown as equal.
---
 src/instruments/switches/non_occurrence_indicator.rs | 6 ++++--
 src/instruments/switches/occurrence_indicator.rs     | 6 ++++--
 src/instruments/switches/staircase_timer.rs          | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index ebc9cd9..c67a356 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -224,10 +224,12 @@ impl PutsSnapshot for NonOccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        // The state may change with time: determine it only once
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index c83c95e..8c6bb90 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -222,10 +222,12 @@ impl PutsSnapshot for OccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        // The state may change with time: determine it only once
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index d554b95..a3a884d 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -226,10 +226,12 @@ impl PutsSnapshot for StaircaseTimer {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        // The state may change with time: determine it only once
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
-- 
2.43.0

