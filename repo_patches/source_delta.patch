From 7d9d93bd5526a81e596e327a491101c9dc005f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 1/8] fix: round the flat initial weight of fixed-size mixers

Fixed-size mixers truncated 1/SIZE while MixerN rounds it, so a 3-input
mixer started from different weights depending on the implementation.
---
 src/mixing/mixer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mixing/mixer.rs b/src/mixing/mixer.rs
index 5f33593..d163c6e 100644
--- a/src/mixing/mixer.rs
+++ b/src/mixing/mixer.rs
@@ -199,8 +199,9 @@ fn initialize_weights<Mixer: MixerData, MakeF: Fn() -> MixerWeight>(
 
 pub trait FixedSizeMixer where Self: MixerData {
     const SIZE: usize;
-    const FLAT_WEIGHT: MixerWeight =
-        MixerWeight((1i32 << MixerWeight::FRACTIONAL_BITS) / Self::SIZE as i32);
+    const FLAT_WEIGHT: MixerWeight = MixerWeight(
+        ((1i32 << MixerWeight::FRACTIONAL_BITS) + Self::SIZE as i32 / 2) /
+            Self::SIZE as i32);
 
     fn new(initial_update_factor_index: u16,
            initialization_mode: MixerInitializationMode) -> Self {
-- 
2.43.0


From 89fb0ed2c6a6e7378d828e9b82502e931a545f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 2/8] fix: round the refined probability once so that it stays
 below one

Rounding the two weighted stops separately could add up to one when both
stops are one unit below it, which panics in the range check.
---
 src/mixing/apm.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mixing/apm.rs b/src/mixing/apm.rs
index b73f0bd..87aac33 100644
--- a/src/mixing/apm.rs
+++ b/src/mixing/apm.rs
@@ -16,7 +16,7 @@
  *  along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 use bit::Bit;
-use fixed_point::{FixedPoint, FixI32, FixU32, fix_u32};
+use fixed_point::{FixedPoint, FixI32, FixU32, fix_u32, fix_u64};
 use fixed_point::types::{FractOnlyU32, StretchedProbD};
 use lut::apm::ApmWeightingLut;
 use lut::squash::SquashLut;
@@ -122,11 +122,10 @@ impl AdaptiveProbabilityMap {
         };
         self.saved_left_context_index = index_left as i32;
         self.saved_left_weight = weight_left;
-        let result_right: FractOnlyU32 = fix_u32::mul(
-            &right_bound, &weight_right);
-        let result_left: FractOnlyU32 = fix_u32::mul(
-            &left_bound, &weight_left);
-        result_left.add(&result_right)
+        let result_right = right_bound.raw() as u64 * weight_right.raw() as u64;
+        let result_left = left_bound.raw() as u64 * weight_left.raw() as u64;
+        let result_raw = fix_u64::scaled_down(result_left + result_right, 31);
+        FractOnlyU32::new(result_raw as u32, 31)
     }
 
     pub fn update_predictions(&mut self, context: usize, input_bit: Bit,
-- 
2.43.0


From 8326883c6bdb93beaddd1e9058b3e500b70b5f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 3/8] fix: count the cost of bits that no context has seen

---
 src/predictor/stats.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 8c18c45..4713732 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -77,6 +77,11 @@ impl<'a> PredictionStatistics<'a> {
         let contexts_count = contexts.items().len();
         self.total_contexts_count += contexts_count as u64;
 
+        let bit_cost = final_probability
+            .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
+        self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
+        self.total_cost = self.total_cost.add(&bit_cost);
+
         if contexts_count > 0 {
             let max_order = contexts_count - 1;
             let stats_index = {
@@ -86,10 +91,6 @@ impl<'a> PredictionStatistics<'a> {
                 orders * 5 + unary_orders
             };
             self.per_order_counts[stats_index] += 1;
-            let bit_cost = final_probability
-                .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
-            self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
-            self.total_cost = self.total_cost.add(&bit_cost);
             self.per_order_costs[stats_index] =
                 self.per_order_costs[stats_index].add(&bit_cost);
             self.per_order_occurrences_count[stats_index] +=
-- 
2.43.0


From cce85e59c4336400ecc622241e8cf5de4e726cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 4/8] fix: list all byte values in the statistics by symbol

---
 src/predictor/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 4713732..4b3e19c 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -145,13 +145,13 @@ impl<'a> PredictionStatistics<'a> {
                    self.per_symbol_costs[code].as_f64() / 8.0);
         };
         println!("Occurrences and costs by symbol value:");
-        for row in 0..=31 {
+        for row in 0..=63 {
             print!("  ");
             for column in 0..=3 {
                 if column > 0 {
                     print!(" | ");
                 }
-                print_symbol(row + column * 32);
+                print_symbol(row + column * 64);
             }
             println!();
         }
-- 
2.43.0


From cdc6d014ff34e9082dbd13b0ec894f2217684362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 5/8] fix: count the last byte in the statistics by symbol

---
 src/predictor/stats.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 4b3e19c..276d9a2 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -38,6 +38,7 @@ pub struct PredictionStatistics<'a> {
     per_order_costs: Vec<Log2Q>,
     per_symbol_counts: Vec<usize>,
     per_symbol_costs: Vec<Log2Q>,
+    current_byte_bits: u16,
     current_byte_cost: Log2Q,
     total_cost: Log2Q,
     per_order_occurrences_count: Vec<u64>,
@@ -53,6 +54,7 @@ impl<'a> PredictionStatistics<'a> {
             per_order_costs: vec![Log2Q::new_unchecked(0); 5 * 5],
             per_symbol_counts: vec![0; 256],
             per_symbol_costs: vec![Log2Q::new_unchecked(0); 256],
+            current_byte_bits: 0,
             current_byte_cost: Log2Q::new_unchecked(<i64>::max_value()),
             total_cost: Log2Q::new_unchecked(0),
             per_order_occurrences_count: vec![0; 5 * (max_order + 1)],
@@ -61,12 +63,7 @@ impl<'a> PredictionStatistics<'a> {
 
     pub fn start_new_byte(&mut self, last_bytes: &LastBytesCache) {
         assert_eq!(last_bytes.unfinished_byte(), UnfinishedByte::EMPTY);
-        if self.total_bytes > 0 {
-            let last_byte = last_bytes.previous_byte_1() as usize;
-            self.per_symbol_counts[last_byte] += 1;
-            self.per_symbol_costs[last_byte] = self.per_symbol_costs[last_byte]
-                .add(&self.current_byte_cost);
-        }
+        self.current_byte_bits = 1;
         self.current_byte_cost = Log2Q::new_unchecked(0);
         self.total_bytes += 1;
     }
@@ -82,6 +79,15 @@ impl<'a> PredictionStatistics<'a> {
         self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
         self.total_cost = self.total_cost.add(&bit_cost);
 
+        self.current_byte_bits =
+            (self.current_byte_bits << 1) | input_bit.to_u16();
+        if self.current_byte_bits >= 256 {
+            let symbol = (self.current_byte_bits & 0xff) as usize;
+            self.per_symbol_counts[symbol] += 1;
+            self.per_symbol_costs[symbol] = self.per_symbol_costs[symbol]
+                .add(&self.current_byte_cost);
+        }
+
         if contexts_count > 0 {
             let max_order = contexts_count - 1;
             let stats_index = {
-- 
2.43.0


From 7f1e07a1c2b6d0ecb5ed26c310689b411260ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:20 +0000
Subject: [PATCH 6/8] fix: count pending 0xff bytes of the encoder in 64 bits

After 2^31 pending bytes the 32-bit counter wrapped around, the pending
bytes were never written and the code could not be decoded.
---
 src/coding/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coding/encoder.rs b/src/coding/encoder.rs
index b33c1e8..69b376c 100644
--- a/src/coding/encoder.rs
+++ b/src/coding/encoder.rs
@@ -26,7 +26,7 @@ pub struct Encoder<'a> {
     writer: &'a mut Write,
     rc_buffer: i32,
     rc_range: i32,
-    run_length_0xff: i32,
+    run_length_0xff: u64,
     last_output_byte: u8,
     delay: bool,
     carry: bool,
-- 
2.43.0


From 826f5b50b736353d6971c620b10e3db03fc5dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 7/8] fix: negation of the minimum is refused in every build

Without overflow checks (release builds) it returned the minimum itself;
addition and subtraction already refuse.
---
 src/fixed_point/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fixed_point/mod.rs b/src/fixed_point/mod.rs
index 315f4c9..7283889 100644
--- a/src/fixed_point/mod.rs
+++ b/src/fixed_point/mod.rs
@@ -138,7 +138,13 @@ pub trait FixI32: FixedPoint<Raw=i32> {
     }
 
     fn neg(&self) -> Self {
-        Self::new(-self.raw(), Self::FRACTIONAL_BITS)
+        let neg_raw =
+            if DO_CHECKS {
+                self.raw().checked_neg().expect("numeric range exceeded")
+            } else {
+                -self.raw()
+            };
+        Self::new(neg_raw, Self::FRACTIONAL_BITS)
     }
 }
 
@@ -390,7 +396,13 @@ pub trait FixI64: FixedPoint<Raw=i64> {
     }
 
     fn neg(&self) -> Self {
-        Self::new(-self.raw(), Self::FRACTIONAL_BITS)
+        let neg_raw =
+            if DO_CHECKS {
+                self.raw().checked_neg().expect("numeric range exceeded")
+            } else {
+                -self.raw()
+            };
+        Self::new(neg_raw, Self::FRACTIONAL_BITS)
     }
 }
 
-- 
2.43.0


From 132bb58e01be2eefde4ff0973915610def74d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 8/8] fix: enumerate no suffixes in an empty window whose start
 has wrapped to 0

---
 src/history/window.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/history/window.rs b/src/history/window.rs
index ef965a5..67c3ee0 100644
--- a/src/history/window.rs
+++ b/src/history/window.rs
@@ -180,7 +180,9 @@ impl InputWindow {
 
     pub fn for_each_suffix<F: Fn(WindowIndex) -> ()>(&self, action: F) {
         let suffices_range =
-            if self.size == 0 || self.start.value <= self.cursor.value {
+            if self.size == 0 {
+                (0..0).chain(0..0)
+            } else if self.start.value <= self.cursor.value {
                 (self.start.value..self.cursor.value + 1).chain(0..0)
             } else {
                 (self.start.value..self.max_size)
-- 
2.43.0

