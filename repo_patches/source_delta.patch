From b0ff755f0046ba242a45ee30394b93081c4fea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 1/5] fix: make the no_std build compile

The std::error::Error implementation was not guarded by the std feature, so
--no-default-features --features alloc, documented as supported, failed to
compile.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 57cc5aa..fb6251e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,4 +77,5 @@ impl fmt::Display for HyperLogLogError {
     }
 }
 
+#[cfg(feature = "std")]
 impl std::error::Error for HyperLogLogError {}
-- 
2.43.0


From e48c5c4d954cbfbe2fc190ad5cf87bd67d54692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 2/5] fix: compute the squared register count in floating point

count * count overflows a 32-bit usize for precision 16 and above: count()
panicked, or returned a wrong estimate without overflow checks, on 32-bit
targets. Both products are exact on 64-bit targets, nothing changes there.
---
 src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 514a40d..420bfbb 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -158,7 +158,7 @@ pub trait HyperLogLogCommon {
             zeros += if value == 0 { 1 } else { 0 };
         }
 
-        raw = Self::alpha(count) * (count * count) as f64 / raw;
+        raw = Self::alpha(count) * (count as f64 * count as f64) / raw;
 
         (raw, zeros)
     }
@@ -172,7 +172,7 @@ pub trait HyperLogLogCommon {
     {
         let raw: f64 = registers.map(|val| 1.0 / (1u64 << val) as f64).sum();
 
-        Self::alpha(count) * (count * count) as f64 / raw
+        Self::alpha(count) * (count as f64 * count as f64) / raw
     }
 
     #[cfg(feature = "const-loop")]
@@ -184,7 +184,7 @@ pub trait HyperLogLogCommon {
     {
         let raw: f64 = registers.map(|val| RAW[val as usize]).sum();
 
-        Self::alpha(count) * (count * count) as f64 / raw
+        Self::alpha(count) * (count as f64 * count as f64) / raw
     }
 
     #[inline] // Estimates the count of distinct elements using linear
-- 
2.43.0


From 79e2f4f7204b4899724393a39068071fda0d064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 3/5] fix: saturate the large range correction of HyperLogLogPF

count() returned NaN once the raw estimate reached 2^32, a state that
valid insertions can produce for every precision.
---
 src/hyperloglog.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 6bda970..e82699c 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -190,7 +190,13 @@ where
             raw = Self::linear_count(self.count, zeros);
         } else if raw > two32 / 30.0 {
             // Apply large range correction.
-            raw = -1.0 * two32 * ln(1.0 - raw / two32);
+            //
+            // The correction is not defined for raw estimates of 2^32 and
+            // above, which registers can reach when almost all of the 32-bit
+            // hashes have been inserted. Saturate just below.
+            let ratio = (raw / two32).min(1.0 - 1.0 / two32);
+
+            raw = -1.0 * two32 * ln(1.0 - ratio);
         }
 
         raw
-- 
2.43.0


From b2ec332c4b2cb2f7c69d9ba380e6c2c9a0090d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 4/5] fix: use the published linear counting threshold for
 precision 5

The appendix of the HyperLogLog++ paper gives 20 for precision 5, not 10.
---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 9264ced..5190cde 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -421,7 +421,7 @@ where
     fn threshold(precision: u8) -> f64 {
         match precision {
             4 => 10.0,
-            5 => 10.0,
+            5 => 20.0,
             6 => 40.0,
             7 => 80.0,
             8 => 220.0,
-- 
2.43.0


From 0f0e190b6eae400874a630eaff1a28ccabf8514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 5/5] fix: count all 2^25 registers in the sparse
 representation

Hash codes of the sparse representation have 25 index bits, but count()
used linear counting over 2^24 registers, which overestimates by
n^2 / 2^26 on average: 150 for n = 1e5 at precision 18, an order of
magnitude above the standard error of the representation.
---
 src/hyperloglogplus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperloglogplus.rs b/src/hyperloglogplus.rs
index 5190cde..4391e20 100644
--- a/src/hyperloglogplus.rs
+++ b/src/hyperloglogplus.rs
@@ -90,7 +90,7 @@ where
         let count = Self::register_count(precision);
         let counts = (
             count,
-            Self::register_count(Self::PRIME_PRECISION - 1),
+            Self::register_count(Self::PRIME_PRECISION),
             RegistersPlus::size_in_bytes(count),
         );
 
-- 
2.43.0

