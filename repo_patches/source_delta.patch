From eb8d98dc8cd65c0dd4b9c6ef352c8d2f1e22d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:19 +0000
Subject: [PATCH 1/6] fix: do not overflow on a checksum character below '0'

A line whose last byte is smaller than '0' (a space, for example) made the
checksum comparison underflow, which panics when overflow checks are on.
It is now reported as a bad checksum.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 496ded3..5896aab 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -640,7 +640,7 @@ impl Elements {
                     _ => accumulator,
                 })
                 % 10) as u8
-                != content[68] - b'0'
+                != content[68].wrapping_sub(b'0')
             {
                 return Err(Error {
                     what: ErrorWhat::BadChecksum,
-- 
2.43.0


From 5b5141892b800874753d1adbdacb15a841e3b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:19 +0000
Subject: [PATCH 2/6] fix: compute the AFSPC epoch of years before 1 with
 signed integers

The year was cast to an unsigned integer, so that dates in year 0 or earlier
overflowed (a panic when overflow checks are on, a wrong epoch otherwise).
---
 src/tle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index 5896aab..205e52b 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -476,10 +476,9 @@ pub fn julian_years_since_j2000_afspc_compatibility_mode(datetime: &chrono::Naiv
     //         + (((nsᵤ / 10⁹ + sᵤ) / 60 + minᵤ) / 60 + hᵤ) / 24
     //         - 2451545)
     //         / 365.25
-    ((367 * datetime.year() as u32
-        - (7 * (datetime.year() as u32 + (datetime.month() + 9) / 12)) / 4
-        + 275 * datetime.month() / 9
-        + datetime.day()) as f64
+    ((367 * datetime.year() - (7 * (datetime.year() + (datetime.month() as i32 + 9) / 12)) / 4
+        + 275 * datetime.month() as i32 / 9
+        + datetime.day() as i32) as f64
         + 1721013.5
         + (((datetime.nanosecond() as f64 / 1e9 + datetime.second() as f64) / 60.0
             + datetime.minute() as f64)
-- 
2.43.0


From b4a3a6eadee6a946f22a344b9230f0a2eabaaa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:19 +0000
Subject: [PATCH 3/6] fix: reject an EPHEMERIS_TYPE number that does not fit a
 u8

Numbers above 255 were silently truncated while the same value given as a
string was an error.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 205e52b..6f747a5 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -424,7 +424,7 @@ where
 {
     match serde_json::value::Value::deserialize(deserializer)? {
         serde_json::value::Value::Number(number) => match number.as_u64() {
-            Some(value) => Ok(value as u8),
+            Some(value) => u8::try_from(value).map_err(serde::de::Error::custom),
             None => Err(serde::de::Error::custom("parsing the number as u64 failed")),
         },
         serde_json::value::Value::String(string) => {
-- 
2.43.0


From 306f9f7129f3f365ce33d26bacaf6bce8ccfdfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:19 +0000
Subject: [PATCH 4/6] fix: stop the resonance integration when the time is not
 finite

Propagating a resonant orbit to NaN or infinity never left the integration
loop.
---
 src/deep_space.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/deep_space.rs b/src/deep_space.rs
index 1ff5c48..15ad7b8 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -181,10 +181,11 @@ impl ResonanceState {
                     )
                 }
             };
-            if (t - delta_t)
-                .partial_cmp(&self.t)
-                .unwrap_or(Ordering::Equal)
-                == ordering
+            if !t.is_finite()
+                || (t - delta_t)
+                    .partial_cmp(&self.t)
+                    .unwrap_or(Ordering::Equal)
+                    == ordering
             {
                 return (
                     // p₂₈ = (kₑ / (nᵢ + ṅᵢ (t - tᵢ) + ¹/₂ n̈ᵢ (t - tᵢ)²))²ᐟ³
-- 
2.43.0


From ee5ffb9fc659c224e8b9d26f84dccd39a1040705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:20 +0000
Subject: [PATCH 5/6] fix: reject an epoch eccentricity that is not a number

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2760f85..deb9224 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -291,7 +291,7 @@ impl Constants {
         drag_term: f64,
         orbit_0: propagator::Orbit,
     ) -> core::result::Result<Self, OutOfRangeEpochEccentricity> {
-        if orbit_0.eccentricity < 0.0 || orbit_0.eccentricity >= 1.0 {
+        if !(0.0..1.0).contains(&orbit_0.eccentricity) {
             Err(OutOfRangeEpochEccentricity(orbit_0.eccentricity))
         } else {
             // p₁ = cos I₀
-- 
2.43.0


From 388b75a37ea37bb07140039aed89c9db090ed6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:20 +0000
Subject: [PATCH 6/6] fix: reject minutes since epoch whose nanoseconds do not
 fit an i64

NaN was converted to the epoch itself, and 2^63 nanoseconds, the first value
above the i64 range, was converted as if it were in range.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 6f747a5..e8abd09 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -914,7 +914,7 @@ impl Elements {
         minutes_since_epoch: &MinutesSinceEpoch,
     ) -> core::result::Result<chrono::NaiveDateTime, MinutesSinceEpochToDatetimeError> {
         let nanoseconds = minutes_since_epoch.0 * 60e9;
-        if nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
+        if !(i64::MIN as f64..i64::MAX as f64).contains(&nanoseconds) {
             Err(MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(
                 minutes_since_epoch.0,
             ))
-- 
2.43.0

