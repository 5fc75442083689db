From ddae254f9e472f509914d68ee15742f47c123bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 01/74] fix: NumDiff history never reached the highest order,
 compress() read past it at order M

rotate_history() dropped the oldest sample of the window and compress() needed M+1 samples
out of an M-sample window: orders M-1 and M were wrong or panicked (out of bounds), and
order 0 panicked.
---
 src/hatanaka/numdiff.rs | 58 +++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/src/hatanaka/numdiff.rs b/src/hatanaka/numdiff.rs
index eb56177..2574dac 100644
--- a/src/hatanaka/numdiff.rs
+++ b/src/hatanaka/numdiff.rs
@@ -48,7 +48,7 @@ impl<const M: usize> NumDiff<M> {
 
     /// Rotate internal buffer, take new sample into account.
     fn rotate_history(&mut self, data: i64) {
-        self.buf.copy_within(0..M - 2, 1);
+        self.buf.copy_within(0..M - 1, 1);
         self.buf[0] = data;
     }
 
@@ -58,22 +58,7 @@ impl<const M: usize> NumDiff<M> {
             self.m += 1;
         }
 
-        let new: i64 = match self.m {
-            1 => data + self.buf[0],
-            2 => data + 2 * self.buf[0] - self.buf[1],
-            3 => data + 3 * self.buf[0] - 3 * self.buf[1] + self.buf[2],
-            4 => data + 4 * self.buf[0] - 6 * self.buf[1] + 4 * self.buf[2] - self.buf[3],
-            5 => {
-                data + 5 * self.buf[0] - 10 * self.buf[1] + 10 * self.buf[2] - 5 * self.buf[3]
-                    + self.buf[4]
-            },
-            6 => {
-                data + 6 * self.buf[0] - 15 * self.buf[1] + 20 * self.buf[2] - 15 * self.buf[3]
-                    + 6 * self.buf[4]
-                    - self.buf[5]
-            },
-            _ => panic!("numdiff is limited to M < 7"),
-        };
+        let new = data.wrapping_add(self.prediction());
 
         self.rotate_history(new);
         new
@@ -84,26 +69,31 @@ impl<const M: usize> NumDiff<M> {
         if self.m < self.level {
             self.m += 1;
         }
+
+        let compressed = data.wrapping_sub(self.prediction());
+
         self.rotate_history(data);
+        compressed
+    }
 
-        match self.m {
-            1 => self.buf[0] - self.buf[1],
-            2 => self.buf[0] - 2 * self.buf[1] + self.buf[2],
-            3 => self.buf[0] - 3 * self.buf[1] + 3 * self.buf[2] - self.buf[3],
-            4 => self.buf[0] - 4 * self.buf[1] + 6 * self.buf[2] - 4 * self.buf[3] + self.buf[4],
-            5 => {
-                self.buf[0] - 5 * self.buf[1] + 10 * self.buf[2] - 10 * self.buf[3]
-                    + 5 * self.buf[4]
-                    - self.buf[5]
-            },
-            6 => {
-                self.buf[0] - 6 * self.buf[1] + 15 * self.buf[2] - 20 * self.buf[3]
-                    + 15 * self.buf[4]
-                    - 6 * self.buf[5]
-                    + self.buf[6]
-            },
+    /// Predicts next data point from past samples, at current compression order.
+    fn prediction(&self) -> i64 {
+        let coefficients: &[i64] = match self.m {
+            0 => &[],
+            1 => &[1],
+            2 => &[2, -1],
+            3 => &[3, -3, 1],
+            4 => &[4, -6, 4, -1],
+            5 => &[5, -10, 10, -5, 1],
+            6 => &[6, -15, 20, -15, 6, -1],
             _ => panic!("numdiff is limited to M < 7"),
-        }
+        };
+        coefficients
+            .iter()
+            .enumerate()
+            .fold(0_i64, |predicted, (i, coeff)| {
+                predicted.wrapping_add(coeff.wrapping_mul(self.buf[i]))
+            })
     }
 }
 
-- 
2.43.0


From 9e05767f57c341e7a7ea21bdc3d24200135478d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 02/74] fix: TextDiff did not blank characters that disappear
 when the text shrinks

---
 src/hatanaka/textdiff.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/hatanaka/textdiff.rs b/src/hatanaka/textdiff.rs
index c691391..3d0cf85 100644
--- a/src/hatanaka/textdiff.rs
+++ b/src/hatanaka/textdiff.rs
@@ -70,13 +70,15 @@ impl TextDiff {
     pub fn compress(&mut self, data: &str) -> &str {
         let len = data.len();
         let mut buf_len = self.buffer.len();
-        let min_len = std::cmp::min(len, buf_len);
 
-        if buf_len > len {
-            // special case: shrink history
-            self.buffer = self.buffer[..len].to_string();
+        // special case: shrink history
+        let shrinked = if buf_len > len {
+            let shrinked = self.buffer.split_off(len);
             buf_len = len; // update size
-        }
+            shrinked
+        } else {
+            String::new()
+        };
 
         self.compressed = self.buffer.to_string();
 
@@ -117,6 +119,11 @@ impl TextDiff {
             }
         }
 
+        // text termination that has disappeared: needs to be whitened
+        for byte in shrinked.trim_end().bytes() {
+            self.compressed.push(if byte == b' ' { ' ' } else { '&' });
+        }
+
         &self.compressed
     }
 }
-- 
2.43.0


From b7aa51ca51dd8b24d2fb2e0c74a0a654a39bf518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 03/74] fix: epochs keep their exact sub-second part in any
 timescale

Fractions are scaled by their number of digits, whatever the timescale
(GPST and friends used to rescale 100 ns fractions), year 79 is 2079,
and invalid dates are reported instead of panicking.
---
 src/epoch.rs | 59 +++++++++++++++-------------------------------------
 1 file changed, 17 insertions(+), 42 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 0a2ff97..a52b7d3 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -133,7 +133,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 /* old RINEX problem: YY sometimes encoded on two digits */
                 if y > 79 && y <= 99 {
                     y += 1900;
-                } else if y < 79 {
+                } else if y <= 79 {
                     y += 2000;
                 }
             },
@@ -151,26 +151,22 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             },
             5 => {
                 if let Some(dot) = item.find('.') {
-                    let is_nav = item.trim().len() < 7;
-
                     ss = item[..dot]
                         .trim()
                         .parse::<u8>()
                         .map_err(|_| ParsingError::EpochParsing)?;
 
-                    let nanos = item[dot + 1..].trim();
-
-                    ns = nanos
+                    // fractional part, whatever its precision:
+                    //  NAV RINEX : 100ms precision
+                    //  OBS RINEX : 100ns precision
+                    ns = item[dot + 1..]
+                        .trim()
+                        .chars()
+                        .chain(std::iter::repeat('0'))
+                        .take(9)
+                        .collect::<String>()
                         .parse::<u64>()
                         .map_err(|_| ParsingError::EpochParsing)?;
-
-                    if is_nav {
-                        // NAV RINEX : 100ms precision
-                        ns *= 100_000_000;
-                    } else if nanos.len() != 9 {
-                        // OBS RINEX : 100ns precision
-                        ns *= 100;
-                    }
                 } else {
                     ss = item
                         .trim()
@@ -184,35 +180,14 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
 
     //println!("content \"{}\"", content); // DEBUG
     //println!("Y {} M {} D {} HH {} MM {} SS {} NS {}", y, m, d, hh, mm, ss, ns); // DEBUG
-    match ts {
-        TimeScale::UTC => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        TimeScale::TAI => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        ts => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_str(&format!(
-                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06} {}",
-                y, m, d, hh, mm, ss, ns, ts
-            ))?;
-            Ok(epoch)
-        },
+    // Catch possible Hifitime panic on bad string content
+    if y == 0 {
+        return Err(ParsingError::EpochFormat);
     }
+
+    Ok(Epoch::maybe_from_gregorian(
+        y, m, d, hh, mm, ss, ns as u32, ts,
+    )?)
 }
 
 pub(crate) fn parse_utc(s: &str) -> Result<Epoch, ParsingError> {
-- 
2.43.0


From c8255bcbe5fec490d81606b332ad48172355bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 04/74] fix: TIME OF FIRST/LAST OBS is a civil date of the
 timescale in force

When the timescale is omitted the civil date is that of the constellation;
GLO and QZS are valid timescale codes; the fraction may have any precision.
---
 src/header/parsing.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index dfdbc2d..6c3b996 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -3,7 +3,7 @@ use crate::{
     antex::{HeaderFields as AntexHeader, Pcv},
     clock::{ClockProfileType, HeaderFields as ClockHeader, WorkClock},
     doris::{HeaderFields as DorisHeader, Station as DorisStation},
-    epoch::parse_ionex_utc as parse_ionex_utc_epoch,
+    epoch::{epoch_decompose, parse_ionex_utc as parse_ionex_utc_epoch},
     hardware::{Antenna, Receiver, SvAntenna},
     hatanaka::CRINEX,
     header::{DcbCompensation, Header, PcvCompensation},
@@ -569,8 +569,13 @@ impl Header {
                     Some(c) => {
                         // in case of OLD RINEX : fixed constellation
                         //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_first_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                        if time_of_first_obs.time_scale == TimeScale::TAI {
+                            let ts = c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                            let (y, m, d, hh, mm, ss, ns) = epoch_decompose(time_of_first_obs);
+                            time_of_first_obs =
+                                Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns, ts)
+                                    .map_err(|_| ParsingError::DatetimeParsing)?;
+                        }
                     },
                 }
                 if rinex_type == Type::DORIS {
@@ -585,8 +590,13 @@ impl Header {
                     Some(c) => {
                         // in case of OLD RINEX : fixed constellation
                         //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_last_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                        if time_of_last_obs.time_scale == TimeScale::TAI {
+                            let ts = c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                            let (y, m, d, hh, mm, ss, ns) = epoch_decompose(time_of_last_obs);
+                            time_of_last_obs =
+                                Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns, ts)
+                                    .map_err(|_| ParsingError::DatetimeParsing)?;
+                        }
                     },
                 }
 
@@ -1013,8 +1023,8 @@ impl Header {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        let ns = ns
-            .trim()
+        // fractional part: any number of digits
+        let ns = format!("{:0<9}", ns.trim())[..9]
             .parse::<u32>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
@@ -1031,11 +1041,15 @@ impl Header {
          * offset from TAI, that we will convert back to TAI later
          */
         if !rem.is_empty() && rem != "DOR" {
-            ts = TimeScale::from_str(rem.trim())?;
+            ts = match rem {
+                "GLO" => TimeScale::UTC,
+                "QZS" => TimeScale::QZSST,
+                rem => TimeScale::from_str(rem)?,
+            };
         }
 
         Epoch::from_str(&format!(
-            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:08} {}",
+            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} {}",
             y, m, d, hh, mm, ss, ns, ts
         ))
         .map_err(|_| ParsingError::DatetimeParsing)
-- 
2.43.0


From 9195ed150e404007f61c6a7920b3bccc428c48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:52 +0000
Subject: [PATCH 05/74] fix: observations are dated in the TIME OF FIRST OBS
 timescale when it is defined

---
 src/record/parsing.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 84b5e9d..03f75f9 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -122,26 +122,22 @@ impl Record {
         let mut obs_ts = TimeScale::default();
 
         if let Some(obs) = &header.obs {
-            match header.constellation {
-                Some(Constellation::Mixed) | None => {
-                    if let Some(t) = obs.timeof_first_obs {
+            if let Some(t) = obs.timeof_first_obs {
+                obs_ts = t.time_scale;
+            } else {
+                match header.constellation {
+                    Some(Constellation::Mixed) | None => {
+                        let t = obs
+                            .timeof_last_obs
+                            .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
                         obs_ts = t.time_scale;
-                    } else {
-                        if let Some(t) = obs.timeof_first_obs {
-                            obs_ts = t.time_scale;
-                        } else {
-                            let t = obs
-                                .timeof_last_obs
-                                .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
-                            obs_ts = t.time_scale;
-                        }
-                    }
-                },
-                Some(constellation) => {
-                    obs_ts = constellation
-                        .timescale()
-                        .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
-                },
+                    },
+                    Some(constellation) => {
+                        obs_ts = constellation
+                            .timescale()
+                            .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
+                    },
+                }
             }
         }
 
-- 
2.43.0


From e8e7b78957f927ec7b2ca115633b8aa208d95a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 06/74] fix: receiver clock offsets are stored, and read from
 columns 69-80 in RINEX 2

The parsed clock offset was dropped, and looked for at the wrong place in
old revisions.
---
 src/observation/parsing.rs | 10 +++++-----
 src/record/parsing.rs      |  1 +
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index c81df9b..ce1f12c 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -108,12 +108,12 @@ pub fn parse_epoch(
         .map_err(|_| ParsingError::NumSatParsing)?;
 
     // grab possible clock offset
-    let offs: Option<&str> = match header.version.major < 2 {
+    let offs: Option<&str> = match header.version.major < 3 {
         true => {
             // RINEX 2
             // clock offsets are last 12 characters
-            if line.len() > 60 - 12 {
-                Some(line.split_at(60 - 12).1.trim())
+            if line.len() > 80 - 12 {
+                Some(line.split_at(80 - 12).1.trim())
             } else {
                 None
             }
@@ -139,8 +139,8 @@ pub fn parse_epoch(
 
     if let Some(offset) = offs {
         if let Ok(offset_s) = offset.parse::<f64>() {
-            observations
-                .with_clock_observation(ClockObservation::default().with_offset_s(epoch, offset_s));
+            observations.clock =
+                Some(ClockObservation::default().with_offset_s(epoch, offset_s));
         }
     }
 
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 03f75f9..b83b0d5 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -307,6 +307,7 @@ impl Record {
                             }
 
                             observations.signals.clear(); // reset for next parsing (single alloc)
+                            observations.clock = None;
                         },
 
                         Type::DORIS => {
-- 
2.43.0


From 4a15e10a2ca40a16598e9dceb063932d4ae27f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:15 +0000
Subject: [PATCH 07/74] fix: RINEX 3 observation fields start right after the
 satellite name

Fields were read one column late: the LLI digit was taken as a fourth decimal
and the sign or the leading digit of wide values was lost; a trimmed last
field was skipped.
---
 src/observation/parsing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index ce1f12c..b8176fa 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -492,8 +492,8 @@ fn parse_signals_v3(
 
         let observables = observables.unwrap();
 
-        let num_obs = line.len() / OBSERVABLE_WIDTH;
-        let mut offset = SVNN_SIZE + 1;
+        let num_obs = div_ceil(line.len() - SVNN_SIZE, OBSERVABLE_WIDTH);
+        let mut offset = SVNN_SIZE;
 
         for i in 0..num_obs {
             if i == observables.len() {
@@ -507,7 +507,7 @@ fn parse_signals_v3(
             let mut lli = Option::<LliFlags>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH {
-                let start = offset + OBSERVABLE_F14_WIDTH - 1;
+                let start = offset + OBSERVABLE_F14_WIDTH;
                 let lli_slice = &line[start..start + 1];
                 match lli_slice.parse::<u8>() {
                     Ok(unsigned) => {
@@ -523,7 +523,7 @@ fn parse_signals_v3(
             let mut snr = Option::<SNR>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH + 1 {
-                let start = offset + OBSERVABLE_F14_WIDTH;
+                let start = offset + OBSERVABLE_F14_WIDTH + 1;
                 let snr_slice = &line[start..start + 1];
 
                 if let Ok(value) = snr_slice.parse::<u8>() {
-- 
2.43.0


From 6a5dfad673cd955ad300714eacb015b2fd67f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 08/74] fix: RINEX 2 observations of trimmed, padded or
 anonymous satellites

A satellite whose last line is trimmed, or padded with blanks, lost the
following satellites; blank system letters broke the satellite list alignment;
null clock offsets are not an observation.
---
 src/observation/parsing.rs | 43 +++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index b8176fa..7def67a 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -138,9 +138,12 @@ pub fn parse_epoch(
     };
 
     if let Some(offset) = offs {
+        // null offsets are the usual notation for an undetermined clock state
         if let Ok(offset_s) = offset.parse::<f64>() {
-            observations.clock =
-                Some(ClockObservation::default().with_offset_s(epoch, offset_s));
+            if offset_s != 0.0 {
+                observations.clock =
+                    Some(ClockObservation::default().with_offset_s(epoch, offset_s));
+            }
         }
     }
 
@@ -171,7 +174,7 @@ fn parse_observations(
     let observables = &obs.codes;
 
     // V1 / V2 tedious case
-    let rem = rem.trim();
+    let rem = rem.trim_end();
     let remainder_len = rem.len();
 
     if header.version.major < 3 {
@@ -181,13 +184,18 @@ fn parse_observations(
 
         // starts with first line content
         let end = (12 * 3).min(remainder_len);
-        let mut systems_str = rem[..end].to_string();
+        let mut systems_str = rem[..end].trim_end().to_string();
         let mut systems_str_len = systems_str.len();
 
         // grab following lines (if we need to)
         while systems_str_len / 3 < num_sat.into() {
             if let Some(line) = lines.next() {
-                let trimmed = line.trim();
+                // the satellite system may be omitted (blank)
+                let trimmed = if line.len() > 32 && line[..32].trim().is_empty() {
+                    line[32..].trim_end()
+                } else {
+                    line.trim()
+                };
                 systems_str_len += trimmed.len();
                 systems_str.push_str(trimmed);
             } else {
@@ -337,7 +345,7 @@ fn parse_signals_v2(
             if obs_ptr >= observables.len() {
                 sv_identified = false;
                 obs_identified = false;
-                if sv_ptr == systems_str_len {
+                if sv_ptr >= systems_str_len {
                     // we're done
                     return;
                 }
@@ -347,7 +355,7 @@ fn parse_signals_v2(
         }
 
         // num obs contained this line
-        let num_obs = div_ceil(line_width, OBSERVABLE_WIDTH);
+        let num_obs = div_ceil(line_width, OBSERVABLE_WIDTH).min(MAX_OBSERVABLES_LINE);
 
         let mut offset = 0;
 
@@ -364,8 +372,8 @@ fn parse_signals_v2(
         // process all of them
         for _ in 0..num_obs {
             if obs_ptr >= observables.len() {
-                // line is abnormally long (trailing whitespaces): abort
-                return;
+                // line is abnormally long (trailing whitespaces): move on
+                break;
             }
 
             let end = (offset + OBSERVABLE_WIDTH).min(line_width);
@@ -432,7 +440,7 @@ fn parse_signals_v2(
                 sv_identified = false;
                 obs_identified = false;
 
-                if sv_ptr == systems_str_len {
+                if sv_ptr >= systems_str_len {
                     // we're done
                     return;
                 }
@@ -445,6 +453,21 @@ fn parse_signals_v2(
         if num_obs < MAX_OBSERVABLES_LINE {
             obs_ptr += MAX_OBSERVABLES_LINE - num_obs;
         }
+
+        // trimmed line: this concludes this vehicle as well,
+        // unless the last field is truncated: following content is not aligned
+        let last_width = line.trim_end().len() % OBSERVABLE_WIDTH;
+        let truncated = last_width > 0 && last_width < OBSERVABLE_F14_WIDTH;
+
+        if sv_identified && !truncated && obs_ptr >= observables.len() {
+            sv_identified = false;
+            obs_identified = false;
+
+            if sv_ptr >= systems_str_len {
+                // we're done
+                return;
+            }
+        }
     } // for all lines provided
 }
 
-- 
2.43.0


From 00cd60c84eb8a18c7cd395f2575a8643bff976f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 09/74] fix: LEAP SECONDS and CRINEX headers keep their label
 on column 61

Four letter timescales shifted the label, program names over 40 characters
underflowed, single digit years were not padded.
---
 src/hatanaka/crinex.rs | 7 +++----
 src/leap.rs            | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 9010148..8a396ec 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -48,15 +48,14 @@ impl CRINEX {
             _ => "Dec",
         };
 
-        write!(w, "{}", self.prog)?;
-        write!(w, "{:<width$}", "", width = 40 - self.prog.len())?;
+        write!(w, "{:<40.20}", self.prog)?;
 
         writeln!(
             w,
-            "{:02}-{}-{} {:02}:{:02}     CRINEX PROG / DATE",
+            "{:02}-{}-{:02} {:02}:{:02}     CRINEX PROG / DATE",
             d,
             formatted_month,
-            y - 2000,
+            y.rem_euclid(100),
             hh,
             mm,
         )?;
diff --git a/src/leap.rs b/src/leap.rs
index fbceb84..de5083e 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -43,12 +43,12 @@ impl Leap {
         }
 
         if let Some(ts) = self.timescale {
-            write!(w, "{:x}", ts)?;
+            write!(w, "{:<35}", format!("{:x}", ts))?;
         } else {
-            write!(w, "   ")?;
+            write!(w, "{:35}", "")?;
         }
 
-        writeln!(w, "                                LEAP SECONDS")?;
+        writeln!(w, "LEAP SECONDS")?;
 
         Ok(())
     }
-- 
2.43.0


From 89576937ac9ddcbb78bc47bd698fed772853f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 10/74] fix: marker types print as themselves, marker numbers
 keep their three digits

---
 src/marker.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/marker.rs b/src/marker.rs
index a0ad313..461fb88 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -70,6 +70,7 @@ impl std::str::FromStr for MarkerType {
             "non physical" => Ok(Self::NonPhysical),
             "spaceborne" => Ok(Self::Spaceborne),
             "floating ice" => Ok(Self::FloatingIce),
+            "fixed buoy" => Ok(Self::FixedBuoy),
             "floating buoy" => Ok(Self::FloatingBuoy),
             "glacier" => Ok(Self::Glacier),
             "ballistic" => Ok(Self::Ballistic),
@@ -84,7 +85,19 @@ impl std::fmt::Display for MarkerType {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         match self {
             Self::Geodetic => write!(f, "GEODETIC"),
-            _ => write!(f, "HUMAN"),
+            Self::NonGeodetic => write!(f, "NON GEODETIC"),
+            Self::NonPhysical => write!(f, "NON PHYSICAL"),
+            Self::Spaceborne => write!(f, "SPACEBORNE"),
+            Self::Airborne => write!(f, "AIRBORNE"),
+            Self::Watercraft => write!(f, "WATER CRAFT"),
+            Self::Groundcraft => write!(f, "GROUND CRAFT"),
+            Self::FixedBuoy => write!(f, "FIXED BUOY"),
+            Self::FloatingBuoy => write!(f, "FLOATING BUOY"),
+            Self::FloatingIce => write!(f, "FLOATING ICE"),
+            Self::Glacier => write!(f, "GLACIER"),
+            Self::Ballistic => write!(f, "BALLISTIC"),
+            Self::Animal => write!(f, "ANIMAL"),
+            Self::Human => write!(f, "HUMAN"),
         }
     }
 }
@@ -119,7 +132,7 @@ impl GeodeticMarker {
         let mut s = self.clone();
         if content.len() == 9 && content.chars().nth(5) == Some('M') {
             if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
-                if let Ok(monument) = u16::from_str_radix(&content[7..], 10) {
+                if let Ok(monument) = u16::from_str_radix(&content[6..], 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
                 }
-- 
2.43.0


From d111f1c1f0f790a09af5bdf82590e0bbb5e930af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 11/74] fix: observables and first/last epochs header lines
 respect the layout

The label was missing on lines of 8 observables, duplicated on lines of 9,
and sensor lines were followed by an empty line.
---
 src/meteo/header.rs       |  6 +++---
 src/observation/header.rs | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 1e709c9..5bcacb8 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -40,13 +40,13 @@ impl HeaderFields {
             write!(w, "    {}", observable)?;
 
             if (nth % NUM_OBSERVABLES_PER_LINE) == NUM_OBSERVABLES_PER_LINE - 1 {
-                write!(w, "# / TYPES OF OBSERV\n      ")?;
+                writeln!(w, "# / TYPES OF OBSERV")?;
             }
 
             modulo = nth % NUM_OBSERVABLES_PER_LINE;
         }
 
-        if modulo != 7 {
+        if modulo != NUM_OBSERVABLES_PER_LINE - 1 {
             writeln!(
                 w,
                 "{:>width$}",
@@ -56,7 +56,7 @@ impl HeaderFields {
         }
 
         for sensor in self.sensors.iter() {
-            writeln!(w, "{}", sensor)?;
+            write!(w, "{}", sensor)?;
         }
 
         Ok(())
diff --git a/src/observation/header.rs b/src/observation/header.rs
index b419fce..2bbe319 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -50,7 +50,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF FIRST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:<12}TIME OF FIRST OBS",
                 y,
                 m,
                 d,
@@ -58,7 +58,7 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                format!("{:x}", t.time_scale),
             )?;
         }
 
@@ -66,7 +66,7 @@ impl HeaderFields {
             let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
             writeln!(
                 w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF LAST OBS",
+                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:<12}TIME OF LAST OBS",
                 y,
                 m,
                 d,
@@ -74,7 +74,7 @@ impl HeaderFields {
                 mm,
                 ss,
                 ns / 100,
-                t.time_scale,
+                format!("{:x}", t.time_scale),
             )?;
         }
 
@@ -98,7 +98,7 @@ impl HeaderFields {
                     write!(w, "      ")?;
                 }
 
-                write!(w, "    {}", observable)?;
+                write!(w, "{:>6}", observable.to_string())?;
 
                 if (nth % 9) == 8 {
                     writeln!(w, "# / TYPES OF OBSERV")?;
@@ -107,7 +107,7 @@ impl HeaderFields {
                 modulo = nth % 9;
             }
 
-            if modulo != 7 {
+            if modulo != 8 {
                 writeln!(
                     w,
                     "{:>width$}",
-- 
2.43.0


From c3483fe4d736c0e57f7137ea1a4d95384959fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 12/74] fix: antenna base coordinates are written under the
 label they are read from

---
 src/hardware.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hardware.rs b/src/hardware.rs
index 4436c7c..7b8561d 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -109,7 +109,7 @@ impl Antenna {
                 "{}",
                 fmt_rinex(
                     &format!("{:14.4}{:14.4}{:14.4}", coords.0, coords.1, coords.2),
-                    "APPROX POSITION XYZ"
+                    "ANTENNA: DELTA X/Y/Z"
                 )
             )?;
         }
-- 
2.43.0


From af0c1891a44b5d2fc8bad0fa101ad212489e6de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 13/74] fix: marker and antenna header fields may come in any
 order, at full width

---
 src/header/parsing.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 6c3b996..2a656d0 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -284,19 +284,17 @@ impl Header {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = content.split_at(20).0.trim();
-                geodetic_marker = Some(GeodeticMarker::default().with_name(name));
+                let name = content.trim();
+                geodetic_marker = Some(geodetic_marker.unwrap_or_default().with_name(name));
             } else if marker.contains("MARKER NUMBER") {
                 let number = content.split_at(20).0.trim();
-                if let Some(ref mut marker) = geodetic_marker {
-                    *marker = marker.with_number(number);
-                }
+                geodetic_marker = Some(geodetic_marker.unwrap_or_default().with_number(number));
             } else if marker.contains("MARKER TYPE") {
                 let code = content.split_at(20).0.trim();
                 if let Ok(mtype) = MarkerType::from_str(code) {
-                    if let Some(ref mut marker) = geodetic_marker {
-                        marker.marker_type = Some(mtype);
-                    }
+                    let mut marker = geodetic_marker.unwrap_or_default();
+                    marker.marker_type = Some(mtype);
+                    geodetic_marker = Some(marker);
                 }
             } else if marker.contains("OBSERVER / AGENCY") {
                 let (obs, ag) = content.split_at(20);
@@ -495,7 +493,8 @@ impl Header {
                 let (model, _) = rem.split_at(20);
 
                 rcvr_antenna = Some(
-                    Antenna::default()
+                    rcvr_antenna
+                        .unwrap_or_default()
                         .with_model(model.trim())
                         .with_serial_number(sn.trim()),
                 );
@@ -519,9 +518,9 @@ impl Header {
                 }
             } else if marker.contains("ANTENNA: DELTA H/E/N") {
                 // Antenna H/E/N eccentricity components
-                let (h, rem) = content.split_at(15);
-                let (e, rem) = rem.split_at(15);
-                let (n, _) = rem.split_at(15);
+                let (h, rem) = content.split_at(14);
+                let (e, rem) = rem.split_at(14);
+                let (n, _) = rem.split_at(14);
                 if let Ok(h) = f64::from_str(h.trim()) {
                     if let Ok(e) = f64::from_str(e.trim()) {
                         if let Ok(n) = f64::from_str(n.trim()) {
-- 
2.43.0


From 46420f2c02f03db77d10107684f5a3512b23fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 14/74] fix: header version line names the satellite system,
 Glonass slots are wrapped properly

The first character is the only significant one: Glonass was written as a 'G',
BeiDou as a 'B'. An undefined constellation is an error, not a panic.
---
 src/header/formatting.rs | 65 ++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index e75727e..d00cea3 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -9,6 +9,8 @@ use crate::{
 
 use std::io::{BufWriter, Write};
 
+use itertools::Itertools;
+
 impl Header {
     /// Formats [Header] into [Write]able interface, using efficient buffering.
     pub fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
@@ -64,32 +66,25 @@ impl Header {
 
         let num_channels = self.glo_channels.len();
 
-        if num_channels > 0 {
-            write!(w, "{:3} ", num_channels,)?;
-        }
-
-        let mut modulo = 0;
-        for (nth, (sv, channel)) in self.glo_channels.iter().enumerate() {
-            write!(w, "{:x} {:2} ", sv, channel,)?;
-
-            if nth == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                write!(w, "GLONASS SLOT / FRQ #\n    ")?;
+        for (nth, slots) in self
+            .glo_channels
+            .iter()
+            .sorted()
+            .collect::<Vec<_>>()
+            .chunks(NUM_GLO_CHANNELS_PER_LINE)
+            .enumerate()
+        {
+            let mut string = if nth == 0 {
+                format!("{:3} ", num_channels)
             } else {
-                if (nth % NUM_GLO_CHANNELS_PER_LINE) == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                    write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-                }
+                "    ".to_string()
+            };
+
+            for (sv, channel) in slots.iter() {
+                string.push_str(&format!("{:x} {:2} ", sv, channel));
             }
 
-            modulo = nth % NUM_GLO_CHANNELS_PER_LINE;
-        }
-
-        if modulo > 0 && modulo != NUM_GLO_CHANNELS_PER_LINE - 1 {
-            writeln!(
-                w,
-                "{:>width$}",
-                "GLONASS SLOT / FRQ #",
-                width = 79 - 9 - (modulo + 1) * 6
-            )?;
+            writeln!(w, "{:<60}GLONASS SLOT / FRQ #", string)?;
         }
 
         //TODO
@@ -137,14 +132,16 @@ impl Header {
                         "{}",
                         fmt_rinex(
                             &format!(
-                                "{:6}.{:02}           NAVIGATION DATA     {:X<20}",
-                                major, minor, c
+                                "{:6}.{:02}           NAVIGATION DATA     {}",
+                                major,
+                                minor,
+                                Self::format_constellation(c)
                             ),
                             "RINEX VERSION / TYPE"
                         )
                     )?;
                 },
-                _ => panic!("constellation must be specified when formatting a NavigationData"),
+                _ => return Err(FormattingError::NoConstellationDefinition),
             },
             Type::ObservationData => match self.constellation {
                 Some(Constellation::Mixed) => {
@@ -166,14 +163,16 @@ impl Header {
                         "{}",
                         fmt_rinex(
                             &format!(
-                                "{:6}.{:02}           OBSERVATION DATA    {:x<20}",
-                                major, minor, c
+                                "{:6}.{:02}           OBSERVATION DATA    {}",
+                                major,
+                                minor,
+                                Self::format_constellation(c)
                             ),
                             "RINEX VERSION / TYPE"
                         )
                     )?;
                 },
-                _ => panic!("constellation must be specified when formatting ObservationData"),
+                _ => return Err(FormattingError::NoConstellationDefinition),
             },
             Type::MeteoData => {
                 writeln!(
@@ -203,6 +202,14 @@ impl Header {
         Ok(())
     }
 
+    /// Formats the satellite system: only the first character (A1) is significant.
+    fn format_constellation(c: Constellation) -> String {
+        match c {
+            Constellation::GPS => c.to_string(),
+            c => format!("{:x}", c),
+        }
+    }
+
     /// Formats RINEX type dependent [Header] fields
     fn format_rinex_dependent<W: Write>(
         &self,
-- 
2.43.0


From e9580cfcbca1a5816e8a7e43836e906a827c613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 15/74] fix: receiver clock offsets are written, epochs without
 satellites keep their line

---
 src/observation/formatting.rs | 45 +++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index 8b14ac3..c2e9655 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -117,22 +117,25 @@ impl Observations {
         const NUM_SV_PER_LINE: usize = 12;
         const NEW_LINE_PADDING: &str = "                                ";
 
-        if let Some(clock) = self.clock {
-            write!(
-                w,
-                " {}  {} {:2}",
-                epoch_format(key.epoch, RinexType::ObservationData, 2),
-                key.flag,
-                numsat,
-            )?;
-        } else {
-            write!(
-                w,
-                " {}  {} {:2}",
-                epoch_format(key.epoch, RinexType::ObservationData, 2),
-                key.flag,
-                numsat,
-            )?;
+        write!(
+            w,
+            " {}  {}{:3}",
+            epoch_format(key.epoch, RinexType::ObservationData, 2),
+            key.flag,
+            numsat,
+        )?;
+
+        // clock offset (if any) closes the first line
+        let clock = self.clock.map(|clock| format!("{:12.9}", clock.offset_s));
+
+        if let Some(clock) = &clock {
+            if numsat == 0 {
+                write!(w, "{:36}{}", "", clock)?;
+            }
+        }
+
+        if numsat == 0 {
+            write!(w, "{}", '\n')?;
         }
 
         for (nth, sv) in sv_list.iter().enumerate() {
@@ -140,6 +143,12 @@ impl Observations {
                 write!(w, "{}", NEW_LINE_PADDING)?;
             }
             write!(w, "{:x}", sv)?;
+            if let Some(clock) = &clock {
+                if nth == NUM_SV_PER_LINE - 1 || (nth == numsat - 1 && nth < NUM_SV_PER_LINE) {
+                    let padding = (NUM_SV_PER_LINE - 1 - nth) * 3;
+                    write!(w, "{:padding$}{}", "", clock)?;
+                }
+            }
             if nth < numsat - 1 && nth % NUM_SV_PER_LINE == NUM_SV_PER_LINE - 1 {
                 write!(w, "{}", '\n')?;
             }
@@ -231,7 +240,7 @@ impl Observations {
         if let Some(clock) = self.clock {
             writeln!(
                 w,
-                "> {}  {} {:2}  {:13.4}",
+                "> {}  {}{:3}      {:15.12}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
@@ -240,7 +249,7 @@ impl Observations {
         } else {
             writeln!(
                 w,
-                "> {}  {} {:2}",
+                "> {}  {}{:3}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
-- 
2.43.0


From 254ad36cc89816a1a6fbc4f8550bbe0ed8e96438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 16/74] fix: meteo continuation lines, last reading of the file
 and blank readings

---
 src/meteo/formatting.rs | 14 ++++++++++++--
 src/meteo/parsing.rs    | 35 ++++++++++++++++++++++++++---------
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/meteo/formatting.rs b/src/meteo/formatting.rs
index 5daec45..c59e716 100644
--- a/src/meteo/formatting.rs
+++ b/src/meteo/formatting.rs
@@ -14,6 +14,10 @@ pub fn format<W: Write>(
     record: &Record,
     header: &Header,
 ) -> Result<(), FormattingError> {
+    // first line carries up to 8 fields, continuation lines up to 10 fields
+    const NUM_FIELDS_FIRST_LINE: usize = 8;
+    const NUM_FIELDS_PER_LINE: usize = 10;
+
     let observables = &header
         .meteo
         .as_ref()
@@ -27,7 +31,13 @@ pub fn format<W: Write>(
         )?;
 
         // follow header definitions
-        for observable in observables.codes.iter() {
+        for (nth, observable) in observables.codes.iter().enumerate() {
+            if nth >= NUM_FIELDS_FIRST_LINE
+                && (nth - NUM_FIELDS_FIRST_LINE) % NUM_FIELDS_PER_LINE == 0
+            {
+                write!(w, "\n    ")?;
+            }
+
             let key = MeteoKey {
                 epoch,
                 observable: observable.clone(),
@@ -36,7 +46,7 @@ pub fn format<W: Write>(
             if let Some(observation) = record.get(&key) {
                 write!(w, "{:7.1}", observation)?;
             } else {
-                write!(w, "           ")?;
+                write!(w, "{:7}", "")?;
             }
         }
         write!(w, "{}", '\n')?;
diff --git a/src/meteo/parsing.rs b/src/meteo/parsing.rs
index da97c91..ce9d103 100644
--- a/src/meteo/parsing.rs
+++ b/src/meteo/parsing.rs
@@ -11,16 +11,18 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
             // minimum epoch descriptor
             return false;
         }
-        let datestr = &line[1..min_len.len()];
-        parse_utc_epoch(datestr).is_ok() // valid epoch descriptor
+        line.get(1..min_len.len())
+            .map(|datestr| parse_utc_epoch(datestr).is_ok()) // valid epoch descriptor
+            .unwrap_or(false)
     } else {
         let min_len = " 2021  1  7  0  0  0";
         if line.len() < min_len.len() {
             // minimum epoch descriptor
             return false;
         }
-        let datestr = &line[1..min_len.len()];
-        parse_utc_epoch(datestr).is_ok() // valid epoch descriptor
+        line.get(1..min_len.len())
+            .map(|datestr| parse_utc_epoch(datestr).is_ok()) // valid epoch descriptor
+            .unwrap_or(false)
     }
 }
 
@@ -29,15 +31,22 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
 ///   - header: [Header] parsed previously
 ///   - content: readable content
 pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
-    let line_len = line.len();
+    // first line carries up to 8 fields, continuation lines up to 10 fields
+    const NUM_FIELDS_FIRST_LINE: usize = 8;
+    const NUM_FIELDS_PER_LINE: usize = 10;
+    const CONTINUATION_OFFSET: usize = 4;
+
     let mut ret = Vec::<(MeteoKey, f64)>::with_capacity(8);
 
+    let mut lines = line.lines();
+    let mut line = lines.next().unwrap_or_default();
+
     let mut offset: usize = 18; // YY
     if header.version.major > 2 {
         offset += 2; // YYYY
     }
 
-    let epoch = parse_utc_epoch(&line[0..offset])?;
+    let epoch = parse_utc_epoch(line.get(..offset).ok_or(ParsingError::EpochFormat)?)?;
 
     let header = &header
         .meteo
@@ -47,9 +56,17 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
     let codes = &header.codes;
 
     // parse all remaining fields
-    for code in codes.iter() {
-        let end = (offset + 7).min(line_len - 1);
-        let slice = &line[offset..end];
+    for (nth, code) in codes.iter().enumerate() {
+        if nth >= NUM_FIELDS_FIRST_LINE
+            && (nth - NUM_FIELDS_FIRST_LINE) % NUM_FIELDS_PER_LINE == 0
+        {
+            if let Some(next) = lines.next() {
+                line = next;
+                offset = CONTINUATION_OFFSET;
+            }
+        }
+        let end = (offset + 7).min(line.len());
+        let slice = line.get(offset..end).unwrap_or_default();
         if let Ok(value) = slice.trim().parse::<f64>() {
             ret.push((
                 MeteoKey {
-- 
2.43.0


From 5d83309bdca75f4c3f957210baf4dc69acba82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 17/74] fix: LEAP SECONDS of any width, with or without the
 extra fields

---
 src/leap.rs | 65 ++++++++++++++++-------------------------------------
 1 file changed, 19 insertions(+), 46 deletions(-)

diff --git a/src/leap.rs b/src/leap.rs
index de5083e..3be4b1a 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -82,54 +82,27 @@ impl Leap {
 impl std::str::FromStr for Leap {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        // two formats exist
+        // two formats exist: basic (leap only) and complete,
+        // where the timescale may directly follow the last number
         let mut ls = Leap::default();
-        let items = s.split_ascii_whitespace().collect::<Vec<_>>();
-        let count = items.len();
 
-        if count < 3 {
-            // Simple / basic format
-            ls.leap = items[0].parse::<u32>().or(Err(ParsingError::LeapParsing))?;
-        } else {
-            // Complex / complete format
-            let (leap, rem) = s.split_at(5);
-            let (tls, rem) = rem.split_at(5);
-            let (week, rem) = rem.split_at(5);
-            let (day, rem) = rem.split_at(5);
-            let system = rem.trim();
-
-            ls.leap = leap
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            let tls = tls
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.delta_tls = Some(tls);
-
-            let week = week
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.week = Some(week);
-
-            let day = day
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.day = Some(day);
-
-            if system.eq("") {
-                ls.timescale = None;
-            } else {
-                let ts = TimeScale::from_str(system)?;
-                ls.timescale = Some(ts);
-            }
+        let system = s.find(|c: char| c.is_alphabetic()).unwrap_or(s.len());
+        let (numbers, system) = s.split_at(system);
+
+        let mut items = numbers
+            .split_ascii_whitespace()
+            .map(|item| item.parse::<u32>().or(Err(ParsingError::LeapParsing)));
+
+        ls.leap = items.next().ok_or(ParsingError::LeapParsing)??;
+        ls.delta_tls = items.next().transpose()?;
+        ls.week = items.next().transpose()?;
+        ls.day = items.next().transpose()?;
+
+        let system = system.trim();
+
+        if !system.is_empty() {
+            let ts = TimeScale::from_str(system)?;
+            ls.timescale = Some(ts);
         }
 
         Ok(ls)
-- 
2.43.0


From 2350e1cd0018957988a56f5e46a3a7015569e9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 18/74] fix: INTERVAL is read to the nanosecond, not one below

---
 src/header/parsing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 2a656d0..ba6f71d 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -658,7 +658,8 @@ impl Header {
                     if interval > 0.0 {
                         // INTERVAL = '0' may exist, in case
                         // of Varying TEC map intervals
-                        sampling_interval = Some(Duration::from_seconds(interval));
+                        sampling_interval =
+                            Some(Duration::from_nanoseconds((interval * 1.0E9).round()));
                     }
                 }
             } else if marker.contains("COSPAR NUMBER") {
-- 
2.43.0


From c24993155c2f69f42eff08d464612917c4d2ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 19/74] fix: RINEX 1 observations are not formatted as RINEX 3

---
 src/record/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/formatting.rs b/src/record/formatting.rs
index cef53fe..140d5b2 100644
--- a/src/record/formatting.rs
+++ b/src/record/formatting.rs
@@ -31,7 +31,7 @@ impl Record {
                 compressor.format(w, &rec, header)?;
             } else {
                 for (k, v) in rec.iter() {
-                    v.format(version_major == 2, k, &header, w)?;
+                    v.format(version_major < 3, k, &header, w)?;
                 }
             }
 
-- 
2.43.0


From a55441bd01f0543c310b0f3f66d00a7935e7dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 20/74] fix: CRINEX compression: reinitializations, SBAS, clock
 offsets and V1 epochs

---
 src/hatanaka/compressor.rs | 44 +++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/hatanaka/compressor.rs b/src/hatanaka/compressor.rs
index c8d32b4..31ab27d 100644
--- a/src/hatanaka/compressor.rs
+++ b/src/hatanaka/compressor.rs
@@ -5,7 +5,7 @@ use crate::{
     error::FormattingError,
     hatanaka::{NumDiff, TextDiff},
     observation::{HeaderFields, LliFlags, Record},
-    prelude::{Observable, SV},
+    prelude::{Constellation, Observable, SV},
     BufWriter,
 };
 
@@ -33,8 +33,8 @@ pub struct CompressorExpert<const M: usize> {
     /// Flag textdiff
     /// Compression kernels (per SV and signal)
     sv_kernels: HashMap<(SV, Observable), NumDiff<M>>,
-    // /// Clock [NumDiff]
-    // clock_diff: NumDiff<M>,
+    /// Clock [NumDiff], as long as clock offset is described
+    clock_diff: Option<NumDiff<M>>,
 }
 
 impl<const M: usize> Default for CompressorExpert<M> {
@@ -47,6 +47,7 @@ impl<const M: usize> Default for CompressorExpert<M> {
             flags_buf: String::with_capacity(128),
             sv_kernels: HashMap::with_capacity(8),
             flags_diff: HashMap::with_capacity(8),
+            clock_diff: None,
         }
     }
 }
@@ -106,9 +107,10 @@ impl<const M: usize> CompressorExpert<M> {
                     svnn.len(),
                 ));
             } else {
+                // V1: 2 digit year, satellites follow directly
                 self.epoch_buf.push_str(&format!(
-                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}      ",
-                    y,
+                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}",
+                    y % 100,
                     m,
                     d,
                     hh,
@@ -128,6 +130,11 @@ impl<const M: usize> CompressorExpert<M> {
             // Epoch compression
             if !self.epoch_compression {
                 self.epoch_diff.force_init(&self.epoch_buf);
+
+                // reinitializes all kernels
+                self.sv_kernels.clear();
+                self.flags_diff.clear();
+                self.clock_diff = None;
                 writeln!(w, "{}", self.epoch_buf.trim_end())?;
             } else {
                 let compressed = self.epoch_diff.compress(&self.epoch_buf);
@@ -135,21 +142,37 @@ impl<const M: usize> CompressorExpert<M> {
             }
 
             if let Some(clk) = v.clock {
-                // TODO: clock is not correctly supported yet
-                if !self.epoch_compression {
-                    writeln!(w, "{}", clk.offset_s)?;
+                let scaling = if self.v3 { 1.0E12 } else { 1.0E9 };
+                let quantized = (clk.offset_s * scaling).round() as i64;
+
+                if let Some(kernel) = &mut self.clock_diff {
+                    writeln!(w, "{}", kernel.compress(quantized))?;
+                } else {
+                    self.clock_diff = Some(NumDiff::<M>::new(quantized, 3));
+                    writeln!(w, "{}&{}", 3, quantized)?;
                 }
             } else {
                 // No clock: BLANKed line
+                self.clock_diff = None;
                 write!(w, "\n")?;
             }
 
+            // kernels are only valid from one epoch to the next one
+            self.sv_kernels.retain(|(sv, _), _| svnn.contains(sv));
+            self.flags_diff.retain(|sv, _| svnn.contains(sv));
+
             // For each SV
             for sv in svnn.iter() {
                 // Following header specs
+                let constellation = if sv.constellation.is_sbas() {
+                    Constellation::SBAS
+                } else {
+                    sv.constellation
+                };
+
                 let observables = header
                     .codes
-                    .get(&sv.constellation)
+                    .get(&constellation)
                     .ok_or(FormattingError::MissingObservableDefinition)?;
 
                 for observable in observables.iter() {
@@ -191,8 +214,9 @@ impl<const M: usize> CompressorExpert<M> {
                             self.flags_buf.push_str(" ");
                         }
                     } else {
-                        // BLANK is a single ' '
+                        // BLANK is a single ' ', next observation is reinitialized
                         write!(w, "{}", ' ')?;
+                        self.sv_kernels.remove(&(*sv, observable.clone()));
                         self.flags_buf.push_str("  ");
                     }
                 }
-- 
2.43.0


From 523b7e08136019609a93a966a363aa03af36d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 21/74] fix: CRINEX decompression: short epoch lines, clock
 offsets, V1 wrapping, flags reset, events and stream reader

---
 src/hatanaka/decompressor/io.rs  | 111 ++++-
 src/hatanaka/decompressor/mod.rs | 745 ++++++++++++-------------------
 src/hatanaka/mod.rs              |   2 +
 src/record/parsing.rs            |  34 +-
 4 files changed, 393 insertions(+), 499 deletions(-)

diff --git a/src/hatanaka/decompressor/io.rs b/src/hatanaka/decompressor/io.rs
index 729ad13..d6b2c43 100644
--- a/src/hatanaka/decompressor/io.rs
+++ b/src/hatanaka/decompressor/io.rs
@@ -2,10 +2,10 @@
 
 use crate::{
     hatanaka::decompressor::DecompressorExpert,
-    prelude::{Constellation, Observable},
+    prelude::{Constellation, Header, Observable},
 };
 
-use std::io::{BufRead, BufReader, Lines, Read};
+use std::io::{BufRead, BufReader, Error, ErrorKind, Lines, Read};
 
 /// [DecompressorIO] is a [Decompressor] implementation that works directly
 /// on any [Read]ble I/O interface. Use it if your application to decompress
@@ -22,23 +22,98 @@ pub struct DecompressorExpertIO<const M: usize, R: Read> {
     lines: Lines<BufReader<R>>,
     /// Internal Decompressor.
     decomp: DecompressorExpert<M>,
+    /// Header section being forwarded, when streaming a complete CRINEX.
+    header: String,
+    /// True while the header section is being forwarded.
+    in_header: bool,
+    /// Recovered content, that the user did not consume yet.
+    pending: Vec<u8>,
+    /// Pointer inside pending content.
+    consumed: usize,
 }
 
-impl<const M: usize, R: Read> Read for DecompressorExpertIO<M, R> {
-    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        // try to pull a new complete line from internal reader
-        if let Some(line) = self.lines.next() {
-            let line = line?;
-            let len = line.len();
-            let buf_size = buf.len();
-            let size = self
+impl<const M: usize, R: Read> DecompressorExpertIO<M, R> {
+    /// Process this new line: recovers possibly no content.
+    fn process(&mut self, line: &str) -> std::io::Result<()> {
+        let crinex_marker =
+            line.contains("CRINEX VERS   / TYPE") || line.contains("CRINEX PROG / DATE");
+
+        if crinex_marker {
+            // complete CRINEX stream
+            self.in_header = true;
+            self.header.push_str(line);
+            self.header.push('\n');
+            return Ok(());
+        }
+
+        if self.in_header {
+            self.header.push_str(line);
+            self.header.push('\n');
+
+            if line.contains("END OF HEADER") {
+                let header = Header::parse(&mut BufReader::new(self.header.as_bytes()))
+                    .map_err(|e| Error::new(ErrorKind::Other, e.to_string()))?;
+
+                if let Some(obs) = header.obs {
+                    let v3 = match &obs.crinex {
+                        Some(crinex) => crinex.version.major > 2,
+                        None => true,
+                    };
+                    self.decomp = DecompressorExpert::<M>::new(
+                        v3,
+                        header.constellation.unwrap_or_default(),
+                        obs.codes,
+                    );
+                }
+
+                self.in_header = false;
+            }
+        } else if !crate::is_rinex_comment(line) {
+            let recovered = self
                 .decomp
-                .decompress(&line, len, buf, buf_size)
-                .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "hatanaka error"))?;
-            Ok(size)
+                .recover(line)
+                .map_err(|_| Error::new(ErrorKind::Other, "hatanaka error"))?;
+
+            if recovered.is_empty() {
+                return Ok(()); // more content is needed
+            }
+
+            self.pending.extend_from_slice(&recovered);
+
+            if !self.pending.ends_with(b"\n") {
+                self.pending.push(b'\n');
+            }
+
+            return Ok(());
         } else {
-            Ok(0)
+            self.decomp.skip_comment();
         }
+
+        // forwarded as is
+        self.pending.extend_from_slice(line.as_bytes());
+        self.pending.push(b'\n');
+        Ok(())
+    }
+}
+
+impl<const M: usize, R: Read> Read for DecompressorExpertIO<M, R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        // recover content: may require several lines
+        while self.consumed == self.pending.len() {
+            self.pending.clear();
+            self.consumed = 0;
+
+            match self.lines.next() {
+                Some(line) => self.process(&line?)?,
+                None => return Ok(0),
+            }
+        }
+
+        // forward as much as possible
+        let size = buf.len().min(self.pending.len() - self.consumed);
+        buf[..size].copy_from_slice(&self.pending[self.consumed..self.consumed + size]);
+        self.consumed += size;
+        Ok(size)
     }
 }
 
@@ -57,6 +132,10 @@ impl<const M: usize, R: Read> DecompressorExpertIO<M, R> {
         Self {
             lines: BufReader::new(reader).lines(),
             decomp: DecompressorExpert::<M>::default(),
+            header: String::new(),
+            in_header: false,
+            pending: Vec::with_capacity(1024),
+            consumed: 0,
         }
     }
     /// Builds a new [DecompressorExpertIO] from your own Buffered Reader implementation.
@@ -65,6 +144,10 @@ impl<const M: usize, R: Read> DecompressorExpertIO<M, R> {
         Self {
             lines: reader.lines(),
             decomp: DecompressorExpert::<M>::default(),
+            header: String::new(),
+            in_header: false,
+            pending: Vec::with_capacity(1024),
+            consumed: 0,
         }
     }
     /// Provide [Observable] definitions if you intend to stream CRINEX directly
diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 102e8c7..178fa9b 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -38,6 +38,8 @@ pub enum State {
     Clock,
     /// Observations gathering and recovering.
     Observation,
+    /// Event records, forwarded as is.
+    Event,
 }
 
 impl State {
@@ -67,7 +69,7 @@ impl State {
                     Self::MIN_DECOMPRESSED_EPOCH_SIZE_V3
                 } else {
                     let mut size = Self::MIN_DECOMPRESSED_EPOCH_SIZE_V1;
-                    let num_extra = div_ceil(numsat, 12) - 1;
+                    let num_extra = div_ceil(numsat, 12).saturating_sub(1);
                     size += num_extra * 17; // padding
                     size += numsat * 3; // formatted
                     size
@@ -78,9 +80,9 @@ impl State {
                     3 + numobs * 16
                 } else {
                     let mut size = 1;
-                    size += numobs - 1; // separator
+                    size += numobs.saturating_sub(1); // separator
                     size += 15 * numobs; // formatted
-                    let num_extra = div_ceil(numobs, 5) - 1;
+                    let num_extra = div_ceil(numobs, 5).saturating_sub(1);
                     size += num_extra * 15; // padding
                     size
                 }
@@ -179,37 +181,50 @@ impl<const M: usize> DecompressorExpert<M> {
         offset + sv_index * 3
     }
 
-    /// Returns next [SV]
-    fn next_sv(&self) -> Option<SV> {
-        let start = Self::sv_slice_start(self.v3, self.sv_ptr);
+    /// Returns [SV] described at this index
+    fn epoch_sv(&self, sv_index: usize) -> Option<SV> {
+        let start = Self::sv_slice_start(self.v3, sv_index);
         let end = (start + 3).min(self.epoch_desc_len);
+        let slice = self.epoch_descriptor.get(start..end)?.trim();
 
-        if let Ok(sv) = SV::from_str(&self.epoch_descriptor[start..end].trim()) {
-            Some(sv)
-        } else {
-            // May fail on old revisions that have a mono GNSS system
-            // that have tendency to omit the constellation description (leaving only the PRN#)
-            if !self.v3 {
-                match self.constellation {
-                    Constellation::Mixed => {
-                        None // incorrect description, will rapidly panic
-                    },
-                    constellation => {
-                        // PRN# parsing attempt
-                        if let Ok(prn) = &self.epoch_descriptor[start..end].trim().parse::<u8>() {
-                            Some(SV {
-                                prn: *prn,
-                                constellation,
-                            })
-                        } else {
-                            None // incorrect description, will rapidly panic
-                        }
-                    },
-                }
-            } else {
-                None
+        // May fail on old revisions that have a mono GNSS system
+        // that have tendency to omit the constellation description (leaving only the PRN#)
+        if slice.chars().next()?.is_ascii_digit() {
+            if self.v3 || self.constellation == Constellation::Mixed {
+                return None; // incorrect description
             }
+            let prn = slice.parse::<u8>().ok()?;
+            return Some(SV {
+                prn,
+                constellation: self.constellation,
+            });
         }
+
+        SV::from_str(slice).ok()
+    }
+
+    /// Moves on to next [SV], or next epoch
+    fn select_sv(&mut self) -> Result<(), Error> {
+        if self.sv_ptr == self.numsat {
+            self.state = State::Epoch;
+            return Ok(());
+        }
+
+        self.sv = self.epoch_sv(self.sv_ptr).ok_or(Error::SVParsing)?;
+
+        let constellation = if self.sv.constellation.is_sbas() {
+            Constellation::SBAS
+        } else {
+            self.sv.constellation
+        };
+
+        self.numobs = self
+            .get_observables(&constellation)
+            .ok_or(Error::MissingObservables)?
+            .len();
+
+        self.state = State::Observation;
+        Ok(())
     }
 
     /// Macro to directly parse numsat from recovered descriptor
@@ -220,10 +235,22 @@ impl<const M: usize> DecompressorExpert<M> {
             Self::V1_NUMSAT_OFFSET
         };
 
-        if let Ok(numsat) = &self.epoch_descriptor[start..start + 3].trim().parse::<u8>() {
-            Some(*numsat as usize)
+        let end = (start + 3).min(self.epoch_desc_len);
+        let slice = self.epoch_descriptor.get(start..end)?;
+        slice.trim().parse::<u16>().ok().map(|n| n as usize)
+    }
+
+    /// True if recovered descriptor announces event records,
+    /// which are never compressed
+    fn epoch_is_event(&self) -> bool {
+        let start = if self.v3 {
+            Self::V3_NUMSAT_OFFSET
         } else {
-            None
+            Self::V1_NUMSAT_OFFSET
+        };
+        match self.epoch_descriptor.as_bytes().get(start - 1) {
+            Some(flag) => (b'2'..=b'5').contains(flag),
+            None => false,
         }
     }
 
@@ -286,48 +313,92 @@ impl<const M: usize> DecompressorExpert<M> {
             return Err(Error::BufferOverflow);
         }
 
-        // println!("STATE={:?}", self.state); //DEBUG
+        let line = &line[..len.min(line.len())];
+
+        // This interface always terminated some of the (old) V1 sections by an empty line
+        let trailing_line = if self.v3 {
+            ""
+        } else {
+            match self.state {
+                State::Clock if self.numsat > 0 && self.numsat % 12 == 0 => "\n",
+                State::Observation if line.split(' ').count() <= self.numobs => "\n ",
+                _ => "",
+            }
+        };
+
+        let mut recovered = self.recover(line)?;
+        recovered.extend_from_slice(trailing_line.as_bytes());
+
+        let produced = recovered.len();
+        if produced > size {
+            return Err(Error::BufferOverflow);
+        }
+
+        buf[..produced].copy_from_slice(&recovered);
+        Ok(produced)
+    }
+
+    /// Decompresses following line, returns exact recovered content:
+    /// possibly nothing (more lines are required) or several lines (V1 stream).
+    pub(crate) fn recover(&mut self, line: &str) -> Result<Vec<u8>, Error> {
+        // this format is ASCII only
+        if !line.is_ascii() {
+            return Err(Error::EpochFormat);
+        }
+
+        // strictly works on trimmed lines
+        let line = line.trim_end_matches(|c| c == '\n' || c == '\r');
+
         match self.state {
-            State::Epoch => self.run_epoch(line, len),
-            State::Clock => self.run_clock(line, len, buf),
-            State::Observation => self.run_observation(line, len, buf),
+            State::Epoch => Ok(self.run_epoch(line)?.into_bytes()),
+            State::Clock => Ok(self.run_clock(line)?.into_bytes()),
+            State::Observation => {
+                let recovered = self.run_observation(line);
+                self.select_sv()?;
+                Ok(recovered)
+            },
+            State::Event => Ok(self.run_event(line).into_bytes()),
         }
     }
 
     /// Process following line, in [State::Epoch]
-    fn run_epoch(&mut self, line: &str, len: usize) -> Result<usize, Error> {
+    fn run_epoch(&mut self, line: &str) -> Result<String, Error> {
         let min_len = if self.v3 {
             State::MIN_COMPRESSED_EPOCH_SIZE_V3
         } else {
             State::MIN_COMPRESSED_EPOCH_SIZE_V1
         };
 
-        if len < min_len {
+        // identical epochs do not exist
+        if line.trim().is_empty() {
             return Err(Error::EpochFormat);
         }
 
-        let trimmed = &line[1..].trim_end();
+        let trimmed = line[1..].trim_end();
+
         if line.starts_with('&') {
             if self.v3 {
                 return Err(Error::BadV3Format);
             }
-
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
+            self.reset(trimmed);
         } else if line.starts_with('>') {
             if !self.v3 {
                 return Err(Error::BadV1Format);
             }
-
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
+            self.reset(trimmed);
         } else {
-            self.epoch_descriptor = self.epoch_diff.decompress(trimmed).to_string();
+            if self.first_epoch {
+                return Err(Error::EpochFormat);
+            }
+            let recovered = self.epoch_diff.decompress(trimmed).trim_end().to_string();
+            self.epoch_descriptor = recovered;
             self.epoch_desc_len = self.epoch_descriptor.len();
         }
 
+        if self.epoch_desc_len < min_len {
+            return Err(Error::EpochFormat);
+        }
+
         // println!(
         //     "RECOVERED \"{}\" [{}]",
         //     self.epoch_descriptor, self.epoch_desc_len
@@ -335,200 +406,168 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // numsat needs to be recovered right away,
         // because it is used to determine the next production size
-        self.numsat = self.epoch_numsat().expect("bad recovered content (numsat)");
+        self.numsat = self.epoch_numsat().ok_or(Error::EpochFormat)?;
+        self.sv_ptr = 0;
+
+        if self.epoch_is_event() {
+            // event records follow: no clock data
+            if self.numsat > 0 {
+                self.state = State::Event;
+            }
+            let marker = if self.v3 { '>' } else { ' ' };
+            return Ok(format!("{}{}", marker, self.epoch_descriptor));
+        }
 
         self.state = State::Clock;
-        Ok(0)
+        Ok(String::new())
+    }
+
+    /// Epoch descriptor is reinitialized: all differentiators are
+    fn reset(&mut self, descriptor: &str) {
+        self.epoch_diff.force_init(descriptor);
+        self.epoch_descriptor = descriptor.to_string();
+        self.epoch_desc_len = descriptor.len();
+        self.obs_diff.clear();
+        self.flags_diff.clear();
+        self.first_epoch = false;
     }
 
-    /// Fills user buffer with recovered epoch, following either V1 or V3 standards
-    fn format_epoch(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
+    /// Formats recovered epoch, following either V1 or V3 standards
+    fn format_epoch(&self, clock_data: Option<i64>) -> String {
         if self.v3 {
-            self.format_epoch_v3(clock_data, buf)
+            self.format_epoch_v3(clock_data)
         } else {
-            self.format_epoch_v1(clock_data, buf)
+            self.format_epoch_v1(clock_data)
         }
     }
 
-    /// Fills user buffer with recovered epoch, following V3 standards
-    fn format_epoch_v3(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
+    /// Formats recovered epoch, following V3 standards
+    fn format_epoch_v3(&self, clock_data: Option<i64>) -> String {
         // V3 format is much simpler
         // all we need to do is extract SV `XXY` to append in each following lines
 
-        let mut produced = 0;
-        buf[produced] = b'>'; // special marker
-        produced += 1;
-
-        let bytes = self.epoch_descriptor.as_bytes();
-
-        // push timestamp +flag
-        buf[produced..produced + 34].copy_from_slice(&bytes[..34]);
-        produced += 34;
+        // special marker, timestamp +flag
+        let end = self.epoch_desc_len.min(Self::V3_NUMSAT_OFFSET + 3);
+        let mut formatted = format!(">{:34}", &self.epoch_descriptor[..end]);
 
         // provide clock data, if any
         if let Some(clock_data) = clock_data {
-            let value = clock_data as f64 / 1000.0;
-            let formatted = format!("       {:.12}", value);
-            let fmt_len = formatted.len(); // TODO improve: this is constant
-            let bytes = formatted.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-            produced += fmt_len; // TODO improve: this is constant
+            formatted.push_str(&format!("      {:>15}", Self::fixed_point(clock_data, 12)));
         }
 
-        produced
+        formatted
     }
 
-    /// Fills user buffer with recovered epoch, following V1 standards
-    fn format_epoch_v1(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
-        let mut produced = 0;
-
-        buf[produced] = b' '; // single whitespace
-        produced += 1;
-
-        let bytes = self.epoch_descriptor.as_bytes();
-
+    /// Formats recovered epoch, following V1 standards
+    fn format_epoch_v1(&self, clock_data: Option<i64>) -> String {
         // push first line (up to 68 bytes)
         let first_len = self.epoch_desc_len.min(67);
-
-        buf[produced..produced + first_len].copy_from_slice(&bytes[..first_len]);
-        produced += first_len;
+        let mut formatted = format!(" {}", &self.epoch_descriptor[..first_len]);
 
         // push clock offset (if any)
         if let Some(clock_data) = clock_data {
-            let formatted_ck = format!(" {:15.12}", clock_data);
-            let fmt_len = formatted_ck.len(); // TODO: improve (constant)
-            let formatted_ck = formatted_ck.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&formatted_ck);
-            produced += fmt_len;
+            formatted = format!("{:68}{:>12}", formatted, Self::fixed_point(clock_data, 9));
         }
 
-        buf[produced] = b'\n'; // conclude 1st line
-        produced += 1;
+        formatted.push('\n'); // conclude 1st line
 
         // construct all following lines that need to be wrapped and padded
-        let mut offset = 67;
-        let nb_extra = (self.epoch_desc_len - Self::V1_NUMSAT_OFFSET) / 36;
+        let mut offset = first_len;
 
-        for _ in 0..nb_extra {
+        while offset < self.epoch_desc_len {
             // extra padding
-            buf[produced..produced + 32].copy_from_slice(&[
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ',
-            ]);
-
-            produced += 32;
+            formatted.push_str("                                ");
 
             // copy data slice
             let end = (offset + 36).min(self.epoch_desc_len);
-            let size = end - offset;
+            formatted.push_str(&self.epoch_descriptor[offset..end]);
+            offset = end;
 
-            buf[produced..produced + size].copy_from_slice(&bytes[offset..end]);
+            // terminate this line
+            formatted.push('\n');
+        }
 
-            offset += size;
-            produced += size;
+        formatted
+    }
 
-            // terminate this line
-            buf[produced] = b'\n';
-            produced += 1;
+    /// Formats quantized value exactly
+    fn fixed_point(value: i64, decimals: u32) -> String {
+        let scaling = 10_u64.pow(decimals);
+        let magnitude = value.unsigned_abs();
+        format!(
+            "{}{}.{:0width$}",
+            if value < 0 { "-" } else { "" },
+            magnitude / scaling,
+            magnitude % scaling,
+            width = decimals as usize,
+        )
+    }
+
+    /// Event record, forwarded as is
+    fn run_event(&mut self, line: &str) -> String {
+        self.sv_ptr += 1;
+        if self.sv_ptr == self.numsat {
+            self.state = State::Epoch;
         }
+        line.to_string()
+    }
 
-        produced
+    /// Comments are not compressed, but count as event records
+    pub(crate) fn skip_comment(&mut self) {
+        if self.state == State::Event {
+            self.run_event("");
+        }
     }
 
     /// Process following line, in [State::Clock]
-    fn run_clock(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut clock_data = Option::<i64>::None;
-
+    fn run_clock(&mut self, line: &str) -> Result<String, Error> {
         // attempts to recover clock data (if it exists)
-        if len > 2 {
-            if line[1..].starts_with('&') {
-                if let Ok(order) = line[..1].parse::<usize>() {
-                    if let Ok(val) = line[2..].parse::<i64>() {
-                        // valid kernel reset
-                        self.clock_diff.force_init(val, order);
-                        clock_data = Some(val);
-                    }
-                }
-            }
-        }
-        if len == 1 {
-            // highly compressed clock data
-            match line.trim().parse::<i64>() {
-                Ok(val) => {
-                    let val = self.clock_diff.decompress(val);
-                    clock_data = Some(val);
+        let line = line.trim();
+        let clock_data = match line.split_once('&') {
+            Some((order, value)) => match (order.parse::<usize>(), value.parse::<i64>()) {
+                (Ok(order), Ok(value)) if order <= M => {
+                    // valid kernel reset
+                    self.clock_diff.force_init(value, order);
+                    Some(value)
                 },
-                Err(_) => {},
-            }
-        }
+                _ => None,
+            },
+            None => match line.parse::<i64>() {
+                Ok(value) => Some(self.clock_diff.decompress(value)),
+                Err(_) => None,
+            },
+        };
 
         // now that we have potentially recovered clock data
         // we can format the complete epoch description
-        let produced = self.format_epoch(clock_data, buf);
+        let recovered = self.format_epoch(clock_data);
 
         // prepare for observation state
         self.obs_ptr = 0;
         self.sv_ptr = 0;
-        self.first_epoch = false;
-
-        // grab first sv
-        self.sv = self.next_sv().expect("bad recovered content (sv)");
 
         // cross check recovered content
         // &, at the same time, make sure we are ready to process any new SV
-        for i in 0..self.numsat {
-            let start = Self::sv_slice_start(self.v3, i);
+        let mut flags_diff = HashMap::with_capacity(self.numsat);
 
+        for i in 0..self.numsat {
             // any invalid SV description, will cause us to wait for a new epoch.
             // In other terms, epoch is fully disregarded.
-            let sv = match SV::from_str(&self.epoch_descriptor[start..start + 3]) {
-                Ok(sv) => sv,
-                Err(_) => {
-                    // SV parsing may be in failure in case of very old V1 CRINEX mono GNSS
-                    // that omit the constellation
-                    if !self.v3 {
-                        if let Ok(prn) = &self.epoch_descriptor[start + 1..start + 3]
-                            .trim()
-                            .parse::<u8>()
-                        {
-                            SV {
-                                prn: *prn,
-                                constellation: self.constellation,
-                            }
-                        } else {
-                            return Err(Error::SVParsing);
-                        }
-                    } else {
-                        return Err(Error::SVParsing);
-                    }
-                },
-            };
+            let sv = self.epoch_sv(i).ok_or(Error::SVParsing)?;
 
-            // initialize on first encounter
-            if self.flags_diff.get(&sv).is_none() {
-                // initializes the internal buffer with some capacity..
-                let textdiff = TextDiff::new("               ");
-                self.flags_diff.insert(sv, textdiff);
-            }
+            // flags are only differentiated from previous epoch
+            let textdiff = self.flags_diff.remove(&sv).unwrap_or_default();
+            flags_diff.insert(sv, textdiff);
         }
 
-        let obs = self
-            .get_observables(&self.sv.constellation)
-            .expect("failed to determine sv definition");
-
-        self.numobs = obs.len();
-        self.state = State::Observation;
-        Ok(produced)
+        self.flags_diff = flags_diff;
+        self.select_sv()?;
+        Ok(recovered)
     }
 
     /// Process following line, in [State::Observation]
-    fn run_observation(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut consumed = 0;
-        let mut produced = 0;
-        let mut new_state = self.state;
-
-        self.blanking_indexes.clear(); // new run
+    fn run_observation(&mut self, line: &str) -> Vec<u8> {
+        let mut recovered = Vec::with_capacity(3 + self.numobs * 17);
 
         // println!("[{}] LINE \"{}\"", self.sv, line); // DEBUG
 
@@ -536,321 +575,91 @@ impl<const M: usize> DecompressorExpert<M> {
             // prepend SVNN identity
             let start = Self::sv_slice_start(true, self.sv_ptr);
             let end = (start + 3).min(self.epoch_desc_len);
-            let bytes = self.epoch_descriptor.as_bytes();
-            buf[..3].copy_from_slice(&bytes[start..end]);
-            produced += 3;
+            recovered.extend_from_slice(self.epoch_descriptor[start..end].as_bytes());
         }
 
-        // Retrieving observations is complex.
         // When signal sampling was not feasible: data is omitted (blanked) by a single '_'
         // Which is not particularly clever and means the data flags can only provided at the end of the line.
-        // Since data flags are text compressed, it can create some weird situations.
-        for ptr in 0..self.numobs {
-            // We must output something for each expected data points (whatever happens).
-            // So we default to a BLANK, which simplifies the following code:
-            // we only implement successful cases.
-            let mut formatted = "                ".to_string();
-
-            // Try to locate next '_', which is either
-            //  . normal/expected line progression
-            //  . or a blanking
-            let offset = line[consumed..].find(' ');
-
-            if let Some(offset) = offset {
-                if offset > 1 {
-                    // observation (made of at least two digits)
-                    // Determine whether this is a kernel reset or compression continuation
-
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    consumed += offset + 1; // consume until this point
-                } else {
-                    // this is either BLANK or highly compressed (=single digit value)
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    if slice.len() > 0 {
-                        // this is a digit (highly compressed value)
-
-                        //#[cfg(feature = "log")]
-                        //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                        consumed += 2; // consume this byte
-                    } else {
-                        consumed += 1;
-                        self.blanking_indexes.push(ptr);
-                    }
-                }
-
-                let fmt_len = formatted.len(); // TODO: improve, this is constant
-                let bytes = formatted.as_bytes();
-
-                // push into user
-                buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                produced += fmt_len;
-
-                // handle V1 padding and wrapping
-                if !self.v3 {
-                    if (ptr % 5) == 4 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n".to_string();
-                        let bytes = formatted.as_bytes();
-                        let fmt_len = formatted.len();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // this may cause trimed lines to panic on next '_' search
-                // so we exist the loop so we do not overflow
-                if consumed >= len {
-                    break;
-                }
-            } else {
-                // early line termination.
-                // This happens when last observations are all missing (possibly more than one)
-                // and observation "flags" are all fully compressed (100% compression factor)
-
-                // if we have leftovers, that means we have one last observation
-                if len > consumed {
-                    let mut formatted = "                ".to_string();
-
-                    // grab slice
-                    let slice = line[consumed..].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    let fmt_len = formatted.len(); // TODO: improve, this is constant
-                    let bytes = formatted.as_bytes();
-
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n                 ".to_string();
-                        let fmt_len = formatted.len();
-                        let bytes = formatted.as_bytes();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // 1. we need to push all required BLANKING
-                // 2. we need to preserve data flags
-                // 3. and finally conclude this SV
-                let nb_missing = self.numobs - ptr - 1;
-
-                let formatted = "                ".to_string();
-                let fmt_len = formatted.len(); // IMPROVE: this is constant
-                let bytes = formatted.as_bytes();
-
-                // fill required nb of blanks
-                for j in 0..nb_missing {
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        if (ptr + j) % 5 == 4 {
-                            // TODO: improve, this is constant
-                            let formatted = "\n            ".to_string();
-                            let fmt_len = formatted.len();
-                            let bytes = formatted.as_bytes();
-
-                            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                            produced += fmt_len;
-                        }
-                    }
-                }
-
-                // trick to preserve data flags
-                let textdiff = self
-                    .flags_diff
-                    .get_mut(&self.sv)
-                    .expect("internal error: bad crinex content?");
-
-                let flags = textdiff.decompress("").trim_end();
-                let flags_len = flags.len();
-
-                //println!("PRESERVED \"{}\"", flags); // DEBUG
-                Self::write_flags(flags, flags_len, self.numobs, self.v3, buf);
-
-                // conclude this SV
-                self.sv_ptr += 1;
-
-                //#[cfg(feature = "log")]
-                //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
-
-                if self.sv_ptr == self.numsat {
-                    //#[cfg(feature = "log")]
-                    //debug!("[END OF EPOCH]");
+        // Lines are trimmed: last observations and flags may not exist.
+        self.blanking_indexes.clear(); // new run
 
-                    self.state = State::Epoch;
-                } else {
-                    self.sv = self.next_sv().expect("failed to determine next sv");
+        let mut remainder = line;
 
-                    let constellation = if self.sv.constellation.is_sbas() {
-                        Constellation::SBAS
-                    } else {
-                        self.sv.constellation
-                    };
+        for ptr in 0..self.numobs {
+            let (slice, rem) = remainder.split_once(' ').unwrap_or((remainder, ""));
+            remainder = rem;
 
-                    self.numobs = self
-                        .get_observables(&constellation)
-                        .expect("internal error")
-                        .len();
+            // We must output something for each expected data points (whatever happens).
+            // So we default to a BLANK.
+            let formatted = match self.recover_observation(ptr, slice) {
+                Some(value) => format!("{:>14}  ", Self::fixed_point(value, 3)),
+                None => {
+                    self.blanking_indexes.push(ptr);
+                    "                ".to_string()
+                },
+            };
 
-                    self.state = State::Observation;
-                }
+            recovered.extend_from_slice(formatted.as_bytes());
 
-                return Ok(produced);
+            // handle V1 wrapping
+            if !self.v3 && (ptr % 5) == 4 && ptr + 1 < self.numobs {
+                recovered.push(b'\n');
             }
-        } // for
-
-        // at this point, we should be left with "data flags" in the buffer.
-        // That may not be the case. We may have consumed everything when
-        // the line was trimmed at production time, meaning flags should be preserved
-
-        if consumed < len {
-            // proceed to flags recovering
-            let flags = &line[consumed..].trim_end();
+        }
 
-            // println!("FLAGS \"{}\"", flags); // DEBUG
+        // we are left with "data flags": they are all preserved if line was trimmed
+        let kernel = self.flags_diff.entry(self.sv).or_default();
+        let flags = kernel.decompress(remainder.trim_end());
 
-            let kernel = self.flags_diff.get_mut(&self.sv).expect("internal error");
+        self.flags_buf.clear();
+        self.flags_buf.push_str(flags);
 
-            let flags = kernel.decompress(flags);
-            let flags_len = flags.len();
+        // println!("FLAGS \"{}\"", self.flags_buf); // DEBUG
 
-            self.flags_buf = flags.to_string();
+        // flags do not exist if observation does not
+        self.flags_buf.truncate(2 * self.numobs);
 
-            // blank flags for which observation is blanked
-            // otherwise, .decompress("") will return past value
-            for index in &self.blanking_indexes {
-                if flags_len > (index * 2) {
-                    self.flags_buf
-                        .replace_range(2 * index..(2 * index + 1), " ");
-                }
-                if flags_len > index * 2 + 1 {
-                    self.flags_buf
-                        .replace_range(2 * index + 1..(2 * index + 2), " ");
-                }
+        for index in &self.blanking_indexes {
+            for index in 2 * index..(2 * index + 2).min(self.flags_buf.len()) {
+                self.flags_buf.replace_range(index..index + 1, " ");
             }
-
-            // update len
-            let flags_len = self.flags_buf.len();
-
-            // copy all flags to user
-            // println!(
-            //     "RECOVERED \"{}\" (len={},numobs={})",
-            //     &self.flags_buf, flags_len, self.numobs
-            // ); // DEBUG
-
-            Self::write_flags(&self.flags_buf, flags_len, self.numobs, self.v3, buf);
         }
 
+        Self::write_flags(
+            &self.flags_buf,
+            self.flags_buf.len(),
+            self.numobs,
+            self.v3,
+            &mut recovered,
+        );
+
         self.obs_ptr = 0;
 
-        // move on to next state
+        // move on to next SV
         self.sv_ptr += 1;
 
         //#[cfg(feature = "log")]
         //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
 
-        if self.sv_ptr == self.numsat {
-            //#[cfg(feature = "log")]
-            //debug!("[END OF EPOCH]");
+        recovered
+    }
 
-            new_state = State::Epoch;
+    /// Recovers observation, blanks are omitted.
+    fn recover_observation(&mut self, ptr: usize, slice: &str) -> Option<i64> {
+        // Determine whether this is a kernel reset or compression continuation
+        if let Some((level, value)) = slice.split_once('&') {
+            // core reset pattern
+            let level = level.parse::<usize>().ok().filter(|level| *level <= M)?;
+            let value = value.parse::<i64>().ok()?;
+            self.obs_diff
+                .insert((self.sv, ptr), NumDiff::<M>::new(value, level));
+            Some(value)
         } else {
-            self.sv = self.next_sv().expect("failed to determine next sv");
-
-            let constellation = if self.sv.constellation.is_sbas() {
-                Constellation::SBAS
-            } else {
-                self.sv.constellation
-            };
-
-            self.numobs = self
-                .get_observables(&constellation)
-                .expect("internal error")
-                .len();
+            // compressed data case
+            let value = slice.parse::<i64>().ok()?;
+            let kernel = self.obs_diff.get_mut(&(self.sv, ptr))?;
+            Some(kernel.decompress(value))
         }
-
-        self.state = new_state;
-        Ok(produced)
     }
 
     /// Helper to retrieve observable for given system
diff --git a/src/hatanaka/mod.rs b/src/hatanaka/mod.rs
index 7c1fd99..66e0e35 100644
--- a/src/hatanaka/mod.rs
+++ b/src/hatanaka/mod.rs
@@ -48,4 +48,6 @@ pub enum Error {
     ///   with previously formwared Header
     #[error("sv parsing error")]
     SVParsing,
+    #[error("missing observables definition")]
+    MissingObservables,
 }
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index b83b0d5..8971aa6 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -42,7 +42,6 @@ use crate::{
 use std::{
     collections::BTreeMap,
     io::{BufRead, BufReader, Read},
-    str::from_utf8,
 };
 
 #[cfg(feature = "log")]
@@ -83,9 +82,6 @@ impl Record {
         let mut observations = Observations::default();
 
         // CRINEX case
-        const CRINEX_BUF_SIZE: usize = 1024;
-        let mut buf = [0; CRINEX_BUF_SIZE];
-
         let mut is_crinex = false;
         let mut crinex_v3 = false;
         let mut gnss_observables = Default::default();
@@ -192,6 +188,7 @@ impl Record {
             if is_rinex_comment(&line_buf) {
                 let comment = line_buf.split_at(60).0.trim_end();
                 comment_content.push(comment.to_string());
+                decompressor.skip_comment();
 
                 // skip parsing
                 line_buf.clear();
@@ -239,26 +236,29 @@ impl Record {
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
-            if is_crinex {
-                let line_len = line_buf.len();
-
+            if is_crinex && !eos {
                 // catch errors nicely, simply log them
                 // it is normal to abort on final line for example
-                match decompressor.decompress(&line_buf, line_len, &mut buf, CRINEX_BUF_SIZE) {
-                    Ok(size) => {
-                        if size > 0 {
-                            // clear and overwrite pending content with recovered content
-                            // we should have valid ASCII UTF-8 at all times, at this point
-                            let recovered =
-                                from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
-
+                match decompressor.recover(&line_buf) {
+                    Ok(recovered) => {
+                        if recovered.is_empty() {
+                            // more content is needed
                             line_buf.clear();
-                            line_buf = recovered.to_string();
+                            continue;
+                        }
+
+                        // overwrite pending content with recovered content
+                        // we should have valid ASCII UTF-8 at all times, at this point
+                        line_buf = String::from_utf8(recovered)
+                            .map_err(|_| ParsingError::BadUtf8Crinex)?;
+
+                        if !line_buf.ends_with('\n') {
                             line_buf.push('\n');
                         }
                     },
                     Err(_) => {
                         crinex_error = true;
+                        line_buf.clear();
                     },
                 }
             }
@@ -271,7 +271,7 @@ impl Record {
                 new_epoch = Self::is_new_epoch(&line_buf, &header);
 
                 // trick to force attempt on last iteration
-                new_epoch |= eos;
+                new_epoch |= eos || crinex_error;
 
                 if new_epoch {
                     // new epoch appearing: process what we have buffered
-- 
2.43.0


From 1ad54f6c611ea47d493df6ff422644972c7d3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 22/74] fix: standard file names: batch number, day of year,
 years before 2000, yearly period, system letter

---
 src/lib.rs            | 43 ++++++++++++++++++++++++++++++++-----------
 src/production/ffu.rs |  2 +-
 src/production/mod.rs | 29 +++++++++++++----------------
 src/production/ppu.rs |  2 +-
 4 files changed, 47 insertions(+), 29 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 309b966..1ec7b9e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,7 +491,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch.day_of_year().floor() as u32;
                             format!("{:03}", ddd)
                         } else {
                             format!("{:03}", self.production.doy)
@@ -499,13 +499,13 @@ impl Rinex {
                     },
                 };
                 let yy = match &custom {
-                    Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                    Some(ref custom) => format!("{:02}", custom.year % 100),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
                             let yy = epoch_decompose(epoch).0;
-                            format!("{:02}", yy - 2_000)
+                            format!("{:02}", yy % 100)
                         } else {
-                            format!("{:02}", self.production.year - 2_000)
+                            format!("{:02}", self.production.year % 100)
                         }
                     },
                 };
@@ -520,7 +520,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = epoch.day_of_year().floor() as u32;
                             format!("{:03}", ddd)
                         } else {
                             "DDD".to_string()
@@ -529,11 +529,11 @@ impl Rinex {
                 };
                 if short {
                     let yy = match &custom {
-                        Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                        Some(ref custom) => format!("{:02}", custom.year % 100),
                         None => {
                             if let Some(epoch) = self.first_epoch() {
                                 let yy = epoch_decompose(epoch).0;
-                                format!("{:02}", yy - 2_000)
+                                format!("{:02}", yy % 100)
                             } else {
                                 "YY".to_string()
                             }
@@ -602,6 +602,18 @@ impl Rinex {
                         },
                     };
 
+                    // user defined value is prefered
+                    let src = match &custom {
+                        Some(ref custom) => {
+                            if let Some(details) = &custom.v3_details {
+                                details.data_src.to_char()
+                            } else {
+                                src
+                            }
+                        },
+                        None => src,
+                    };
+
                     let yyyy = match &custom {
                         Some(ref custom) => format!("{:04}", custom.year),
                         None => {
@@ -646,6 +658,12 @@ impl Rinex {
                                 } else {
                                     "XXX".to_string()
                                 }
+                            } else if let Some(details) = &self.production.v3_details {
+                                if let Some(ffu) = details.ffu {
+                                    ffu.to_string()
+                                } else {
+                                    "XXX".to_string()
+                                }
                             } else {
                                 "XXX".to_string()
                             }
@@ -677,11 +695,14 @@ impl Rinex {
                     };
 
                     let fmt = match rinextype {
-                        RinexType::ObservationData => "MO".to_string(),
+                        RinexType::ObservationData => match constellation {
+                            Some(Constellation::Mixed) | None => "MO".to_string(),
+                            Some(constell) => format!("{:x}O", constell),
+                        },
                         RinexType::MeteoData => "MM".to_string(),
                         RinexType::NavigationData => match constellation {
                             Some(Constellation::Mixed) | None => "MN".to_string(),
-                            Some(constell) => format!("M{:x}", constell),
+                            Some(constell) => format!("{:x}N", constell),
                         },
                         _ => unreachable!("unreachable fmt"),
                     };
@@ -723,14 +744,14 @@ impl Rinex {
 
         let first_epoch = self.first_epoch();
         let last_epoch = self.last_epoch();
-        let first_epoch_gregorian = first_epoch.map(|t0| t0.to_gregorian_utc());
+        let first_epoch_gregorian = first_epoch.map(epoch_decompose);
 
         match first_epoch_gregorian {
             Some((y, _, _, _, _, _, _)) => attributes.year = y as u32,
             _ => {},
         }
         match first_epoch {
-            Some(t0) => attributes.doy = t0.day_of_year().round() as u32,
+            Some(t0) => attributes.doy = t0.day_of_year().floor() as u32,
             _ => {},
         }
 
diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index bb21fc8..a6f2c60 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -59,7 +59,7 @@ impl std::fmt::Display for FFU {
 impl std::str::FromStr for FFU {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if s.len() < 3 {
+        if s.len() < 3 || !s.is_ascii() {
             return Err(Error::InvalidFFU);
         }
         let val = s[..2].parse::<u32>().map_err(|_| Error::InvalidFFU)?;
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9b6f300..dddfb12 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -112,7 +112,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -128,7 +128,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -147,9 +147,13 @@ impl std::str::FromStr for ProductionAttributes {
     type Err = Error;
     fn from_str(fname: &str) -> Result<Self, Self::Err> {
         let fname = fname.to_uppercase();
-        if fname.len() < 13 {
+        if !fname.is_ascii() {
+            return Err(Error::NonStandardFileName);
+        }
+        // short names hold 8 characters, possibly followed by ".gz"
+        if fname.len() < 13 || fname.find('.') == Some(8) {
             let offset = fname.find('.').unwrap_or(0);
-            if offset != 8 {
+            if offset != 8 || fname.len() < 12 {
                 return Err(Error::NonStandardFileName);
             };
 
@@ -166,7 +170,8 @@ impl std::str::FromStr for ProductionAttributes {
             };
 
             Ok(Self {
-                year: year + 2_000, // year uses 2 digit in old format
+                // year uses 2 digit in old format
+                year: if year < 80 { year + 2_000 } else { year + 1_900 },
                 name: fname[..name_offset].to_string(),
                 doy: {
                     fname[4..7]
@@ -181,7 +186,7 @@ impl std::str::FromStr for ProductionAttributes {
             })
         } else {
             let offset = fname.find('.').unwrap_or(0);
-            if offset < 30 {
+            if offset < 30 || fname.len() < offset + 4 {
                 return Err(Error::NonStandardFileName);
             };
 
@@ -189,21 +194,13 @@ impl std::str::FromStr for ProductionAttributes {
                 .parse::<u32>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-            let batch = fname[5..6]
+            let batch = fname[4..6]
                 .parse::<u8>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-            // determine type of RINEX first
-            // because it determines how to parse the "name" field
-            let rtype = &fname[offset + 3..offset + 4];
-            let name_offset = match rtype {
-                "I" => 3usize, // only 3 digits on IONEX
-                _ => 4usize,
-            };
-
             Ok(Self {
                 year,
-                name: fname[..name_offset].to_string(),
+                name: fname[..4].to_string(),
                 doy: {
                     fname[16..19]
                         .parse::<u32>()
diff --git a/src/production/ppu.rs b/src/production/ppu.rs
index 2017d3a..591d2ea 100644
--- a/src/production/ppu.rs
+++ b/src/production/ppu.rs
@@ -56,7 +56,7 @@ impl std::fmt::Display for PPU {
             Self::QuarterHour => write!(f, "15M"),
             Self::Hourly => write!(f, "01H"),
             Self::Daily => write!(f, "01D"),
-            Self::Yearly => write!(f, "O1Y"),
+            Self::Yearly => write!(f, "01Y"),
             Self::Unspecified => write!(f, "00U"),
         }
     }
-- 
2.43.0


From 74521275394428fc80405d03159813392cd004a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:37 +0000
Subject: [PATCH 23/74] fix: navigation fields are read at the columns the
 format assigns, omitted ones do not shift the others

---
 src/navigation/earth_orientation.rs    |  38 +++----
 src/navigation/ephemeris/parsing.rs    | 138 ++++++++++---------------
 src/navigation/health.rs               |   7 +-
 src/navigation/ionosphere/bdgim.rs     |  33 +++---
 src/navigation/ionosphere/klobuchar.rs |  33 +++---
 src/navigation/ionosphere/nequick_g.rs |  16 ++-
 src/navigation/orbits.rs               |  14 +--
 src/navigation/parsing/mod.rs          |  20 ++++
 src/navigation/parsing/v4.rs           |  14 ++-
 src/navigation/system_time.rs          |  22 ++--
 10 files changed, 160 insertions(+), 175 deletions(-)

diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index b78c038..5856472 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -2,11 +2,10 @@
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Earth Orientation Message
 #[derive(Debug, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -28,38 +27,35 @@ impl EarthOrientation {
         line_3: &str,
         ts: TimeScale,
     ) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (xp, rem) = rem.split_at(19);
-        let (dxp, ddxp) = rem.split_at(19);
+        let (epoch, xp) = (column(line_1, 0, 23), column(line_1, 23, 19));
+        let (dxp, ddxp) = (column(line_1, 42, 19), column(line_1, 61, 19));
 
-        let (_, rem) = line_2.split_at(23);
-        let (yp, rem) = rem.split_at(19);
-        let (dyp, ddyp) = rem.split_at(19);
+        let yp = column(line_2, 23, 19);
+        let (dyp, ddyp) = (column(line_2, 42, 19), column(line_2, 61, 19));
 
-        let (t_tm, rem) = line_3.split_at(23);
-        let (dut, rem) = rem.split_at(19);
-        let (ddut, dddut) = rem.split_at(19);
+        let (t_tm, dut) = (column(line_3, 0, 23), column(line_3, 23, 19));
+        let (ddut, dddut) = (column(line_3, 42, 19), column(line_3, 61, 19));
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let x = (
-            f64::from_str(xp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dxp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddxp.trim()).unwrap_or(0.0_f64),
+            parse_float(xp).unwrap_or(0.0_f64),
+            parse_float(dxp).unwrap_or(0.0_f64),
+            parse_float(ddxp).unwrap_or(0.0_f64),
         );
 
         let y = (
-            f64::from_str(yp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dyp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddyp.trim()).unwrap_or(0.0_f64),
+            parse_float(yp).unwrap_or(0.0_f64),
+            parse_float(dyp).unwrap_or(0.0_f64),
+            parse_float(ddyp).unwrap_or(0.0_f64),
         );
 
-        let t_tm = f64::from_str(t_tm.trim()).unwrap_or(0.0_f64);
+        let t_tm = parse_float(t_tm).unwrap_or(0.0_f64);
 
         let delta_ut1 = (
-            f64::from_str(dut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dddut.trim()).unwrap_or(0.0_f64),
+            parse_float(dut).unwrap_or(0.0_f64),
+            parse_float(ddut).unwrap_or(0.0_f64),
+            parse_float(dddut).unwrap_or(0.0_f64),
         );
 
         Ok((
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 6729d82..a4c0f4d 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -1,6 +1,10 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
-    navigation::{orbits::closest_nav_standards, Ephemeris, NavMessageType, OrbitItem},
+    navigation::{
+        orbits::closest_nav_standards,
+        parsing::{column, parse_float},
+        Ephemeris, NavMessageType, OrbitItem,
+    },
     prelude::{Constellation, Epoch, ParsingError, TimeScale, Version, SV},
 };
 
@@ -34,54 +38,40 @@ fn parse_orbits(
 
     let fields = &nav_standards.items;
 
-    let mut key_index: usize = 0;
-    let word_size: usize = 19;
-    let mut map: HashMap<String, OrbitItem> = HashMap::new();
-
-    for line in lines {
-        // trim first few white spaces
-        let mut line: &str = match version.major < 3 {
-            true => &line[3..],
-            false => &line[4..],
-        };
+    const WORDS_PER_LINE: usize = 4;
+    const WORD_SIZE: usize = 19;
 
-        let mut nb_missing = 4 - (line.len() / word_size);
-        // println!("LINE \"{}\" | NB MISSING {}", line, nb_missing); //DEBUG
+    // position of the first word
+    let offset: usize = match version.major < 3 {
+        true => 3,
+        false => 4,
+    };
 
-        loop {
-            if line.is_empty() {
-                key_index += nb_missing;
-                break;
-            }
+    let mut map: HashMap<String, OrbitItem> = HashMap::new();
 
-            let (content, rem) = line.split_at(std::cmp::min(word_size, line.len()));
-            let content = content.trim();
+    for (line_index, line) in lines.enumerate() {
+        for word_index in 0..WORDS_PER_LINE {
+            // fields are identified by their position:
+            // any of them may be omitted
+            let key_index = line_index * WORDS_PER_LINE + word_index;
+            let content = column(line, offset + word_index * WORD_SIZE, WORD_SIZE).trim();
             // println!("CONTENT \"{}\"", content); // DEBUG
 
             // handle omitted fields
             if content.is_empty() {
-                // omitted field
-                key_index += 1;
-                nb_missing = nb_missing.saturating_sub(1);
-                line = rem;
                 continue;
             }
 
-            // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000E+00") {
-                line = rem;
-                key_index += 1;
-                continue;
-            }
+            if let Some((key, token)) = fields.get(key_index) {
+                // zeros mean unresolved/unknown fields
+                let is_zero = content.starts_with("0.000000000000E+00")
+                    || content.starts_with("0.000000000000D+00");
 
-            // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000D+00") {
-                line = rem;
-                key_index += 1;
-                continue;
-            }
+                // except for signed integers, where zero is significant
+                if is_zero && token != &"i8" {
+                    continue;
+                }
 
-            if let Some((key, token)) = fields.get(key_index) {
                 //println!(
                 //    "Key \"{}\"(index: {}) | Token \"{}\" | Content \"{}\"",
                 //    key,
@@ -96,8 +86,6 @@ fn parse_orbits(
                     }
                 }
             }
-            key_index += 1;
-            line = rem;
         }
     }
     Ok(map)
@@ -120,10 +108,15 @@ impl Ephemeris {
             false => 4,
         };
 
-        let (svnn, rem) = line.split_at(svnn_offset);
-        let (date, rem) = rem.split_at(19);
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
+        let svnn = column(line, 0, svnn_offset);
+        let date = column(line, svnn_offset, 19);
+        let clk_bias = column(line, svnn_offset + 19, 19);
+        let clk_dr = column(line, svnn_offset + 38, 19);
+        let clk_drr = column(line, svnn_offset + 57, 19);
+
+        if svnn.trim().is_empty() || !svnn.is_ascii() {
+            return Err(ParsingError::EmptyEpoch);
+        }
 
         let sv = match svnn.trim().parse::<SV>() {
             Ok(sv) => sv,
@@ -145,23 +138,11 @@ impl Ephemeris {
 
         let epoch = parse_epoch_in_timescale(date.trim(), ts)?;
 
-        let clock_bias = clk_bias
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let clock_bias = parse_float(clk_bias).map_err(|_| ParsingError::ClockParsing)?;
 
-        let clock_drift = clk_dr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let clock_drift = parse_float(clk_dr).map_err(|_| ParsingError::ClockParsing)?;
 
-        let mut clock_drift_rate = clk_drr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let mut clock_drift_rate = parse_float(clk_drr).map_err(|_| ParsingError::ClockParsing)?;
 
         // parse orbits :
         //  only Legacy Frames in V2 and V3 (old) RINEX
@@ -201,31 +182,24 @@ impl Ephemeris {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (svnn, rem) = line.split_at(4);
+        let svnn = column(line, 0, 4);
+
+        if svnn.trim().is_empty() || !svnn.is_ascii() {
+            return Err(ParsingError::EmptyEpoch);
+        }
+
         let sv = svnn.trim().parse::<SV>()?;
-        let (epoch, rem) = rem.split_at(19);
-        let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
-
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
-
-        let clock_bias = clk_bias
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
-
-        let clock_drift = clk_dr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
-
-        let mut clock_drift_rate = clk_drr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let epoch = parse_epoch_in_timescale(column(line, 4, 19).trim(), ts)?;
+
+        let clk_bias = column(line, 23, 19);
+        let clk_dr = column(line, 42, 19);
+        let clk_drr = column(line, 61, 19);
+
+        let clock_bias = parse_float(clk_bias).map_err(|_| ParsingError::ClockParsing)?;
+
+        let clock_drift = parse_float(clk_dr).map_err(|_| ParsingError::ClockParsing)?;
+
+        let mut clock_drift_rate = parse_float(clk_drr).map_err(|_| ParsingError::ClockParsing)?;
 
         let mut orbits =
             parse_orbits(Version { major: 4, minor: 0 }, msg, sv.constellation, lines)?;
diff --git a/src/navigation/health.rs b/src/navigation/health.rs
index c56a325..512b916 100644
--- a/src/navigation/health.rs
+++ b/src/navigation/health.rs
@@ -90,15 +90,16 @@ bitflags! {
     #[derive(Debug, Default, Copy, Clone)]
     #[derive(PartialEq, PartialOrd)]
     #[cfg_attr(feature = "serde", derive(Serialize))]
-    pub struct GalHealth: u8 {
+    pub struct GalHealth: u16 {
         const E1B_DVS = 0x01;
         const E1B_HS0 = 0x02;
         const E1B_HS1 = 0x04;
         const E5A_DVS = 0x08;
         const E5A_HS0 = 0x10;
         const E5A_HS1 = 0x20;
-        const E5B_HS0 = 0x40;
-        const E5B_HS1 = 0x80;
+        const E5B_DVS = 0x40;
+        const E5B_HS0 = 0x80;
+        const E5B_HS1 = 0x100;
     }
 }
 
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index 140726b..a1a9244 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// BDGIM Model payload
 #[derive(Debug, Copy, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -24,36 +23,34 @@ impl BdModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let (epoch, a0) = (column(line, 0, 23), column(line, 23, 19));
+        let (a1, a2) = (column(line, 42, 19), column(line, 61, 19));
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (a4, rem) = rem.split_at(19);
-        let (a5, a6) = rem.split_at(19);
+        let (a3, a4) = (column(line, 0, 23), column(line, 23, 19));
+        let (a5, a6) = (column(line, 42, 19), column(line, 61, 19));
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a7, a8) = line.split_at(23);
+        let (a7, a8) = (column(line, 0, 23), column(line, 23, 19));
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a4.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a5.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a6.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a7.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a8.trim()).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a0).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a1).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a2).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a3).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a4).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a5).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a6).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a7).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a8).map_err(|_| ParsingError::BdgimData)?,
         );
 
         Ok((epoch, Self { alpha }))
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index 52707aa..63ffadd 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Klobuchar Parameters region
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -47,28 +46,26 @@ impl KbModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let (epoch, a0) = (column(line, 0, 23), column(line, 23, 19));
+        let (a1, a2) = (column(line, 42, 19), column(line, 61, 19));
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (b0, rem) = rem.split_at(19);
-        let (b1, b2) = rem.split_at(19);
+        let (a3, b0) = (column(line, 0, 23), column(line, 23, 19));
+        let (b1, b2) = (column(line, 42, 19), column(line, 61, 19));
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (b3, region) = line.split_at(23);
+        let (b3, region) = (column(line, 0, 23), column(line, 23, 19));
 
         let region: KbRegionCode = match region.trim().len() {
             0 => KbRegionCode::Worldwide,
             _ => {
-                if let Ok(f) = f64::from_str(region.trim()) {
+                if let Ok(f) = parse_float(region) {
                     let code = f as u8;
                     if code == 1 {
                         KbRegionCode::Japan
@@ -83,16 +80,16 @@ impl KbModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(a0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(a1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(a2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(a3).map_err(|_| ParsingError::KlobucharData)?,
         );
         let beta = (
-            f64::from_str(b0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(b0).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(b1).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(b2).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(b3).map_err(|_| ParsingError::KlobucharData)?,
         );
 
         Ok((
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 8980a78..d7b4207 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -1,12 +1,11 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
 use bitflags::bitflags;
 
-use std::str::FromStr;
-
 bitflags! {
     #[derive(Debug, Default, Clone, Copy)]
     #[derive(PartialEq, PartialOrd)]
@@ -41,9 +40,8 @@ impl NgModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, rem) = rem.split_at(19);
+        let (epoch, a0) = (column(line, 0, 23), column(line, 23, 19));
+        let (a1, rem) = (column(line, 42, 19), column(line, 61, 19));
 
         let line = match lines.next() {
             Some(l) => l,
@@ -52,11 +50,11 @@ impl NgModel {
 
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
         let a = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(rem.trim()).map_err(|_| ParsingError::NequickGData)?,
+            parse_float(a0).map_err(|_| ParsingError::NequickGData)?,
+            parse_float(a1).map_err(|_| ParsingError::NequickGData)?,
+            parse_float(rem).map_err(|_| ParsingError::NequickGData)?,
         );
-        let f = f64::from_str(line.trim()).map_err(|_| ParsingError::NequickGData)?;
+        let f = parse_float(line).map_err(|_| ParsingError::NequickGData)?;
         Ok((
             epoch,
             Self {
diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index 808e657..7a8ad21 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -76,30 +76,30 @@ impl OrbitItem {
         match type_desc {
             "u8" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 Ok(OrbitItem::U8(float as u8))
             },
             "i8" => {
                 // float->signed conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitSignedData)?;
                 Ok(OrbitItem::I8(float as i8))
             },
             "u32" => {
                 // float->signed conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 Ok(OrbitItem::U32(float as u32))
             },
             "f64" => {
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitFloatData)?;
                 Ok(OrbitItem::F64(float))
             },
             "gloStatus" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
                 let status = GloStatus::from_bits(unsigned).unwrap_or(GloStatus::empty());
@@ -107,7 +107,7 @@ impl OrbitItem {
             },
             "health" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
                 match constellation {
@@ -122,7 +122,7 @@ impl OrbitItem {
                         Ok(OrbitItem::GloHealth(flag))
                     },
                     Constellation::Galileo => {
-                        let flags = health::GalHealth::from_bits(unsigned as u8)
+                        let flags = health::GalHealth::from_bits(unsigned as u16)
                             .unwrap_or(health::GalHealth::empty());
                         Ok(OrbitItem::GalHealth(flags))
                     },
diff --git a/src/navigation/parsing/mod.rs b/src/navigation/parsing/mod.rs
index a6104c9..a91b4b5 100644
--- a/src/navigation/parsing/mod.rs
+++ b/src/navigation/parsing/mod.rs
@@ -7,6 +7,18 @@ use crate::{
 mod v4;
 use v4::parse as parse_v4_epoch;
 
+/// Content of a fixed width column. This is possibly shorter,
+/// or empty, because trailing content may be omitted.
+pub(crate) fn column(line: &str, offset: usize, width: usize) -> &str {
+    let rem = line.get(offset..).unwrap_or_default();
+    rem.get(..width).unwrap_or(rem)
+}
+
+/// Parses Fortran style (D exponents) or standard floating point numbers.
+pub(crate) fn parse_float(content: &str) -> Result<f64, std::num::ParseFloatError> {
+    content.trim().replace(['D', 'd'], "E").parse::<f64>()
+}
+
 /// ([NavKey], [NavFrame]) parsing attempt
 pub fn parse_epoch(header: &Header, content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
     if content.starts_with('>') {
@@ -44,6 +56,10 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
                           // to describe a PRN and an Epoch
         }
 
+        if !line.is_ascii() {
+            return false;
+        }
+
         let (prn, _) = line.split_at(2);
         if prn.trim().parse::<u8>().is_err() {
             return false;
@@ -58,6 +74,10 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
                           // to describe an SV and an Epoch
         }
 
+        if !line.is_ascii() {
+            return false;
+        }
+
         // 1st entry matches a valid SV description
         let (sv, _) = line.split_at(4);
 
diff --git a/src/navigation/parsing/v4.rs b/src/navigation/parsing/v4.rs
index b9022d9..e73a7e8 100644
--- a/src/navigation/parsing/v4.rs
+++ b/src/navigation/parsing/v4.rs
@@ -1,7 +1,7 @@
 use crate::{
     navigation::{
-        BdModel, EarthOrientation, Ephemeris, IonosphereModel, KbModel, NavFrame, NavFrameType,
-        NavKey, NavMessageType, NgModel, SystemTime,
+        parsing::column, BdModel, EarthOrientation, Ephemeris, IonosphereModel, KbModel, NavFrame,
+        NavFrameType, NavKey, NavMessageType, NgModel, SystemTime,
     },
     prelude::{Constellation, ParsingError, SV},
 };
@@ -16,9 +16,13 @@ pub fn parse(content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
         _ => return Err(ParsingError::EmptyEpoch),
     };
 
-    let (_, rem) = line.split_at(2);
-    let (class, rem) = rem.split_at(4);
-    let (svnn, rem) = rem.split_at(4);
+    let class = column(line, 2, 4);
+    let svnn = column(line, 6, 4);
+    let rem = line.get(10..).unwrap_or_default();
+
+    if svnn.trim().is_empty() || !svnn.is_ascii() {
+        return Err(ParsingError::EmptyEpoch);
+    }
 
     // frmtype defines message to follow
     let frmtype = class.trim().parse::<NavFrameType>()?;
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index e7b66a1..c12d088 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -1,11 +1,10 @@
 // NAV V4 System Time Messages
-use std::str::FromStr;
-
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
@@ -25,15 +24,14 @@ pub struct SystemTime {
 
 impl SystemTime {
     pub fn parse(line_1: &str, line_2: &str, ts: TimeScale) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (system, rem) = rem.split_at(5);
-        let utc = rem.trim().to_string();
+        let epoch = column(line_1, 0, 23);
+        let system = column(line_1, 23, 5);
+        let utc = line_1.get(28..).unwrap_or_default().trim().to_string();
         let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
-        let (a0, rem) = line_2.split_at(23);
-        let (a1, rem) = rem.split_at(19);
-        let (a2, time) = rem.split_at(19);
-        let t_tm = f64::from_str(time.trim()).map_err(|_| ParsingError::SystemTimeData)?;
+        let (a0, a1) = (column(line_2, 0, 23), column(line_2, 23, 19));
+        let (a2, time) = (column(line_2, 42, 19), column(line_2, 61, 19));
+        let t_tm = parse_float(time).map_err(|_| ParsingError::SystemTimeData)?;
 
         Ok((
             epoch,
@@ -42,9 +40,9 @@ impl SystemTime {
                 system: system.trim().to_string(),
                 t_tm: t_tm as u32,
                 a: (
-                    f64::from_str(a0.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a1.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a2.trim()).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_float(a0).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_float(a1).map_err(|_| ParsingError::SystemTimeData)?,
+                    parse_float(a2).map_err(|_| ParsingError::SystemTimeData)?,
                 ),
             },
         ))
-- 
2.43.0


From 3104c549163b81f620e503574ff86315ccc15db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 24/74] fix: Galileo V4 frames leave a spare word after the
 week counter, ephemerides published at the start of the week

---
 db/NAV/orbits.json              | 4 ++--
 src/navigation/ephemeris/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/db/NAV/orbits.json b/db/NAV/orbits.json
index 64f176e..c5609ce 100755
--- a/db/NAV/orbits.json
+++ b/db/NAV/orbits.json
@@ -364,11 +364,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
@@ -398,11 +398,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index c07d8ee..50cf7da 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -92,7 +92,8 @@ impl Ephemeris {
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self.get_orbit_f64("toe")?;
+        // zero is omitted on purpose, when decoding
+        let sec = self.get_orbit_f64("toe").unwrap_or(0.0);
         let week_dur = Duration::from_days((week * 7) as f64);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
-- 
2.43.0


From 606e0bdba00dba97e38d327ef0be5718f088868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 25/74] fix: ephemeris selection at the time of ephemeris, and
 among the SBAS frames already published

---
 src/navigation/ephemeris/mod.rs | 2 +-
 src/navigation/rinex/feature.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 50cf7da..5e49565 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -182,7 +182,7 @@ impl Ephemeris {
     /// which should always be considered "valid".
     pub fn is_valid(&self, sv: SV, t: Epoch, toe: Epoch) -> bool {
         if let Some(max_dtoe) = Self::validity_duration(sv.constellation) {
-            t > toe && (t - toe) < max_dtoe
+            t >= toe && (t - toe) < max_dtoe
         } else {
             #[cfg(feature = "log")]
             error!("{} not fully supported", sv.constellation);
diff --git a/src/navigation/rinex/feature.rs b/src/navigation/rinex/feature.rs
index adc51a1..8b03731 100644
--- a/src/navigation/rinex/feature.rs
+++ b/src/navigation/rinex/feature.rs
@@ -57,7 +57,7 @@ impl Rinex {
         if sv.constellation.is_sbas() {
             self.nav_ephemeris_frames_iter()
                 .filter_map(|(k, eph)| {
-                    if k.sv == sv {
+                    if k.sv == sv && t >= k.epoch {
                         Some((k.epoch, k.epoch, eph))
                     } else {
                         None
-- 
2.43.0


From fa1bedf5aa97e940df8ca71d3104b33f7033a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 26/74] fix: satellite velocity: inclination rate sign, BeiDou
 geostationary rotation, null terms, QZSS, bounded Kepler iterations

---
 src/navigation/ephemeris/kepler/helper.rs | 131 +++++++++-------------
 src/navigation/ephemeris/kepler/mod.rs    |  23 ++--
 2 files changed, 68 insertions(+), 86 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index b081122..643e435 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -87,30 +87,35 @@ impl Helper {
         if self.sv.is_beidou_geo() {
             self.beidou_geo_ecef_velocity()
         } else {
-            let (x, y, _) = self.r_sv;
-            let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-            let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-            // First Derivative of orbit position
-            let (fd_x, fd_y) = self.orbit_velocity();
-            // First Derivative of rotation Matrix
-            let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
-            fd_r[(0, 0)] = cos_omega_k;
-            fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
-            fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
-            fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
-            fd_r[(1, 0)] = sin_omega_k;
-            fd_r[(1, 1)] = cos_omega_k * cos_i_k;
-            fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
-            fd_r[(1, 3)] = y * cos_omega_k * sin_i_k;
-            fd_r[(2, 1)] = sin_i_k;
-            fd_r[(2, 3)] = y * cos_i_k;
-
-            let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
-            let vel = fd_r * rhs;
-            vel / 1000.0
+            self.meo_velocity()
         }
     }
 
+    /// Temporal derivative of the rotated MEO position, in km/s.
+    fn meo_velocity(&self) -> Vector3 {
+        let (x, y, _) = self.r_sv;
+        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
+        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
+        // First Derivative of orbit position
+        let (fd_x, fd_y) = self.orbit_velocity();
+        // First Derivative of rotation Matrix
+        let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
+        fd_r[(0, 0)] = cos_omega_k;
+        fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
+        fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
+        fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
+        fd_r[(1, 0)] = sin_omega_k;
+        fd_r[(1, 1)] = cos_omega_k * cos_i_k;
+        fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
+        fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
+        fd_r[(2, 1)] = sin_i_k;
+        fd_r[(2, 3)] = y * cos_i_k;
+
+        let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
+        let vel = fd_r * rhs;
+        vel / 1000.0
+    }
+
     /// Returns ECEF (position, velocity) [Vector3] in (km, km/s).
     pub fn ecef_pv(&self) -> (Vector3, Vector3) {
         (self.ecef_position(), self.ecef_velocity())
@@ -128,17 +133,9 @@ impl Helper {
     /// Returns ECEF velocity [Vector3] in km/s, for BeiDou GEO specifically
     pub fn beidou_geo_ecef_velocity(&self) -> Vector3 {
         let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
+        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0f64.to_radians());
         let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
+        let fd_rz = Omega::BDS
             * Matrix3::new(
                 -sin_omega_tk,
                 cos_omega_tk,
@@ -150,47 +147,26 @@ impl Helper {
                 0.0,
                 0.0,
             );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        vel
+        // position and velocity, in the frame that is then rotated
+        let pos = self.meo_orbit_to_ecef_rotation_matrix() * Vector3::new(x, y, 0.0) / 1000.0;
+        let fd_pos = self.meo_velocity();
+        fd_rz * (rx * pos) + self.geo_orbit_to_ecef_rotation_matrix() * fd_pos
     }
 
     /// Returns ECEF (position, velocity) [Vector3]s in (km, km/s), for BeiDou GEO specifically.
     pub fn beidou_geo_ecef_pv(&self) -> (Vector3, Vector3) {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
-        let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
-            * Matrix3::new(
-                -sin_omega_tk,
-                cos_omega_tk,
-                0.0,
-                -cos_omega_tk,
-                -sin_omega_tk,
-                0.0,
-                0.0,
-                0.0,
-                0.0,
-            );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        (pos, vel)
+        (
+            self.beidou_geo_ecef_position(),
+            self.beidou_geo_ecef_velocity(),
+        )
     }
 
     /// Returns ECEF position [Vector3] in km.
     pub fn position(&self) -> Option<Vector3> {
         match self.sv.constellation {
-            Constellation::GPS | Constellation::Galileo => Some(self.ecef_position()),
+            Constellation::GPS | Constellation::QZSS | Constellation::Galileo => {
+                Some(self.ecef_position())
+            },
             Constellation::BeiDou => {
                 if self.sv.is_beidou_geo() {
                     Some(self.beidou_geo_ecef_position())
@@ -212,9 +188,10 @@ impl Helper {
             Some(self.beidou_geo_ecef_pv())
         } else {
             match self.sv.constellation {
-                Constellation::GPS | Constellation::Galileo | Constellation::BeiDou => {
-                    Some(self.ecef_pv())
-                },
+                Constellation::GPS
+                | Constellation::QZSS
+                | Constellation::Galileo
+                | Constellation::BeiDou => Some(self.ecef_pv()),
                 _ => {
                     #[cfg(feature = "log")]
                     warn!("{} is not supported", self.sv.constellation);
@@ -264,15 +241,16 @@ impl Ephemeris {
             if (e_k - e_k_lst).abs() < 1e-10 {
                 break;
             }
+            if i >= Constants::MAX_KEPLER_ITER {
+                #[cfg(feature = "log")]
+                error!("{} kepler iteration overflow", sv);
+                return None;
+            }
+
             i += 1;
             e_k_lst = e_k;
         }
 
-        if i >= Constants::MAX_KEPLER_ITER {
-            #[cfg(feature = "log")]
-            error!("{} kepler iteration overflow", sv);
-        }
-
         // true anomaly
         let (sin_e_k, cos_e_k) = e_k.sin_cos();
         let v_k = ((1.0 - kepler.e.powi(2)).sqrt() * sin_e_k).atan2(cos_e_k - kepler.e);
@@ -292,12 +270,15 @@ impl Ephemeris {
         let di_k = perturbations.cis * x2_sin_phi_k + perturbations.cic * x2_cos_phi_k;
 
         // first derivatives
-        let fd_omega_k = perturbations.omega_dot - omega;
+        let fd_omega_k = if sv.is_beidou_geo() {
+            // earth rotation is introduced by the final rotation
+            perturbations.omega_dot
+        } else {
+            perturbations.omega_dot - omega
+        };
 
         let fd_e_k = n / (1.0 - kepler.e * e_k.cos());
-        let fd_phi_k = ((1.0 + kepler.e) / (1.0 - kepler.e)).sqrt()
-            * ((v_k / 2.0).cos() / (e_k / 2.0).cos()).powi(2)
-            * fd_e_k;
+        let fd_phi_k = (1.0 - kepler.e.powi(2)).sqrt() * fd_e_k / (1.0 - kepler.e * e_k.cos());
 
         let fd_u_k =
             (perturbations.cus * x2_cos_phi_k - perturbations.cuc * x2_sin_phi_k) * fd_phi_k * 2.0
diff --git a/src/navigation/ephemeris/kepler/mod.rs b/src/navigation/ephemeris/kepler/mod.rs
index 4b73d41..f962979 100644
--- a/src/navigation/ephemeris/kepler/mod.rs
+++ b/src/navigation/ephemeris/kepler/mod.rs
@@ -68,7 +68,7 @@ impl Ephemeris {
             omega: self.get_orbit_f64("omega")?,
             omega_0: self.get_orbit_f64("omega0")?,
             m_0: self.get_orbit_f64("m0")?,
-            toe: self.get_orbit_f64("toe")?,
+            toe: self.get_orbit_f64("toe").unwrap_or(0.0),
         })
     }
 
@@ -85,18 +85,19 @@ impl Ephemeris {
         s
     }
 
-    /// Retrieves Orbit [Perturbations] from [Ephemeris]
+    /// Retrieves Orbit [Perturbations] from [Ephemeris].
+    /// Null corrections are omitted on purpose, when decoding.
     pub fn perturbations(&self) -> Option<Perturbations> {
         Some(Perturbations {
-            cuc: self.get_orbit_f64("cuc")?,
-            cus: self.get_orbit_f64("cus")?,
-            cic: self.get_orbit_f64("cic")?,
-            cis: self.get_orbit_f64("cis")?,
-            crc: self.get_orbit_f64("crc")?,
-            crs: self.get_orbit_f64("crs")?,
-            dn: self.get_orbit_f64("deltaN")?,
-            i_dot: self.get_orbit_f64("idot")?,
-            omega_dot: self.get_orbit_f64("omegaDot")?,
+            cuc: self.get_orbit_f64("cuc").unwrap_or(0.0),
+            cus: self.get_orbit_f64("cus").unwrap_or(0.0),
+            cic: self.get_orbit_f64("cic").unwrap_or(0.0),
+            cis: self.get_orbit_f64("cis").unwrap_or(0.0),
+            crc: self.get_orbit_f64("crc").unwrap_or(0.0),
+            crs: self.get_orbit_f64("crs").unwrap_or(0.0),
+            dn: self.get_orbit_f64("deltaN").unwrap_or(0.0),
+            i_dot: self.get_orbit_f64("idot").unwrap_or(0.0),
+            omega_dot: self.get_orbit_f64("omegaDot").unwrap_or(0.0),
         })
     }
 
-- 
2.43.0


From e71cd7b9e84fda64b9f79a3d0841a7894a5ee898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 27/74] fix: Glonass ephemerides may be selected, there is no
 time of ephemeris

---
 src/navigation/rinex/feature.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/navigation/rinex/feature.rs b/src/navigation/rinex/feature.rs
index 8b03731..66e30cf 100644
--- a/src/navigation/rinex/feature.rs
+++ b/src/navigation/rinex/feature.rs
@@ -2,7 +2,7 @@ use crate::{
     navigation::{BdModel, Ephemeris, IonosphereModel, KbModel, NavKey, NgModel},
     prelude::{
         nav::{Almanac, AzElRange, Orbit},
-        Epoch, Rinex, SV,
+        Constellation, Epoch, Rinex, SV,
     },
 };
 
@@ -49,7 +49,7 @@ impl Rinex {
     /// ## Returns
     /// - (toc, toe, [Ephemeris]) triplet if an [Ephemeris] message
     /// was decoded in the correct time frame.
-    /// Note that `ToE` does not exist for GEO/SBAS [SV], so `ToC` is simply
+    /// Note that `ToE` does not exist for GEO/SBAS and Glonass [SV], so `ToC` is simply
     /// copied in this case, to maintain the API.
     pub fn nav_ephemeris_selection(&self, sv: SV, t: Epoch) -> Option<(Epoch, Epoch, &Ephemeris)> {
         let sv_ts = sv.constellation.timescale()?;
@@ -68,7 +68,12 @@ impl Rinex {
             self.nav_ephemeris_frames_iter()
                 .filter_map(|(k, eph)| {
                     if k.sv == sv && t >= k.epoch {
-                        let toe = eph.toe(sv_ts)?;
+                        let toe = if sv.constellation == Constellation::Glonass {
+                            // ToE does not exist
+                            k.epoch
+                        } else {
+                            eph.toe(sv_ts)?
+                        };
                         if eph.is_valid(sv, t, toe) {
                             Some((k.epoch, toe, eph))
                         } else {
-- 
2.43.0


From eeecc054a1f478699fc4d50ea5d8c74c1fcd77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 28/74] fix: ionosphere corrections of the header: D exponents,
 trimmed lines, BETA before ALPHA

---
 src/header/parsing.rs            | 25 ++++++------
 src/navigation/ionosphere/mod.rs | 65 ++++++++++++++------------------
 2 files changed, 43 insertions(+), 47 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index ba6f71d..e4b4743 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -702,9 +702,10 @@ impl Header {
                         ] {
                             if let Some(correction) = ionod_corrections.get_mut(&c) {
                                 // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
-                                kb_model.alpha = alpha;
-                                kb_model.region = region;
+                                if let Some(kb_model) = correction.as_klobuchar_mut() {
+                                    kb_model.alpha = alpha;
+                                    kb_model.region = region;
+                                }
                             } else {
                                 ionod_corrections.insert(
                                     c,
@@ -741,8 +742,9 @@ impl Header {
                         ] {
                             if let Some(correction) = ionod_corrections.get_mut(&c) {
                                 // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
-                                kb_model.beta = beta;
+                                if let Some(kb_model) = correction.as_klobuchar_mut() {
+                                    kb_model.beta = beta;
+                                }
                             } else {
                                 ionod_corrections.insert(
                                     c,
@@ -787,12 +789,13 @@ impl Header {
                     })) => {
                         // KB requires two lines
                         if let Some(ionod_model) = ionod_corrections.get_mut(&constell) {
-                            let kb_model = ionod_model.as_klobuchar_mut().unwrap();
-                            if model_id.ends_with('A') {
-                                kb_model.alpha = alpha;
-                                kb_model.region = region;
-                            } else {
-                                kb_model.beta = beta;
+                            if let Some(kb_model) = ionod_model.as_klobuchar_mut() {
+                                if model_id.trim_end().ends_with('A') {
+                                    kb_model.alpha = alpha;
+                                    kb_model.region = region;
+                                } else {
+                                    kb_model.beta = beta;
+                                }
                             }
                         } else {
                             // latch new model
diff --git a/src/navigation/ionosphere/mod.rs b/src/navigation/ionosphere/mod.rs
index 5aaba79..cd41d9a 100644
--- a/src/navigation/ionosphere/mod.rs
+++ b/src/navigation/ionosphere/mod.rs
@@ -1,6 +1,7 @@
-use crate::prelude::ParsingError;
-
-use std::str::FromStr;
+use crate::{
+    navigation::parsing::{column, parse_float},
+    prelude::ParsingError,
+};
 
 mod bdgim;
 mod klobuchar;
@@ -33,18 +34,17 @@ impl IonosphereModel {
     /// In this case, it will apply for the entire day course.
     /// Two models may exist: Klobuchar and NequickG.
     pub(crate) fn from_rinex3_header(header: &str) -> Result<Self, ParsingError> {
-        let (system, rem) = header.split_at(5);
+        let system = column(header, 0, 5);
+        let word = |index: usize| column(header, 5 + index * 12, 12);
         match system.trim() {
             /*
              * Models that only needs 3 fields
              */
             "GAL" => {
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, _) = rem.split_at(12);
-                let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?;
-                let a1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?;
-                let a2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::NequickGData)?;
+                let (a0, a1, a2) = (word(0), word(1), word(2));
+                let a0 = parse_float(a0).map_err(|_| ParsingError::NequickGData)?;
+                let a1 = parse_float(a1).map_err(|_| ParsingError::NequickGData)?;
+                let a2 = parse_float(a2).map_err(|_| ParsingError::NequickGData)?;
                 Ok(Self::NequickG(NgModel {
                     a: (a0, a1, a2),
                     // TODO: is this not the 4th field? double check
@@ -55,10 +55,7 @@ impl IonosphereModel {
                 /*
                  * Model has 4 fields
                  */
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, rem) = rem.split_at(12);
-                let (a3, _) = rem.split_at(12);
+                let (a0, a1, a2, a3) = (word(0), word(1), word(2), word(3));
                 // World or QZSS special orbital plan
                 let region = match system.contains("QZS") {
                     true => KbRegionCode::Japan,
@@ -66,10 +63,10 @@ impl IonosphereModel {
                 };
                 /* determine which field we're dealing with */
                 if system.ends_with('A') {
-                    let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let a1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let a2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let a3 = f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?;
+                    let a0 = parse_float(a0).map_err(|_| ParsingError::KlobucharData)?;
+                    let a1 = parse_float(a1).map_err(|_| ParsingError::KlobucharData)?;
+                    let a2 = parse_float(a2).map_err(|_| ParsingError::KlobucharData)?;
+                    let a3 = parse_float(a3).map_err(|_| ParsingError::KlobucharData)?;
 
                     Ok(Self::Klobuchar(KbModel {
                         alpha: (a0, a1, a2, a3),
@@ -77,10 +74,10 @@ impl IonosphereModel {
                         region,
                     }))
                 } else {
-                    let b0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let b1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let b2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?;
-                    let b3 = f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?;
+                    let b0 = parse_float(a0).map_err(|_| ParsingError::KlobucharData)?;
+                    let b1 = parse_float(a1).map_err(|_| ParsingError::KlobucharData)?;
+                    let b2 = parse_float(a2).map_err(|_| ParsingError::KlobucharData)?;
+                    let b3 = parse_float(a3).map_err(|_| ParsingError::KlobucharData)?;
                     Ok(Self::Klobuchar(KbModel {
                         alpha: (0.0_f64, 0.0_f64, 0.0_f64, 0.0_f64),
                         beta: (b0, b1, b2, b3),
@@ -95,18 +92,14 @@ impl IonosphereModel {
     /// In this case, it will apply for the entire day course.
     /// Only the Klobuchar model may exist.
     pub(crate) fn from_rinex2_header(header: &str, marker: &str) -> Result<Self, ParsingError> {
-        let header = header.replace("d", "e").replace("D", "E");
-        let (_, rem) = header.split_at(2);
-        let (a0, rem) = rem.split_at(12);
-        let (a1, rem) = rem.split_at(12);
-        let (a2, rem) = rem.split_at(12);
-        let (a3, _) = rem.split_at(12);
+        let word = |index: usize| column(header, 2 + index * 12, 12);
+        let (a0, a1, a2, a3) = (word(0), word(1), word(2), word(3));
 
         if marker.contains("ALPHA") {
-            let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let a1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let a2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let a3 = f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?;
+            let a0 = parse_float(a0).map_err(|_| ParsingError::KlobucharData)?;
+            let a1 = parse_float(a1).map_err(|_| ParsingError::KlobucharData)?;
+            let a2 = parse_float(a2).map_err(|_| ParsingError::KlobucharData)?;
+            let a3 = parse_float(a3).map_err(|_| ParsingError::KlobucharData)?;
 
             Ok(Self::Klobuchar(KbModel {
                 alpha: (a0, a1, a2, a3),
@@ -115,10 +108,10 @@ impl IonosphereModel {
             }))
         } else {
             // Assume marker.contains("BETA")
-            let b0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let b1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let b2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?;
-            let b3 = f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?;
+            let b0 = parse_float(a0).map_err(|_| ParsingError::KlobucharData)?;
+            let b1 = parse_float(a1).map_err(|_| ParsingError::KlobucharData)?;
+            let b2 = parse_float(a2).map_err(|_| ParsingError::KlobucharData)?;
+            let b3 = parse_float(a3).map_err(|_| ParsingError::KlobucharData)?;
 
             Ok(Self::Klobuchar(KbModel {
                 alpha: (0.0_f64, 0.0_f64, 0.0_f64, 0.0_f64),
-- 
2.43.0


From 6fe80111ce10737e9f173b562a384a63f29d8f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 29/74] fix: clock lines of receivers name stations, even those
 that resemble a satellite

---
 src/clock/record.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/clock/record.rs b/src/clock/record.rs
index 6d58249..d0559b2 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -162,21 +162,27 @@ pub(crate) fn parse_epoch(
     let (dtype, mut rem) = line.split_at(3);
     let profile_type = ClockProfileType::from_str(dtype.trim())?;
 
+    // AR, CR and DR describe receivers, whose name may resemble a satellite
+    let is_receiver = matches!(
+        profile_type,
+        ClockProfileType::AR | ClockProfileType::CR | ClockProfileType::DR
+    );
+
     let clock_type = match version < LIMIT {
         true => {
             // old revision
             let (system_str, r) = rem.split_at(5);
             rem = r;
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
-                ClockType::SV(svnn)
-            } else {
-                ClockType::Station(system_str.trim().to_string())
+            match SV::from_str(system_str.trim()) {
+                Ok(svnn) if !is_receiver => ClockType::SV(svnn),
+                _ => ClockType::Station(system_str.trim().to_string()),
             }
         },
         false => {
             // modern revision
             let (system_str, r) = rem.split_at(4);
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
+            let svnn = SV::from_str(system_str.trim());
+            if let (Ok(svnn), false) = (svnn, is_receiver) {
                 let (_, r) = r.split_at(6);
                 rem = r;
                 ClockType::SV(svnn)
-- 
2.43.0


From d2523c096267cb3ec429ec0a8d184fe8b35536e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 30/74] fix: clock headers since V3.04 are 65 columns wide, GLO
 and QZS time systems, 9 character sites

---
 src/clock/mod.rs      |  2 +-
 src/header/parsing.rs | 28 ++++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 5b58c88..08a4687 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -71,7 +71,7 @@ impl WorkClock {
         } else {
             let (name, rem) = content.split_at(10);
             let (domes, rem) = rem.split_at(10);
-            let constraint = rem.split_at(40).0;
+            let constraint = rem;
             Self {
                 name: name.trim().to_string(),
                 domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index e4b4743..6567c02 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -70,12 +70,15 @@ impl Header {
         let mut ionex = IonexHeaderFields::default();
         let mut doris = DorisHeader::default();
 
+        // labels start on column 60, or 65 since Clock V3.04
+        let mut width = 60;
+
         for l in reader.lines() {
             let line = l.unwrap();
             if line.len() < 60 {
                 continue; // --> invalid header content
             }
-            let (content, marker) = line.split_at(60);
+            let (content, marker) = line.split_at(width.min(line.len()));
             ///////////////////////////////
             // [0] END OF HEADER
             //     --> done parsing
@@ -265,14 +268,20 @@ impl Header {
                 if !version.is_supported() {
                     return Err(ParsingError::NonSupportedVersion);
                 }
+
+                if rinex_type == Type::ClockData && marker.starts_with("     ") {
+                    width = 65;
+                }
             } else if marker.contains("PGM / RUN BY / DATE") {
-                let (pgm, rem) = line.split_at(20);
+                // columns are separated by one space since Clock V3.04
+                let size = if width == 65 { 21 } else { 20 };
+                let (pgm, rem) = line.split_at(size);
                 let pgm = pgm.trim();
                 if pgm.len() > 0 {
                     program = Some(pgm.to_string());
                 }
 
-                let (runby, rem) = rem.split_at(20);
+                let (runby, rem) = rem.split_at(size);
 
                 let runby = runby.trim();
                 if runby.len() > 0 {
@@ -643,7 +652,11 @@ impl Header {
                     rem = r;
                 }
             } else if marker.contains("STATION NAME / NUM") {
-                let (name, domes) = content.split_at(4);
+                // names are limited to 4 characters prior V3.04, 9 since then
+                let (name, domes) = match content.find(' ') {
+                    Some(size) if size < 10 => content.split_at(size),
+                    _ => content.split_at(4),
+                };
                 clock = clock.site(name.trim());
                 if let Ok(domes) = DOMES::from_str(domes.trim()) {
                     clock = clock.domes(domes);
@@ -823,8 +836,11 @@ impl Header {
                 //    time_corrections.insert(ts, (ts, corr));
                 //}
             } else if marker.contains("TIME SYSTEM ID") {
-                let timescale = content.trim();
-                let ts = TimeScale::from_str(timescale)?;
+                let ts = match content.trim() {
+                    "GLO" => TimeScale::UTC,
+                    "QZS" => TimeScale::QZSST,
+                    timescale => TimeScale::from_str(timescale)?,
+                };
                 clock = clock.timescale(ts);
             } else if marker.contains("DESCRIPTION") {
                 // IONEX description
-- 
2.43.0


From 685949a2d745372c7511dbc67ee3d73f493f5759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 31/74] fix: grids that do not start on a multiple of their
 spacing

---
 src/linspace.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index ecc4f7b..107d7ad 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -1,5 +1,3 @@
-use std::ops::Rem;
-
 use crate::prelude::ParsingError;
 
 /// Linear space as used in IONEX or Antenna grid definitions.
@@ -25,20 +23,17 @@ impl Linspace {
                 spacing,
             })
         } else {
-            let r = end.rem(start);
             /*
-             * End / Start must be multiple of one another
+             * Spacing must divide the range, and lead from start to end
              */
-            if r == 0.0 {
-                if end.rem(spacing) == 0.0 {
-                    Ok(Self {
-                        start,
-                        end,
-                        spacing,
-                    })
-                } else {
-                    Err(ParsingError::BadIonexGridSpecs)
-                }
+            let steps = (end - start) / spacing;
+
+            if steps >= 0.0 && (steps - steps.round()).abs() < 1.0E-6 {
+                Ok(Self {
+                    start,
+                    end,
+                    spacing,
+                })
             } else {
                 Err(ParsingError::BadIonexGridSpecs)
             }
-- 
2.43.0


From e07291a06197f2419fbe3947ed5623877c976390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 32/74] fix: borders and altitudes of ionosphere maps are (min,
 max)

---
 src/ionex/rinex/feature.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ionex/rinex/feature.rs b/src/ionex/rinex/feature.rs
index cf86641..b0a8efe 100644
--- a/src/ionex/rinex/feature.rs
+++ b/src/ionex/rinex/feature.rs
@@ -29,9 +29,12 @@ impl Rinex {
     /// - (long_min, long_max): easternmost and westernmost longitude, in decimal degrees
     pub fn tec_map_borders(&self) -> Option<((f64, f64), (f64, f64))> {
         let ionex = self.header.ionex.as_ref()?;
+        let (lat, long) = (&ionex.grid.latitude, &ionex.grid.longitude);
+
+        // grids may be described in descending order
         Some((
-            (ionex.grid.latitude.start, ionex.grid.latitude.end),
-            (ionex.grid.longitude.start, ionex.grid.longitude.end),
+            (lat.start.min(lat.end), lat.start.max(lat.end)),
+            (long.start.min(long.end), long.start.max(long.end)),
         ))
     }
 
@@ -68,7 +71,8 @@ impl Rinex {
     /// reflect actual content.
     pub fn ionex_altitude_range_km(&self) -> Option<(f64, f64)> {
         let header = self.header.ionex.as_ref()?;
-        Some((header.grid.height.start, header.grid.height.end))
+        let height = &header.grid.height;
+        Some((height.start.min(height.end), height.start.max(height.end)))
     }
 
     /// Designs an TEC isosurface iterator starting at lowest altitude,
-- 
2.43.0


From 5452966f941f1809b1ffe51a56bf42239c638dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 33/74] fix: invalid dates of ionosphere maps

---
 src/epoch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index a52b7d3..413a552 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -237,7 +237,7 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
             _ => {},
         }
     }
-    Ok(Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, 0))
+    Epoch::maybe_from_gregorian_utc(y, m, d, hh, mm, ss, 0).map_err(|_| ParsingError::EpochParsing)
 }
 
 /*
-- 
2.43.0


From 080732aaa34e289e16c4f8e4d9018f873b2cf916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 34/74] fix: ionosphere maps: RMS maps, values without
 whitespace in between, nodes off the spacing, RMS no longer taken for TEC

---
 src/ionex/parsing.rs   | 25 +++++++++++++++++++++----
 src/ionex/quantized.rs |  5 ++++-
 src/record/parsing.rs  | 17 ++++++++++++-----
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index a34f01d..436d259 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -57,6 +57,23 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
     return Ok((fixed_lat, long1, long_spacing, fixed_alt));
 }
 
+/// Map values are formatted on 5 columns: they may not be separated by a whitespace.
+fn map_values(line: &str) -> Vec<&str> {
+    const SIZE: usize = 5;
+
+    let glued = line.split_ascii_whitespace().any(|item| item.len() > SIZE);
+
+    if glued && line.is_ascii() {
+        (0..line.len())
+            .step_by(SIZE)
+            .map(|i| line[i..line.len().min(i + SIZE)].trim())
+            .filter(|item| !item.is_empty())
+            .collect()
+    } else {
+        line.split_ascii_whitespace().collect()
+    }
+}
+
 /// Parses all maps contained in following TEC description.
 /// This describes a serie of TEC point on an isosurface.
 /// ## Inputs
@@ -115,7 +132,7 @@ pub fn parse_tec_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
+        for item in map_values(line) {
             // data interpretation
             let item = item.trim();
             if item != NON_AVAILABLE_TEC_KEYWORD {
@@ -183,7 +200,7 @@ pub fn parse_rms_map(
                 continue; // avoid parsing
             } else if marker.contains("LAT/LON1/LON2/DLON/H") {
                 // gric specs (to follow)
-                (fixed_lat, long, long_spacing, fixed_alt) = parse_grid_specs(content)?;
+                (fixed_lat, long, long_spacing, fixed_alt) = parse_grid_specs(line)?;
                 continue; // avoid parsing
             } else if marker.contains("END OF RMS MAP") {
                 // block conclusion
@@ -193,7 +210,7 @@ pub fn parse_rms_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
+        for item in map_values(line) {
             let item = item.trim();
 
             if item != NON_AVAILABLE_TEC_KEYWORD {
@@ -260,7 +277,7 @@ pub fn parse_rms_map(
 //         }
 
 //         // proceed to parsing
-//         for item in line.split_ascii_whitespace() {
+//         for item in map_values(line) {
 //             if let Ok(h_km) = item.trim().parse::<i32>() {
 //                 // Should adjust the altitude we previously parsed
 //             }
diff --git a/src/ionex/quantized.rs b/src/ionex/quantized.rs
index 5c67cec..9c06d7b 100644
--- a/src/ionex/quantized.rs
+++ b/src/ionex/quantized.rs
@@ -11,12 +11,15 @@ pub struct Quantized {
 }
 
 impl Quantized {
+    /// Largest exponent, values are stored on 64 bits
+    const MAX_EXPONENT: i8 = 18;
+
     /// Determines best suited exponent to quantize given value
     pub fn find_exponent(value: f64) -> i8 {
         let mut val = value;
         let mut exponent = 0;
 
-        while val.fract() != 0.0 {
+        while val.fract() != 0.0 && exponent < Self::MAX_EXPONENT {
             val *= 10.0;
             exponent += 1;
         }
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 8971aa6..c15c65a 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -23,6 +23,7 @@ use crate::{
         Record as IonexRecord,
     },
     is_rinex_comment,
+    linspace::Linspace,
     meteo::{
         is_new_epoch as is_new_meteo_epoch, parse_epoch as parse_meteo_epoch, Record as MeteoRecord,
     },
@@ -171,9 +172,15 @@ impl Record {
 
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
-            ionex_lat_exponent = IonexQuantized::find_exponent(ionex.grid.latitude.spacing);
-            ionex_long_exponent = IonexQuantized::find_exponent(ionex.grid.longitude.spacing);
-            ionex_alt_exponent = IonexQuantized::find_exponent(ionex.grid.height.spacing);
+            // coordinates depend on both the origin and the spacing
+            let find_exponent = |grid: &Linspace| {
+                IonexQuantized::find_exponent(grid.start)
+                    .max(IonexQuantized::find_exponent(grid.spacing))
+            };
+
+            ionex_lat_exponent = find_exponent(&ionex.grid.latitude);
+            ionex_long_exponent = find_exponent(&ionex.grid.longitude);
+            ionex_alt_exponent = find_exponent(&ionex.grid.height);
         }
 
         // Iterate and consume, one line at a time
@@ -348,7 +355,7 @@ impl Record {
                         },
 
                         Type::IonosphereMaps => {
-                            if is_new_tec_map(&line_buf) {
+                            if is_new_tec_map(&epoch_buf) && is_new_tec_map(&line_buf) {
                                 match parse_ionex_tec_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
@@ -361,7 +368,7 @@ impl Record {
                                     Ok(()) => {},
                                     Err(_) => {},
                                 }
-                            } else if is_new_rms_map(&line_buf) {
+                            } else if is_new_rms_map(&epoch_buf) {
                                 match parse_ionex_rms_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
-- 
2.43.0


From effd6b045578052eb5cdb1a33a71f7872e2a927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 35/74] fix: ionosphere maps header: mapping function,
 satellites, dimension, grids without whitespace in between

---
 src/header/parsing.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 6567c02..6c77705 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -555,7 +555,9 @@ impl Header {
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
                 observation.clock_offset_applied = n > 0;
-            } else if marker.contains("# OF SATELLITES") {
+            } else if marker.contains("# OF SATELLITES")
+                && rinex_type != Type::IonosphereMaps
+            {
                 // ---> we don't need this info,
                 //     user can determine it by analyzing the record
             } else if marker.contains("PRN / # OF OBS") {
@@ -871,9 +873,14 @@ impl Header {
                 if let Ok(f) = f32::from_str(content.trim()) {
                     ionex = ionex.with_base_radius(f);
                 }
-            } else if marker.contains("MAPPING FUCTION") {
-                let mapf = IonexMappingFunction::from_str(content.trim())?;
-                ionex = ionex.with_mapping_function(mapf);
+            } else if marker.contains("MAP DIMENSION") {
+                if let Ok(u) = content.trim().parse::<u8>() {
+                    ionex = ionex.with_map_dimension(u);
+                }
+            } else if marker.contains("MAPPING FUNCTION") {
+                if let Ok(mapf) = IonexMappingFunction::from_str(content.trim()) {
+                    ionex = ionex.with_mapping_function(mapf);
+                }
             } else if marker.contains("# OF STATIONS") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
@@ -1081,7 +1088,14 @@ impl Header {
         let mut start = 0.0_f64;
         let mut end = 0.0_f64;
         let mut spacing = 0.0_f64;
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
+        let mut items = line.split_ascii_whitespace().collect::<Vec<_>>();
+
+        // 2X,3F6.1: fields may not be separated by a whitespace
+        if items.len() < 3 && line.len() >= 20 && line.is_ascii() {
+            items = vec![&line[2..8], &line[8..14], &line[14..20]];
+        }
+
+        for (index, item) in items.iter().enumerate() {
             let item = item.trim();
             match index {
                 0 => {
-- 
2.43.0


From b5954c54a50d918bf66ca2b1bcc97b877ff4bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 36/74] fix: antenna calibration validity is inclusive, as
 documented

---
 src/antex/antenna/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/antex/antenna/mod.rs b/src/antex/antenna/mod.rs
index 97ab315..2b3f991 100644
--- a/src/antex/antenna/mod.rs
+++ b/src/antex/antenna/mod.rs
@@ -82,7 +82,7 @@ impl Antenna {
     /// and should only consider recently calibrated data.
     pub fn is_valid(&self, now: Epoch) -> bool {
         if let Some((from, until)) = self.calibration.validity_period {
-            now > from && now < until
+            now >= from && now <= until
         } else {
             true
         }
-- 
2.43.0


From 7cacae162122a69d0ef37a488aa013a4e4668f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 37/74] fix: antennas located by serial number

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1ec7b9e..d8c78cc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1483,7 +1483,8 @@ impl Rinex {
                         }
                     },
                     AntennaMatcher::SerialNumber(sn) => {
-                        if rx_ant.igs_type.to_lowercase().eq(sn) {
+                        let serial_number = rx_ant.serial_number.as_ref();
+                        if serial_number.map(|s| s.to_lowercase()).as_ref() == Some(sn) {
                             freqdata
                                 .get(&freq)
                                 .map(|freqdata| freqdata.apc_eccentricity)
-- 
2.43.0


From 3f85502fb31c7303028ce529ca73c1347dad08a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:58 +0000
Subject: [PATCH 38/74] fix: antennas: short lines, unknown methods and dates,
 validity without end, serial numbers, fractions of seconds, azimuth
 independent patterns

---
 src/antex/record.rs   | 68 +++++++++++++++++++++++++++----------------
 src/record/parsing.rs |  5 ++--
 2 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 2622f2b..037a07f 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -121,11 +121,8 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
         .parse::<u8>()
         .map_err(|_| ParsingError::DatetimeParsing)?;
 
-    Ok(Epoch::from_gregorian_utc_at_midnight(
-        2000 + year,
-        month,
-        day,
-    ))
+    Epoch::maybe_from_gregorian_utc(2000 + year, month, day, 0, 0, 0, 0)
+        .map_err(|_| ParsingError::DatetimeParsing)
 }
 
 /*
@@ -170,8 +167,8 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        nanos = ss[dot + 1..]
-            .trim()
+        // fraction of seconds, to the nanosecond
+        nanos = format!("{:0<9.9}", ss[dot + 1..].trim())
             .parse::<u32>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
     } else {
@@ -180,9 +177,8 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .map_err(|_| ParsingError::DatetimeParsing)?;
     }
 
-    Ok(Epoch::from_gregorian_utc(
-        year, month, day, hh, mm, secs, nanos,
-    ))
+    Epoch::maybe_from_gregorian_utc(year, month, day, hh, mm, secs, nanos)
+        .map_err(|_| ParsingError::DatetimeParsing)
 }
 
 /// Parses entire Antenna block
@@ -195,13 +191,20 @@ pub(crate) fn parse_antenna(
     let mut inner = HashMap::<Carrier, FrequencyDependentData>::new();
     let mut frequency = Carrier::default();
     let mut freq_data = FrequencyDependentData::default();
-    let mut valid_from = Epoch::default();
+    let mut valid_from = Option::<Epoch>::None;
 
     for line in lines {
-        let (content, marker) = line.split_at(60);
+        // phase patterns may be shorter than a labelled line
+        let (content, marker) = if line.is_char_boundary(60) {
+            line.split_at(60)
+        } else {
+            (line, "")
+        };
+
         if marker.contains("TYPE / SERIAL NO") {
-            let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
-            let (block1, rem) = rem.split_at(20 + 4);
+            // antenna type: IGS code (16) and radome (4)
+            let (ant_type, rem) = content.split_at(20);
+            let (block1, rem) = rem.split_at(20);
             let (block2, rem) = rem.split_at(10);
             let (block3, _rem) = rem.split_at(10);
 
@@ -211,12 +214,12 @@ pub(crate) fn parse_antenna(
              */
             let specificities = match block2.is_empty() && block3.is_empty() {
                 false => AntennaSpecific::SvAntenna(SvAntenna {
-                    igs_type: ant_igs.trim().to_string(),
+                    igs_type: ant_type.trim().to_string(),
                     sv: SV::from_str(block1)?,
                     cospar: COSPAR::from_str(block3)?,
                 }),
                 true => AntennaSpecific::RxAntenna(RxAntenna {
-                    igs_type: ant_igs.trim().to_string(),
+                    igs_type: ant_type.split_at(16).0.trim().to_string(),
                     serial_number: {
                         if !block1.is_empty() && !block1.eq("NONE") {
                             Some(block1.to_string())
@@ -234,32 +237,37 @@ pub(crate) fn parse_antenna(
             let (date, _) = rem.split_at(10);
 
             let cal = Calibration {
-                method: CalibrationMethod::from_str(method.trim()).unwrap(),
+                method: CalibrationMethod::from_str(method.trim()).unwrap_or_default(),
                 number: number
                     .trim()
                     .parse::<u16>()
                     .map_err(|_| ParsingError::AntexAntennaCalibrationNumber)?,
                 agency: agency.trim().to_string(),
-                date: parse_datetime(date.trim())?,
+                date: parse_datetime(date.trim()).unwrap_or_default(),
                 validity_period: None,
             };
 
             antenna.calibration = cal.clone();
         } else if marker.contains("VALID FROM") {
-            valid_from = parse_validity_epoch(content.trim())?;
+            let from = parse_validity_epoch(content.trim())?;
+            valid_from = Some(from);
+
+            // no end of validity, unless specified
+            let until = Epoch::from_gregorian_utc_at_midnight(9999, 12, 31);
+            antenna = antenna.with_validity_period(from, until);
         } else if marker.contains("VALID UNTIL") {
             let valid_until = parse_validity_epoch(content.trim())?;
 
-            antenna = antenna.with_validity_period(valid_from, valid_until);
+            antenna = antenna.with_validity_period(valid_from.unwrap_or_default(), valid_until);
         } else if marker.contains("SINEX CODE") {
             let sinex = content.split_at(20).0;
 
             antenna.sinex_code = sinex.trim().to_string();
         } else if marker.contains("DAZI") {
-            //let dazi = content.split_at(20).0.trim();
-            //if let Ok(dazi) = f64::from_str(dazi) {
-            //    antenna = antenna.with_dazi(dazi)
-            //}
+            let dazi = content.split_at(20).0.trim();
+            if let Ok(dazi) = f64::from_str(dazi) {
+                antenna = antenna.with_dazi(dazi)
+            }
         } else if marker.contains("# OF FREQUENCIES") {
             /*
              * we actually do not care about this field
@@ -269,6 +277,7 @@ pub(crate) fn parse_antenna(
             let svnn = content.split_at(10).0;
             let sv = SV::from_str(svnn.trim())?;
             frequency = Carrier::from_sv(sv)?;
+            freq_data = FrequencyDependentData::default();
         } else if marker.contains("NORTH / EAST / UP") {
             let (north, rem) = content.split_at(10);
             let (east, rem) = rem.split_at(10);
@@ -320,8 +329,17 @@ pub(crate) fn parse_antenna(
         } else if marker.contains("END OF ANTENNA") {
             break; // end of this block, considered as an `epoch`
                    // if we make a parallel with other types of RINEX
+        } else if line.trim_start().starts_with("NOAZI") {
+            // azimuth independent phase pattern
+            let pattern = line
+                .split_ascii_whitespace()
+                .skip(1)
+                .map_while(|item| item.parse::<f64>().ok())
+                .collect();
+
+            freq_data.phase_pattern = AntennaPhasePattern::AzimuthIndependentPattern(pattern);
         } else {
-            // inside phase pattern
+            // azimuth dependent phase pattern: not supported
         }
         //    } else if marker.contains("SINEX CODE") {
         //        let sinex = content.split_at(10).0;
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index c15c65a..310a83a 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -350,8 +350,9 @@ impl Record {
                         },
 
                         Type::AntennaData => {
-                            let (antenna, content) = parse_antex_antenna(&epoch_buf).unwrap();
-                            atx_rec.push((antenna, content));
+                            if let Ok((antenna, content)) = parse_antex_antenna(&epoch_buf) {
+                                atx_rec.push((antenna, content));
+                            }
                         },
 
                         Type::IonosphereMaps => {
-- 
2.43.0


From 4b28a872eba8476fa6c956a60a28800fd1a59b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:38 +0000
Subject: [PATCH 39/74] fix: DORIS measurements: columns, stations located by
 number, epoch flags, clock offsets; k factor and beacon frequencies

---
 src/doris/parsing.rs   | 129 +++++++++++++++++------------------------
 src/doris/rinex/mod.rs |  15 ++++-
 src/doris/station.rs   |   6 +-
 3 files changed, 69 insertions(+), 81 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 34b50c3..c01b9c9 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -6,69 +6,57 @@ use crate::{
     prelude::{Header, Observable, ParsingError, TimeScale},
 };
 
+use std::str::FromStr;
+
 /// Returns true if forwarded content does match new DORIS measurement.
 pub fn is_new_epoch(line: &str) -> bool {
     line.starts_with('>')
 }
 
+/// Parses one line of observations (up to 5 of them), for current [Station].
+/// `obs_ptr` is the index of the next observable: it runs over several lines.
 fn parse_observations(
     line: &str,
-    mut obs_ptr: usize,
+    obs_ptr: &mut usize,
     station: &Station,
     observables: &[Observable],
-    numobs: usize,
     observations: &mut Observations,
-) -> Result<(), ParsingError> {
+) {
+    const STATION_WIDTH: usize = "D01".len();
     const OBSERVABLE_WIDTH: usize = 14;
+    const FLAGS_WIDTH: usize = 2;
+    const OBS_PER_LINE: usize = 5;
 
-    let mut offset = 0;
-    let line_len = line.len();
-
-    loop {
-        let mut m1 = Option::<u8>::None;
-        let mut m2 = Option::<u8>::None;
+    // content between two columns, which may be missing
+    let columns = |start: usize, end: usize| -> &str {
+        line.get(start..end.min(line.len())).unwrap_or("").trim()
+    };
 
-        if offset + OBSERVABLE_WIDTH + 1 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH..offset + OBSERVABLE_WIDTH + 1];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m1 = Some(flag);
-            }
+    for nth in 0..OBS_PER_LINE {
+        if *obs_ptr >= observables.len() {
+            // abnormal content: abort and avoid overflowing
+            break;
         }
 
-        if offset + OBSERVABLE_WIDTH + 2 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH + 1..offset + OBSERVABLE_WIDTH + 2];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m2 = Some(flag);
-            }
-        }
+        let start = STATION_WIDTH + nth * (OBSERVABLE_WIDTH + FLAGS_WIDTH);
+        let end = start + OBSERVABLE_WIDTH;
 
-        if offset + OBSERVABLE_WIDTH < line_len {
-            let slice = &line[offset..offset + OBSERVABLE_WIDTH];
-            println!("slice: \"{}\"", slice);
-            if let Ok(value) = slice.trim().parse::<f64>() {
-                let key = SignalKey {
-                    station: station.clone(),
-                    observable: observables[obs_ptr].clone(),
-                };
-
-                observations
-                    .signals
-                    .insert(key, SignalObservation { m1, m2, value });
-            }
-        }
+        if let Ok(value) = columns(start, end).parse::<f64>() {
+            let key = SignalKey {
+                station: station.clone(),
+                observable: observables[*obs_ptr].clone(),
+            };
 
-        offset += OBSERVABLE_WIDTH;
-        obs_ptr += 1;
+            let m1 = columns(end, end + 1).parse::<u8>().ok();
+            let m2 = columns(end + 1, end + 2).parse::<u8>().ok();
 
-        if obs_ptr == numobs {
-            // abnormal content: abort and avoid overflowing
-            break;
+            observations
+                .signals
+                .insert(key, SignalObservation { m1, m2, value });
         }
-    }
 
-    Ok(())
+        *obs_ptr += 1;
+    }
 }
 
 /// Parse all DORIS measurements from forwarded content.
@@ -77,17 +65,16 @@ pub fn parse_epoch(
     header: &Header,
     content: &str,
 ) -> Result<(DorisKey, Observations), ParsingError> {
-    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN  0".len();
-    const CLOCK_OFFSET: usize = 26;
+    const EPOCH_SIZE: usize = "> YYYY MM DD HH MM SS.NNNNNNNNN".len();
+    const FLAG_SIZE: usize = "  0".len();
+    const CLOCK_OFFSET: usize = 42;
     const CLOCK_SIZE: usize = 14;
-    const MIN_EPOCH_SIZE: usize = EPOCH_SIZE + CLOCK_SIZE + 2;
 
     let mut obs_ptr = 0;
-    let flag = EpochFlag::default();
 
     let null_clock = ClockObservation::default();
 
-    let mut station = Option::<Station>::None;
+    let mut station = Option::<&Station>::None;
     let mut observations = Observations::default();
 
     let mut lines = content.lines();
@@ -98,24 +85,27 @@ pub fn parse_epoch(
         .ok_or(ParsingError::MissingObservableDefinition)?;
 
     let observables = &doris.observables;
-    let numobs = observables.len();
 
     let stations = &doris.stations;
 
     // parse TAI timestamp
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
-    let line_len = line.len();
 
-    if line_len < MIN_EPOCH_SIZE {
-        return Err(ParsingError::EpochFormat);
-    }
+    let epoch = line.get(1..EPOCH_SIZE).ok_or(ParsingError::EpochFormat)?;
+    let epoch = parse_epoch_in_timescale(epoch, TimeScale::TAI)?;
+
+    let flag = line
+        .get(EPOCH_SIZE..EPOCH_SIZE + FLAG_SIZE)
+        .ok_or(ParsingError::EpochFormat)?;
 
-    let epoch = parse_epoch_in_timescale(&line[2..2 + EPOCH_SIZE], TimeScale::TAI)?;
+    let flag = EpochFlag::from_str(flag.trim())?;
 
     let key = DorisKey { epoch, flag };
 
     // parse clock field
-    let offset_s = line[CLOCK_OFFSET..CLOCK_OFFSET + CLOCK_SIZE]
+    let offset_s = line
+        .get(CLOCK_OFFSET..CLOCK_OFFSET + CLOCK_SIZE)
+        .ok_or(ParsingError::EpochFormat)?
         .trim()
         .parse::<f64>()
         .map_err(|_| ParsingError::DorisClockParsing)?;
@@ -123,13 +113,7 @@ pub fn parse_epoch(
     observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
 
     // clock extrapolated ?
-    observations.clock_extrapolated = false;
-
-    if line_len > CLOCK_OFFSET + CLOCK_SIZE {
-        if line[CLOCK_OFFSET + CLOCK_SIZE..].trim().eq("1") {
-            observations.clock_extrapolated = true;
-        }
-    }
+    observations.clock_extrapolated = line[CLOCK_OFFSET + CLOCK_SIZE..].trim().eq("1");
 
     // parse following stations
     for line in lines {
@@ -137,26 +121,19 @@ pub fn parse_epoch(
             obs_ptr = 0;
 
             // station number
-            let station_num = line[1..]
+            let station_num = line
+                .get(1..3)
+                .ok_or(ParsingError::DorisStationFormat)?
                 .trim()
-                .parse::<usize>()
+                .parse::<u16>()
                 .map_err(|_| ParsingError::DorisStationFormat)?;
 
             // identify station
-            if let Some(s) = stations.get(station_num) {
-                station = Some(s.clone());
-            }
+            station = stations.iter().find(|s| s.key == station_num);
         }
 
-        if let Some(station) = &station {
-            parse_observations(
-                &line[4..],
-                obs_ptr,
-                &station,
-                observables,
-                numobs,
-                &mut observations,
-            )?;
+        if let Some(station) = station {
+            parse_observations(line, &mut obs_ptr, station, observables, &mut observations);
         }
     }
 
diff --git a/src/doris/rinex/mod.rs b/src/doris/rinex/mod.rs
index c617a5c..aaf00bf 100644
--- a/src/doris/rinex/mod.rs
+++ b/src/doris/rinex/mod.rs
@@ -48,7 +48,12 @@ impl Rinex {
     pub fn doris_satellite_clock_offset_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, ClockObservation)> + '_> {
-        Box::new([].into_iter())
+        Box::new(
+            self.record
+                .as_doris()
+                .into_iter()
+                .flat_map(|rec| rec.iter().map(|(k, v)| (k.clone(), v.clock))),
+        )
     }
 
     /// Returns Iterator over all Ground [Station] observations, made by
@@ -57,6 +62,12 @@ impl Rinex {
     pub fn doris_ground_station_signals_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, SignalKey, SignalObservation)> + '_> {
-        Box::new([].into_iter())
+        Box::new(self.record.as_doris().into_iter().flat_map(|rec| {
+            rec.iter().flat_map(|(k, v)| {
+                v.signals
+                    .iter()
+                    .map(move |(signal, obs)| (k.clone(), signal.clone(), obs.clone()))
+            })
+        }))
     }
 }
diff --git a/src/doris/station.rs b/src/doris/station.rs
index c176719..529f317 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -24,12 +24,12 @@ impl Station {
 
     /// Station S1 Frequency shift factor
     pub fn s1_frequency_shift(&self) -> f64 {
-        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 
     /// Station U2 Frequency shift factor
     pub fn u2_frequency_shift(&self) -> f64 {
-        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 }
 
@@ -72,7 +72,7 @@ impl std::fmt::Display for Station {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         write!(
             f,
-            "D{:02}  {} {:<29} {}  {}   {}",
+            "D{:02}  {:4} {:<29} {}  {}{:4}",
             self.key, self.label, self.site, self.domes, self.gen, self.k_factor
         )
     }
-- 
2.43.0


From ad467db52c76f57639b696e20d80c635ee45652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 40/74] fix: name of the DORIS satellite was not decoded

---
 src/header/parsing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 6c77705..9011612 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -920,6 +920,9 @@ impl Header {
                     .or(Err(ParsingError::DorisL1L2DateOffset))?;
 
                 doris.u2_s1_time_offset = Duration::from_microseconds(time_offset_us);
+            } else if marker.contains("SATELLITE NAME") {
+                // DORIS special case
+                doris.satellite = content.trim().to_string();
             } else if marker.contains("STATION REFERENCE") {
                 // DORIS special case
                 let station = DorisStation::from_str(content.trim())?;
-- 
2.43.0


From 755fa9b1bd60f7498a44c0a0d2f1c1aa2e80af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 41/74] fix: good phase tracking and abnormal epochs iterators
 were both inverted

---
 src/observation/rinex/feature.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 0e659ba..4037acf 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -169,10 +169,10 @@ impl Rinex {
     ) -> Box<dyn Iterator<Item = (Epoch, &SignalObservation)> + '_> {
         Box::new(self.phase_range_sampling_ok_iter().filter_map(|(k, sig)| {
             if let Some(lli) = sig.lli {
-                if lli.intersects(LliFlags::OK_OR_UNKNOWN) {
-                    Some((k, sig))
-                } else {
+                if lli.intersects(LliFlags::LOCK_LOSS | LliFlags::HALF_CYCLE_SLIP) {
                     None
+                } else {
+                    Some((k, sig))
                 }
             } else {
                 Some((k, sig))
@@ -248,7 +248,7 @@ impl Rinex {
     /// Returns an Iterator over [Epoch]s where abnormal sampling conditions were detected.
     /// Anomalies are described by the attached [EpochFlag] in each [ObsKey].
     pub fn epoch_anomalies(&self) -> Box<dyn Iterator<Item = &ObsKey> + '_> {
-        Box::new(self.observation_keys().filter(|k| k.flag.is_ok()))
+        Box::new(self.observation_keys().filter(|k| !k.flag.is_ok()))
     }
 
     /// Form designed signal [Combination] from all observed signals.
-- 
2.43.0


From 8bdfe0dd67dcb01ac30cda30821e711c5fe4eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:05 +0000
Subject: [PATCH 42/74] fix: TAI-UT1 was given as UT1-UTC

---
 src/navigation/rinex/ut1.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/navigation/rinex/ut1.rs b/src/navigation/rinex/ut1.rs
index 5c90ef3..379b0b8 100644
--- a/src/navigation/rinex/ut1.rs
+++ b/src/navigation/rinex/ut1.rs
@@ -8,7 +8,10 @@ impl Rinex {
             self.nav_earth_orientation_frames_iter()
                 .map(|(k, eop)| DeltaTaiUt1 {
                     epoch: k.epoch,
-                    delta_tai_minus_ut1: Duration::from_seconds(eop.delta_ut1.0),
+                    // TAI-UT1 = (TAI-UTC) - (UT1-UTC)
+                    delta_tai_minus_ut1: Duration::from_seconds(
+                        k.epoch.leap_seconds(true).unwrap_or(0.0),
+                    ) - Duration::from_seconds(eop.delta_ut1.0),
                 }),
         )
     }
-- 
2.43.0


From 287b775e13f2b5cdf12d50d54fdc016d7cc1f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:23 +0000
Subject: [PATCH 43/74] fix: observables of a DORIS file were not listed

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d8c78cc..74e2814 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1261,6 +1261,14 @@ impl Rinex {
         //             })
         //             .unique(),
         //     )
+        } else if let Some(record) = self.record.as_doris() {
+            Box::new(
+                record
+                    .values()
+                    .flat_map(|v| v.signals.keys().map(|k| &k.observable))
+                    .unique()
+                    .sorted(),
+            )
         } else {
             Box::new([].into_iter())
         }
-- 
2.43.0


From 41c07ce4a88b510f84931c03d76c14e65de69309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:25 +0000
Subject: [PATCH 44/74] fix: signal combinations mixed epochs, depended on the
 order of signals, and mispaired Melbourne-Wubbena signals

---
 src/observation/rinex/feature.rs | 80 +++++++++++++++-----------------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 4037acf..714b102 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -259,23 +259,22 @@ impl Rinex {
         let mut ret = BTreeMap::new();
 
         if combination == Combination::MelbourneWubbena {
-            for ((k_1, v_1), (_, v_2)) in self
+            // pseudo range counterpart of each signal
+            let narrow_lane = self
+                .signals_combination(Combination::NarrowLane)
+                .into_iter()
+                .filter(|(k, _)| k.reference.is_pseudo_range_observable())
+                .filter_map(|(k, v)| Some(((k.epoch, k.flag, k.sv, k.lhs.code()?), v)))
+                .collect::<HashMap<_, _>>();
+
+            for ((k_1, v_1), v_2) in self
                 .signals_combination(Combination::WideLane)
                 .iter()
                 .filter(|(k, _)| k.reference.is_phase_range_observable())
-                .zip(
-                    self.signals_combination(Combination::NarrowLane)
-                        .iter()
-                        .filter(|(k, _)| k.reference.is_pseudo_range_observable()),
-                )
-                .filter_map(|((k_1, v_1), (k_2, v_2))| {
-                    let lhs_1_code = k_1.lhs.code()?;
-                    let lhs_2_code = k_2.lhs.code()?;
-                    if lhs_1_code == lhs_2_code {
-                        Some(((k_1, v_1), (k_2, v_2)))
-                    } else {
-                        None
-                    }
+                .filter_map(|(k_1, v_1)| {
+                    let code = k_1.lhs.code()?;
+                    let v_2 = narrow_lane.get(&(k_1.epoch, k_1.flag, k_1.sv, code))?;
+                    Some(((k_1, v_1), v_2))
                 })
             {
                 let key = CombinationKey {
@@ -288,19 +287,26 @@ impl Rinex {
                 ret.insert(key, v_1 - v_2);
             }
         } else {
-            let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-                dt
-            } else {
-                if let Some(dt) = self.dominant_sampling_interval() {
-                    dt
-                } else {
-                    // can't proceed without sampling interval guess.
-                    return ret;
+            let mut pr_ref_value = HashMap::<(ObsKey, SV), (Observable, f64, f64, f64)>::new();
+            let mut phase_ref_value = HashMap::<(ObsKey, SV), (Observable, f64, f64, f64)>::new();
+
+            // list all references first: they may come in any order in each epoch
+            for (k, v) in self.signal_observations_iter() {
+                if !v.observable.is_l1_pivot(v.sv.constellation) {
+                    continue;
                 }
-            };
 
-            let mut pr_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
-            let mut phase_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
+                if let Ok(carrier) = v.observable.carrier(v.sv.constellation) {
+                    let (freq, lambda) = (carrier.frequency(), carrier.wavelength());
+                    let value = (v.observable.clone(), freq, lambda, v.value);
+
+                    if v.observable.is_phase_range_observable() {
+                        phase_ref_value.insert((k, v.sv), value);
+                    } else {
+                        pr_ref_value.insert((k, v.sv), value);
+                    }
+                }
+            }
 
             for (k, v) in self.signal_observations_iter() {
                 let is_phase_range = v.observable.is_phase_range_observable();
@@ -321,29 +327,14 @@ impl Rinex {
                 let freq = carrier.frequency();
                 let lambda = carrier.wavelength();
 
-                if is_l1_pivot {
-                    if is_phase_range {
-                        phase_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
-                    } else {
-                        pr_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
-                    };
-                } else {
+                if !is_l1_pivot {
                     let reference = if is_phase_range {
                         &phase_ref_value
                     } else {
                         &pr_ref_value
                     };
 
-                    if let Some((last_seen, reference, f_1, w_1, ref_value)) = reference.get(&v.sv)
-                    {
-                        if k.epoch - *last_seen > dominant_sampling {
-                            // avoid moving forward on data gaps
-                            // guards against substraction (a - b) from two different epochs
-                            continue;
-                        }
-
+                    if let Some((reference, f_1, w_1, ref_value)) = reference.get(&(k, v.sv)) {
                         let alpha = match combination {
                             Combination::GeometryFree => 1.0,
                             Combination::IonosphereFree => f_1.powi(2),
@@ -374,6 +365,11 @@ impl Rinex {
                             },
                         };
 
+                        if gamma == 0.0 {
+                            // not defined: both signals share the same frequency
+                            continue;
+                        }
+
                         let (v_lhs, v_rhs) = match combination {
                             Combination::GeometryFree => {
                                 if v.observable.is_phase_range_observable() {
-- 
2.43.0


From 8030e20c797b2bbb7e1fd3a283f20e889ec2bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 45/74] fix: Glonass G2 nominal frequency

---
 src/carrier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index dab6242..43b1621 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -188,8 +188,8 @@ impl Carrier {
             Self::G1(None) => 1602.0_f64,
             Self::G1(Some(c)) => 1602.0_f64 + (*c as f64 * 9.0 / 16.0),
             Self::G2a => 1248.06_f64,
-            Self::G2(None) => 1246.06_f64,
-            Self::G2(Some(c)) => 1246.06_f64 + (*c as f64 * 7.0 / 16.0),
+            Self::G2(None) => 1246.0_f64,
+            Self::G2(Some(c)) => 1246.0_f64 + (*c as f64 * 7.0 / 16.0),
             Self::G3 => 1202.025_f64,
             /*
              * BeiDou
-- 
2.43.0


From 1333c9df17da6e21b975fc6b1a5a40ac60992860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 46/74] fix: hail indicator described the same physics as the
 rain increment

---
 src/observable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index f17bf8b..01a29cb 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -70,7 +70,7 @@ impl Observable {
             Self::WindSpeed => matches!(rhs, Self::WindSpeed),
             Self::WindDirection => matches!(rhs, Self::WindDirection),
             Self::RainIncrement => matches!(rhs, Self::RainIncrement),
-            Self::HailIndicator => matches!(rhs, Self::RainIncrement),
+            Self::HailIndicator => matches!(rhs, Self::HailIndicator),
             Self::FrequencyRatio => matches!(rhs, Self::FrequencyRatio),
         }
     }
-- 
2.43.0


From 9249bea8864359ad0fc386c44757b974b98607c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 47/74] fix: channel number observable (X1) was not recognized

---
 src/observable.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/observable.rs b/src/observable.rs
index 01a29cb..82655cf 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -381,6 +381,8 @@ impl std::str::FromStr for Observable {
                         Ok(Self::Power(content.to_string()))
                     } else if content.starts_with('D') {
                         Ok(Self::Doppler(content.to_string()))
+                    } else if content.starts_with('X') {
+                        Ok(Self::ChannelNumber(content.to_string()))
                     } else {
                         Err(ParsingError::UnknownObservable)
                     }
-- 
2.43.0


From bebf22784178c1af21f259d4fa7fcbdadbc88434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 48/74] fix: signals missing from the carrier tables (Glonass
 P1/P2, Galileo RINEX2 codes, QZSS L6Z)

---
 src/carrier.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 43b1621..f1a6ef7 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -353,9 +353,9 @@ impl Carrier {
             _ => Err(Error::UnknownGPSObservable),
         }
     }
-    pub(crate) fn g1_codes() -> [&'static str; 12] {
+    pub(crate) fn g1_codes() -> [&'static str; 13] {
         [
-            "C1", "L1", "D1", "S1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
+            "C1", "P1", "L1", "D1", "S1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
         ]
     }
     pub(crate) fn g1a_codes() -> [&'static str; 12] {
@@ -363,9 +363,9 @@ impl Carrier {
             "C4A", "L4A", "D4A", "S4A", "C4B", "L4B", "D4B", "S4B", "C4X", "L4X", "D4X", "S4X",
         ]
     }
-    pub(crate) fn g2_codes() -> [&'static str; 12] {
+    pub(crate) fn g2_codes() -> [&'static str; 13] {
         [
-            "C2", "L2", "D2", "S2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
+            "C2", "P2", "L2", "D2", "S2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
         ]
     }
     pub(crate) fn g2a_codes() -> [&'static str; 12] {
@@ -409,9 +409,9 @@ impl Carrier {
             "L1C", "D1C", "S1C", "C1X", "L1X", "D1X", "S1X", "C1Z", "L1Z", "D1Z", "S1Z",
         ]
     }
-    pub(crate) fn e5_codes() -> [&'static str; 16] {
+    pub(crate) fn e5_codes() -> [&'static str; 20] {
         [
-            "C5", "L5", "D5", "S5", "C8I", "L8I", "D8I", "S8I", "C8Q", "L8Q", "D8Q", "S8Q", "C8X",
+            "C5", "L5", "D5", "S5", "C8", "L8", "D8", "S8", "C8I", "L8I", "D8I", "S8I", "C8Q", "L8Q", "D8Q", "S8Q", "C8X",
             "L8X", "D8X", "S8X",
         ]
     }
@@ -420,9 +420,9 @@ impl Carrier {
             "C5I", "L5I", "D5I", "S5I", "C5Q", "L5Q", "D5Q", "S5Q", "C5X", "L5X", "D5X", "S5X",
         ]
     }
-    pub(crate) fn e5b_codes() -> [&'static str; 12] {
+    pub(crate) fn e5b_codes() -> [&'static str; 16] {
         [
-            "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X", "L7X", "D7X", "S7X",
+            "C7", "L7", "D7", "S7", "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X", "L7X", "D7X", "S7X",
         ]
     }
     pub(crate) fn e6_codes() -> [&'static str; 24] {
@@ -505,7 +505,7 @@ impl Carrier {
     pub(crate) fn qzl6_codes() -> [&'static str; 24] {
         [
             "C6", "L6", "D6", "S6", "C6S", "L6S", "D6S", "S6S", "C6L", "L6L", "D6L", "S6L", "C6X",
-            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6S", "L6S", "D6S", "S6Z",
+            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6Z", "L6Z", "D6Z", "S6Z",
         ]
     }
     fn from_qzss_observable(obs: &Observable) -> Result<Self, Error> {
-- 
2.43.0


From f1f84139c676a3f36fad43a434da4f7a56e3d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 49/74] fix: distinct carriers shared the same name, and some
 could not be parsed

---
 src/carrier.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index f1a6ef7..269ccc8 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -74,12 +74,16 @@ impl std::fmt::Display for Carrier {
             Self::L1 => write!(f, "L1"),
             Self::L2 => write!(f, "L2"),
             Self::L5 => write!(f, "L5"),
-            Self::G1(_) | Self::G1a => write!(f, "L1"),
-            Self::G2(_) | Self::G2a => write!(f, "L2"),
+            Self::G1(_) => write!(f, "G1"),
+            Self::G1a => write!(f, "G1a"),
+            Self::G2(_) => write!(f, "G2"),
+            Self::G2a => write!(f, "G2a"),
             Self::L6 => write!(f, "L6"),
-            Self::G3 => write!(f, "L3"),
+            Self::G3 => write!(f, "G3"),
             Self::E1 => write!(f, "E1"),
-            Self::E5 | Self::E5a | Self::E5b => write!(f, "E5"),
+            Self::E5 => write!(f, "E5"),
+            Self::E5a => write!(f, "E5a"),
+            Self::E5b => write!(f, "E5b"),
             Self::E6 => write!(f, "E6"),
             Self::S => write!(f, "S"),
             // B1
@@ -119,6 +123,10 @@ impl std::str::FromStr for Carrier {
             Ok(Self::E1)
         } else if content.eq("E5") {
             Ok(Self::E5)
+        } else if content.eq("E5A") {
+            Ok(Self::E5a)
+        } else if content.eq("E5B") {
+            Ok(Self::E5b)
         } else if content.eq("E6") {
             Ok(Self::E6)
         /*
@@ -132,6 +140,8 @@ impl std::str::FromStr for Carrier {
             Ok(Self::G2(None))
         } else if content.eq("G2A") {
             Ok(Self::G2a)
+        } else if content.eq("G3") {
+            Ok(Self::G3)
         /*
          * BeiDou
          */
@@ -145,12 +155,19 @@ impl std::str::FromStr for Carrier {
             Ok(Self::B2)
         } else if content.eq("B2I") {
             Ok(Self::B2I)
+        } else if content.eq("B2A") {
+            Ok(Self::B2A)
         } else if content.eq("B2B") {
             Ok(Self::B2B)
         } else if content.eq("B3") {
             Ok(Self::B3)
         } else if content.eq("B3A") {
             Ok(Self::B3A)
+        /*
+         * IRNSS
+         */
+        } else if content.eq("S") {
+            Ok(Self::S)
         /*
          * DORIS
          */
-- 
2.43.0


From 765422be6c8546667abd01213b3cf8c8dba3aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 50/74] fix: Glonass channel was not applied to Glonass
 carriers

---
 src/carrier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 269ccc8..4b14471 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -323,8 +323,8 @@ impl Carrier {
     /// Converts to exact Glonass carrier
     pub fn with_glonass_offset(&self, offset: i8) -> Self {
         match self {
-            Self::L1 => Self::G1(Some(offset)),
-            Self::L2 => Self::G2(Some(offset)),
+            Self::L1 | Self::G1(_) => Self::G1(Some(offset)),
+            Self::L2 | Self::G2(_) => Self::G2(Some(offset)),
             other => *other,
         }
     }
-- 
2.43.0


From 9ea4667973c7eb19bdcd84ab68c5cf03df32c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 51/74] fix: formatting an IONEX reference system overflowed
 the stack

---
 src/ionex/system.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ionex/system.rs b/src/ionex/system.rs
index 3c1f8e6..4e63935 100644
--- a/src/ionex/system.rs
+++ b/src/ionex/system.rs
@@ -54,7 +54,12 @@ impl std::str::FromStr for ObsSystem {
 
 impl std::fmt::Display for ObsSystem {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::BENt => write!(f, "BEN"),
+            Self::ENVisat => write!(f, "ENV"),
+            Self::ERS => write!(f, "ERS"),
+            Self::IRI => write!(f, "IRI"),
+        }
     }
 }
 
@@ -87,7 +92,11 @@ impl std::str::FromStr for Model {
 
 impl std::fmt::Display for Model {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::MIX => write!(f, "MIX"),
+            Self::NNS => write!(f, "NNS"),
+            Self::TOP => write!(f, "TOP"),
+        }
     }
 }
 
-- 
2.43.0


From 18c0ead39b4b37492c5420190bdb3d59febf83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:33 +0000
Subject: [PATCH 52/74] fix: Glonass navigation type was written in a form that
 does not parse

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 3022f9c..bce01fc 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -59,7 +59,7 @@ impl Type {
         match *self {
             Self::ObservationData => String::from("OBSERVATION DATA"),
             Self::NavigationData => match constellation {
-                Some(Constellation::Glonass) => String::from("Glonass NAV"),
+                Some(Constellation::Glonass) => String::from("GLONASS NAV DATA"),
                 _ => String::from("NAV DATA"),
             },
             Self::MeteoData => String::from("METEOROLOGICAL DATA"),
-- 
2.43.0


From a72575140e5a6255b9e86fbb01a88c06c0660a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 53/74] fix: two letter observables shifted the labels of the
 RINEX3 header

---
 src/observation/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index 2bbe319..4a29fa6 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -131,7 +131,7 @@ impl HeaderFields {
                     write!(w, "      ")?;
                 }
 
-                write!(w, " {}", observable)?;
+                write!(w, " {:<3}", observable.to_string())?;
 
                 if (nth % 13) == 12 {
                     writeln!(w, "  SYS / # / OBS TYPES")?;
-- 
2.43.0


From e14bb378a225f32c9fb35480fdbb87c4c27854a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 54/74] fix: files in IRNSS system time were rejected

---
 src/header/parsing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 9011612..8c1b764 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -841,6 +841,8 @@ impl Header {
                 let ts = match content.trim() {
                     "GLO" => TimeScale::UTC,
                     "QZS" => TimeScale::QZSST,
+                    // no dedicated timescale: synchronous with GPST
+                    "IRN" => TimeScale::GPST,
                     timescale => TimeScale::from_str(timescale)?,
                 };
                 clock = clock.timescale(ts);
@@ -1073,6 +1075,8 @@ impl Header {
             ts = match rem {
                 "GLO" => TimeScale::UTC,
                 "QZS" => TimeScale::QZSST,
+                // no dedicated timescale: synchronous with GPST
+                "IRN" => TimeScale::GPST,
                 rem => TimeScale::from_str(rem)?,
             };
         }
-- 
2.43.0


From 61b3d9f222e08ea3023a6aee229feb2209addf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:41 +0000
Subject: [PATCH 55/74] fix: two digit year 79 stands for 2079 in the header
 too

---
 src/header/parsing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 8c1b764..ffafaff 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -1023,9 +1023,9 @@ impl Header {
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
         // handle OLD RINEX problem
-        if y >= 79 && y <= 99 {
+        if y > 79 && y <= 99 {
             y += 1900;
-        } else if y < 79 {
+        } else if y <= 79 {
             y += 2000;
         }
 
-- 
2.43.0


From d2b21dd43c47b0709e9a3a517b60798c0625f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 56/74] fix: only the first member of gzip files was read

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 74e2814..3eb2e40 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -90,7 +90,7 @@ use antex::{Antenna, FrequencyDependentData};
 use antex::{AntennaMatcher, AntennaSpecific};
 
 #[cfg(feature = "flate2")]
-use flate2::{read::GzDecoder, write::GzEncoder, Compression as GzCompression};
+use flate2::{read::MultiGzDecoder, write::GzEncoder, Compression as GzCompression};
 
 #[cfg(feature = "clock")]
 use std::collections::BTreeMap;
@@ -987,7 +987,7 @@ impl Rinex {
 
         let fd = File::open(path).expect("from_file: open error");
 
-        let reader = GzDecoder::new(fd);
+        let reader = MultiGzDecoder::new(fd);
         let mut reader = BufReader::new(reader);
         let mut rinex = Self::parse(&mut reader)?;
         rinex.production = file_attributes;
-- 
2.43.0


From 2f259a21f3eb3e33e9c005ad73d1ecc69431ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 57/74] fix: comments of the file body were dropped

---
 src/record/parsing.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 310a83a..a05b24c 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -230,16 +230,6 @@ impl Record {
                 continue;
             }
 
-            // (special case) COMMENTS: store as is
-            if line_buf.contains("COMMENT") {
-                let content = line_buf.split_at(60).0.trim();
-                if let Some(comments) = comments.get_mut(&comment_ts) {
-                    comments.push(content.to_string());
-                } else {
-                    comments.insert(comment_ts, vec![content.to_string()]);
-                }
-            }
-
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
@@ -401,6 +391,14 @@ impl Record {
                 }
             }
 
+            // attach pending comments to the epoch they follow
+            if (new_epoch || eos || crinex_error) && !comment_content.is_empty() {
+                comments
+                    .entry(comment_ts)
+                    .or_default()
+                    .append(&mut comment_content);
+            }
+
             // clear on new epoch detection
             if new_epoch {
                 epoch_buf.clear();
-- 
2.43.0


From 6a38b13229daa4e7e821bb8ce046a9b45d4851ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 58/74] fix: damaged, truncated or non-ASCII content caused
 panics and stream errors passed for the end of the file

---
 src/antex/record.rs                 |  9 ++--
 src/clock/record.rs                 | 19 +++++----
 src/columns.rs                      | 62 +++++++++++++++++++++++++++
 src/doris/station.rs                | 21 +++++----
 src/error.rs                        |  2 +
 src/hardware.rs                     |  9 ++--
 src/hatanaka/crinex.rs              | 12 +++---
 src/hatanaka/decompressor/mod.rs    |  4 +-
 src/header/parsing.rs               | 66 +++++++++++++++++++++++------
 src/lib.rs                          |  1 +
 src/meteo/sensor.rs                 | 13 +++---
 src/navigation/ephemeris/parsing.rs |  7 +--
 src/navigation/parsing/mod.rs       |  5 ++-
 src/navigation/parsing/v4.rs        |  5 ++-
 src/observation/parsing.rs          | 23 +++++-----
 src/record/parsing.rs               | 20 ++++++---
 16 files changed, 204 insertions(+), 74 deletions(-)
 create mode 100644 src/columns.rs

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 037a07f..ff2c654 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -2,8 +2,9 @@ use std::{collections::HashMap, str::FromStr};
 
 use crate::{
     antex::{Antenna, AntennaSpecific, Calibration, CalibrationMethod, RxAntenna, SvAntenna},
+    columns::{parse_cospar, parse_sv},
     linspace::Linspace,
-    prelude::{Carrier, Epoch, ParsingError, COSPAR, SV},
+    prelude::{Carrier, Epoch, ParsingError},
 };
 
 #[cfg(feature = "serde")]
@@ -215,8 +216,8 @@ pub(crate) fn parse_antenna(
             let specificities = match block2.is_empty() && block3.is_empty() {
                 false => AntennaSpecific::SvAntenna(SvAntenna {
                     igs_type: ant_type.trim().to_string(),
-                    sv: SV::from_str(block1)?,
-                    cospar: COSPAR::from_str(block3)?,
+                    sv: parse_sv(block1)?,
+                    cospar: parse_cospar(block3)?,
                 }),
                 true => AntennaSpecific::RxAntenna(RxAntenna {
                     igs_type: ant_type.split_at(16).0.trim().to_string(),
@@ -275,7 +276,7 @@ pub(crate) fn parse_antenna(
              */
         } else if marker.contains("START OF FREQUENCY") {
             let svnn = content.split_at(10).0;
-            let sv = SV::from_str(svnn.trim())?;
+            let sv = parse_sv(svnn.trim())?;
             frequency = Carrier::from_sv(sv)?;
             freq_data = FrequencyDependentData::default();
         } else if marker.contains("NORTH / EAST / UP") {
diff --git a/src/clock/record.rs b/src/clock/record.rs
index d0559b2..f0f81cd 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -3,6 +3,7 @@ use thiserror::Error;
 use std::{collections::BTreeMap, str::FromStr};
 
 use crate::{
+    columns::{parse_sv, split_columns},
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     prelude::{Epoch, ParsingError, TimeScale, Version, SV},
 };
@@ -159,7 +160,7 @@ pub(crate) fn parse_epoch(
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
 
     const LIMIT: Version = Version { major: 3, minor: 4 };
-    let (dtype, mut rem) = line.split_at(3);
+    let (dtype, mut rem) = split_columns(line, 3);
     let profile_type = ClockProfileType::from_str(dtype.trim())?;
 
     // AR, CR and DR describe receivers, whose name may resemble a satellite
@@ -171,24 +172,24 @@ pub(crate) fn parse_epoch(
     let clock_type = match version < LIMIT {
         true => {
             // old revision
-            let (system_str, r) = rem.split_at(5);
+            let (system_str, r) = split_columns(rem, 5);
             rem = r;
-            match SV::from_str(system_str.trim()) {
+            match parse_sv(system_str.trim()) {
                 Ok(svnn) if !is_receiver => ClockType::SV(svnn),
                 _ => ClockType::Station(system_str.trim().to_string()),
             }
         },
         false => {
             // modern revision
-            let (system_str, r) = rem.split_at(4);
-            let svnn = SV::from_str(system_str.trim());
+            let (system_str, r) = split_columns(rem, 4);
+            let svnn = parse_sv(system_str.trim());
             if let (Ok(svnn), false) = (svnn, is_receiver) {
-                let (_, r) = r.split_at(6);
+                let (_, r) = split_columns(r, 6);
                 rem = r;
                 ClockType::SV(svnn)
             } else {
                 let mut content = system_str.to_owned();
-                let (remainder, r) = r.split_at(6);
+                let (remainder, r) = split_columns(r, 6);
                 rem = r;
                 content.push_str(remainder);
                 ClockType::Station(content.trim().to_string())
@@ -199,11 +200,11 @@ pub(crate) fn parse_epoch(
     // Epoch: Y on 4 digits, even on RINEX2
     const OFFSET: usize = "yyyy mm dd hh mm sssssssssss".len();
 
-    let (epoch, rem) = rem.split_at(OFFSET);
+    let (epoch, rem) = split_columns(rem, OFFSET);
     let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
     // nb of data fields
-    let (_n, rem) = rem.split_at(4);
+    let (_n, rem) = split_columns(rem, 4);
 
     // data fields
     let mut profile = ClockProfile::default();
diff --git a/src/columns.rs b/src/columns.rs
new file mode 100644
index 0000000..159572c
--- /dev/null
+++ b/src/columns.rs
@@ -0,0 +1,62 @@
+//! Access to the columns of a RINEX line, whatever its content
+use crate::prelude::{COSPAR, SV};
+
+use gnss_rs::{
+    constellation::ParsingError as ConstellationParsingError, cospar::Error as CosparParsingError,
+    sv::ParsingError as SVParsingError,
+};
+
+use std::{io::BufRead, str::FromStr};
+
+/// Reads one line into the buffer, and returns its size (0 once the end is reached).
+/// Bytes that are not UTF-8 never prevent reading what follows.
+pub(crate) fn read_rinex_line<R: BufRead>(
+    reader: &mut R,
+    buf: &mut String,
+) -> std::io::Result<usize> {
+    let mut bytes = Vec::with_capacity(128);
+    let size = reader.read_until(b'\n', &mut bytes)?;
+    buf.push_str(&String::from_utf8_lossy(&bytes));
+    Ok(size)
+}
+
+/// RINEX is made of fixed columns of ASCII characters:
+/// any other character occupies one column and has no meaning.
+pub(crate) fn to_ascii(line: &str) -> String {
+    line.chars()
+        .map(|c| if c.is_ascii() { c } else { '?' })
+        .collect()
+}
+
+/// First n columns of a line of text that may be shorter, and may not be ASCII
+pub(crate) fn first_columns(line: &str, n: usize) -> &str {
+    let mut n = n.min(line.len());
+    while !line.is_char_boundary(n) {
+        n -= 1;
+    }
+    &line[..n]
+}
+
+/// [COSPAR] parsing attempt, on any content
+pub(crate) fn parse_cospar(content: &str) -> Result<COSPAR, CosparParsingError> {
+    match content.find('-') {
+        // launch year - launch number (3 digits)
+        Some(offset) if content.is_ascii() && content.len() >= offset + 4 => {
+            COSPAR::from_str(content)
+        },
+        _ => Err(CosparParsingError::InvalidFormat),
+    }
+}
+
+/// Splits a line at specific column, when it may be shorter, or may not be ASCII
+pub(crate) fn split_columns(line: &str, n: usize) -> (&str, &str) {
+    line.split_at(first_columns(line, n).len())
+}
+
+/// [SV] parsing attempt, on any content (possibly empty, not ASCII..)
+pub(crate) fn parse_sv(content: &str) -> Result<SV, SVParsingError> {
+    if content.is_empty() || !content.is_ascii() {
+        return Err(ConstellationParsingError::Unknown(content.to_string()).into());
+    }
+    SV::from_str(content)
+}
diff --git a/src/doris/station.rs b/src/doris/station.rs
index 529f317..934f497 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -1,5 +1,8 @@
 //! DORIS Station
-use crate::prelude::{ParsingError, DOMES};
+use crate::{
+    columns::{split_columns, to_ascii},
+    prelude::{ParsingError, DOMES},
+};
 
 /// DORIS Ground [Station] description.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -40,18 +43,18 @@ impl std::str::FromStr for Station {
             return Err(ParsingError::DorisStationFormat);
         }
 
-        let content = content.split_at(1).1;
-        let (key, rem) = content.split_at(4);
-        let (label, rem) = rem.split_at(5);
-        let (name, rem) = rem.split_at(30);
-        let (domes, rem) = rem.split_at(10);
-        let (gen, rem) = rem.split_at(3);
-        let (k_factor, _) = rem.split_at(3);
+        let content = split_columns(content, 1).1;
+        let (key, rem) = split_columns(content, 4);
+        let (label, rem) = split_columns(rem, 5);
+        let (name, rem) = split_columns(rem, 30);
+        let (domes, rem) = split_columns(rem, 10);
+        let (gen, rem) = split_columns(rem, 3);
+        let (k_factor, _) = split_columns(rem, 3);
 
         Ok(Station {
             site: name.trim().to_string(),
             label: label.trim().to_string(),
-            domes: DOMES::from_str(domes.trim())?,
+            domes: DOMES::from_str(&to_ascii(domes.trim()))?,
             gen: gen
                 .trim()
                 .parse::<u8>()
diff --git a/src/error.rs b/src/error.rs
index d8c3507..c043491 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -14,6 +14,8 @@ use crate::hatanaka::Error as HatanakaError;
 /// Errors that may rise in Parsing process
 #[derive(Debug, Error)]
 pub enum ParsingError {
+    #[error("i/o: input error")]
+    InputError(#[from] IoError),
     #[error("header line too short (invalid)")]
     HeaderLineTooShort,
     #[error("empty epoch")]
diff --git a/src/hardware.rs b/src/hardware.rs
index 7b8561d..4a420cf 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -1,5 +1,6 @@
 //! Receiver and antenna
 use crate::{
+    columns::{parse_cospar, split_columns},
     fmt_rinex,
     prelude::{FormattingError, COSPAR, SV},
 };
@@ -63,9 +64,9 @@ impl Receiver {
 impl FromStr for Receiver {
     type Err = std::io::Error;
     fn from_str(line: &str) -> Result<Self, Self::Err> {
-        let (id, rem) = line.split_at(20);
-        let (make, rem) = rem.split_at(20);
-        let (version, _) = rem.split_at(20);
+        let (id, rem) = split_columns(line, 20);
+        let (make, rem) = split_columns(rem, 20);
+        let (version, _) = split_columns(rem, 20);
         Ok(Receiver {
             sn: id.trim().to_string(),
             model: make.trim().to_string(),
@@ -301,7 +302,7 @@ impl SvAntenna {
     }
     pub fn with_cospar(&self, c: &str) -> Self {
         let mut s = self.clone();
-        if let Ok(cospar) = COSPAR::from_str(c) {
+        if let Ok(cospar) = parse_cospar(c) {
             s.cospar = Some(cospar);
         }
         s
diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 8a396ec..f5f6805 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -1,5 +1,6 @@
 //! CRINEX Header definitions
 use crate::{
+    columns::split_columns,
     epoch::now as epoch_now_utc,
     epoch::parse_formatted_month,
     prelude::{Epoch, FormattingError, ParsingError, Version},
@@ -90,9 +91,9 @@ impl CRINEX {
             return Err(ParsingError::HeaderLineTooShort);
         }
 
-        let (prog, rem) = prog_date.split_at(20);
-        let (_, rem) = rem.split_at(20);
-        let datetime_str = rem.split_at(20).0.trim();
+        let (prog, rem) = split_columns(prog_date, 20);
+        let (_, rem) = split_columns(rem, 20);
+        let datetime_str = split_columns(rem, 20).0.trim();
 
         let mut i = 0;
         let mut year = 2000_i32; // CRINEX: Y2000
@@ -152,7 +153,8 @@ impl CRINEX {
             return Err(ParsingError::DatetimeFormat);
         }
 
-        let epoch = Epoch::from_gregorian_utc(year, month, day, hour, mins, 0, 0);
+        let epoch = Epoch::maybe_from_gregorian_utc(year, month, day, hour, mins, 0, 0)
+            .map_err(|_| ParsingError::DatetimeParsing)?;
         let s = self.with_prog(prog.trim());
         let s = s.with_date(epoch);
         Ok(s)
@@ -181,7 +183,7 @@ impl std::str::FromStr for CRINEX {
                 if line.len() < 60 {
                     return Err(ParsingError::HeaderLineTooShort);
                 }
-                let vers = line.split_at(20).0.trim();
+                let vers = split_columns(line, 20).0.trim();
                 let version = Version::from_str(vers)?;
                 crinex = crinex.with_version(version);
             } else {
diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 178fa9b..45c2aac 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -1,5 +1,6 @@
 //! CRINEX decompression module
 use crate::{
+    columns::parse_sv,
     hatanaka::{Error, NumDiff, TextDiff},
     prelude::{Constellation, Observable, SV},
 };
@@ -200,7 +201,7 @@ impl<const M: usize> DecompressorExpert<M> {
             });
         }
 
-        SV::from_str(slice).ok()
+        parse_sv(slice).ok()
     }
 
     /// Moves on to next [SV], or next epoch
@@ -576,6 +577,7 @@ impl<const M: usize> DecompressorExpert<M> {
             let start = Self::sv_slice_start(true, self.sv_ptr);
             let end = (start + 3).min(self.epoch_desc_len);
             recovered.extend_from_slice(self.epoch_descriptor[start..end].as_bytes());
+            recovered.resize(3, b' '); // trimmed descriptor
         }
 
         // When signal sampling was not feasible: data is omitted (blanked) by a single '_'
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index ffafaff..f1369f0 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -2,6 +2,7 @@
 use crate::{
     antex::{HeaderFields as AntexHeader, Pcv},
     clock::{ClockProfileType, HeaderFields as ClockHeader, WorkClock},
+    columns::{parse_cospar, parse_sv, read_rinex_line, split_columns, to_ascii},
     doris::{HeaderFields as DorisHeader, Station as DorisStation},
     epoch::{epoch_decompose, parse_ionex_utc as parse_ionex_utc_epoch},
     hardware::{Antenna, Receiver, SvAntenna},
@@ -25,10 +26,20 @@ use crate::{
 
 use std::{
     collections::HashMap,
-    io::{BufRead, BufReader, Read},
+    io::{BufReader, Read},
     str::FromStr,
 };
 
+/// Header lines that contain free text
+const TEXT_LABELS: [&str; 6] = [
+    "COMMENT",
+    "PGM / RUN BY / DATE",
+    "MARKER NAME",
+    "OBSERVER / AGENCY",
+    "REC # / TYPE / VERS",
+    "ANT # / TYPE",
+];
+
 impl Header {
     /// Parse [Header] by consuming [BufReader] until end of this section
     pub fn parse<R: Read>(reader: &mut BufReader<R>) -> Result<Self, ParsingError> {
@@ -73,11 +84,36 @@ impl Header {
         // labels start on column 60, or 65 since Clock V3.04
         let mut width = 60;
 
-        for l in reader.lines() {
-            let line = l.unwrap();
+        let mut buf = String::with_capacity(128);
+
+        loop {
+            buf.clear();
+            if read_rinex_line(reader, &mut buf)? == 0 {
+                break;
+            }
+            let mut line = buf.trim_end_matches(|c| c == '\n' || c == '\r');
             if line.len() < 60 {
                 continue; // --> invalid header content
             }
+
+            // free text is preserved, as long as it does not shift the columns
+            let ascii_line;
+            let is_text = match line.get(width..) {
+                Some(marker) => {
+                    TEXT_LABELS.contains(&marker.trim())
+                        && [20, 21, 40, 42, 60].iter().all(|n| line.is_char_boundary(*n))
+                },
+                None => false,
+            };
+
+            if !line.is_ascii() && !is_text {
+                ascii_line = to_ascii(line);
+                line = &ascii_line;
+                if line.len() < 60 {
+                    continue;
+                }
+            }
+
             let (content, marker) = line.split_at(width.min(line.len()));
             ///////////////////////////////
             // [0] END OF HEADER
@@ -171,7 +207,7 @@ impl Header {
                     let (model, rem) = content.split_at(10);
                     let (svnn, rem) = rem.split_at(10);
                     let (cospar, _) = rem.split_at(10);
-                    if let Ok(sv) = SV::from_str(svnn.trim()) {
+                    if let Ok(sv) = parse_sv(svnn.trim()) {
                         if let Some(a) = &mut sv_antenna {
                             *a = a
                                 .with_sv(sv)
@@ -288,7 +324,7 @@ impl Header {
                     run_by = Some(runby.to_string());
                 }
 
-                let date_str = rem.split_at(20).0.trim();
+                let date_str = split_columns(rem, 20).0.trim();
                 if date_str.len() > 0 {
                     date = Some(date_str.to_string());
                 }
@@ -511,6 +547,10 @@ impl Header {
                 // Antenna Base/Reference Coordinates
                 let items: Vec<&str> = content.split_ascii_whitespace().collect();
 
+                if items.len() < 3 {
+                    return Err(ParsingError::AntennaCoordinates);
+                }
+
                 let x = items[0].trim();
                 let x = f64::from_str(x).or(Err(ParsingError::AntennaCoordinates))?;
 
@@ -647,7 +687,7 @@ impl Header {
 
                 let mut rem = r;
                 for _ in 0..n {
-                    let (code, r) = rem.split_at(6);
+                    let (code, r) = split_columns(rem, 6);
                     if let Ok(c) = ClockProfileType::from_str(code.trim()) {
                         clock.codes.push(c);
                     }
@@ -670,7 +710,7 @@ impl Header {
             } else if marker.contains("INTERVAL") {
                 let intv_str = content.split_at(20).0.trim();
                 if let Ok(interval) = f64::from_str(intv_str) {
-                    if interval > 0.0 {
+                    if interval > 0.0 && (interval * 1.0E9).is_finite() {
                         // INTERVAL = '0' may exist, in case
                         // of Varying TEC map intervals
                         sampling_interval =
@@ -678,16 +718,16 @@ impl Header {
                     }
                 }
             } else if marker.contains("COSPAR NUMBER") {
-                cospar = Some(COSPAR::from_str(content.trim())?);
+                cospar = Some(parse_cospar(content.trim())?);
             } else if marker.contains("GLONASS SLOT / FRQ #") {
                 //TODO
                 // This should be used when dealing with Glonass carriers
 
                 let slots = content.split_at(4).1.trim();
                 for i in 0..num_integer::div_ceil(slots.len(), 7) {
-                    let svnn = &slots[i * 7..i * 7 + 4];
-                    let chx = &slots[i * 7 + 4..std::cmp::min(i * 7 + 4 + 3, slots.len())];
-                    if let Ok(svnn) = SV::from_str(svnn.trim()) {
+                    let svnn = &slots[i * 7..std::cmp::min(i * 7 + 4, slots.len())];
+                    let chx = &slots[i * 7 + svnn.len()..std::cmp::min(i * 7 + 4 + 3, slots.len())];
+                    if let Ok(svnn) = parse_sv(svnn.trim()) {
                         if let Ok(chx) = chx.trim().parse::<i8>() {
                             glo_channels.insert(svnn, chx);
                         }
@@ -919,7 +959,9 @@ impl Header {
 
                 let time_offset_us = content
                     .parse::<f64>()
-                    .or(Err(ParsingError::DorisL1L2DateOffset))?;
+                    .ok()
+                    .filter(|offset| (offset * 1.0E3).is_finite())
+                    .ok_or(ParsingError::DorisL1L2DateOffset)?;
 
                 doris.u2_s1_time_offset = Duration::from_microseconds(time_offset_us);
             } else if marker.contains("SATELLITE NAME") {
diff --git a/src/lib.rs b/src/lib.rs
index 3eb2e40..3e800af 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -47,6 +47,7 @@ pub mod version;
 
 mod bibliography;
 mod constants;
+mod columns;
 mod epoch;
 mod error;
 mod iterators;
diff --git a/src/meteo/sensor.rs b/src/meteo/sensor.rs
index 71197c9..9af735e 100644
--- a/src/meteo/sensor.rs
+++ b/src/meteo/sensor.rs
@@ -1,5 +1,8 @@
 //! Meteo sensor
-use crate::prelude::{Observable, ParsingError};
+use crate::{
+    columns::split_columns,
+    prelude::{Observable, ParsingError},
+};
 
 #[cfg(feature = "nav")]
 use anise::{
@@ -85,10 +88,10 @@ impl Render for Sensor {
 impl std::str::FromStr for Sensor {
     type Err = ParsingError;
     fn from_str(content: &str) -> Result<Self, Self::Err> {
-        let (model, rem) = content.split_at(20);
-        let (s_type, rem) = rem.split_at(20 + 6);
-        let (accuracy, rem) = rem.split_at(7 + 4);
-        let (observable, _) = rem.split_at(2);
+        let (model, rem) = split_columns(content, 20);
+        let (s_type, rem) = split_columns(rem, 20 + 6);
+        let (accuracy, rem) = split_columns(rem, 7 + 4);
+        let (observable, _) = split_columns(rem, 2);
         Ok(Self {
             model: {
                 if !model.trim().is_empty() {
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index a4c0f4d..5b5ca84 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -1,4 +1,5 @@
 use crate::{
+    columns::parse_sv,
     epoch::parse_in_timescale as parse_epoch_in_timescale,
     navigation::{
         orbits::closest_nav_standards,
@@ -118,7 +119,7 @@ impl Ephemeris {
             return Err(ParsingError::EmptyEpoch);
         }
 
-        let sv = match svnn.trim().parse::<SV>() {
+        let sv = match parse_sv(svnn.trim()) {
             Ok(sv) => sv,
             Err(_) => {
                 // In very old RINex, it is possible to wind up here
@@ -127,7 +128,7 @@ impl Ephemeris {
                 // to exist in old revision anyway. We let the possibility to fail
                 // on incorrect content here.
                 let desc = format!("{:x}{:02}", constellation, svnn.trim());
-                desc.parse::<SV>()?
+                parse_sv(&desc)?
             },
         };
 
@@ -188,7 +189,7 @@ impl Ephemeris {
             return Err(ParsingError::EmptyEpoch);
         }
 
-        let sv = svnn.trim().parse::<SV>()?;
+        let sv = parse_sv(svnn.trim())?;
         let epoch = parse_epoch_in_timescale(column(line, 4, 19).trim(), ts)?;
 
         let clk_bias = column(line, 23, 19);
diff --git a/src/navigation/parsing/mod.rs b/src/navigation/parsing/mod.rs
index a91b4b5..65cb1b8 100644
--- a/src/navigation/parsing/mod.rs
+++ b/src/navigation/parsing/mod.rs
@@ -1,7 +1,8 @@
 use crate::{
+    columns::parse_sv,
     epoch::parse_utc as parse_utc_epoch,
     navigation::{Ephemeris, NavFrame, NavFrameType, NavKey, NavMessageType},
-    prelude::{Header, ParsingError, Version, SV},
+    prelude::{Header, ParsingError, Version},
 };
 
 mod v4;
@@ -81,7 +82,7 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
         // 1st entry matches a valid SV description
         let (sv, _) = line.split_at(4);
 
-        if sv.parse::<SV>().is_err() {
+        if parse_sv(sv).is_err() {
             return false;
         }
 
diff --git a/src/navigation/parsing/v4.rs b/src/navigation/parsing/v4.rs
index e73a7e8..303fcb2 100644
--- a/src/navigation/parsing/v4.rs
+++ b/src/navigation/parsing/v4.rs
@@ -1,9 +1,10 @@
 use crate::{
+    columns::parse_sv,
     navigation::{
         parsing::column, BdModel, EarthOrientation, Ephemeris, IonosphereModel, KbModel, NavFrame,
         NavFrameType, NavKey, NavMessageType, NgModel, SystemTime,
     },
-    prelude::{Constellation, ParsingError, SV},
+    prelude::{Constellation, ParsingError},
 };
 
 /// ([NavKey], [NavFrame]) parsing attempt for a V4 frame.
@@ -26,7 +27,7 @@ pub fn parse(content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
 
     // frmtype defines message to follow
     let frmtype = class.trim().parse::<NavFrameType>()?;
-    let sv = svnn.trim().parse::<SV>()?;
+    let sv = parse_sv(svnn.trim())?;
     let msgtype = rem.trim().parse::<NavMessageType>()?;
 
     let ts = sv
diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 7def67a..e75304b 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -1,5 +1,6 @@
 //! Observation RINEX parsing
 use crate::{
+    columns::{parse_sv, split_columns},
     epoch::{parse_in_timescale as parse_epoch_in_timescale, parse_utc as parse_utc_epoch},
     observation::{
         ClockObservation, EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR,
@@ -90,18 +91,18 @@ pub fn parse_epoch(
 
     // V > 2 might start with a ">" marker
     if line.starts_with('>') {
-        line = line.split_at(1).1;
+        line = split_columns(line, 1).1;
     }
 
-    let (date, rem) = line.split_at(offset);
+    let (date, rem) = split_columns(line, offset);
     let epoch = parse_epoch_in_timescale(date, ts)?;
 
-    let (flag, rem) = rem.split_at(3);
+    let (flag, rem) = split_columns(rem, 3);
     let flag = EpochFlag::from_str(flag.trim())?;
 
     let key = ObsKey { epoch, flag };
 
-    let (num_sat, rem) = rem.split_at(3);
+    let (num_sat, rem) = split_columns(rem, 3);
     let num_sat = num_sat
         .trim()
         .parse::<u16>()
@@ -113,7 +114,7 @@ pub fn parse_epoch(
             // RINEX 2
             // clock offsets are last 12 characters
             if line.len() > 80 - 12 {
-                Some(line.split_at(80 - 12).1.trim())
+                Some(split_columns(line, 80 - 12).1.trim())
             } else {
                 None
             }
@@ -130,7 +131,7 @@ pub fn parse_epoch(
                 +3; // n_sat
             if line.len() > min_len {
                 // RINEX3: clock offset precision was increased
-                Some(line.split_at(min_len).1.trim()) // this handles it naturally
+                Some(split_columns(line, min_len).1.trim()) // this handles it naturally
             } else {
                 None
             }
@@ -269,10 +270,10 @@ fn parse_signals_v2(
         if !sv_identified {
             // identify new SV
             let sv_end = (sv_ptr + SVNN_SIZE).min(systems_str_len);
-            let system = &systems_str[sv_ptr..sv_end].trim();
+            let system = systems_str.get(sv_ptr..sv_end).unwrap_or("").trim();
 
             // actual parsing
-            if let Ok(found) = SV::from_str(system) {
+            if let Ok(found) = parse_sv(system) {
                 sv = found;
             } else {
                 // This may fail on very old RINEX mono GNSS
@@ -486,8 +487,8 @@ fn parse_signals_v3(
     // browse all lines
     for line in lines {
         // identify SV
-        let sv_str = &line[0..SVNN_SIZE];
-        match SV::from_str(sv_str) {
+        let (sv_str, content) = split_columns(line, SVNN_SIZE);
+        match parse_sv(sv_str) {
             Ok(found) => {
                 sv = found;
             },
@@ -515,7 +516,7 @@ fn parse_signals_v3(
 
         let observables = observables.unwrap();
 
-        let num_obs = div_ceil(line.len() - SVNN_SIZE, OBSERVABLE_WIDTH);
+        let num_obs = div_ceil(content.len(), OBSERVABLE_WIDTH);
         let mut offset = SVNN_SIZE;
 
         for i in 0..num_obs {
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index a05b24c..47f5e07 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -7,6 +7,7 @@ use crate::{
         record::{is_new_epoch as is_new_clock_epoch, parse_epoch as parse_clock_epoch},
         ClockKey, ClockProfile, Record as ClockRecord,
     },
+    columns::{first_columns, read_rinex_line, to_ascii},
     doris::{
         is_new_epoch as is_new_doris_epoch, parse_epoch as parse_doris_epoch, Record as DorisRecord,
     },
@@ -42,7 +43,7 @@ use crate::{
 
 use std::{
     collections::BTreeMap,
-    io::{BufRead, BufReader, Read},
+    io::{BufReader, Read},
 };
 
 #[cfg(feature = "log")]
@@ -184,7 +185,9 @@ impl Record {
         }
 
         // Iterate and consume, one line at a time
-        while let Ok(size) = reader.read_line(&mut line_buf) {
+        loop {
+            let size = read_rinex_line(reader, &mut line_buf)?;
+
             if size == 0 {
                 // reached EOS
                 // we might still have something to process prior exiting
@@ -193,7 +196,7 @@ impl Record {
 
             // (special case) COMMENTS: store as is
             if is_rinex_comment(&line_buf) {
-                let comment = line_buf.split_at(60).0.trim_end();
+                let comment = first_columns(&line_buf, 60).trim_end();
                 comment_content.push(comment.to_string());
                 decompressor.skip_comment();
 
@@ -202,14 +205,17 @@ impl Record {
                 continue;
             }
 
+            // only comments may contain free text
+            if !line_buf.is_ascii() {
+                line_buf = to_ascii(&line_buf);
+            }
+
             // (special case) IONEX exponent scaling:
             // keep up to date, so data interpretation remains correct
             if line_buf.contains("EXPONENT") {
                 // we don't tolerate invalid scaling specs.
                 // This assures that data interpretation is always correct.
-                ionex_tec_exponent = line_buf
-                    .split_at(60)
-                    .0
+                ionex_tec_exponent = first_columns(&line_buf, 60)
                     .trim()
                     .parse::<i8>()
                     .map_err(|_| ParsingError::IonexScalingExponent)?;
@@ -223,7 +229,7 @@ impl Record {
             if line_buf.contains("EPOCH OF CURRENT MAP") {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
-                ionex_t = parse_ionex_utc_epoch(line_buf.split_at(60).0)?;
+                ionex_t = parse_ionex_utc_epoch(first_columns(&line_buf, 60))?;
 
                 // skip parsing
                 line_buf.clear();
-- 
2.43.0


From a8c509eb26074aedd8595b5942c9df9ba884dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 59/74] fix: years out of the four digits of the format caused
 panics once written

---
 src/epoch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 413a552..bfb5dd1 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -181,7 +181,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
     //println!("content \"{}\"", content); // DEBUG
     //println!("Y {} M {} D {} HH {} MM {} SS {} NS {}", y, m, d, hh, mm, ss, ns); // DEBUG
     // Catch possible Hifitime panic on bad string content
-    if y == 0 {
+    if y <= 0 || y > 9999 {
         return Err(ParsingError::EpochFormat);
     }
 
@@ -237,6 +237,9 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
             _ => {},
         }
     }
+    if y <= 0 || y > 9999 {
+        return Err(ParsingError::EpochFormat);
+    }
     Epoch::maybe_from_gregorian_utc(y, m, d, hh, mm, ss, 0).map_err(|_| ParsingError::EpochParsing)
 }
 
-- 
2.43.0


From a263390ae8f88583c69899a1b8f515ef4251965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 60/74] fix: azimuth and elevation of a navigation ephemeris
 are those of the satellite as seen from the receiver

---
 src/navigation/ephemeris/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 5e49565..6120998 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -174,7 +174,7 @@ impl Ephemeris {
         let rx_orbit = Orbit::from_position(rx_x_km, rx_y_km, rx_z_km, t, fixed_body_frame);
         let tx_orbit = Orbit::from_position(tx_x_km, tx_y_km, tx_z_km, t, fixed_body_frame);
 
-        almanac.azimuth_elevation_range_sez(rx_orbit, tx_orbit, None, None)
+        almanac.azimuth_elevation_range_sez(tx_orbit, rx_orbit, None, None)
     }
 
     /// Returns True if Self is Valid at specified `t`.
-- 
2.43.0


From 6d851f472c4ff14959b286b7856e619be37ecd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 61/74] fix: DOI, license and station information of the header
 were cut at 40 columns

---
 src/header/parsing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index f1369f0..bde0d0e 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -489,7 +489,7 @@ impl Header {
                 let parsed = Leap::from_str(leap_str)?;
                 leap = Some(parsed.clone());
             } else if marker.contains("DOI") {
-                let content = content.split_at(40).0.trim(); //  TODO: confirm please
+                let content = content.trim();
                 if content.len() > 0 {
                     doi = Some(content.to_string());
                 }
@@ -497,12 +497,12 @@ impl Header {
                 //TODO V > 3
                 // nb# of merged files
             } else if marker.contains("STATION INFORMATION") {
-                let url = content.split_at(40).0.trim(); //TODO confirm please
+                let url = content.trim();
                 if url.len() > 0 {
                     station_url = Some(url.to_string());
                 }
             } else if marker.contains("LICENSE OF USE") {
-                let lic = content.split_at(40).0.trim(); //TODO confirm please
+                let lic = content.trim();
                 if lic.len() > 0 {
                     license = Some(lic.to_string());
                 }
-- 
2.43.0


From 403a37d1a23e40b181aeb6162e6b30d18cc97e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 62/74] fix: scale factors listed over several lines, or for
 all observables, and the clock offset flag were lost

---
 src/header/parsing.rs     | 61 +++++++++++++++++++++++++++++----------
 src/observation/header.rs | 44 ++++++++++++++++++++++++++--
 2 files changed, 88 insertions(+), 17 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index bde0d0e..7fd0f2b 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -74,6 +74,8 @@ impl Header {
 
         // RINEX specific fields
         let mut current_constell: Option<Constellation> = None;
+        let mut current_scaling: Option<(Constellation, u16)> = None;
+        let mut system_scalings: Vec<(Constellation, u16)> = Vec::new();
         let mut observation = ObservationHeader::default();
         let mut meteo = MeteoHeader::default();
         let mut clock = ClockHeader::default();
@@ -416,30 +418,43 @@ impl Header {
 
                 dcb_compensations.push(dcb);
             } else if marker.contains("SYS / SCALE FACTOR") {
-                // TODO:
-                //   This will not work in case several observables
-                //   are declaredn which will required to analyze more than 1 line
                 let (gnss, rem) = content.split_at(2);
                 let gnss = gnss.trim();
 
-                /*
-                 * DORIS measurement special case, otherwise, standard OBS_RINEX
-                 */
-                let constell = if gnss.eq("D") {
-                    Constellation::Mixed // scaling applies to all measurements
-                } else {
-                    Constellation::from_str(gnss)?
-                };
-
                 // Parse scaling factor
                 let (factor, rem) = rem.split_at(6);
                 let factor = factor.trim();
-                let scaling = factor
-                    .parse::<u16>()
-                    .or(Err(ParsingError::SystemScalingFactor))?;
+
+                let (constell, scaling) = if gnss.is_empty() && factor.is_empty() {
+                    // list of observables continued from previous line
+                    current_scaling.ok_or(ParsingError::SystemScalingFactor)?
+                } else {
+                    /*
+                     * DORIS measurement special case, otherwise, standard OBS_RINEX
+                     */
+                    let constell = if gnss.eq("D") {
+                        Constellation::Mixed // scaling applies to all measurements
+                    } else {
+                        Constellation::from_str(gnss)?
+                    };
+
+                    let scaling = factor
+                        .parse::<u16>()
+                        .or(Err(ParsingError::SystemScalingFactor))?;
+
+                    (constell, scaling)
+                };
+
+                current_scaling = Some((constell, scaling));
 
                 // parse end of line
                 let (_num, rem) = rem.split_at(3);
+
+                if rem.trim().is_empty() {
+                    // applies to all observables of this system
+                    system_scalings.push((constell, scaling));
+                }
+
                 for observable_str in rem.split_ascii_whitespace() {
                     let observable = Observable::from_str(observable_str)?;
 
@@ -974,6 +989,22 @@ impl Header {
             }
         }
 
+        for (constell, scaling) in system_scalings {
+            let observables = if rinex_type == Type::DORIS {
+                doris.observables.clone()
+            } else {
+                observation.codes.get(&constell).cloned().unwrap_or_default()
+            };
+
+            for observable in observables {
+                if rinex_type == Type::DORIS {
+                    doris.with_scaling(observable, scaling);
+                } else {
+                    observation.with_scaling(constell, observable, scaling);
+                }
+            }
+        }
+
         Ok(Header {
             version,
             rinex_type,
diff --git a/src/observation/header.rs b/src/observation/header.rs
index 4a29fa6..a69259c 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -2,12 +2,13 @@
 
 use crate::{
     epoch::epoch_decompose as epoch_decomposition,
+    fmt_rinex,
     hatanaka::CRINEX,
     prelude::{Constellation, Epoch, FormattingError, Observable, TimeScale},
 };
 
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     io::{BufWriter, Write},
 };
 
@@ -83,7 +84,14 @@ impl HeaderFields {
             _ => self.format_v3_observables(w)?,
         }
 
-        //TODO scaling
+        if self.clock_offset_applied {
+            writeln!(w, "{}", fmt_rinex("     1", "RCV CLOCK OFFS APPL"))?;
+        }
+
+        if major > 2 {
+            self.format_scaling(w)?;
+        }
+
         //TODO DCBs
         Ok(())
     }
@@ -152,6 +160,38 @@ impl HeaderFields {
         Ok(())
     }
 
+    fn format_scaling<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
+        const NUM_OBSERVABLES_PER_LINE: usize = 12;
+
+        let mut groups = BTreeMap::<(Constellation, u16), Vec<&Observable>>::new();
+
+        for ((constell, observable), scaling) in self.scaling.iter() {
+            groups
+                .entry((*constell, *scaling))
+                .or_default()
+                .push(observable);
+        }
+
+        for ((constell, scaling), mut group) in groups {
+            group.sort();
+
+            for (nth, observables) in group.chunks(NUM_OBSERVABLES_PER_LINE).enumerate() {
+                let mut string = if nth == 0 {
+                    format!("{:x} {:4}  {:2}", constell, scaling, group.len())
+                } else {
+                    "          ".to_string()
+                };
+
+                for observable in observables.iter() {
+                    string.push_str(&format!(" {:<3}", observable.to_string()));
+                }
+
+                writeln!(w, "{}", fmt_rinex(&string, "SYS / SCALE FACTOR"))?;
+            }
+        }
+        Ok(())
+    }
+
     /// Add "TIME OF FIRST OBS" field
     pub(crate) fn with_crinex(&self, c: CRINEX) -> Self {
         let mut s = self.clone();
-- 
2.43.0


From 046c2886ead1c892ee88038c492b0cb93073d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 63/74] fix: signal without SNR is OK, and LLI of zero
 satisfies is_ok_snr

---
 src/observation/signal.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 39d1b41..8945a10 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -51,18 +51,14 @@ impl SignalObservation {
     /// data when SNR or LLI are missing.
     pub fn is_ok(self) -> bool {
         let lli_ok = self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN;
-        let snr_ok = self.snr.unwrap_or_default().strong();
+        let snr_ok = self.snr.map_or(true, |snr| snr.strong());
         lli_ok && snr_ok
     }
 
     /// [Observation::is_ok] with additional SNR criteria to match (>=).
     /// SNR must then be present otherwise this is not OK.
     pub fn is_ok_snr(&self, min_snr: SNR) -> bool {
-        if self
-            .lli
-            .unwrap_or(LliFlags::OK_OR_UNKNOWN)
-            .intersects(LliFlags::OK_OR_UNKNOWN)
-        {
+        if self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN {
             if let Some(snr) = self.snr {
                 snr >= min_snr
             } else {
-- 
2.43.0


From cf3294f37373cafa7c0df3c465de177ddd7d07bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 64/74] fix: TEC and multipath of every epoch, and never from
 twice the same frequency

---
 src/observation/rinex/feature.rs | 114 +++++++++++++------------------
 src/observation/rinex/tec.rs     |  44 +++++-------
 src/observation/signal.rs        |   2 +-
 3 files changed, 65 insertions(+), 95 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 714b102..c5d23fc 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -412,23 +412,14 @@ impl Rinex {
     pub fn signals_multipath(&self) -> HashMap<MultipathKey, f64> {
         let mut ret = HashMap::new();
 
-        let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-            dt
-        } else {
-            if let Some(dt) = self.dominant_sampling_interval() {
-                dt
-            } else {
-                // can't proceed without sampling interval guess.
-                return ret;
-            }
-        };
-
-        let mut t = Epoch::default();
-
-        // stores all encountered pseudo range
-        let mut rho = HashMap::<(SV, Observable), f64>::new();
-        // stores all encountered phase range
-        let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
+        // all pseudo and phase ranges encountered, per epoch
+        let mut epochs = BTreeMap::<
+            Epoch,
+            (
+                HashMap<(SV, Observable), f64>,
+                HashMap<(SV, Observable), (f64, f64)>,
+            ),
+        >::new();
 
         for (k, v) in self.signal_observations_iter() {
             let is_ph = v.observable.is_phase_range_observable();
@@ -443,67 +434,56 @@ impl Rinex {
             let freq = carrier.frequency().powi(2);
             let lambda = carrier.wavelength();
 
-            if k.epoch - t > dominant_sampling {
-                // data gap
-                rho.clear();
-                phi.clear();
+            let (rho, phi) = epochs.entry(k.epoch).or_default();
+
+            // store value
+            if is_pr {
+                rho.insert((v.sv, v.observable.clone()), v.value);
+            } else {
+                phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
             }
+        }
 
-            if k.epoch - t == dominant_sampling {
-                // new epoch
-                // try to compute from previously stored data, then reset
-                for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
-                    let phi_code = phi_obs.code();
-                    if phi_code.is_none() {
-                        continue;
-                    }
+        for (t, (rho, phi)) in epochs.iter() {
+            for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
+                let phi_code = phi_obs.code();
+                if phi_code.is_none() {
+                    continue;
+                }
 
-                    let phi_code = phi_code.unwrap();
+                let phi_code = phi_code.unwrap();
 
-                    // locate associated pr
-                    for ((rho_sv, rho_obs), rho) in rho.iter() {
-                        let rho_code = rho_obs.code();
-                        if rho_code.is_none() {
-                            continue;
-                        }
+                // locate associated pr
+                for ((rho_sv, rho_obs), rho) in rho.iter() {
+                    let rho_code = rho_obs.code();
+                    if rho_code.is_none() {
+                        continue;
+                    }
 
-                        let rho_code = rho_code.unwrap();
-
-                        // same modulation / signal as reference phase
-                        if rho_code == phi_code && rho_sv == phi_sv {
-                            // now compute for any different l_j phase
-                            for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
-                                if phi_sv_j == phi_sv {
-                                    if phi_obs_j != phi_obs {
-                                        let key = MultipathKey {
-                                            epoch: t,
-                                            sv: *phi_sv,
-                                            signal: phi_obs.clone(),
-                                            rhs: phi_obs_j.clone(),
-                                        };
-                                        let value = rho
-                                            - phi_value
-                                            - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
-                                        ret.insert(key, value);
-                                    }
+                    let rho_code = rho_code.unwrap();
+
+                    // same modulation / signal as reference phase
+                    if rho_code == phi_code && rho_sv == phi_sv {
+                        // now compute for any l_j phase of another frequency
+                        for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
+                            if phi_sv_j == phi_sv {
+                                if freq_j != freq {
+                                    let key = MultipathKey {
+                                        epoch: *t,
+                                        sv: *phi_sv,
+                                        signal: phi_obs.clone(),
+                                        rhs: phi_obs_j.clone(),
+                                    };
+                                    let value = rho
+                                        - phi_value
+                                        - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
+                                    ret.insert(key, value);
                                 }
                             }
                         }
                     }
                 }
-                //reset
-                rho.clear();
-                phi.clear();
-            }
-
-            // store value
-            if is_pr {
-                rho.insert((v.sv, v.observable.clone()), v.value);
-            } else {
-                phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
             }
-
-            t = k.epoch;
         }
         ret
     }
diff --git a/src/observation/rinex/tec.rs b/src/observation/rinex/tec.rs
index 00a504b..1d4978c 100644
--- a/src/observation/rinex/tec.rs
+++ b/src/observation/rinex/tec.rs
@@ -4,7 +4,7 @@ use crate::{
     prelude::{Epoch, Observable, Rinex, SV},
 };
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 /// The [TEC] estimate is indexed by [TECKey] when
 /// calculated from Observation RINEX.
@@ -26,39 +26,29 @@ impl Rinex {
     /// this limits the method to dual frequency Observation RINEX.
     /// Returns [TEC] sorted per [TECKey]
     pub fn observation_dual_phase_ionosphere_tec(&self) -> HashMap<TECKey, TEC> {
-        let mut t = Epoch::default();
         let mut ret = HashMap::new();
-        let mut phases = Vec::<SignalObservation>::new();
+        let mut phases = BTreeMap::<Epoch, Vec<&SignalObservation>>::new();
 
-        let dt = self.dominant_sampling_interval();
-        if dt.is_none() {
-            return ret;
+        for (k, ph) in self.phase_range_sampling_ok_iter() {
+            phases.entry(k).or_default().push(ph);
         }
 
-        let dt = dt.unwrap();
-
-        for (k, ph) in self.phase_range_sampling_ok_iter() {
-            if k >= t + dt {
-                for ph_i in phases.iter() {
-                    for ph_j in phases.iter() {
-                        if let Some(tec) = ph_i.tec_estimate(&ph_j) {
-                            ret.insert(
-                                TECKey {
-                                    epoch: t,
-                                    sv: ph_i.sv,
-                                    rhs: ph_j.observable.clone(),
-                                    reference: ph_i.observable.clone(),
-                                },
-                                tec,
-                            );
-                        }
+        for (t, phases) in phases.iter() {
+            for ph_i in phases.iter() {
+                for ph_j in phases.iter() {
+                    if let Some(tec) = ph_i.tec_estimate(ph_j) {
+                        ret.insert(
+                            TECKey {
+                                epoch: *t,
+                                sv: ph_i.sv,
+                                rhs: ph_j.observable.clone(),
+                                reference: ph_i.observable.clone(),
+                            },
+                            tec,
+                        );
                     }
                 }
-                phases.clear();
             }
-
-            t = k;
-            phases.push(ph.clone());
         }
 
         ret
diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 8945a10..81fc8bd 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -94,7 +94,7 @@ impl SignalObservation {
             let carrier_2 = carrier_2.unwrap();
             let f_2 = carrier_2.frequency().powi(2);
 
-            if carrier_1.is_l1_pivot() {
+            if carrier_1.is_l1_pivot() && f_1 != f_2 {
                 let tec = GAMMA * f_1 * f_2 / (f_1 - f_2) * (self.value - rhs.value);
                 Some(TEC::from_tec_m2(tec.abs()))
             } else {
-- 
2.43.0


From acf15be36aa45447791023c4ad2cbcf164b84834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 65/74] fix: unnamed bits of the GLONASS status word are
 preserved

---
 src/navigation/orbits.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index 7a8ad21..f199544 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -102,7 +102,8 @@ impl OrbitItem {
                 let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
-                let status = GloStatus::from_bits(unsigned).unwrap_or(GloStatus::empty());
+                // preserve bits that we do not name, like the satellite generation (M)
+                let status = GloStatus::from_bits_retain(unsigned);
                 Ok(OrbitItem::GloStatus(status))
             },
             "health" => {
-- 
2.43.0


From 677ff32452a1a03401401c5536c9f1c96a53b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 66/74] fix: ionosphere phase delay observation codes are
 supported

---
 src/observable.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index 82655cf..3f4a7c0 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -19,6 +19,8 @@ pub enum Observable {
     /// Attached to Phase or PseudoRange observable to accurately
     /// described how they were sampled.
     ChannelNumber(String),
+    /// Ionosphere phase delay Pseudo Observable.
+    IonosphereDelay(String),
     /// Pressure observation in hPa
     Pressure,
     /// Dry temperature measurement in Celcius degrees
@@ -61,6 +63,7 @@ impl Observable {
             Self::Doppler(_) => matches!(rhs, Self::Doppler(_)),
             Self::PseudoRange(_) => matches!(rhs, Self::PseudoRange(_)),
             Self::ChannelNumber(_) => matches!(rhs, Self::ChannelNumber(_)),
+            Self::IonosphereDelay(_) => matches!(rhs, Self::IonosphereDelay(_)),
             Self::Pressure => matches!(rhs, Self::Pressure),
             Self::Temperature => matches!(rhs, Self::Temperature),
             Self::HumidityRate => matches!(rhs, Self::HumidityRate),
@@ -104,6 +107,11 @@ impl Observable {
         matches!(self, Self::ChannelNumber(_))
     }
 
+    /// Returns true if this [Observable] is an ionosphere phase delay
+    pub fn is_ionosphere_delay(&self) -> bool {
+        matches!(self, Self::IonosphereDelay(_))
+    }
+
     /// Returns the 2 or 3 letter code, in RINEX standardized format
     pub fn code(&self) -> Option<String> {
         match self {
@@ -346,7 +354,8 @@ impl std::fmt::Display for Observable {
             | Self::Doppler(c)
             | Self::SSI(c)
             | Self::Power(c)
-            | Self::ChannelNumber(c) => write!(f, "{}", c),
+            | Self::ChannelNumber(c)
+            | Self::IonosphereDelay(c) => write!(f, "{}", c),
         }
     }
 }
@@ -383,6 +392,8 @@ impl std::str::FromStr for Observable {
                         Ok(Self::Doppler(content.to_string()))
                     } else if content.starts_with('X') {
                         Ok(Self::ChannelNumber(content.to_string()))
+                    } else if content.starts_with('I') {
+                        Ok(Self::IonosphereDelay(content.to_string()))
                     } else {
                         Err(ParsingError::UnknownObservable)
                     }
-- 
2.43.0


From 20c49e101578a88c6fa1a8d739f2d87a1720de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 67/74] fix: an unknown observation code does not shift the
 following columns

---
 src/header/parsing.rs | 75 +++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 7fd0f2b..b5bcc89 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -672,7 +672,12 @@ impl Header {
                 }
             } else if marker.contains("TYPES OF OBS") {
                 // these observations can serve both Observation & Meteo RINEX
-                Self::parse_v2_observables(content, constellation, &mut meteo, &mut observation);
+                Self::parse_v2_observables(
+                    content,
+                    constellation,
+                    &mut meteo,
+                    &mut observation,
+                )?;
             } else if marker.contains("SYS / # / OBS TYPES") {
                 match rinex_type {
                     Type::ObservationData => {
@@ -680,11 +685,11 @@ impl Header {
                             content,
                             &mut current_constell,
                             &mut observation,
-                        );
+                        )?;
                     },
                     Type::DORIS => {
                         /* in DORIS RINEX, observations are not tied to a particular constellation */
-                        Self::parse_doris_observables(content, &mut doris);
+                        Self::parse_doris_observables(content, &mut doris)?;
                     },
                     _ => {},
                 }
@@ -1209,7 +1214,7 @@ impl Header {
         constell: Option<Constellation>,
         meteo: &mut MeteoHeader,
         observation: &mut ObservationHeader,
-    ) {
+    ) -> Result<(), ParsingError> {
         lazy_static! {
             /*
              *  Only GPS, Glonass, Galileo and SBAS are supported in V2 RINEX
@@ -1223,28 +1228,30 @@ impl Header {
         }
         let line = line.split_at(6).1;
         for item in line.split_ascii_whitespace() {
-            if let Ok(obs) = Observable::from_str(item.trim()) {
-                match constell {
-                    Some(Constellation::Mixed) => {
-                        for constell in KNOWN_V2_CONSTELLS.iter() {
-                            if let Some(codes) = observation.codes.get_mut(constell) {
-                                codes.push(obs.clone());
-                            } else {
-                                observation.codes.insert(*constell, vec![obs.clone()]);
-                            }
-                        }
-                    },
-                    Some(c) => {
-                        if let Some(codes) = observation.codes.get_mut(&c) {
+            // each observable describes one column:
+            // skipping any of them would shift the following ones
+            let obs = Observable::from_str(item.trim())?;
+            match constell {
+                Some(Constellation::Mixed) => {
+                    for constell in KNOWN_V2_CONSTELLS.iter() {
+                        if let Some(codes) = observation.codes.get_mut(constell) {
                             codes.push(obs.clone());
                         } else {
-                            observation.codes.insert(c, vec![obs.clone()]);
+                            observation.codes.insert(*constell, vec![obs.clone()]);
                         }
-                    },
-                    None => meteo.codes.push(obs),
-                }
+                    }
+                },
+                Some(c) => {
+                    if let Some(codes) = observation.codes.get_mut(&c) {
+                        codes.push(obs.clone());
+                    } else {
+                        observation.codes.insert(c, vec![obs.clone()]);
+                    }
+                },
+                None => meteo.codes.push(obs),
             }
         }
+        Ok(())
     }
 
     /// Parse list of [Observable]s which applies to both METEO and OBS RINEX
@@ -1252,7 +1259,7 @@ impl Header {
         line: &str,
         current_constell: &mut Option<Constellation>,
         observation: &mut ObservationHeader,
-    ) {
+    ) -> Result<(), ParsingError> {
         let (possible_counter, items) = line.split_at(6);
         if !possible_counter.is_empty() {
             let code = &possible_counter[..1];
@@ -1263,26 +1270,30 @@ impl Header {
         if let Some(constell) = current_constell {
             // system correctly identified
             for item in items.split_ascii_whitespace() {
-                if let Ok(observable) = Observable::from_str(item) {
-                    if let Some(codes) = observation.codes.get_mut(constell) {
-                        codes.push(observable);
-                    } else {
-                        observation.codes.insert(*constell, vec![observable]);
-                    }
+                // each observable describes one column:
+                // skipping any of them would shift the following ones
+                let observable = Observable::from_str(item)?;
+                if let Some(codes) = observation.codes.get_mut(constell) {
+                    codes.push(observable);
+                } else {
+                    observation.codes.insert(*constell, vec![observable]);
                 }
             }
         }
+        Ok(())
     }
     /*
      * Parse list of DORIS observables
      */
-    fn parse_doris_observables(line: &str, doris: &mut DorisHeader) {
+    fn parse_doris_observables(line: &str, doris: &mut DorisHeader) -> Result<(), ParsingError> {
         let items = line.split_at(6).1;
         for item in items.split_ascii_whitespace() {
-            if let Ok(observable) = Observable::from_str(item) {
-                doris.observables.push(observable);
-            }
+            // each observable describes one column:
+            // skipping any of them would shift the following ones
+            let observable = Observable::from_str(item)?;
+            doris.observables.push(observable);
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 268a69c664dc3b1352033bb31cb3613e49d0b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 68/74] fix: the blank clock offset of a DORIS epoch does not
 drop it

---
 src/doris/parsing.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index c01b9c9..07278d6 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -102,18 +102,26 @@ pub fn parse_epoch(
 
     let key = DorisKey { epoch, flag };
 
-    // parse clock field
+    // parse clock field: blank when it is not available
     let offset_s = line
-        .get(CLOCK_OFFSET..CLOCK_OFFSET + CLOCK_SIZE)
-        .ok_or(ParsingError::EpochFormat)?
-        .trim()
-        .parse::<f64>()
-        .map_err(|_| ParsingError::DorisClockParsing)?;
+        .get(CLOCK_OFFSET..(CLOCK_OFFSET + CLOCK_SIZE).min(line.len()))
+        .unwrap_or("")
+        .trim();
+
+    if !offset_s.is_empty() {
+        let offset_s = offset_s
+            .parse::<f64>()
+            .map_err(|_| ParsingError::DorisClockParsing)?;
 
-    observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
+        observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
+    }
 
     // clock extrapolated ?
-    observations.clock_extrapolated = line[CLOCK_OFFSET + CLOCK_SIZE..].trim().eq("1");
+    observations.clock_extrapolated = line
+        .get(CLOCK_OFFSET + CLOCK_SIZE..)
+        .unwrap_or("")
+        .trim()
+        .eq("1");
 
     // parse following stations
     for line in lines {
-- 
2.43.0


From 9c5ac88c6fd2db332b74ac8be6e60f0dc6a417d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 69/74] fix: carrier of an observable in a mixed constellation
 is an error, not a panic

---
 src/carrier.rs | 3 ++-
 src/error.rs   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 4b14471..2b69077 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -673,7 +673,8 @@ impl Carrier {
                 if c.is_sbas() {
                     Self::from_geo_observable(observable)
                 } else {
-                    panic!("no known observable for constellation={}", constellation);
+                    // no signal is common to all of them
+                    Err(Error::UnknownObservable)
                 }
             },
         }
diff --git a/src/error.rs b/src/error.rs
index c043491..af088c4 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -204,4 +204,6 @@ pub enum Error {
     UnknownSBASObservable,
     /// Non supported DORIS [Observable]
     UnknownDORISObservable,
+    /// [Observable] that does not apply to this constellation definition
+    UnknownObservable,
 }
-- 
2.43.0


From 02af1e05b5f87f12059bba9066349cb122560625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 70/74] fix: comments extend up to their label

---
 src/record/parsing.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 47f5e07..23f46c0 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -196,8 +196,10 @@ impl Record {
 
             // (special case) COMMENTS: store as is
             if is_rinex_comment(&line_buf) {
-                let comment = first_columns(&line_buf, 60).trim_end();
-                comment_content.push(comment.to_string());
+                // label position depends on the format
+                let comment = line_buf.trim_end();
+                let comment = comment.strip_suffix("COMMENT").unwrap_or(comment);
+                comment_content.push(comment.trim_end().to_string());
                 decompressor.skip_comment();
 
                 // skip parsing
-- 
2.43.0


From 510a87f2795c17d1508c1beac9eee38ae1161952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 71/74] fix: comments of an IONEX map are stored at its epoch

---
 src/record/parsing.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 23f46c0..cd7c73f 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -232,6 +232,7 @@ impl Record {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
                 ionex_t = parse_ionex_utc_epoch(first_columns(&line_buf, 60))?;
+                comment_ts = ionex_t; // for comments storage
 
                 // skip parsing
                 line_buf.clear();
-- 
2.43.0


From 79974a0239682036e09e448effb5b636b376e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 72/74] fix: argument of perigee of the Keplerian orbit state

---
 src/navigation/ephemeris/kepler/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index 643e435..887bc60 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -348,7 +348,7 @@ impl Ephemeris {
             kepler.e,
             i_k.to_degrees(),
             omega_k.to_degrees(),
-            omega.to_degrees(),
+            kepler.omega.to_degrees(),
             v_k.to_degrees(),
             t_gpst,
             EARTH_J2000.with_mu_km3_s2(gm_m3_s2 * 1e-9),
-- 
2.43.0


From 8934b38abe9fdc0c21cff3415f8ebc501a762a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 73/74] fix: sampling rates above 1 Hz, and unspecified rates,
 in standard file names

---
 src/production/ffu.rs | 29 ++++++++++++++++++++++++++++-
 src/production/mod.rs |  1 +
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index a6f2c60..f3604be 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -12,7 +12,13 @@ pub struct FFU {
 impl From<Duration> for FFU {
     fn from(dt: Duration) -> Self {
         let total_seconds = dt.to_seconds();
-        if dt < SECONDS_PER_MINUTE * Unit::Second {
+        if total_seconds > 0.0 && (1.0 / total_seconds).round() > 1.0 {
+            // several samples per second
+            Self {
+                val: (total_seconds * 1.0E9).round() as u32,
+                unit: Unit::Nanosecond,
+            }
+        } else if dt < SECONDS_PER_MINUTE * Unit::Second {
             Self {
                 val: total_seconds.round() as u32,
                 unit: Unit::Second,
@@ -51,6 +57,15 @@ impl std::fmt::Display for FFU {
             Unit::Minute => write!(f, "{:02}M", self.val),
             Unit::Hour => write!(f, "{:02}H", self.val),
             Unit::Day => write!(f, "{:02}D", self.val),
+            Unit::Nanosecond | Unit::Microsecond | Unit::Millisecond => {
+                // several samples per second, expressed as a rate (Hz, then 100 Hz)
+                let rate_hz = (1.0 / (self.val as f64 * self.unit.in_seconds())).round();
+                if rate_hz < 100.0 {
+                    write!(f, "{:02}Z", rate_hz)
+                } else {
+                    write!(f, "{:02}C", (rate_hz / 100.0).round())
+                }
+            },
             Unit::Second | _ => write!(f, "{:02}S", self.val),
         }
     }
@@ -64,6 +79,18 @@ impl std::str::FromStr for FFU {
         }
         let val = s[..2].parse::<u32>().map_err(|_| Error::InvalidFFU)?;
         let unit = match s.chars().nth(2) {
+            // rates: Hz, 100 Hz
+            Some('Z') | Some('C') if val == 0 => return Err(Error::InvalidFFU),
+            Some('Z') => {
+                return Ok(Self::from(Duration::from_nanoseconds(
+                    (1.0E9 / val as f64).round(),
+                )))
+            },
+            Some('C') => {
+                return Ok(Self::from(Duration::from_nanoseconds(
+                    (1.0E7 / val as f64).round(),
+                )))
+            },
             Some('S') => Unit::Second,
             Some('M') => Unit::Minute,
             Some('H') => Unit::Hour,
diff --git a/src/production/mod.rs b/src/production/mod.rs
index dddfb12..e4dc8eb 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -223,6 +223,7 @@ impl std::str::FromStr for ProductionAttributes {
                             .map_err(|_| Error::NonStandardFileName)?
                     },
                     ffu: match offset {
+                        34 if &fname[30..31] == "U" => None, // unspecified
                         34 => Some(FFU::from_str(&fname[28..32])?),
                         _ => None, // NAV FILE case
                     },
-- 
2.43.0


From 4123dcbafbcad13e05dae133f9bf14b5899207e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 74/74] fix: antenna phase patterns without a separation

Values are F8.2 columns: large ones are not separated by blanks.
---
 src/antex/record.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index ff2c654..7b67902 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -182,6 +182,23 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
         .map_err(|_| ParsingError::DatetimeParsing)
 }
 
+/// Values of an azimuth independent phase pattern (3X,A5,mF8.2):
+/// they may not be separated by a whitespace.
+fn pattern_values(line: &str) -> Vec<&str> {
+    const SIZE: usize = 8;
+
+    let glued = line.split_ascii_whitespace().any(|item| item.len() > SIZE);
+
+    if glued && line.is_ascii() {
+        (SIZE..line.len())
+            .step_by(SIZE)
+            .map(|i| line[i..line.len().min(i + SIZE)].trim())
+            .collect()
+    } else {
+        line.split_ascii_whitespace().skip(1).collect()
+    }
+}
+
 /// Parses entire Antenna block
 /// and all inner frequency entries
 pub(crate) fn parse_antenna(
@@ -332,9 +349,8 @@ pub(crate) fn parse_antenna(
                    // if we make a parallel with other types of RINEX
         } else if line.trim_start().starts_with("NOAZI") {
             // azimuth independent phase pattern
-            let pattern = line
-                .split_ascii_whitespace()
-                .skip(1)
+            let pattern = pattern_values(line)
+                .into_iter()
                 .map_while(|item| item.parse::<f64>().ok())
                 .collect();
 
-- 
2.43.0

